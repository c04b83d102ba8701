// Command checker decides the properties of /verif/properties.jsonl from the source of /repo.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/checker/eng"
	"verif/checker/rules"
)

func main() {
	dir := os.Getenv("CHK_REPO")
	if dir == "" {
		dir = "/repo"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: checker check <ID...> | run <fn> [opts] | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		p := load(dir)
		for _, f := range p.Funcs {
			e := p.Effects(f)
			fmt.Println(p.Name(f), e.Impure, e.Handle, e.Mut)
		}
	case "names":
		fmt.Print(load(dir).DumpNames())
	case "run":
		p := load(dir)
		if w := os.Getenv("CHK_WIDTH"); w != "" {
			eng.Width, _ = strconv.Atoi(w)
		}
		for _, name := range strings.Split(os.Args[2], ",") {
			r := rules.NewR(p, "dbg")
			f := r.F(name, os.Args[3:]...)
			fmt.Println("#", name, "outs", len(f.Outs), "err", f.Err)
			for _, o := range f.Outs {
				eng.Dump(p, o, os.Stdout)
			}
		}
	case "check":
		os.Exit(check(dir, os.Args[2:]))
	}
}

func load(dir string) *eng.Program {
	p, err := eng.Load(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	return p
}

type known struct{ prop, key, text string }

func readKnown(file string) []known {
	var ks []known
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<rule|construct> :: text
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = l[len("finding: "):]
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		head, text := l[:i], l[i+4:]
		j := strings.Index(head, " key=")
		if j < 0 || !strings.HasPrefix(head, "property=") {
			continue
		}
		ks = append(ks, known{head[9:j], head[j+5:], text})
	}
	return ks
}

func runCheck(p *eng.Program, c *rules.Check) (r *rules.R) {
	r = rules.NewR(p, c.ID)
	defer func() {
		if e := recover(); e != nil {
			r.Ob("analysis", "internal", false, "?", fmt.Sprintf("the analysis stopped: %v\n%s", e, debug.Stack()))
		}
	}()
	c.Run(r)
	return r
}

func check(dir string, ids []string) int {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for _, c := range rules.Checks {
			ids = append(ids, c.ID)
		}
		sort.Strings(ids)
	}
	start := time.Now()
	p, err := eng.Load(dir)
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0o755)
	rc := 0
	kn := readKnown(filepath.Join(verif, "known_findings.txt"))
	for _, id := range ids {
		t0 := time.Now()
		replay := filepath.Join(ev, id+".violation.txt")
		os.Remove(replay)
		c := rules.Find(id)
		if c == nil {
			fmt.Println("unknown check", id)
			return 2
		}
		if err != nil {
			os.WriteFile(replay, []byte("the program does not type-check, nothing can be shown about it:\n"+err.Error()+"\n"), 0o644)
			fmt.Println(err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
			rc = 1
			continue
		}
		r := runCheck(p, c)
		var viol []*rules.Ob
		for _, v := range r.Violations() {
			key := v.Rule + "|" + v.Construct
			listed := false
			for _, k := range kn {
				if k.prop == id && k.key == key {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
					listed = true
				}
			}
			if !listed {
				viol = append(viol, v)
			}
		}
		paths := 0
		var fns []string
		for n, k := range r.Fns {
			paths += k
			fns = append(fns, n)
		}
		sort.Strings(fns)
		discharged := 0
		var samples []string
		byRule := map[string]int{}
		for _, o := range r.Obs {
			if o.OK {
				discharged++
				if len(samples) < 12 {
					samples = append(samples, o.Rule+" @ "+o.Construct)
				}
			}
			byRule[o.Rule]++
		}
		e := map[string]interface{}{
			"property": id, "tier": tier, "seed": seed(), "level": "other", "wall_s": time.Since(t0).Seconds() + t0.Sub(start).Seconds(),
			"violations": len(viol),
			"coverage": map[string]interface{}{
				"explanation":          fmt.Sprintf("Static dataflow over the SSA form of /repo as it is now. %d functions of the module summarised for this property (%d path classes), %d obligations (rule x construct) checked, %d discharged. Rule families and the number of constructs each applied to are in obligations_by_rule; functions lists what was summarised.", len(fns), paths, len(r.Obs), discharged),
				"functions_summarised": fns, "path_classes": paths, "obligations_checked": len(r.Obs), "obligations_discharged": discharged,
				"obligations_by_rule": byRule, "samples": samples, "module_functions_loaded": len(p.Funcs), "notes": r.Notes,
			},
		}
		b, _ := json.MarshalIndent(e, "", " ")
		os.WriteFile(filepath.Join(ev, id+".json"), append(b, '\n'), 0o644)
		if len(viol) > 0 {
			var sb strings.Builder
			fmt.Fprintf(&sb, "property %s: %s\n", id, c.Title)
			for _, v := range viol {
				fmt.Fprintf(&sb, "\nrule %s\n construct %s\n at %s\n %s\n", v.Rule, v.Construct, v.Pos, v.Detail)
			}
			os.WriteFile(replay, []byte(sb.String()), 0o644)
			n := 0
			for _, v := range viol {
				d := v.Detail
				if len(d) > 600 {
					d = d[:600] + "~"
				}
				fmt.Printf("%s: rule %s, %s (%s): %s\n", id, v.Rule, v.Construct, v.Pos, d)
				if n++; n >= 6 {
					break
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
			rc = 1
		} else {
			fmt.Printf("%s ok: %d functions, %d path classes, %d obligations, %.1fs\n", id, len(fns), paths, len(r.Obs), time.Since(t0).Seconds())
			if discharged == 0 {
				fmt.Println("nothing was decided")
				return 2
			}
		}
	}
	return rc
}

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}
