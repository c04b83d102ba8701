package rules

import (
	"fmt"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"verif/checker/eng"
)

// Case is one row of a decision table: on a path where the When facts are established, the
// results and the effects are as given.  Fields hold patterns separated by ";".
type Case struct {
	Name  string
	When  string // facts established on the path
	Ret   string // results, "_" for any
	Do    string // events that happen, in this order (a & b: in either order)
	Never string // events that do not happen
	Opt   bool   // the table does not require that some path takes this row
}

func splitPats(s string) []string {
	var r []string
	for _, p := range strings.Split(s, ";") {
		if p = strings.TrimSpace(p); p != "" {
			r = append(r, p)
		}
	}
	return r
}

// solve finds bindings under which all facts pats hold in st.
func (f *F) solve(st *eng.State, pats []string, b eng.Bind, k func(eng.Bind) bool) bool {
	if len(pats) == 0 {
		return k(b)
	}
	// what follows depends on the bindings only: each is tried once
	tried := map[string]bool{}
	next := func(n eng.Bind) bool {
		key := bindKey(n)
		if tried[key] {
			return false
		}
		tried[key] = true
		return f.solve(st, pats[1:], n, k)
	}
	for _, alt := range strings.Split(pats[0], " | ") {
		p := eng.P(strings.TrimSpace(alt))
		if f.X.BuildEach(p, b, func(t *Term, n eng.Bind) bool {
			f.X.Spent += 20
			return f.X.Decide(st, t) == 1 && next(n)
		}) {
			return true
		}
		if p.Bound(b) && tried[bindKey(b)] {
			continue
		}
		for _, c := range st.Facts {
			if f.X.MatchAll(p, c, b, next) {
				return true
			}
		}
	}
	return false
}

func bindKey(b eng.Bind) string {
	var ks []string
	for v, t := range b {
		ks = append(ks, v+"="+strconv.Itoa(t.ID))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// solveEvents finds the events pats in this order from flattened position i on.
func (f *F) solveEvents(o *eng.Out, flat []Hit, pats []string, i int, b eng.Bind, k func(eng.Bind) bool) bool {
	if len(pats) == 0 {
		return k(b)
	}
	if strings.Contains(pats[0], " & ") { // in any order
		return f.anyOrder(flat, strings.Split(pats[0], " & "), i, i, b, func(next int, n eng.Bind) bool {
			return f.solveEvents(o, flat, pats[1:], next, n, k)
		})
	}
	for _, alt := range strings.Split(pats[0], " | ") {
		alt = strings.TrimSpace(alt)
		for j := i; j < len(flat); j++ {
			if f.evMatch(alt, flat[j].E, b, func(n eng.Bind) bool { return f.solveEvents(o, flat, pats[1:], j+1, n, k) }) {
				return true
			}
		}
	}
	return false
}

// anyOrder finds the events pats, whatever their order, from position i on.
func (f *F) anyOrder(flat []Hit, pats []string, i, next int, b eng.Bind, k func(int, eng.Bind) bool) bool {
	if len(pats) == 0 {
		return k(next, b)
	}
	for _, alt := range strings.Split(pats[0], " | ") {
		for j := i; j < len(flat); j++ {
			if f.evMatch(strings.TrimSpace(alt), flat[j].E, b, func(n eng.Bind) bool { return f.anyOrder(flat, pats[1:], i, max(next, j+1), n, k) }) {
				return true
			}
		}
	}
	return false
}

// evMatch: event e matches pattern alt ("ev:kind(...)" or a call pattern).
func (f *F) evMatch(alt string, e *eng.Event, b eng.Bind, k func(eng.Bind) bool) bool {
	if strings.HasPrefix(alt, "ev:") {
		i := strings.IndexByte(alt, '(')
		if e.Kind != alt[3:i] {
			return false
		}
		return f.X.MatchAll(eng.P("ev"+alt[i:]), f.X.In.Mk("ev", e.Kind, e.Args...), b, k)
	}
	if e.Kind != "call" || e.Res == nil {
		return false
	}
	return f.X.MatchAll(eng.P(alt), e.Res, b, k)
}

func (f *F) row(o *eng.Out, c *Case, upto *string) bool { return f.rowB(o, c, eng.Bind{}, upto) }

// searchSteps is far above what any row that applies takes.
const searchSteps = 150000

func (f *F) rowB(o *eng.Out, c *Case, b0 eng.Bind, upto *string) bool {
	note := func(s string) {
		if upto != nil {
			*upto = s
		}
	}
	rets := splitPats(c.Ret)
	f.X.Spent, f.X.Fuel = 0, searchSteps>>min(f.X.Tired, 3)
	defer func() {
		if f.X.Spent > f.X.Fuel {
			f.X.Tired++
		}
		f.X.Fuel = 0
	}()
	note("when")
	ok := f.solve(o.St, splitPats(c.When), b0, func(b eng.Bind) bool {
		note("results")
		if len(rets) > len(o.Res) {
			return false
		}
		var rec func(i int, b eng.Bind) bool
		rec = func(i int, b eng.Bind) bool {
			if i == len(rets) {
				note("events")
				return f.solveEvents(o, f.Flat(o), splitPats(c.Do), 0, b, func(b eng.Bind) bool {
					for _, n := range splitPats(c.Never) {
						if len(f.HitsB(o, n, b)) > 0 {
							note("forbidden event " + n)
							return false
						}
					}
					return true
				})
			}
			for _, alt := range strings.Split(rets[i], " | ") {
				p := eng.P(strings.TrimSpace(alt))
				if f.X.MatchAll(p, o.Res[i], b, func(n eng.Bind) bool { return rec(i+1, n) }) {
					return true
				}
				if f.X.BuildEach(p, b, func(t *Term, n eng.Bind) bool {
					f.X.Spent += 400
					return (t == o.Res[i] || f.X.Decide(o.St, f.X.In.Eq(t, o.Res[i])) == 1 || f.X.NilState(o.St, t) == 1 && f.X.NilState(o.St, o.Res[i]) == 1) && rec(i+1, n)
				}) {
					return true
				}
				// what comes with a failure: the callee's value or nothing are the same to a caller
				if len(rets) == len(o.Res) && i < len(rets)-1 && f.fallible() && (f.nothing(o.Res[i]) && sameCall(alt, rets[len(rets)-1]) || isNothing(alt) && sameResult(o.Res[i], o.Res[len(rets)-1])) &&
					f.X.Decide(o.St, f.X.In.Eq(o.Res[len(o.Res)-1], f.X.In.Nil())) == -1 {
					if rec(i+1, b) {
						return true
					}
				}
			}
			return false
		}
		return rec(0, b)
	})
	return ok
}

// sameCall: patterns a and b are two results of one call.
func sameCall(a, b string) bool {
	a, b = strings.TrimSpace(a), strings.TrimSpace(b)
	i, j := strings.LastIndexByte(a, '#'), strings.LastIndexByte(b, '#')
	return i > 0 && j > 0 && len(a)-i == 2 && len(b)-j == 2 && a[:i] == b[:j] && a[i:] != b[j:]
}

// sameResult: a and b are two results of one call.
func sameResult(a, b *eng.Term) bool {
	return a.Op == "ext" && b.Op == "ext" && a.Args[0] == b.Args[0] && a != b
}

// isNothing: the pattern of a zero value.
func isNothing(p string) bool {
	switch strings.TrimSpace(p) {
	case "nil", "0", "false", "\"\"", "zero()":
		return true
	}
	return false
}

// fallible: the last result is an error.
func (f *F) fallible() bool {
	r := f.Fn.Signature.Results()
	return r.Len() > 0 && r.At(r.Len()-1).Type().String() == "error"
}

// nothing: the zero value of its type.
func (f *F) nothing(t *Term) bool {
	return t == f.X.In.Nil() || t.Op == "nil" || t.Op == "zero" || t.IsInt && t.I == 0 || t.Op == "const" && (t.Aux == `""` || t.Aux == "false") || t.Op == "false"
}

// Table: every path class in outs is one of the rows, and every row occurs.
func (f *F) Table(rule string, outs []*eng.Out, cases ...*Case) bool {
	if !f.ok() {
		return false
	}
	seen := make([]bool, len(cases))
	ok := f.Each(rule, outs, func(o *eng.Out) string {
		if o.Kind != "return" {
			if o.Kind == "panic" {
				return "a path panics" + f.pathDesc(o)
			}
			return ""
		}
		try := func(o *eng.Out) (bool, string) {
			why, match := "", false
			for i, c := range cases {
				var upto string
				if f.row(o, c, &upto) {
					seen[i] = true
					match = true
				} else if upto != "when" {
					why += fmt.Sprintf(" (row %q: differs in %s)", c.Name, upto)
				}
			}
			return match, why
		}
		match, why := try(o)
		if !match && f.fallible() && len(o.Res) > 0 && f.X.NilState(o.St, o.Res[len(o.Res)-1]) == 0 { // the callee's result handed on: one way or the other
			succ, fail := f.X.SplitErr([]*eng.Out{o})
			match = true
			for _, p := range append(succ, fail...) {
				if ok, w := try(p); !ok {
					match, why = false, why+w
				}
			}
		}
		if match {
			return ""
		}
		var rs []string
		for _, t := range o.Res {
			rs = append(rs, short(t))
		}
		return "a path does what no permitted case allows: returns (" + strings.Join(rs, ", ") + ")" + why + f.pathDesc(o)
	})
	for i, c := range cases {
		if !c.Opt {
			if !f.r.Ob(rule+"/case "+c.Name, f.Name, seen[i], f.pos(token.NoPos), "no path of "+f.Name+" does this any more") {
				ok = false
			}
		}
	}
	return ok
}

// rows is a short way to write a table: "name => when => ret => do => never".
func rows(lines ...string) []*Case {
	var cs []*Case
	for _, l := range lines {
		p := strings.Split(l, "=>")
		for len(p) < 5 {
			p = append(p, "")
		}
		n := strings.TrimSpace(p[0])
		opt := strings.HasSuffix(n, "?")
		cs = append(cs, &Case{Name: strings.TrimSuffix(n, "?"), When: p[1], Ret: p[2], Do: p[3], Never: p[4], Opt: opt})
	}
	return cs
}

// tolerates: the failure errPat is an answer when it is the given sentinel; then it is never what
// the function fails with.
func (f *F) tolerates(rule, errPat, sentinel string, when ...string) {
	var within func(t *Term, d int) *Term
	within = func(t *Term, d int) *Term {
		if t == nil || d > 6 {
			return nil
		}
		if f.m(errPat, t) {
			return t
		}
		for _, a := range t.Args {
			if r := within(a, d+1); r != nil {
				return r
			}
		}
		return nil
	}
	f.Each(rule, f.Fail, func(o *eng.Out) string {
		if len(o.Res) == 0 || len(when) > 0 && !f.solve(o.St, when, eng.Bind{}, yes) {
			return ""
		}
		e := within(eng.StripIface(o.Res[len(o.Res)-1]), 0)
		if e == nil || f.solve(o.St, []string{"not(eq(?e," + sentinel + "))"}, eng.Bind{"e": e}, yes) {
			return ""
		}
		return "fails although " + sentinel + " from " + short(e) + " is no failure here" + f.pathDesc(o)
	})
}
