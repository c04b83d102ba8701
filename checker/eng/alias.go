package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Unexported functions, struct fields and variables may be renamed without changing what the
// code does.  The rules speak the names of the analysed base (Baseline); a name that has
// disappeared is identified with the new name of the same container and type that took its
// place, when that is unambiguous.

// Baseline lists "F name signature", "S type field ftype", "G name type" lines.
var Baseline string

var fieldAlias = map[*types.Var]string{}
var globalAlias = map[string]string{}

func fname(v *types.Var) string {
	if n, ok := fieldAlias[v]; ok {
		return n
	}
	return v.Name()
}

func gname(n string) string {
	if a, ok := globalAlias[n]; ok {
		return a
	}
	return n
}

func typeStr(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	for _, r := range typeRe {
		s = r.re.ReplaceAllString(s, r.old)
	}
	return s
}

var typeAlias = map[*types.TypeName]string{}
var typeRe []typeRep

type typeRep struct {
	re  *regexp.Regexp
	old string
}

// tname is the (baseline) name of a type.
func tname(o *types.TypeName) string {
	if n, ok := typeAlias[o]; ok {
		return n
	}
	return o.Name()
}

// typeRec describes an unexported named type by its shape and its methods.
func (p *Program) typeShape(o *types.TypeName) string {
	var ms []string
	s := types.NewMethodSet(types.NewPointer(o.Type()))
	for i := 0; i < s.Len(); i++ {
		ms = append(ms, s.At(i).Obj().Name())
	}
	u := o.Type().Underlying()
	n := 0
	if st, ok := u.(*types.Struct); ok {
		n = st.NumFields()
	}
	return fmt.Sprintf("%T/%d/%s", u, n, strings.Join(ms, ","))
}

func (p *Program) typeRecs() []nameRec {
	var rs []nameRec
	for _, sp := range p.SSA {
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				if o, ok := t.Object().(*types.TypeName); ok && !o.Exported() && !o.IsAlias() {
					rs = append(rs, nameRec{kind: "T", cont: p.pkgName(sp.Pkg), name: o.Name(), typ: p.typeShape(o), pos: int(o.Pos()), tn: o})
				}
			}
		}
	}
	sort.Slice(rs, func(i, j int) bool {
		return rs[i].cont < rs[j].cont || rs[i].cont == rs[j].cont && rs[i].pos < rs[j].pos
	})
	return rs
}

// renames lists the renamed unexported names: directory and new name to old name.
func (p *Program) renames() map[[2]string]string {
	r := map[[2]string]string{}
	add := func(pos token.Pos, now, old string) {
		r[[2]string{filepath.Dir(p.Fset.Position(pos).Filename), now}] = old
	}
	for v, old := range fieldAlias {
		add(v.Pos(), v.Name(), old)
	}
	for t, old := range typeAlias {
		add(t.Pos(), t.Name(), old)
	}
	for fn, old := range p.alias {
		add(fn.Pos(), fn.Name(), old[strings.LastIndexByte(old, '.')+1:])
	}
	return r
}

func (p *Program) sigStr(fn *ssa.Function) string {
	s := fn.Signature
	f := func(t *types.Tuple) string {
		var r []string
		for i := 0; i < t.Len(); i++ {
			r = append(r, typeStr(t.At(i).Type()))
		}
		return strings.Join(r, ",")
	}
	recv := ""
	if s.Recv() != nil {
		recv = typeStr(s.Recv().Type())
	}
	return strings.ReplaceAll(fmt.Sprintf("%s(%s)(%s)", recv, f(s.Params()), f(s.Results())), " ", "_")
}

type nameRec struct {
	kind, cont, name, typ string
	pos                   int
	v                     *types.Var
	tn                    *types.TypeName
	fn                    *ssa.Function
}

func (p *Program) names() []nameRec {
	var rs []nameRec
	for _, fn := range p.Funcs {
		if fn.Parent() != nil || fn.Object() == nil || fn.Synthetic != "" {
			continue
		}
		n := p.Name(fn)
		i := strings.LastIndexByte(n, '.')
		rs = append(rs, nameRec{kind: "F", cont: n[:i], name: n[i+1:], typ: p.sigStr(fn), pos: int(fn.Pos()), fn: fn})
	}
	for _, sp := range p.SSA {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Global:
				if strings.HasPrefix(m.Name(), "init$") || m.Name() == "_" {
					continue
				}
				rs = append(rs, nameRec{kind: "G", cont: sp.Pkg.Name(), name: m.Name(), typ: typeStr(deref(m.Type())), pos: int(m.Pos())})
			case *ssa.Type:
				if s := structOf(m.Type()); s != nil {
					for i := 0; i < s.NumFields(); i++ {
						f := s.Field(i)
						rs = append(rs, nameRec{kind: "S", cont: p.pkgName(sp.Pkg) + "." + tname(m.Object().(*types.TypeName)), name: f.Name(), typ: strings.ReplaceAll(typeStr(f.Type()), " ", "_"), pos: i, v: f})
					}
				}
			}
		}
	}
	sort.SliceStable(rs, func(i, j int) bool {
		a, b := rs[i], rs[j]
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		if a.cont != b.cont {
			return a.cont < b.cont
		}
		return a.pos < b.pos
	})
	return rs
}

// DumpNames prints the baseline of p.
func (p *Program) DumpNames() string {
	var sb strings.Builder
	for _, r := range append(p.typeRecs(), p.names()...) {
		fmt.Fprintf(&sb, "%s %s %s %s\n", r.kind, r.cont, r.name, strings.ReplaceAll(r.typ, " ", "_"))
	}
	return sb.String()
}

// applyBaseline fills the alias tables.
func (p *Program) applyBaseline() {
	fieldAlias = map[*types.Var]string{}
	globalAlias = map[string]string{}
	typeAlias = map[*types.TypeName]string{}
	typeRe = nil
	p.alias = map[*ssa.Function]string{}
	if Baseline == "" {
		return
	}
	type key struct{ kind, cont, typ string }
	base := map[string]bool{}
	old := map[key][]string{}
	for _, l := range strings.Split(Baseline, "\n") {
		f := strings.Fields(l)
		if len(f) != 4 {
			continue
		}
		base[f[0]+" "+f[1]+" "+f[2]] = true
		k := key{f[0], f[1], f[3]}
		old[k] = append(old[k], f[2])
	}
	now := map[string]bool{}
	fresh := map[key][]nameRec{}
	for _, r := range p.typeRecs() {
		now["T "+r.cont+" "+r.name] = true
	}
	byShape := map[key][]nameRec{}
	for _, r := range p.typeRecs() {
		if !base["T "+r.cont+" "+r.name] {
			k := key{"T", r.cont, r.typ}
			byShape[k] = append(byShape[k], r)
		}
	}
	for k, rs := range byShape {
		var gone []string
		for _, n := range old[k] {
			if !now["T "+k.cont+" "+n] {
				gone = append(gone, n)
			}
		}
		if len(gone) != len(rs) {
			continue
		}
		for i, r := range rs {
			typeAlias[r.tn] = gone[i]
			typeRe = append(typeRe, typeRep{regexp.MustCompile(`\b` + r.tn.Pkg().Name() + `\.` + r.name + `\b`), r.tn.Pkg().Name() + "." + gone[i]})
		}
	}
	for _, r := range p.names() {
		id := r.kind + " " + r.cont + " " + r.name
		now[id] = true
		if !base[id] {
			k := key{r.kind, r.cont, strings.ReplaceAll(r.typ, " ", "_")}
			fresh[k] = append(fresh[k], r)
		}
	}
	for k, rs := range fresh {
		var gone []string
		for _, n := range old[k] {
			if !now[k.kind+" "+k.cont+" "+n] {
				gone = append(gone, n)
			}
		}
		if len(gone) == 0 || len(gone) != len(rs) {
			continue
		}
		for i, r := range rs {
			switch k.kind {
			case "F":
				p.alias[r.fn] = k.cont + "." + gone[i]
			case "S":
				fieldAlias[r.v] = gone[i]
			case "G":
				globalAlias[k.cont+"."+r.name] = k.cont + "." + gone[i]
			}
		}
	}
}

// FieldName is the (baseline) name of the field fa addresses.
func (p *Program) FieldName(fa *ssa.FieldAddr) string {
	st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return fname(st.Field(fa.Field))
}
