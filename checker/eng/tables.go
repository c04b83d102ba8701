package eng

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A table is a package variable (a map, slice or array of values) filled where it is declared and
// only looked at afterwards.  Its content is as good as a literal in the function that uses it.
type table struct {
	g    *ssa.Global
	keys []ssa.Value // of a map
	vals []ssa.Value
	arr  ssa.Value // array that has the elements
	n    int64
	et   types.Type
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Byte)
}

func (p *Program) scanTables() {
	p.tables = map[string]*table{}
	bad := map[*ssa.Global]bool{}
	for _, fn := range p.Funcs {
		if fn.Name() == "init" && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && !onlyRead(ins, g, 0) {
						bad[g] = true
					}
				}
			}
		}
	}
	for _, sp := range p.SSA {
		init := sp.Func("init")
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					g, ok := i.Addr.(*ssa.Global)
					if !ok || bad[g] || g.Pkg != sp {
						continue
					}
					n := gname(g.Pkg.Pkg.Name() + "." + g.Name())
					if p.tables[n] != nil {
						delete(p.tables, n)
						bad[g] = true
						continue
					}
					switch v := i.Val.(type) {
					case *ssa.MakeMap:
						t := &table{g: g}
						ok := true
						for _, r := range *v.Referrers() {
							switch r := r.(type) {
							case *ssa.MapUpdate:
								t.keys, t.vals = append(t.keys, r.Key), append(t.vals, r.Value)
							case *ssa.Store:
								ok = ok && r == i
							default:
								ok = false
							}
						}
						if ok && len(t.keys) <= 32 {
							p.tables[n] = t
						}
					case *ssa.Slice:
						a, isa := v.X.(*ssa.Alloc)
						if !isa || v.Low != nil || v.High != nil {
							continue
						}
						if l, et, ok := arrayLen(deref(a.Type())); ok && !isByteType(et) && l <= 32 {
							p.tables[n] = &table{g: g, arr: a, n: l, et: et}
						}
					}
				case *ssa.IndexAddr:
					g, ok := i.X.(*ssa.Global)
					if !ok || bad[g] || g.Pkg != sp {
						continue
					}
					if l, et, ok := arrayLen(deref(g.Type())); ok && !isByteType(et) && l <= 32 {
						p.tables[gname(g.Pkg.Pkg.Name()+"."+g.Name())] = &table{g: g, arr: g, n: l, et: et}
					}
				}
			}
		}
	}
}

// onlyRead: ins, which uses v, only looks at what v points to or contains.
func onlyRead(ins ssa.Instruction, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	all := func(w ssa.Value) bool {
		for _, r := range *w.Referrers() {
			if !onlyRead(r, w, depth+1) {
				return false
			}
		}
		return true
	}
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return true
		}
		switch i.Type().Underlying().(type) {
		case *types.Map, *types.Slice:
			return all(i)
		}
		return true
	case *ssa.Lookup, *ssa.Range, *ssa.Index:
		return true
	case *ssa.IndexAddr:
		return i.X == v && all(i)
	case *ssa.FieldAddr:
		return all(i)
	case *ssa.Slice:
		return all(i)
	case *ssa.Call:
		b, ok := i.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "cap")
	}
	return false
}

// tableTerm is the content of a table: a chain of mput, or a sequence of elements.
func (x *Exec) tableTerm(name string) *Term {
	t := x.P.tables[name]
	if t == nil {
		return nil
	}
	if x.tabs == nil {
		x.tabs = map[string]*Term{}
	}
	if v, ok := x.tabs[name]; ok {
		return v
	}
	x.tabs[name] = nil
	in := x.In
	if t.arr == nil {
		m := in.mk("mempty", "", 0, nil)
		for i := range t.keys {
			k, v := x.initVal(t.keys[i], 0), x.initVal(t.vals[i], 0)
			if k == nil || v == nil {
				return nil
			}
			m = in.mk("mput", "", 0, nil, m, k, v)
		}
		x.tabs[name] = m
		return m
	}
	v := x.initAt(t.g.Pkg.Func("init"), t.arr, types.NewArray(t.et, t.n), 0)
	x.tabs[name] = v
	return v
}

// initVal is a value computed by the initialisation of a package.
func (x *Exec) initVal(v ssa.Value, d int) *Term {
	in := x.In
	if d > 5 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constTerm(v)
	case *ssa.Function:
		t := in.mk("func", x.P.Name(v), 0, v.Type())
		t.Fn = v
		return t
	case *ssa.Global:
		return in.mk("global", gname(v.Pkg.Pkg.Name()+"."+v.Name()), 0, v.Type())
	case *ssa.ChangeType:
		return x.initVal(v.X, d+1)
	case *ssa.MakeInterface:
		if t := x.initVal(v.X, d+1); t != nil {
			return in.mk("iface", typeName(v.X.Type()), 0, v.X.Type(), t)
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil
		}
		switch a := v.X.(type) {
		case *ssa.Global:
			n := gname(a.Pkg.Pkg.Name() + "." + a.Name())
			if !x.P.onceGlobals[n] || x.P.tables[n] != nil {
				return nil
			}
			return x.whole(&State{}, in.mk("global", n, 0, a.Type()))
		case *ssa.Alloc:
			return x.initAt(v.Parent(), a, deref(a.Type()), d+1)
		}
	}
	return nil
}

// initAt is what fn stores at addr.
func (x *Exec) initAt(fn *ssa.Function, addr ssa.Value, t types.Type, d int) *Term {
	in := x.In
	if d > 5 {
		return nil
	}
	parts := map[int64]ssa.Value{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if i.Addr == addr {
					if len(parts) > 0 {
						return nil
					}
					return x.initVal(i.Val, d+1)
				}
			case *ssa.FieldAddr:
				if i.X == addr {
					if parts[int64(i.Field)] != nil {
						return nil
					}
					parts[int64(i.Field)] = i
				}
			case *ssa.IndexAddr:
				if i.X == addr {
					c, ok := i.Index.(*ssa.Const)
					if !ok || parts[c.Int64()] != nil {
						return nil
					}
					parts[c.Int64()] = i
				}
			}
		}
	}
	part := func(i int64, pt types.Type) *Term {
		if parts[i] == nil {
			return in.Zero(pt)
		}
		return x.initAt(fn, parts[i], pt, d+1)
	}
	if s := structOf(t); s != nil {
		args := make([]*Term, s.NumFields())
		for i := range args {
			if args[i] = part(int64(i), s.Field(i).Type()); args[i] == nil {
				return nil
			}
		}
		return in.mk("agg", typeName(t), 0, t, args...)
	}
	if n, et, ok := arrayLen(t); ok && n <= 64 {
		es := make([]*Term, n)
		for i := range es {
			if es[i] = part(int64(i), et); es[i] == nil {
				return nil
			}
		}
		return x.aggArray(t, et, es)
	}
	return in.Zero(t)
}
