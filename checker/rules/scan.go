package rules

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Whole-module scans: facts that hold for every function of the module.

// callers maps each module function to the functions whose code refers to it.
func (r *R) callers() map[*ssa.Function][]*ssa.Function {
	m := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range r.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						m[g] = append(m[g], fn)
					}
				}
			}
		}
	}
	return m
}

// owners attributes what fn does to functions of the analysed base: closures belong to the
// function they are written in, a new unexported helper to the functions that call it.
func (r *R) owners(fn *ssa.Function) []string {
	callers := r.callersOnce()
	seen := map[*ssa.Function]bool{}
	var out []string
	var rec func(fn *ssa.Function)
	rec = func(fn *ssa.Function) {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if seen[fn] {
			return
		}
		seen[fn] = true
		n := r.P.Name(fn)
		if !knownFuncs[n] && fn.Object() != nil && len(callers[fn]) > 0 {
			for _, c := range callers[fn] {
				rec(c)
			}
			return
		}
		out = append(out, n)
	}
	rec(fn)
	return out
}

var callersCache map[*ssa.Function][]*ssa.Function

func (r *R) callersOnce() map[*ssa.Function][]*ssa.Function {
	if callersCache == nil {
		callersCache = r.callers()
	}
	return callersCache
}

func namedOf(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return ""
}

// fieldWriters finds the functions that store to (or take the address for something other than
// reading) field of type typ.
func (r *R) fieldWriters(typ, field string) map[string]string {
	got := map[string]string{}
	for _, fn := range r.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || r.P.FieldName(fa) != field || namedOf(fa.X.Type()) != typ {
					continue
				}
				w := false
				for _, ref := range *fa.Referrers() {
					switch u := ref.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if u.Addr == ssa.Value(fa) {
							w = true
						}
					case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
					default:
					}
				}
				if w {
					for _, o := range r.owners(fn) {
						got[o] = r.P.Pos(fa.Pos())
					}
				}
			}
		}
	}
	return got
}

// retains reports how the memory of value v (a slice or pointer) can outlive fn: returned, or
// stored somewhere that is not a local variable.  Copying its bytes does not retain it.
func (r *R) retains(v ssa.Value, depth int, seen map[ssa.Value]bool) string {
	if seen[v] || depth > 6 {
		return ""
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return ""
	}
	for _, ref := range *refs {
		switch in := ref.(type) {
		case *ssa.Slice:
			if in.X == v {
				if d := r.retains(in, depth, seen); d != "" {
					return d
				}
			}
		case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Extract, *ssa.TypeAssert:
			if d := r.retains(in.(ssa.Value), depth, seen); d != "" {
				return d
			}
		case *ssa.Return:
			return "returned at " + r.P.Pos(in.Pos())
		case *ssa.Store:
			if in.Val != v {
				continue
			}
			if d := r.storedTo(in.Addr, depth, seen); d != "" {
				return d
			}
		case *ssa.MapUpdate:
			if in.Value == v || in.Key == v {
				return "kept in a map at " + r.P.Pos(in.Pos())
			}
		case *ssa.Send:
			return "sent at " + r.P.Pos(in.Pos())
		case *ssa.MakeClosure:
			return "" // used while the closure runs
		case *ssa.Call:
			c := in.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && len(c.Args) == 2 && c.Args[0] == v {
					if d := r.retains(in, depth, seen); d != "" {
						return d
					}
				}
				continue
			}
			fn := c.StaticCallee()
			if fn == nil || !r.P.InModule(fn) || len(fn.Blocks) == 0 {
				continue
			}
			for i, a := range c.Args {
				if a != v || i >= len(fn.Params) {
					continue
				}
				d := r.retains(fn.Params[i], depth+1, seen)
				if len(d) > 8 && d[:8] == "returned" {
					d = r.retains(in, depth, seen)
				}
				if d != "" {
					return d
				}
			}
		}
	}
	return ""
}

// storedTo: the value stored at addr outlives the function.
func (r *R) storedTo(addr ssa.Value, depth int, seen map[ssa.Value]bool) string {
	for {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			addr = a.X
			continue
		case *ssa.IndexAddr:
			addr = a.X
			continue
		}
		break
	}
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return "stored at " + r.P.Pos(addr.Pos())
	}
	if seen[al] {
		return ""
	}
	// everything read from or made of the local variable carries the memory along
	var rec func(v ssa.Value) string
	rec = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch in := ref.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				if d := rec(in.(ssa.Value)); d != "" {
					return d
				}
			case *ssa.UnOp:
				if d := r.retainsValue(in, depth, seen); d != "" {
					return d
				}
			case *ssa.Slice:
				if d := r.retainsValue(in, depth, seen); d != "" {
					return d
				}
			}
		}
		return ""
	}
	return rec(al)
}

// retainsValue: v is a composite holding the memory; appending it to a list keeps it.
func (r *R) retainsValue(v ssa.Value, depth int, seen map[ssa.Value]bool) string {
	if refs := v.Referrers(); refs != nil {
		for _, ref := range *refs {
			if c, ok := ref.(*ssa.Call); ok {
				if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && len(c.Common().Args) == 2 && c.Common().Args[1] == v {
					if e, ok := v.Type().Underlying().(*types.Slice); ok {
						if bt, ok := e.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
							continue // bytes are copied
						}
					}
					return "appended at " + r.P.Pos(c.Pos())
				}
			}
		}
	}
	return r.retains(v, depth, seen)
}

// iterationCallbacks finds the functions handed to Iterate of a storage.
func (r *R) iterationCallbacks() map[*ssa.Function]string {
	got := map[*ssa.Function]string{}
	for _, fn := range r.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := ""
				if c.Common().IsInvoke() {
					name = c.Common().Method.Name()
				} else if f := c.Common().StaticCallee(); f != nil {
					name = f.Name()
				}
				if name != "Iterate" {
					continue
				}
				for _, a := range c.Common().Args {
					switch x := a.(type) {
					case *ssa.MakeClosure:
						got[x.Fn.(*ssa.Function)] = r.P.Pos(in.Pos())
					case *ssa.Function:
						got[x] = r.P.Pos(in.Pos())
					}
				}
			}
		}
	}
	return got
}

// constant is the value of an integer constant of the module (-1: there is none).
func (r *R) constant(pkg, name string) int64 {
	for _, fn := range r.P.Funcs {
		if fn.Pkg != nil && fn.Pkg.Pkg.Name() == pkg {
			if c, ok := fn.Pkg.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
					return v
				}
			}
		}
	}
	return -1
}
