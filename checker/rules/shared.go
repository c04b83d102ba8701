package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sharedAppends finds the appends that may write into memory somebody else still holds: the first
// operand comes from a parameter that callers keep, a field or a global, and the result does not
// replace it there.  Whether such an append overwrites anything depends on the spare capacity of
// that slice, so the fault shows only for some callers.
func (r *R) sharedAppends(rule string, pkgs ...string) {
	n, bad := 0, 0
	for _, fn := range r.P.Funcs {
		name := r.P.Name(fn)
		in := false
		for _, p := range pkgs {
			in = in || strings.HasPrefix(name, p)
		}
		if !in {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || !isAppend(c) {
					continue
				}
				n++
				if d := r.sharedBase(c.Call.Args[0], c, map[ssa.Value]bool{}); d != "" {
					bad++
					r.Ob(rule, name, false, r.P.Pos(c.Pos()), "the append at "+r.P.Pos(c.Pos())+" writes behind "+d+", memory that is still used elsewhere")
				}
			}
		}
	}
	if bad == 0 {
		r.Ob(rule, fmt.Sprint(n, " appends of ", pkgs), true, "", "")
	}
}

func isAppend(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append" && len(c.Call.Args) > 0
}

// sharedBase says where the memory of v is still reachable from, other than by res (the slice that
// replaces it); "" when it is private.
func (r *R) sharedBase(v, res ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice, *ssa.Alloc, *ssa.Convert:
		return ""
	case *ssa.ChangeType:
		return r.sharedBase(x.X, res, seen)
	case *ssa.Slice:
		if x.Max != nil && x.High == x.Max {
			return "" // no room left: append copies
		}
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok { // an array
			if x.High == nil {
				return "" // the whole array: no room left
			}
			if _, ok := x.X.(*ssa.Alloc); ok {
				return ""
			}
			return "a part of an array (" + r.P.Pos(x.Pos()) + ")"
		}
		return r.sharedBase(x.X, res, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if d := r.sharedBase(e, res, seen); d != "" {
				return d
			}
		}
		return ""
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return r.sharedResult(c, x.Index, seen)
		}
		return ""
	case *ssa.Call:
		if isAppend(x) {
			return r.sharedBase(x.Call.Args[0], res, seen)
		}
		return r.sharedResult(x, 0, seen)
	case *ssa.Parameter:
		fn := x.Parent()
		o, _ := fn.Object().(*types.Func)
		if fn.Parent() == nil && (o == nil || o.Exported()) {
			return "parameter " + x.Name() + " of " + r.P.Name(fn)
		}
		calls, ok := r.callSites(fn)
		if !ok {
			return "parameter " + x.Name() + " of " + r.P.Name(fn)
		}
		for i, p := range fn.Params {
			if p != x {
				continue
			}
			for _, c := range calls {
				if d := r.sharedBase(c.Call.Args[i], c, seen); d != "" {
					return d
				}
			}
		}
		return ""
	case *ssa.FreeVar:
		return ""
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		if r.replaced(x.X, res, map[ssa.Value]bool{}) {
			return ""
		}
		if root, plain := rootAddr(x.X); plain { // a local variable: everything stored there
			for _, s := range storesTo(root) {
				if d := r.sharedBase(s, res, seen); d != "" {
					return d
				}
			}
			return ""
		} else if al, ok := root.(*ssa.Alloc); ok && localOnly(al) {
			return ""
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return "field " + r.P.FieldName(a)
		case *ssa.Global:
			return "global " + a.Name()
		}
		return "memory read at " + r.P.Pos(x.Pos())
	case *ssa.Field:
		return "a field of " + x.X.Name() + " (" + r.P.Pos(x.Pos()) + ")"
	}
	return ""
}

// sharedResult: result i of a call to a function of the module.
func (r *R) sharedResult(c *ssa.Call, i int, seen map[ssa.Value]bool) string {
	fn := c.Call.StaticCallee()
	if fn == nil || !r.P.InModule(fn) {
		return ""
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(ret.Results) {
			continue
		}
		v := ret.Results[i]
		if p, ok := v.(*ssa.Parameter); ok {
			for k, q := range fn.Params {
				if q == p {
					if d := r.sharedBase(c.Call.Args[k], c, seen); d != "" {
						return d
					}
				}
			}
			continue
		}
		if d := r.sharedBase(v, v, seen); d != "" {
			return d
		}
	}
	return ""
}

// callSites lists the calls of fn; false when fn is also used as a value.
func (r *R) callSites(fn *ssa.Function) ([]*ssa.Call, bool) {
	var out []*ssa.Call
	for _, g := range r.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == fn {
					out = append(out, c)
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op != nil && *op == ssa.Value(fn) {
						if _, ok := in.(*ssa.MakeClosure); !ok {
							return nil, false
						}
					}
				}
			}
		}
	}
	return out, len(out) > 0
}

// replaced: res (possibly through further appends and joins) is stored back to addr.
func (r *R) replaced(addr, res ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[res] || res.Referrers() == nil {
		return false
	}
	seen[res] = true
	for _, ref := range *res.Referrers() {
		switch in := ref.(type) {
		case *ssa.Store:
			if in.Val == res && sameAddr(in.Addr, addr, 0) {
				return true
			}
		case *ssa.Phi, *ssa.Slice, *ssa.ChangeType:
			if r.replaced(addr, in.(ssa.Value), seen) {
				return true
			}
		case *ssa.Call:
			if isAppend(in) && in.Call.Args[0] == res && r.replaced(addr, in, seen) {
				return true
			}
		case *ssa.Return:
			// a helper that returns the grown slice: look at its calls
			fn := res.Parent()
			if calls, ok := r.callSites(fn); ok && len(fn.Signature.Results().String()) > 0 {
				all := len(calls) > 0
				for _, c := range calls {
					all = all && r.replaced(addr, c, seen)
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

func sameAddr(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth > 8 {
		return false
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X, depth+1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && x.Index == y.Index && sameAddr(x.X, y.X, depth+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameAddr(x.X, y.X, depth+1)
	}
	return false
}

// rootAddr: the variable an address lies in; plain when it is the variable itself.
func rootAddr(a ssa.Value) (ssa.Value, bool) {
	plain := true
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a, plain = x.X, false
		case *ssa.IndexAddr:
			a, plain = x.X, false
		case *ssa.Alloc:
			return x, plain
		case *ssa.FreeVar:
			if b := binding(x); b != nil {
				if al, ok := b.(*ssa.Alloc); ok {
					return al, plain
				}
			}
			return x, plain
		default:
			return a, false
		}
	}
}

// binding finds what a closure's free variable is bound to.
func binding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	par := fn.Parent()
	if par == nil {
		return nil
	}
	for i, f := range fn.FreeVars {
		if f != fv {
			continue
		}
		for _, b := range par.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					v := mc.Bindings[i]
					if g, ok := v.(*ssa.FreeVar); ok {
						return binding(g)
					}
					return v
				}
			}
		}
	}
	return nil
}

// storesTo lists the values stored to the local variable at, by its function and its closures.
func storesTo(at ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch in := ref.(type) {
			case *ssa.Store:
				if in.Addr == v {
					out = append(out, in.Val)
				}
			case *ssa.MakeClosure:
				for i, b := range in.Bindings {
					if b == v {
						rec(in.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	rec(at)
	return out
}

// localOnly: the struct or array never has its content replaced by something from outside as a whole.
func localOnly(al *ssa.Alloc) bool {
	for _, s := range storesTo(al) {
		switch s.(type) {
		case *ssa.Const:
		default:
			return false
		}
	}
	return true
}
