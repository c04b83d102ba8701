package rules

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locks that are taken while they are held, and locks that stay held: a must-held dataflow over
// the blocks of each function, with summaries of what its callees may take.

// lockPath names the memory of a lock (or of a value it is reached from) seen from fn: "p0.rw".
func (r *R) lockPath(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprint("p", i)
			}
		}
	case *ssa.FieldAddr:
		if b := r.lockPath(x.X); b != "" {
			return b + "." + r.P.FieldName(x)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok { // a variable assigned once
				if s := storesTo(a); len(s) == 1 {
					return r.lockPath(s[0])
				}
			}
			return r.lockPath(x.X)
		}
	case *ssa.Global:
		return "g:" + x.Pkg.Pkg.Path() + "." + x.Name()
	case *ssa.Alloc:
		if s := storesTo(x); len(s) == 1 && len(x.Comment) > 0 {
			if p := r.lockPath(s[0]); p != "" {
				return p
			}
		}
		return "v:" + x.Parent().Name() + "." + x.Name()
	case *ssa.FreeVar:
		if b := binding(x); b != nil {
			return r.lockPath(b)
		}
	}
	return ""
}

func ssaLockOp(c *ssa.CallCommon) byte {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || len(c.Args) != 1 {
		return 0
	}
	return lockOp("sync.utex." + f.Name())
}

// acquires: the locks fn may take, seen from fn, with a description of where.
func (r *R) acquires(fn *ssa.Function, memo map[*ssa.Function]map[string]string) map[string]string {
	if m, ok := memo[fn]; ok {
		return m
	}
	m := map[string]string{}
	memo[fn] = m
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if op := ssaLockOp(&c.Call); op == 'L' || op == 'R' {
				if p := r.lockPath(c.Call.Args[0]); p != "" {
					m[p] = r.P.Pos(c.Pos())
				}
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !r.P.InModule(g) {
				continue
			}
			for p, at := range r.acquires(g, memo) {
				if q := r.seenFrom(p, g, &c.Call); q != "" {
					m[q] = at
				}
			}
		}
	}
	return m
}

// seenFrom: path p of callee g at a call.
func (r *R) seenFrom(p string, g *ssa.Function, c *ssa.CallCommon) string {
	if strings.HasPrefix(p, "g:") {
		return p
	}
	for i, a := range c.Args {
		k := fmt.Sprint("p", i)
		if p == k || strings.HasPrefix(p, k+".") {
			if q := r.lockPath(a); q != "" {
				return q + p[len(k):]
			}
		}
	}
	return ""
}

// noDeadlock checks the functions of the given packages.
func (r *R) noDeadlock(rule string, pkgs ...string) {
	memo := map[*ssa.Function]map[string]string{}
	leaks := map[*ssa.Function]map[string]bool{} // helpers that return with a lock held for their callers
	n := 0
	for pass := 0; pass < 3; pass++ {
		n = 0
		r.lockPass(rule, pkgs, memo, leaks, &n, pass == 2)
	}
	r.Ob(rule+"/locks", strings.Join(pkgs, " "), n > 0, "?", "no lock is taken")
}

func (r *R) lockPass(rule string, pkgs []string, memo map[*ssa.Function]map[string]string, leaks map[*ssa.Function]map[string]bool, n *int, last bool) {
	for _, fn := range r.P.Funcs {
		name := r.P.Name(fn)
		in := false
		for _, p := range pkgs {
			in = in || strings.HasPrefix(name, p)
		}
		if !in || len(fn.Blocks) == 0 {
			continue
		}
		helper := r.private(fn)
		first := true
		// held[b]: locks held for sure on entering b; a name with "!" is released by a deferred call
		held := map[*ssa.BasicBlock]map[string]bool{fn.Blocks[0]: {}}
		step := func(b *ssa.BasicBlock, report bool) map[string]bool {
			cur := map[string]bool{}
			for k := range held[b] {
				cur[k] = true
			}
			bad := func(pos token.Pos, d string) {
				if report && last {
					r.Ob(rule, name, false, r.P.Pos(pos), d)
				}
			}
			for _, in := range b.Instrs {
				switch c := in.(type) {
				case *ssa.Defer:
					if op := ssaLockOp(&c.Call); op == 'U' || op == 'u' {
						cur["!"+r.lockPath(c.Call.Args[0])] = true
					} else if g, ok := closureOf(c.Call.Value); ok {
						for _, gb := range g.Blocks {
							for _, gi := range gb.Instrs {
								if k, ok := gi.(*ssa.Call); ok {
									if op := ssaLockOp(&k.Call); op == 'U' || op == 'u' {
										cur["!"+r.lockPath(k.Call.Args[0])] = true
									}
								}
							}
						}
					} else {
						cur["!"] = true // may release anything
					}
				case *ssa.Call:
					switch op := ssaLockOp(&c.Call); op {
					case 'L', 'R':
						*n++
						p := r.lockPath(c.Call.Args[0])
						if p != "" && cur[p] {
							bad(c.Pos(), "the lock "+p+" is taken while it is already held: this never returns")
						}
						if p != "" {
							cur[p] = true
						}
					case 'U', 'u':
						delete(cur, r.lockPath(c.Call.Args[0]))
					default:
						g := c.Call.StaticCallee()
						if g == nil || !r.P.InModule(g) {
							continue
						}
						for p, at := range r.acquires(g, memo) {
							if q := r.seenFrom(p, g, &c.Call); q != "" && cur[q] {
								bad(c.Pos(), "the call at "+r.P.Pos(c.Pos())+" takes the lock "+q+" (at "+at+") while it is already held: it never returns")
							}
						}
						r.released(g, &c.Call, cur, memo)
						for p := range leaks[g] {
							if q := r.seenFrom(p, g, &c.Call); q != "" {
								cur[q] = true
							}
						}
					}
				case *ssa.Return:
					here := map[string]bool{}
					for p := range cur {
						if strings.HasPrefix(p, "!") || cur["!"+p] || cur["!"] || strings.Contains(strings.ToLower(fn.Name()), "lock") {
							continue
						}
						here[p] = true
						if !helper {
							bad(c.Pos(), "the lock "+p+" stays held after this return")
						}
					}
					if helper && report {
						if first {
							leaks[fn] = here
						} else if len(leaks[fn]) != len(here) {
							bad(c.Pos(), "a lock is held after some of the returns")
						}
						first = false
					}
				}
			}
			return cur
		}
		for changed := true; changed; {
			changed = false
			for _, b := range fn.Blocks {
				if held[b] == nil {
					continue
				}
				out := step(b, false)
				for _, s := range b.Succs {
					if held[s] == nil {
						held[s] = map[string]bool{}
						for k := range out {
							held[s][k] = true
						}
						changed = true
						continue
					}
					for k := range held[s] {
						if !out[k] {
							delete(held[s], k)
							changed = true
						}
					}
				}
			}
		}
		if last {
			r.Ob(rule, name, true, r.P.Pos(fn.Pos()), "")
		}
		for _, b := range fn.Blocks {
			if held[b] != nil {
				step(b, true)
			}
		}
	}
}

// private: an unexported function that others of the module call.
func (r *R) private(fn *ssa.Function) bool {
	if token.IsExported(fn.Name()) || fn.Parent() != nil {
		return false
	}
	for _, g := range r.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
					return true
				}
			}
		}
	}
	return false
}

// released: a helper that unlocks what its caller holds.
func (r *R) released(g *ssa.Function, c *ssa.CallCommon, cur map[string]bool, memo map[*ssa.Function]map[string]string) {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if k, ok := in.(ssa.CallInstruction); ok {
				if op := ssaLockOp(k.Common()); op == 'U' || op == 'u' {
					p := r.lockPath(k.Common().Args[0])
					if _, own := r.acquires(g, memo)[p]; !own {
						delete(cur, r.seenFrom(p, g, c))
					}
				}
			}
		}
	}
}

func closureOf(v ssa.Value) (*ssa.Function, bool) {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function), true
	case *ssa.Function:
		return x, true
	}
	return nil, false
}
