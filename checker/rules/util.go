package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"verif/checker/eng"
)

type Term = eng.Term

// match p against t.
func (f *F) m(p string, t *Term) bool {
	for _, alt := range strings.Split(p, " | ") {
		if _, ok := f.X.Match(eng.P(strings.TrimSpace(alt)), t, eng.Bind{}); ok {
			return true
		}
	}
	return false
}

func (f *F) mb(p string, t *Term) (eng.Bind, bool) {
	return f.X.Match(eng.P(p), t, eng.Bind{})
}

func short(t *Term) string {
	if t == nil {
		return "nothing"
	}
	s := t.String()
	if len(s) > 220 {
		s = s[:220] + "~"
	}
	return s
}

func not(t *Term) (*Term, bool) {
	if t.Op == "not" {
		return t.Args[0], true
	}
	return t, false
}

// loops lists the loop events of o (outermost first), including those nested in iterations.
func (f *F) loops(o *eng.Out) []*eng.Loop {
	var ls []*eng.Loop
	var rec func(evs []*eng.Event)
	rec = func(evs []*eng.Event) {
		for _, e := range evs {
			if e.Kind == "loop" {
				ls = append(ls, e.Loop)
				for _, s := range e.Loop.Steps {
					rec(s.Events)
				}
			}
			for _, cb := range e.CB {
				rec(cb.St.Events)
			}
		}
	}
	rec(o.St.Events)
	return ls
}

// phiOf finds the loop variable t is, and its loop.
func (f *F) phiOf(o *eng.Out, t *Term) (*eng.Loop, int) {
	for _, l := range f.loops(o) {
		for i, p := range l.Phis {
			if p == t {
				return l, i
			}
		}
	}
	return nil, -1
}

// pathBit recognises bit `lvl` of hash h: computed directly or read from a table that a
// completed loop filled with the bits of h from level 0 on.
func (f *F) pathBit(facts []*Term, t *Term) (h, lvl *Term, ok bool) {
	if t.Op == "call" && t.Aux == "common.TestBit" {
		return t.Args[0], t.Args[1], true
	}
	if t.Op == "idx" && t.Args[0].Op == "fill" {
		fl := t.Args[0]
		if len(fl.Args) != 4 || !f.m("0", fl.Args[1]) || fl.Args[0].Op != "make" {
			return nil, nil, false
		}
		v, it := fl.Args[2], fl.Args[3]
		if v.Op != "call" || v.Aux != "common.TestBit" || v.Args[1] != it {
			return nil, nil, false
		}
		done := f.X.In.Le(fl.Args[0].Args[0], it)
		for _, c := range facts {
			if c == done {
				return v.Args[0], t.Args[1], true
			}
		}
	}
	return nil, nil, false
}

// bitFact looks for a fact about bit lvl of hash h; returns 1, 0 or -1 (not tested).
func (f *F) bitFact(facts []*Term, hash string, lvl *Term) int {
	for _, c := range facts {
		c, neg := not(c)
		h, l, ok := f.pathBit(facts, c)
		if ok && f.m(hash, h) && (lvl == nil || l == lvl) {
			if neg {
				return 0
			}
			return 1
		}
	}
	return -1
}

// fail records a failed obligation.
func (f *F) fail(rule string, p token.Pos, format string, args ...any) {
	f.r.Ob(rule, f.Name, false, f.pos(p), fmt.Sprintf(format, args...))
}

// hasFact: st facts (of an outcome or step) contain a match of pat.
func (f *F) has(st *eng.State, pat string) bool {
	for _, alt := range strings.Split(pat, " | ") {
		if f.X.Holds(st, strings.TrimSpace(alt), eng.Bind{}) {
			return true
		}
	}
	return false
}

// hasFact: the exact fact c is established.
func (f *F) hasFact(st *eng.State, c *Term) bool { return f.X.Decide(st, c) == 1 }

// Carried is a value carried through a loop: a variable or a memory location.
type Carried struct {
	Loop *eng.Loop
	Init *Term
	Cur  *Term
	phi  int
	loc  *Term
}

// Next: the value after the given iteration.
func (c *Carried) Next(s *eng.Step) *Term {
	if c.loc == nil {
		return s.Next[c.phi]
	}
	if v, ok := s.Mem[c.loc]; ok {
		return v
	}
	return c.Cur
}

// carried finds the loop that carries t, or nil.
func (f *F) carried(o *eng.Out, t *Term) *Carried {
	t = eng.StripIface(t)
	for _, l := range f.loops(o) {
		for i, p := range l.Phis {
			if p == t {
				return &Carried{l, l.Init[i], t, i, nil}
			}
		}
		if t.Op == "loopmem" && t.N == l.ID {
			return &Carried{l, l.MemInit[t.Args[0]], t, -1, t.Args[0]}
		}
	}
	return nil
}

// stepSt: the facts known inside an iteration: those of the step.
func (f *F) stepHas(s *eng.Step, pat string) bool { return f.has(s.St, pat) }

// mB matches p against t under b.
func (f *F) mB(p string, t *Term, b eng.Bind) bool {
	_, ok := f.X.Match(eng.P(p), t, b)
	return ok
}

// carriedLoc: the value of a memory location carried by loop l.
func (f *F) carriedLoc(l *eng.Loop, loc *Term) *Carried {
	for _, s := range l.Steps {
		if v := s.Mem[loc]; v != nil {
			var cur *Term
			v.Any(func(t *Term) bool {
				if t.Op == "loopmem" && t.N == l.ID && t.Args[0] == loc {
					cur = t
					return true
				}
				return false
			})
			if cur != nil {
				return &Carried{l, l.MemInit[loc], cur, -1, loc}
			}
		}
	}
	return nil
}

// layer is one write into a buffer.
type layer struct {
	off, val *Term
	loop     *eng.Loop // written in every iteration of this loop
}

// pieces: a sequence put together piece by piece, as writes at their offsets.
func (f *F) pieces(o *eng.Out, t *Term, at *Term, ls *[]layer) *Term {
	in := f.X.In
	switch t.Op {
	case "cat":
		for _, a := range t.Args {
			at = f.pieces(o, a, at, ls)
		}
		return at
	case "catn":
		for _, l := range f.loops(o) {
			if l.ID != t.N || l.Iter != t.Args[2] {
				continue
			}
			n := f.X.Count(o.St, l)
			if n == nil {
				break
			}
			at = f.pieces(o, t.Args[0], at, ls)
			size := in.Len(t.Args[1])
			*ls = append(*ls, layer{in.Add(at, in.MulT(size, l.Iter)), t.Args[1], l})
			return in.Add(at, in.MulT(size, n))
		}
	}
	if f.X.NilState(o.St, t) == 1 {
		return at
	}
	v := t
	if t.Op == "elem1" {
		v = t.Args[0]
	}
	*ls = append(*ls, layer{at, v, nil})
	return in.Add(at, in.Len(t))
}

// layers takes a buffer apart into the writes that made it, oldest first, and its base.
func (f *F) layers(o *eng.Out, t *Term) (*Term, []layer) {
	var ls []layer
	if t.Op == "cat" || t.Op == "catn" {
		f.pieces(o, t, f.X.In.Int(0), &ls)
		return t, ls
	}
	for {
		switch {
		case t.Op == "sub" && f.m("0", t.Args[1]):
			t = t.Args[0]
			continue
		case t.Op == "upd" || t.Op == "copyinto":
			ls = append(ls, layer{t.Args[1], t.Args[2], nil})
			t = t.Args[0]
			continue
		case t.Op == "loopmem":
			if c := f.carried(o, t); c != nil && c.Init != nil && len(c.Loop.Steps) > 0 {
				for _, s := range c.Loop.Steps {
					nx := c.Next(s)
					for nx.Op == "upd" || nx.Op == "copyinto" {
						ls = append(ls, layer{nx.Args[1], nx.Args[2], c.Loop})
						nx = nx.Args[0]
					}
				}
				t = c.Init
				continue
			}
		}
		break
	}
	for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
		ls[i], ls[j] = ls[j], ls[i]
	}
	return t, ls
}

// noBounds: every index and slice operation is in range on every path; allowed discharges the
// ones that need an invariant.
func (f *F) noBounds(rule string, allowed func(o *eng.Out, h Hit) bool) {
	f.Each(rule, f.Outs, func(o *eng.Out) string {
		for _, h := range f.Flat(o) {
			if h.E.Kind != "bound" {
				continue
			}
			if allowed != nil && allowed(o, h) {
				continue
			}
			return "an out-of-range access is possible at " + f.pos(h.E.Pos) + ": needs " + short(h.E.Args[0]) + f.pathDesc(o)
		}
		if o.Kind == "panic" {
			return "a path panics" + f.pathDesc(o)
		}
		return ""
	})
}

// locked: every event matching pats happens between the Lock and the Unlock of $0's mutex,
// and on return the mutex is free.
func (f *F) locked(rule, mutex string, pats []string) {
	f.Each(rule, f.Outs, func(o *eng.Out) string {
		held := false
		flat := f.Flat(o)
		for _, h := range flat {
			if h.E.Kind == "call" {
				switch {
				case strings.HasSuffix(h.E.Name, "utex.Lock"):
					if held {
						return "the lock is taken twice"
					}
					held = true
				case strings.HasSuffix(h.E.Name, "utex.Unlock"):
					held = false
				}
			}
			for _, p := range pats {
				if f.evMatch(p, h.E, eng.Bind{}, func(eng.Bind) bool { return true }) && !held {
					return p + " at " + f.pos(h.E.Pos) + " happens without holding the lock"
				}
			}
		}
		if held && o.Kind == "return" {
			return "the lock is still held on return" + f.pathDesc(o)
		}
		return ""
	})
}

// onlyIn: the functions in got are among allowed; they have an obligation each.
func (r *R) onlyIn(rule, what string, got map[string]string, allowed ...string) {
	ok := map[string]bool{}
	for _, a := range allowed {
		ok[a] = true
	}
	n := 0
	for fn, pos := range got {
		n++
		r.Ob(rule, fn, ok[fn], pos, fn+" changes "+what)
	}
	r.Ob(rule+"/exists", what, n > 0, "?", "nothing changes "+what)
}

// mac holds abbreviations used in patterns: ~NAME stands for its text (recursively).
type mac map[string]string

var macRe = regexp.MustCompile(`~[A-Za-z][A-Za-z0-9]*`)

func (m mac) x(s string) string {
	for i := 0; i < 8 && strings.Contains(s, "~"); i++ {
		s = macRe.ReplaceAllStringFunc(s, func(n string) string {
			v, ok := m[n[1:]]
			if !ok {
				panic("unknown abbreviation " + n)
			}
			return v
		})
	}
	return s
}

func (m mac) rows(lines ...string) []*Case {
	var ls []string
	for _, l := range lines {
		ls = append(ls, m.x(l))
	}
	return rows(ls...)
}

// with adds abbreviations.
func (m mac) with(kv ...string) mac {
	n := mac{}
	for k, v := range m {
		n[k] = v
	}
	for i := 0; i+1 < len(kv); i += 2 {
		n[kv[i]] = kv[i+1]
	}
	return n
}

// forAll: on every path of outs a loop goes through all elements of slice (a pattern), from the
// first on, and every iteration is one of the rows; in them ?i is the position of the element.
func (f *F) forAll(rule string, outs []*eng.Out, slice string, cases ...*Case) {
	f.NonEmpty(rule, outs)
	seen := map[int]bool{}
	f.Each(rule, outs, func(o *eng.Out) string {
		why := "does not go through the elements of " + slice
		for _, l := range f.loops(o) {
			if len(l.Steps) == 0 || l.Iter == nil {
				continue
			}
			var el *Term
			if !f.X.BuildEach(eng.P("len("+slice+")"), eng.Bind{"i": l.Iter}, func(t *Term, _ eng.Bind) bool {
				if f.X.Decide(o.St, f.X.In.Le(t, l.Iter)) == 1 {
					el = t
					return true
				}
				return false
			}) {
				continue
			}
			why = ""
			for _, s := range l.Steps {
				if f.X.Decide(s.St, f.X.In.Le(el, l.Iter)) != -1 {
					why = "can go beyond the last element"
					continue
				}
				ok := false
				for i, c := range cases {
					so := &eng.Out{St: &eng.State{}, Kind: "return"}
					*so.St = *s.St
					so.St.Events = s.Events
					if f.rowB(so, c, eng.Bind{"i": l.Iter}, nil) {
						ok = true
						seen[i] = true
					}
				}
				if !ok {
					why = "an iteration does what no permitted case allows" + stepDesc(s)
				}
			}
			if why == "" {
				return ""
			}
		}
		return why + f.pathDesc(o)
	})
	if f.ok() {
		for i, c := range cases {
			if !c.Opt {
				f.r.Ob(rule+"/case "+c.Name, f.Name, seen[i], f.pos(f.Fn.Pos()), "no iteration does this any more")
			}
		}
	}
}

// iff: result i is true exactly when all conditions hold: where it is true each is
// established, where it is false one of them is refuted.
func (f *F) iff(rule string, i int, conds ...string) {
	yes, no := f.SplitBool(i)
	var must []string
	for k, c := range conds {
		if conds[k] = strings.TrimSuffix(c, "?"); conds[k] == c { // the others may be asked for
			must = append(must, c)
		}
	}
	f.Must(rule+"/accepts", yes, must...)
	f.NonEmpty(rule+"/refuses", no)
	f.Each(rule+"/refuses", no, func(o *eng.Out) string {
		for _, c := range conds {
			for _, alt := range strings.Split(c, " | ") {
				if f.Holds(o, negate(strings.TrimSpace(alt))) {
					return ""
				}
			}
		}
		return "refused although nothing is wrong" + f.pathDesc(o)
	})
}

// okIff: as iff, for the error result.
func (f *F) okIff(rule string, conds ...string) {
	f.Must(rule+"/accepts", f.Succ, conds...)
	f.NonEmpty(rule+"/refuses", f.Fail)
	f.Each(rule+"/refuses", f.Fail, func(o *eng.Out) string {
		for _, c := range conds {
			for _, alt := range strings.Split(c, " | ") {
				if f.Holds(o, negate(strings.TrimSpace(alt))) {
					return ""
				}
			}
		}
		return "refused although nothing is wrong" + f.pathDesc(o)
	})
}

// sumOf: t is the plain sum of exactly these terms.
func (f *F) sumOf(t *Term, want []*Term) bool {
	c, m := eng.LinParts(t)
	if c != 0 || len(m) != len(want) {
		return false
	}
	for _, w := range want {
		if m[w] != 1 {
			return false
		}
	}
	return true
}

func negate(p string) string {
	if strings.HasPrefix(p, "not(") && strings.HasSuffix(p, ")") {
		return p[4 : len(p)-1]
	}
	return "not(" + p + ")"
}

// Refused: every path in outs that fails does so for one of reasons (facts joined by " & "), or
// because a call it makes failed in a way that is not one of the answers it is asked for.
func (f *F) Refused(rule string, outs []*eng.Out, reasons ...string) {
	f.Each(rule, outs, func(o *eng.Out) string {
		n := len(o.Res)
		if n == 0 || f.X.NilState(o.St, o.Res[n-1]) == 1 {
			return ""
		}
		if f.failed(o) {
			return ""
		}
		for _, r := range reasons {
			if f.solve(o.St, strings.Split(r, " & "), eng.Bind{}, yes) {
				return ""
			}
		}
		return "fails with " + short(o.Res[n-1]) + " without a reason" + f.pathDesc(o)
	})
}

// failed: a call on path o returned an error that the path does not take for an answer.
func (f *F) failed(o *eng.Out) bool {
	isErr := func(t *Term) bool {
		t = eng.StripIface(t)
		return (t.Op == "call" || t.Op == "ext") && t.T != nil && types.Identical(t.T, errType)
	}
	answer := func(e *Term) bool {
		for _, c := range o.St.Facts {
			if c.Op == "eq" && (c.Args[0] == e && c.Args[1].Op == "gval" || c.Args[1] == e && c.Args[0].Op == "gval") || c.Op == "call" && c.Any(func(u *Term) bool { return u == e }) {
				return true
			}
		}
		return false
	}
	if r := o.Res[len(o.Res)-1]; isErr(r) && !errCtor[r.Aux] && !answer(r) {
		return true
	}
	for _, h := range f.Flat(o) {
		if h.CB || h.E.Kind != "call" || errCtor[h.E.Name] {
			continue
		}
		if e := f.errOf(h.E); e != nil && f.X.NilState(o.St, e) == -1 && !answer(e) {
			return true
		}
	}
	return false
}
