package eng

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Pat is an expression of the rule language.  It can be matched against a term (with
// wildcards and variables) or built into a term (all variables bound).
//
//	$0 ?x _ nil true 12 "s" @pkg.Global
//	e.Field  e[i]  e#1           selection, element, i-th result
//	pkg.Fn(a, b, ...)            primitive call (occurrence number ignored)
//	eq(a,b) not(a) le(a,b) lt(a,b) add(a,b) minus(a,b) len(a) sub(x,lo,hi) cat(a,...) ...
type Pat struct {
	op   string
	s    string
	args []*Pat
	rest bool
	vs   []string // its variables
	vsOk bool
}

// vars lists the variables of p.
func (p *Pat) vars() []string {
	if !p.vsOk {
		seen := map[string]bool{}
		if p.op == "var" {
			seen[p.s] = true
		}
		for _, a := range p.args {
			for _, v := range a.vars() {
				seen[v] = true
			}
		}
		for v := range seen {
			p.vs = append(p.vs, v)
		}
		sort.Strings(p.vs)
		p.vsOk = true
	}
	return p.vs
}

// Bound: all variables of p have values.
func (p *Pat) Bound(b Bind) bool {
	for _, v := range p.vars() {
		if _, ok := b[v]; !ok {
			return false
		}
	}
	return true
}

// memoKey identifies p under b when all its variables are bound.
type memoKey struct {
	p *Pat
	b string
}

type memoVal struct {
	n  int
	ts []*Term
}

type Bind map[string]*Term

func (b Bind) clone() Bind {
	n := Bind{}
	for k, v := range b {
		n[k] = v
	}
	return n
}

var patCache = map[string]*Pat{}

func P(s string) *Pat {
	if p, ok := patCache[s]; ok {
		return p
	}
	ps := &patParser{s: s}
	p := ps.expr()
	ps.ws()
	if ps.i != len(s) {
		panic(fmt.Sprintf("pattern %q: trailing %q", s, s[ps.i:]))
	}
	patCache[s] = p
	return p
}

type patParser struct {
	s string
	i int
}

func (p *patParser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t') {
		p.i++
	}
}

func isIdent(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

func (p *patParser) ident(dots bool) string {
	j := p.i
	for p.i < len(p.s) && (isIdent(p.s[p.i]) || dots && (p.s[p.i] == '.' || p.s[p.i] == '/' || p.s[p.i] == '$')) {
		p.i++
	}
	return p.s[j:p.i]
}

func (p *patParser) expr() *Pat {
	p.ws()
	e := p.prim()
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case '.':
			if strings.HasPrefix(p.s[p.i:], "...") {
				return e
			}
			p.i++
			e = &Pat{op: "sel", s: p.ident(false), args: []*Pat{e}}
		case '[':
			p.i++
			a := p.expr()
			p.expect(']')
			e = &Pat{op: "idx", args: []*Pat{e, a}}
		case '#':
			p.i++
			e = &Pat{op: "ext", s: p.ident(false), args: []*Pat{e}}
		default:
			return e
		}
	}
	return e
}

func (p *patParser) expect(c byte) {
	p.ws()
	if p.i >= len(p.s) || p.s[p.i] != c {
		panic(fmt.Sprintf("pattern %q: expected %c at %d", p.s, c, p.i))
	}
	p.i++
}

func (p *patParser) prim() *Pat {
	if p.i >= len(p.s) {
		panic("pattern: unexpected end " + p.s)
	}
	switch c := p.s[p.i]; {
	case c == '$':
		p.i++
		return &Pat{op: "param", s: p.ident(false)}
	case c == '?':
		p.i++
		return &Pat{op: "var", s: p.ident(false)}
	case c == '@':
		p.i++
		return &Pat{op: "gval", s: p.globalName()}
	case c == '"':
		q, err := strconv.QuotedPrefix(p.s[p.i:])
		if err != nil {
			panic(err)
		}
		p.i += len(q)
		return &Pat{op: "const", s: q}
	case c >= '0' && c <= '9' || c == '-':
		j := p.i
		p.i++
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			p.i++
		}
		return &Pat{op: "const", s: p.s[j:p.i]}
	case c == '_' && (p.i+1 >= len(p.s) || !isIdent(p.s[p.i+1])):
		p.i++
		return &Pat{op: "any"}
	}
	j := p.i
	id := p.ident(true)
	if id == "" {
		panic(fmt.Sprintf("pattern %q: bad char at %d", p.s, p.i))
	}
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == '(' {
		p.i++
		pt := &Pat{op: id}
		if strings.Contains(id, ".") || id == "dyn" {
			pt.op, pt.s = "call", id
		}
		for {
			p.ws()
			if p.s[p.i] == ')' {
				p.i++
				break
			}
			if strings.HasPrefix(p.s[p.i:], "...") {
				p.i += 3
				pt.rest = true
				p.ws()
				p.expect(')')
				break
			}
			pt.args = append(pt.args, p.expr())
			p.ws()
			if p.s[p.i] == ',' {
				p.i++
			}
		}
		return pt
	}
	// a constant name
	switch id {
	case "nil", "true", "false":
		return &Pat{op: "const", s: id}
	}
	panic(fmt.Sprintf("pattern %q: unknown %q at %d", p.s, id, j))
}

func (p *patParser) globalName() string {
	j := p.i
	p.ident(false)
	if p.i < len(p.s) && p.s[p.i] == '.' {
		p.i++
		p.ident(false)
	}
	return p.s[j:p.i]
}

// Match matches p against t, extending b. It returns all solutions' first.
func (x *Exec) Match(p *Pat, t *Term, b Bind) (Bind, bool) {
	r := b
	ok := false
	x.match(p, t, b, func(n Bind) bool { r, ok = n, true; return true })
	return r, ok
}

// match calls k for every solution until k returns true.
func (x *Exec) match(p *Pat, t *Term, b Bind, k func(Bind) bool) bool {
	if x.tired() {
		return false
	}
	t = StripIface(t)
	switch p.op {
	case "any":
		return k(b)
	case "var":
		if v, ok := b[p.s]; ok {
			if v == t {
				return k(b)
			}
			return false
		}
		n := b.clone()
		n[p.s] = t
		return k(n)
	case "or":
		for _, a := range p.args {
			if x.match(a, t, b, k) {
				return true
			}
		}
		return false
	case "has": // has(p): some subterm matches; has(m,k): map m has key k
		if len(p.args) == 2 {
			return t.Op == "has" && x.matchArgs(p, t.Args, b, k)
		}
		found := false
		t.Any(func(s *Term) bool {
			if x.match(p.args[0], s, b, k) {
				found = true
				return true
			}
			return false
		})
		return found
	case "const":
		if t.Op == "zero" && strings.HasPrefix(p.s, `"\x00`) {
			return x.In.zeroBytes(x.In.mk("const", p.s, 0, nil)) == t && k(b)
		}
		return t.Op == "const" && t.Aux == p.s && k(b)
	case "param":
		return t.Op == "param" && t.Aux == p.s && k(b)
	case "gval":
		if t.Op == "global" && t.Aux == p.s {
			return k(b)
		}
		if x.P.zeroGlobals[p.s] && t.Op == "zero" {
			return k(b)
		}
		return t.Op == "gval" && t.Aux == p.s && k(b)
	case "zero":
		return t.Op == "zero" && k(b)
	case "at": // at(x.F), at(x[i]): the place of field F of what x points to, of element i of x
		q := p.args[0]
		if q.op == "idx" {
			return t.Op == "ia" && len(t.Args) == 2 && x.match(q.args[0], t.Args[0], b, func(n Bind) bool { return x.match(q.args[1], t.Args[1], n, k) })
		}
		return t.Op == "fa" && (t.Aux == q.s || q.s == "_") && x.match(q.args[0], t.Args[0], b, k)
	case "le", "lt":
		if len(p.args) == 1 { // the bytes of a number
			return t.Op == p.op && len(t.Args) == 1 && x.match(p.args[0], t.Args[0], b, k)
		}
		// match by construction when everything is bound
		return x.buildEach(p, b, func(bt *Term, n Bind) bool { return bt == t && k(n) })
	case "sel":
		if t.Op == "sel" && (t.Aux == p.s || p.s == "_") {
			return x.match(p.args[0], t.Args[0], b, k)
		}
		return x.buildEach(p, b, func(bt *Term, n Bind) bool { return bt == t && k(n) })
	case "ext":
		return t.Op == "ext" && t.Aux == p.s && x.match(p.args[0], t.Args[0], b, k)
	case "not":
		if t.Op == "not" {
			return x.match(p.args[0], t.Args[0], b, k)
		}
		return false
	case "eq":
		if t.Op != "eq" {
			return false
		}
		return x.matchArgs(p, []*Term{t.Args[0], t.Args[1]}, b, k) || x.matchArgs(p, []*Term{t.Args[1], t.Args[0]}, b, k)
	case "call":
		if p.s == "fmt.Errorf" && p.rest && len(p.args) == 0 && (t.Op == "gval" && x.P.errGlobals[t.Aux] && unexported(t.Aux) || t.Op == "call" && t.Aux == "errors.New") {
			return k(b) // an error with a text of its own, made each time or once
		}
		if t.Op != "call" || !nameMatch(p.s, t.Aux) {
			return false
		}
		return x.matchArgs(p, t.Args, b, k)
	case "agg":
		if t.Op != "agg" {
			return false
		}
		return x.matchArgs(p, t.Args, b, k)
	case "add", "minus", "mul":
		return x.buildEach(p, b, func(bt *Term, n Bind) bool { return bt == t && k(n) })
	}
	if t.Op != p.op {
		return x.buildEach(p, b, func(bt *Term, n Bind) bool { return bt == t && k(n) })
	}
	return x.matchArgs(p, t.Args, b, k)
}

func unexported(name string) bool {
	n := name[strings.LastIndexByte(name, '.')+1:]
	return n != "" && n[0] >= 'a' && n[0] <= 'z'
}

func nameMatch(p, n string) bool {
	if p == n {
		return true
	}
	if strings.HasPrefix(p, "_.") {
		return strings.HasSuffix(n, p[1:])
	}
	return false
}

func (x *Exec) matchArgs(p *Pat, ts []*Term, b Bind, k func(Bind) bool) bool {
	if len(ts) < len(p.args) || (len(ts) != len(p.args) && !p.rest) {
		return false
	}
	var rec func(i int, b Bind) bool
	rec = func(i int, b Bind) bool {
		if i == len(p.args) {
			return k(b)
		}
		return x.match(p.args[i], ts[i], b, func(n Bind) bool { return rec(i+1, n) })
	}
	return rec(0, b)
}

// build constructs the normalised term of p under b (the first possibility).
func (x *Exec) build(p *Pat, b Bind) (t *Term, ok bool) {
	x.buildEach(p, b, func(u *Term, _ Bind) bool { t, ok = u, true; return true })
	return
}

// buildEach enumerates the terms p can stand for under b: calls may have several occurrences,
// "or" several alternatives.  It stops when k returns true.
// tired: searches for what is not there can take very long; they are given up.
func (x *Exec) tired() bool {
	x.Spent++
	return x.Fuel > 0 && x.Spent > x.Fuel
}

func (x *Exec) buildEach(p *Pat, b Bind, k func(*Term, Bind) bool) bool {
	if x.tired() {
		return false
	}
	if len(p.args) == 0 {
		return x.buildEach1(p, b, k)
	}
	// with all variables bound the terms do not depend on the search: each is tried once
	key := ""
	for _, v := range p.vars() {
		t, ok := b[v]
		if !ok {
			return x.buildEach1(p, b, k)
		}
		key += strconv.Itoa(t.ID) + ","
	}
	mk := memoKey{p, key}
	m, ok := x.memo[mk]
	if !ok || m.n != x.In.ncalls {
		m = &memoVal{}
		seen := map[*Term]bool{}
		x.buildEach1(p, b, func(t *Term, _ Bind) bool {
			if !seen[t] {
				seen[t] = true
				m.ts = append(m.ts, t)
			}
			return false
		})
		m.n = x.In.ncalls
		if x.memo == nil {
			x.memo = map[memoKey]*memoVal{}
		}
		if x.Fuel == 0 || x.Spent <= x.Fuel {
			x.memo[mk] = m
		}
	}
	for _, t := range m.ts {
		if k(t, b) {
			return true
		}
	}
	return false
}

func (x *Exec) buildEach1(p *Pat, b Bind, k func(*Term, Bind) bool) bool {
	in := x.In
	switch p.op {
	case "any", "at":
		return false
	case "has":
		if len(p.args) != 2 {
			return false
		}
	case "or":
		for _, a := range p.args {
			if x.buildEach(a, b, k) {
				return true
			}
		}
		return false
	case "var":
		v, ok := b[p.s]
		return ok && k(v, b)
	case "const":
		if i, err := strconv.ParseInt(p.s, 10, 64); err == nil {
			return k(in.Int(i), b)
		}
		return k(in.mk("const", p.s, 0, nil), b)
	case "param":
		return k(in.mk("param", p.s, 0, nil), b)
	case "gval":
		return k(in.mk("gval", p.s, 0, nil), b)
	}
	if p.op == "call" || p.op == "next" || p.op == "loopmem" || p.op == "recv" {
		key := p.s
		if p.op != "call" {
			key = "op:" + p.op
		}
		for _, t := range in.callsBy[key] {
			if x.matchArgs(p, t.Args, b, func(n Bind) bool { return k(t, n) }) {
				return true
			}
		}
	}
	if p.rest {
		return false
	}
	args := make([]*Term, len(p.args))
	var rec func(i int, b Bind) bool
	rec = func(i int, b Bind) bool {
		if i < len(p.args) {
			return x.buildEach(p.args[i], b, func(t *Term, n Bind) bool { args[i] = t; return rec(i+1, n) })
		}
		switch p.op {
		case "sel":
			return k(in.Sel(args[0], p.s, nil), b)
		case "idx":
			return k(in.Idx(args[0], args[1], nil), b)
		case "ext":
			return k(in.mk("ext", p.s, 0, nil, args...), b)
		case "eq":
			return k(in.Eq(args[0], args[1]), b)
		case "not":
			return k(in.Not(args[0]), b)
		case "le":
			if len(args) == 1 {
				return false
			}
			return k(in.Le(args[0], args[1]), b)
		case "lt":
			return k(in.Lt(args[0], args[1]), b)
		case "add":
			return k(in.Add(args[0], args[1]), b)
		case "minus":
			return k(in.Sub(args[0], args[1]), b)
		case "mul":
			return k(in.MulT(args[0], args[1]), b)
		case "len":
			return k(in.Len(args[0]), b)
		case "sub":
			return k(in.SubSeq(args[0], args[1], args[2], nil), b)
		case "cat":
			return k(in.Cat(nil, args...), b)
		case "ite":
			return k(in.Ite(args[0], args[1], args[2]), b)
		case "call":
			as := append([]*Term(nil), args...)
			return k(in.mk("call", p.s, 0, nil, as...), b)
		}
		return k(in.mk(p.op, p.s, 0, nil, args...), b)
	}
	return rec(0, b)
}

// T builds a term from pattern text.
func (x *Exec) T(s string, b Bind) *Term {
	t, ok := x.build(P(s), b)
	if !ok {
		panic("cannot build " + s)
	}
	return t
}

// Holds reports whether the fact built from pattern s is implied on path o.
func (x *Exec) Holds(st *State, s string, b Bind) bool {
	_, ok := x.FindFact(st, s, b)
	return ok
}

// FindFact searches the facts of st for a match.
func (x *Exec) FindFact(st *State, s string, b Bind) (Bind, bool) {
	return x.FindFactN(st, len(st.Facts), s, b)
}

// FindFactN only looks at the first n facts.
func (x *Exec) FindFactN(st *State, n int, s string, b Bind) (Bind, bool) {
	p := P(s)
	if n > len(st.Facts) {
		n = len(st.Facts)
	}
	for _, f := range st.Facts[:n] {
		if r, ok := x.Match(p, f, b); ok {
			return r, true
		}
	}
	s2 := st
	if n < len(st.Facts) {
		s2 = &State{Facts: st.Facts[:n], known: map[*Term]bool{}}
		for _, f := range s2.Facts {
			s2.known[f] = true
		}
	}
	res := b
	ok := x.buildEach(p, b, func(t *Term, n Bind) bool {
		if x.Decide(s2, t) == 1 {
			res = n
			return true
		}
		return false
	})
	return res, ok
}

// IsErr: res is an error known nil (1), non-nil (-1) or unknown (0) on the path.
func (x *Exec) NilState(st *State, t *Term) int {
	if t.IsNil() {
		return 1
	}
	return x.Decide(st, x.In.Eq(t, x.In.Nil()))
}

// SplitErr refines outcomes so that the final error result is known nil or non-nil.
func (x *Exec) SplitErr(outs []*Out) (succ, fail []*Out) {
	for _, o := range outs {
		if o.Kind != "return" || len(o.Res) == 0 {
			if o.Kind == "return" {
				succ = append(succ, o)
			}
			continue
		}
		e := o.Res[len(o.Res)-1]
		switch x.NilState(o.St, e) {
		case 1:
			succ = append(succ, o)
		case -1:
			fail = append(fail, o)
		default:
			s := &Out{St: o.St.clone(), Kind: o.Kind, Res: append([]*Term(nil), o.Res...), Pos: o.Pos}
			x.assume(s.St, x.In.Eq(e, x.In.Nil()))
			succ = append(succ, s)
			f := &Out{St: o.St.clone(), Kind: o.Kind, Res: o.Res, Pos: o.Pos}
			x.assume(f.St, x.In.Not(x.In.Eq(e, x.In.Nil())))
			fail = append(fail, f)
		}
	}
	return
}

// SplitBool refines outcomes on the truth of result i.
func (x *Exec) SplitBool(outs []*Out, i int) (yes, no []*Out) {
	for _, o := range outs {
		if o.Kind != "return" || i >= len(o.Res) {
			continue
		}
		c := o.Res[i]
		switch x.Decide(o.St, c) {
		case 1:
			yes = append(yes, o)
		case -1:
			no = append(no, o)
		default:
			s := &Out{St: o.St.clone(), Kind: o.Kind, Res: append([]*Term(nil), o.Res...), Pos: o.Pos}
			x.assume(s.St, c)
			yes = append(yes, s)
			f := &Out{St: o.St.clone(), Kind: o.Kind, Res: append([]*Term(nil), o.Res...), Pos: o.Pos}
			x.assume(f.St, x.In.Not(c))
			no = append(no, f)
		}
	}
	return
}

// MatchAll enumerates the matches of p on t extending b until k accepts one.
func (x *Exec) MatchAll(p *Pat, t *Term, b Bind, k func(Bind) bool) bool { return x.match(p, t, b, k) }

// BuildEach enumerates the terms a pattern without wildcards stands for.
func (x *Exec) BuildEach(p *Pat, b Bind, k func(*Term, Bind) bool) bool { return x.buildEach(p, b, k) }

// Canon is the value of t in st.
func (x *Exec) Canon(st *State, t *Term) *Term { return x.canon(st, StripIface(t)) }
