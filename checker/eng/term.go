// Package eng is a path-sensitive, flow-sensitive dataflow engine over go/ssa.
//
// The abstract domain of a value is its provenance: a hash-consed term that says from which
// parameters, fields, constants and primitive calls it was computed (a global value number).
// The abstract state of a program point is the set of guard facts known to hold, the values
// of the memory cells written so far, and the ordered list of effects performed.  Functions of
// the analysed module are inlined, primitives are left uninterpreted, loops whose bounds are
// not compile-time constants are summarised by one generic iteration over widened state.
// Nothing is executed and no decision procedure is called: a guard is decided only when it
// folds to a constant or is (the negation of) a fact already on the path.
package eng

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Term struct {
	NonNeg bool // a counter that starts at or above zero and never decreases
	ID     int
	Op     string
	Aux    string
	N      int // occurrence / epoch number for calls; loop id for loop terms
	Args   []*Term

	T     types.Type    // type (first seen)
	Fn    *ssa.Function // closures and functions
	I     int64         // integer constants
	IsInt bool
	str   string
}

type Interner struct {
	tab     map[string]*Term
	callsBy map[string][]*Term // call terms by function
	ncalls  int
	n       int
}

func NewInterner() *Interner {
	return &Interner{tab: map[string]*Term{}, callsBy: map[string][]*Term{}}
}

func (in *Interner) mk(op, aux string, n int, t types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(aux)
	sb.WriteByte(0)
	sb.WriteString(strconv.Itoa(n))
	for _, a := range args {
		sb.WriteByte(',')
		if a == nil {
			panic("nil arg in " + op + " " + aux)
		}
		sb.WriteString(strconv.Itoa(a.ID))
	}
	if op == "alloc" && t != nil {
		sb.WriteByte(0)
		sb.WriteString(t.String())
	}
	k := sb.String()
	if x, ok := in.tab[k]; ok {
		return x
	}
	in.n++
	x := &Term{ID: in.n, Op: op, Aux: aux, N: n, Args: append([]*Term(nil), args...), T: t}
	in.tab[k] = x
	if op == "call" {
		in.ncalls++
		in.callsBy[aux] = append(in.callsBy[aux], x)
	}
	if op == "next" || op == "loopmem" || op == "recv" {
		in.ncalls++
		in.callsBy["op:"+op] = append(in.callsBy["op:"+op], x)
	}
	return x
}

func (in *Interner) Int(v int64) *Term {
	x := in.mk("const", strconv.FormatInt(v, 10), 0, nil)
	x.I, x.IsInt = v, true
	return x
}

func (in *Interner) Bool(b bool) *Term {
	if b {
		return in.mk("const", "true", 0, types.Typ[types.Bool])
	}
	return in.mk("const", "false", 0, types.Typ[types.Bool])
}

func (in *Interner) Nil() *Term { return in.mk("const", "nil", 0, nil) }

func (in *Interner) Str(s string) *Term {
	return in.mk("const", strconv.Quote(s), 0, types.Typ[types.String])
}

func (t *Term) IsConst() bool { return t.Op == "const" }
func (t *Term) IsTrue() bool  { return t.Op == "const" && t.Aux == "true" }
func (t *Term) IsFalse() bool { return t.Op == "const" && t.Aux == "false" }
func (t *Term) IsNil() bool   { return t.Op == "const" && t.Aux == "nil" }

// ---- linear integer normal form -------------------------------------------------

type linear struct {
	c int64
	m map[*Term]int64
}

func toLin(t *Term) linear {
	if t.IsInt {
		return linear{c: t.I}
	}
	if t.Op == "lin" {
		l := linear{m: map[*Term]int64{}}
		parts := strings.Split(t.Aux, ",")
		l.c, _ = strconv.ParseInt(parts[0], 10, 64)
		for i, a := range t.Args {
			k, _ := strconv.ParseInt(parts[i+1], 10, 64)
			l.m[a] = k
		}
		return l
	}
	return linear{m: map[*Term]int64{t: 1}}
}

// LinParts splits an integer term into a constant and coefficients.
func LinParts(t *Term) (int64, map[*Term]int64) {
	l := toLin(t)
	return l.c, l.m
}

func (l linear) add(o linear, k int64) linear {
	r := linear{c: l.c + k*o.c, m: map[*Term]int64{}}
	for t, c := range l.m {
		r.m[t] += c
	}
	for t, c := range o.m {
		r.m[t] += k * c
		if r.m[t] == 0 {
			delete(r.m, t)
		}
	}
	return r
}

func (l linear) scale(k int64) linear {
	r := linear{c: l.c * k, m: map[*Term]int64{}}
	if k != 0 {
		for t, c := range l.m {
			r.m[t] = c * k
		}
	}
	return r
}

func (in *Interner) fromLin(l linear, typ types.Type) *Term {
	if len(l.m) == 0 {
		return in.Int(l.c)
	}
	if len(l.m) == 1 && l.c == 0 {
		for t, c := range l.m {
			if c == 1 {
				return t
			}
		}
	}
	ts := make([]*Term, 0, len(l.m))
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	aux := []string{strconv.FormatInt(l.c, 10)}
	for _, t := range ts {
		aux = append(aux, strconv.FormatInt(l.m[t], 10))
	}
	return in.mk("lin", strings.Join(aux, ","), 0, typ, ts...)
}

func (in *Interner) Add(a, b *Term) *Term { return in.fromLin(toLin(a).add(toLin(b), 1), a.T) }
func (in *Interner) Sub(a, b *Term) *Term { return in.fromLin(toLin(a).add(toLin(b), -1), a.T) }
func (in *Interner) AddC(a *Term, c int64) *Term {
	return in.fromLin(toLin(a).add(linear{c: c}, 1), a.T)
}

// Le0 is the fact t <= 0.
func (in *Interner) Le0(t *Term) *Term {
	if t.IsInt {
		return in.Bool(t.I <= 0)
	}
	l := toLin(t)
	// gcd tightening
	var g int64
	for _, c := range l.m {
		g = gcd(g, abs(c))
	}
	if g > 1 {
		n := linear{m: map[*Term]int64{}}
		for x, c := range l.m {
			n.m[x] = c / g
		}
		// c0 + g*S <= 0  <=>  S <= floor(-c0/g) <=> S - floor(-c0/g) <= 0
		n.c = -floorDiv(-l.c, g)
		t = in.fromLin(n, t.T)
	}
	if t.Op == "len" { // a length is not negative
		return in.Eq(t, in.Int(0))
	}
	if l := toLin(t); l.c == 1 && len(l.m) == 1 {
		for u, c := range l.m {
			if u.Op == "len" && c == -1 {
				return in.Not(in.Eq(u, in.Int(0)))
			}
		}
	}
	return in.mk("le0", "", 0, types.Typ[types.Bool], t)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func (in *Interner) Lt(a, b *Term) *Term { return in.Le0(in.AddC(in.Sub(a, b), 1)) }
func (in *Interner) Le(a, b *Term) *Term { return in.Le0(in.Sub(a, b)) }

func (in *Interner) Not(t *Term) *Term {
	switch {
	case t.IsTrue():
		return in.Bool(false)
	case t.IsFalse():
		return in.Bool(true)
	case t.Op == "not":
		return t.Args[0]
	case t.Op == "le0":
		// !(L<=0) <=> 1-L <= 0
		return in.Le0(in.fromLin(toLin(t.Args[0]).scale(-1).add(linear{c: 1}, 1), nil))
	}
	return in.mk("not", "", 0, types.Typ[types.Bool], t)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// Eq is value equality (bytes.Equal, ==, Equals after inlining).
// zeroBytes: a text of nothing but zero bytes is the zero value of an array.
func (in *Interner) zeroBytes(t *Term) *Term {
	if n := zeroText(t); n > 0 {
		return in.Zero(types.NewArray(types.Typ[types.Uint8], n))
	}
	return t
}

func zeroText(t *Term) int64 {
	if t.Op != "const" || !strings.HasPrefix(t.Aux, `"\x00`) {
		return 0
	}
	s, err := strconv.Unquote(t.Aux)
	if err != nil || strings.Trim(s, "\x00") != "" {
		return 0
	}
	return int64(len(s))
}

func (in *Interner) Eq(a, b *Term) *Term {
	a, b = StripIface(a), StripIface(b)
	if a == b {
		return in.Bool(true)
	}
	if a.IsConst() && b.IsConst() {
		return in.Bool(false)
	}
	if a, b = in.zeroBytes(a), in.zeroBytes(b); a == b {
		return in.Bool(true)
	}
	if b.IsNil() && notNillable(a.T) || a.IsNil() && notNillable(b.T) {
		return in.Bool(false) // a value standing for a pointer to it
	}
	if b.IsNil() && a.Op == "lookup" || a.IsNil() && b.Op == "lookup" { // no map of pointers has nil in it
		l := a
		if a.IsNil() {
			l = b
		}
		if _, ok := l.T.(*types.Pointer); ok {
			return in.Not(in.mk("has", "", 0, types.Typ[types.Bool], l.Args...))
		}
	}
	if b.Op == "min" {
		a, b = b, a
	}
	if a.Op == "min" {
		p, q := a.Args[0], a.Args[1]
		if p == b || p.IsInt && b.IsInt && b.I < p.I {
			p, q = q, p
		}
		switch {
		case q == b:
			return in.Le(q, p)
		case q.IsInt && b.IsInt && b.I < q.I:
			return in.Eq(p, b)
		}
	}
	if b.IsInt {
		a, b = b, a
	}
	if a.IsInt && (b.Op == "cmp3" || b.Op == "call" && (b.Aux == "big.Cmp" || b.Aux == "big.Sign")) { // one of -1, 0, 1
		switch {
		case a.I < 0:
			return in.Le(b, a)
		case a.I > 0:
			return in.Le(a, b)
		case b.Op == "cmp3":
			return in.Eq(b.Args[0], b.Args[1])
		}
	}
	if a.IsInt && b.Op == "trunc" && b.Args[0].Op == "lin" { // a number one more or less, that may wrap around
		if l := toLin(b.Args[0]); len(l.m) == 1 && l.c != 0 {
			for u, c := range l.m {
				if w, ok := truncWidth(b.Aux); ok && c == 1 && unsignedTerm(u) && intWidth(u.T.Underlying().(*types.Basic)) == w && w < 63 {
					return in.Eq(u, in.Int((a.I-l.c)&(1<<uint(w)-1)))
				}
			}
		}
	}
	if a.IsInt || b.IsInt || a.Op == "lin" || b.Op == "lin" {
		d := toLin(a).add(toLin(b), -1)
		if len(d.m) == 0 {
			return in.Bool(d.c == 0)
		}
		// canonical sign: smallest id positive
		var min *Term
		for t := range d.m {
			if min == nil || t.ID < min.ID {
				min = t
			}
		}
		if d.m[min] < 0 {
			d = d.scale(-1)
		}
		c := d.c
		d.c = 0
		return in.mk("eq", "", 0, types.Typ[types.Bool], in.fromLin(d, nil), in.Int(-c))
	}
	if a.Op == "agg" && b.Op == "agg" && len(a.Args) == len(b.Args) && structOf(a.T) != nil {
		all := true
		for i := range a.Args {
			switch e := in.Eq(a.Args[i], b.Args[i]); {
			case e.IsFalse():
				return e
			case !e.IsTrue():
				all = false
			}
		}
		if all {
			return in.Bool(true)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	if a.IsConst() {
		a, b = b, a
	}
	return in.mk("eq", "", 0, types.Typ[types.Bool], a, b)
}

func StripIface(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// ---- printing -------------------------------------------------------------------

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.str == "" {
		t.str = t.render()
	}
	return t.str
}

func join(ts []*Term) string {
	ss := make([]string, len(ts))
	for i, a := range ts {
		ss[i] = a.String()
	}
	return strings.Join(ss, ", ")
}

func (t *Term) render() string {
	switch t.Op {
	case "const":
		return t.Aux
	case "param":
		return "$" + t.Aux
	case "sel":
		return t.Args[0].String() + "." + t.Aux
	case "idx":
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "fa":
		return "&" + t.Args[0].String() + "." + t.Aux
	case "ia":
		return "&" + t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "sub":
		return t.Args[0].String() + "[" + t.Args[1].String() + ":" + t.Args[2].String() + "]"
	case "eq":
		return "(" + t.Args[0].String() + " == " + t.Args[1].String() + ")"
	case "not":
		return "!" + t.Args[0].String()
	case "le0":
		return "(" + t.Args[0].String() + " <= 0)"
	case "lin":
		parts := strings.Split(t.Aux, ",")
		var s []string
		for i, a := range t.Args {
			switch parts[i+1] {
			case "1":
				s = append(s, a.String())
			case "-1":
				s = append(s, "-"+a.String())
			default:
				s = append(s, parts[i+1]+"*"+a.String())
			}
		}
		if parts[0] != "0" {
			s = append(s, parts[0])
		}
		return "{" + strings.Join(s, " + ") + "}"
	case "call":
		s := t.Aux + "(" + join(t.Args) + ")"
		if t.N > 0 {
			s += fmt.Sprintf("@%d", t.N)
		}
		return s
	case "ext":
		return t.Args[0].String() + "#" + t.Aux
	case "iface":
		return t.Args[0].String()
	case "agg":
		return t.Aux + "{" + join(t.Args) + "}"
	case "cat":
		return "cat(" + join(t.Args) + ")"
	case "alloc":
		return fmt.Sprintf("new#%d<%s>", t.N, t.Aux)
	case "global":
		return "@" + t.Aux
	case "iter", "loopvar":
		return fmt.Sprintf("%s%d%s", t.Op, t.N, t.Aux)
	}
	s := t.Op
	if t.Aux != "" {
		s += ":" + t.Aux
	}
	if t.N != 0 {
		s += fmt.Sprintf("@%d", t.N)
	}
	if len(t.Args) > 0 {
		s += "(" + join(t.Args) + ")"
	}
	return s
}

// Any reports whether p holds of some subterm of t.
func (t *Term) Any(p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if p(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) Contains(s *Term) bool { return t.Any(func(x *Term) bool { return x == s }) }

// Mk builds an uninterpreted term (used by rules to wrap events).
func (in *Interner) Mk(op, aux string, args ...*Term) *Term { return in.mk(op, aux, 0, nil, args...) }

func notNillable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UntypedNil && u.Kind() != types.UnsafePointer
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// truncWidth: the width of the unsigned type a number is cut to.
func truncWidth(name string) (int, bool) {
	switch name {
	case "uint8", "byte":
		return 8, true
	case "uint16":
		return 16, true
	case "uint32":
		return 32, true
	}
	return 0, false
}
