package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fact struct{ T *Term } // positive form: T is true (negative facts are not(..) terms)

type Event struct {
	Kind     string // call store mapupd append go send loop load bound defer panic
	Name     string
	Args     []*Term // canonical (pointers to local memory replaced by the value stored there)
	Raw      []*Term
	Res      *Term
	NF       int // number of facts known when it happened
	Fn       *ssa.Function
	Callee   *ssa.Function
	Pos      token.Pos
	Loop     *Loop
	Deferred bool
	CB       []*Out  // outcomes of a closure handed to an opaque callee
	CBOut    []*Term // what the captured variables that closure writes hold afterwards
	InLoop   *Loop   // set on events of the generic iteration that exits
}

// Loop is the summary of a loop whose trip count is not a compile-time constant.
type Loop struct {
	ID    int
	Iter  *Term
	Fn    *ssa.Function
	Pos   token.Pos
	Phis  []*Term // loop-carried values at the start of the generic iteration
	Init  []*Term
	Names []string
	Steps []*Step // one per path of the body that reaches the next iteration
	// MemInit: memory changed by the loop, with its value before the loop
	MemInit map[*Term]*Term
}

type Step struct {
	Facts  []*Term
	Events []*Event
	Next   []*Term // value of each phi in the next iteration
	Mem    map[*Term]*Term
	St     *State
}

type State struct {
	store  map[*Term]*Term
	kids   map[*Term][]*Term
	Facts  []*Term
	known  map[*Term]bool
	Events []*Event
	occ    map[string]int
	epoch  int
	nalloc int
	counts [][2]*Term // how often the loops that were left went round
}

// counted writes the number of rounds of loops that were left as what it is known to be.
func (x *Exec) counted(st *State, t *Term) *Term {
	for i := len(st.counts) - 1; i >= 0; i-- {
		t = x.In.Subst(t, st.counts[i][0], st.counts[i][1])
	}
	return t
}

func newState() *State {
	return &State{store: map[*Term]*Term{}, kids: map[*Term][]*Term{}, known: map[*Term]bool{}, occ: map[string]int{}}
}

func (s *State) clone() *State {
	n := &State{store: make(map[*Term]*Term, len(s.store)), kids: make(map[*Term][]*Term, len(s.kids)),
		known: make(map[*Term]bool, len(s.known)), occ: make(map[string]int, len(s.occ)), epoch: s.epoch, nalloc: s.nalloc}
	for k, v := range s.store {
		n.store[k] = v
	}
	for k, v := range s.kids {
		n.kids[k] = v[:len(v):len(v)]
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.occ {
		n.occ[k] = v
	}
	n.Facts = s.Facts[:len(s.Facts):len(s.Facts)]
	n.counts = s.counts[:len(s.counts):len(s.counts)]
	n.Events = s.Events[:len(s.Events):len(s.Events)]
	return n
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func typeName(t types.Type) string { return typeStr(t) }

// ---- value constructors ---------------------------------------------------------

func (in *Interner) Zero(t types.Type) *Term {
	if t == nil {
		return in.mk("zero", "?", 0, nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return in.Int(0)
		case u.Info()&types.IsString != 0:
			return in.Str("")
		case u.Kind() == types.UnsafePointer:
			return in.Nil()
		}
		return in.mk("const", "0.0", 0, t)
	case *types.Struct:
		return in.mk("zero", typeName(t), 0, t)
	case *types.Array:
		elem := typeName(u.Elem())
		if elem == "uint8" {
			elem = "byte"
		}
		return in.mk("zero", "["+strconv.FormatInt(u.Len(), 10)+"]"+elem, 0, t)
	}
	return in.Nil()
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldIdx(s *types.Struct, f string) int {
	for i := 0; i < s.NumFields(); i++ {
		if fname(s.Field(i)) == f {
			return i
		}
	}
	return -1
}

func (in *Interner) Sel(v *Term, f string, ft types.Type) *Term {
	switch v.Op {
	case "iface":
		return in.Sel(v.Args[0], f, ft)
	case "agg":
		if s := structOf(v.T); s != nil {
			if i := fieldIdx(s, f); i >= 0 && i < len(v.Args) {
				return v.Args[i]
			}
		}
	case "zero":
		if s := structOf(v.T); s != nil {
			if i := fieldIdx(s, f); i >= 0 {
				return in.Zero(s.Field(i).Type())
			}
		}
		return in.Zero(ft)
	case "ite":
		return in.Ite(v.Args[0], in.Sel(v.Args[1], f, ft), in.Sel(v.Args[2], f, ft))
	}
	return in.mk("sel", f, 0, ft, v)
}

func (in *Interner) Ite(c, a, b *Term) *Term {
	if a == b || c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a.IsTrue() && b.IsFalse() {
		return c
	}
	if a.IsFalse() && b.IsTrue() {
		return in.Not(c)
	}
	if c.Op == "not" {
		return in.Ite(c.Args[0], b, a)
	}
	return in.mk("ite", "", 0, a.T, c, a, b)
}

// SetField returns v with field f replaced by x.
func (in *Interner) SetField(v *Term, f string, x *Term, st types.Type) *Term {
	s := structOf(st)
	if s == nil {
		return in.mk("setf", f, 0, st, v, x)
	}
	args := make([]*Term, s.NumFields())
	for i := range args {
		if fname(s.Field(i)) == f {
			args[i] = x
		} else {
			args[i] = in.Sel(v, fname(s.Field(i)), s.Field(i).Type())
		}
	}
	return in.mk("agg", typeName(st), 0, st, args...)
}

func arrayLen(t types.Type) (int64, types.Type, bool) {
	if t == nil {
		return 0, nil, false
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if a, ok := u.(*types.Array); ok {
		return a.Len(), a.Elem(), true
	}
	return 0, nil, false
}

// Len of a sequence value.
func (in *Interner) Len(v *Term) *Term {
	switch v.Op {
	case "iface":
		return in.Len(v.Args[0])
	case "cat":
		r := in.Int(0)
		for _, a := range v.Args {
			r = in.Add(r, in.Len(a))
		}
		return r
	case "elem1":
		return in.Int(1)
	case "sub":
		return in.Sub(v.Args[2], v.Args[1])
	case "sref":
		return in.Sub(v.Args[2], v.Args[1])
	case "make":
		return v.Args[0]
	case "call":
		if h, ok := isHex(v); ok {
			return in.MulT(in.Int(2), in.Len(h))
		}
		switch v.Aux { // points of the curve: two or four numbers of 32 bytes
		case "bn256.G1.Marshal":
			return in.Int(64)
		case "bn256.G2.Marshal":
			return in.Int(128)
		}
	case "upd", "copyinto", "fill":
		return in.Len(v.Args[0])
	case "catn":
		return in.Add(in.Len(v.Args[0]), in.MulT(v.Args[2], in.Len(v.Args[1])))
	case "le", "be":
		return in.Int(int64(v.N))
	case "out": // a buffer another function has written into keeps its size
		if c := v.Args[0]; c.Op == "call" && v.T == nil {
			if i, err := strconv.Atoi(v.Aux); err == nil && i < len(c.Args) && c.Args[i].Op == "make" {
				return in.Len(c.Args[i])
			}
		}
	case "const":
		if v.IsNil() {
			return in.Int(0)
		}
		if s, err := strconv.Unquote(v.Aux); err == nil {
			return in.Int(int64(len(s)))
		}
	case "ite":
		return in.Ite(v.Args[0], in.Len(v.Args[1]), in.Len(v.Args[2]))
	case "agg":
		if n, _, ok := arrayLen(v.T); ok {
			return in.Int(n)
		}
	}
	if n, _, ok := arrayLen(v.T); ok {
		return in.Int(n)
	}
	return in.mk("len", "", 0, types.Typ[types.Int], v)
}

func (in *Interner) MulT(a, b *Term) *Term {
	if a.IsInt {
		return in.fromLin(toLin(b).scale(a.I), b.T)
	}
	if b.IsInt {
		return in.fromLin(toLin(a).scale(b.I), a.T)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return in.mk("mul", "", 0, a.T, a, b)
}

// Idx is element i of sequence value v.
func (in *Interner) Idx(v, i *Term, et types.Type) *Term {
	switch v.Op {
	case "iface":
		return in.Idx(v.Args[0], i, et)
	case "zero":
		return in.Zero(et)
	case "le", "be": // the bytes of a known number
		if a := v.Args[0]; a.IsInt && i.IsInt && i.I >= 0 && i.I < int64(v.N) {
			k := i.I
			if v.Op == "be" {
				k = int64(v.N) - 1 - k
			}
			if k > 7 {
				k = 7
			}
			return in.Int(a.I >> uint(8*k) & 0xff)
		}
	case "make":
		return in.Zero(et)
	case "sub":
		return in.Idx(v.Args[0], in.Add(v.Args[1], i), et)
	case "elem1":
		if i.IsInt && i.I == 0 {
			return v.Args[0]
		}
	case "agg":
		if i.IsInt && i.I >= 0 && int(i.I) < len(v.Args) {
			return v.Args[i.I]
		}
	case "cat":
		off := in.Int(0)
		for _, a := range v.Args {
			l := in.Len(a)
			rel := in.Sub(i, off)
			if !rel.IsInt {
				// symbolic offset common to both?
				d := in.Sub(rel, l)
				if d.IsInt && d.I >= 0 {
					off = in.Add(off, l)
					continue
				}
				break
			}
			if !l.IsInt {
				if rel.I < 0 {
					break
				}
				break
			}
			if rel.I >= 0 && rel.I < l.I {
				return in.Idx(a, rel, et)
			}
			off = in.Add(off, l)
		}
	case "upd":
		if v.Args[1] == i {
			return v.Args[2]
		}
		if d := in.Sub(v.Args[1], i); d.IsInt && d.I != 0 {
			return in.Idx(v.Args[0], i, et)
		}
	case "copyinto": // copyinto(prev, lo, src)
		rel := in.Sub(i, v.Args[1])
		l := in.Len(v.Args[2])
		if rel.IsInt {
			if rel.I < 0 {
				return in.Idx(v.Args[0], i, et)
			}
			if l.IsInt {
				if rel.I < l.I {
					return in.Idx(v.Args[2], rel, et)
				}
				return in.Idx(v.Args[0], i, et)
			}
		}
		if d := in.Sub(rel, l); d.IsInt && d.I >= 0 {
			return in.Idx(v.Args[0], i, et)
		}
	case "fill": // fill(init, start, template, count) over iteration v.N
		start, tmpl, cnt := v.Args[1], v.Args[2], v.Args[3]
		k := in.Sub(i, start)
		full := start.IsInt && start.I == 0 && in.Sub(cnt, in.Len(v.Args[0])).IsInt && in.Sub(cnt, in.Len(v.Args[0])).I == 0
		d := in.Sub(k, cnt)
		if full || (d.IsInt && d.I < 0) {
			return in.Subst(tmpl, in.mk("iter", "", v.N, nil), k)
		}
	case "catn": // catn(init, template, count): init ++ template[0] ++ ... ++ template[count-1]
		l0 := in.Len(v.Args[0])
		lt := in.Len(v.Args[1])
		if lt.IsInt && lt.I == 1 {
			k := in.Sub(i, l0)
			if !(k.IsInt && k.I < 0) {
				return in.Idx(in.Subst(v.Args[1], in.mk("iter", "", v.N, nil), k), in.Int(0), et)
			}
		}
	case "const":
		if s, err := strconv.Unquote(v.Aux); err == nil && i.IsInt && i.I >= 0 && int(i.I) < len(s) {
			return in.Int(int64(s[i.I]))
		}
	case "ite":
		return in.Ite(v.Args[0], in.Idx(v.Args[1], i, et), in.Idx(v.Args[2], i, et))
	}
	return in.mk("idx", "", 0, et, v, i)
}

// SubSeq is v[lo:hi].
func (in *Interner) SubSeq(v, lo, hi *Term, t types.Type) *Term {
	if v.Op == "iface" {
		v = v.Args[0]
	}
	l := in.Len(v)
	if lo.IsInt && lo.I == 0 && hi == l {
		return v
	}
	if d := in.Sub(hi, lo); d.IsInt && d.I == 0 {
		return in.mk("cat", "", 0, t)
	}
	switch v.Op {
	case "sub":
		return in.SubSeq(v.Args[0], in.Add(v.Args[1], lo), in.Add(v.Args[1], hi), t)
	case "zero":
		if lo.IsInt && hi.IsInt {
			if _, et, ok := arrayLen(v.T); ok {
				return in.Zero(types.NewArray(et, hi.I-lo.I))
			}
		}
	case "cat":
		// find segment boundaries matching lo and hi exactly or inside one segment
		off := in.Int(0)
		var out []*Term
		state := 0
		for _, a := range v.Args {
			al := in.Len(a)
			end := in.Add(off, al)
			if state == 0 {
				d := in.Sub(lo, off)
				if d.IsInt && d.I >= 0 && (al.IsInt && d.I < al.I || !al.IsInt && d.I == 0) {
					state = 1
					e := in.Sub(hi, end)
					if e.IsInt && e.I <= 0 {
						return in.SubSeq(a, d, in.Sub(hi, off), t)
					}
					out = append(out, in.SubSeq(a, d, al, t))
				}
			} else {
				e := in.Sub(hi, end)
				if e.IsInt && e.I <= 0 {
					out = append(out, in.SubSeq(a, in.Int(0), in.Sub(hi, off), t))
					state = 2
					break
				}
				out = append(out, a)
			}
			off = end
			if state == 2 {
				break
			}
		}
		if state == 2 || (state == 1 && hi == l) {
			return in.Cat(t, out...)
		}
	case "copyinto":
		if lo == v.Args[1] && in.Sub(in.Sub(hi, lo), in.Len(v.Args[2])) == in.Int(0) {
			return v.Args[2]
		}
		if d := in.Sub(in.Add(v.Args[1], in.Len(v.Args[2])), lo); d.IsInt && d.I <= 0 {
			return in.SubSeq(v.Args[0], lo, hi, t)
		}
		if d := in.Sub(hi, v.Args[1]); d.IsInt && d.I <= 0 {
			return in.SubSeq(v.Args[0], lo, hi, t)
		}
	case "upd": // of an element that is left out
		if d := in.Sub(hi, v.Args[1]); d.IsInt && d.I <= 0 {
			return in.SubSeq(v.Args[0], lo, hi, t)
		}
	case "agg":
		if lo.IsInt && hi.IsInt && lo.I >= 0 && hi.I <= int64(len(v.Args)) && lo.I <= hi.I {
			es := make([]*Term, 0)
			for k := lo.I; k < hi.I; k++ {
				es = append(es, v.Args[k])
			}
			return in.Seq(es, nil)
		}
	case "const":
		if s, err := strconv.Unquote(v.Aux); err == nil && lo.IsInt && hi.IsInt && lo.I >= 0 && hi.I <= int64(len(s)) && lo.I <= hi.I {
			return in.Str(s[lo.I:hi.I])
		}
	}
	return in.mk("sub", "", 0, t, v, lo, hi)
}

func (in *Interner) Elem1(v *Term) *Term {
	return in.mk("elem1", "", 0, nil, v)
}

// Cat concatenates sequence values and normalises adjacent segments.
func (in *Interner) Cat(t types.Type, parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		p = StripIface(p)
		if p.Op == "cat" {
			for _, a := range p.Args {
				add(a)
			}
			return
		}
		if p.IsNil() || p.Aux == `""` && p.Op == "const" {
			return
		}
		if p.Op == "make" && p.Args[0].IsInt && p.Args[0].I == 0 {
			return
		}
		if p.Op == "zero" {
			if n, _, ok := arrayLen(p.T); ok && n == 0 {
				return
			}
		}
		if len(out) > 0 {
			q := out[len(out)-1]
			// merge x[a:b] x[b:c]
			if qs, qlo, qhi, ok := asSub(in, q); ok {
				if ps, plo, phi, ok2 := asSub(in, p); ok2 && ps == qs && qhi == plo {
					out[len(out)-1] = in.SubSeq(ps, qlo, phi, p.T)
					return
				}
			}
			// merge constants
			if qc, ok := constBytes(q); ok {
				if pc, ok := constBytes(p); ok {
					out[len(out)-1] = in.constSeq(qc + pc)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	out = in.numbers(out)
	if len(out) == 1 && out[0].Op != "elem1" {
		return out[0]
	}
	return in.mk("cat", "", 0, t, out...)
}

// numbers replaces the bytes of a number written one by one.
func (in *Interner) numbers(ps []*Term) []*Term {
	for i := 0; i+1 < len(ps); i++ {
		v, k := byteOf(ps[i])
		if v == nil || v.T == nil {
			continue
		}
		bt, ok := v.T.Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsUnsigned == 0 {
			continue
		}
		w := intWidth(bt) / 8
		if w < 2 || i+w > len(ps) || k != 0 && k != w-1 {
			continue
		}
		all := true
		for j := 0; j < w && all; j++ {
			u, q := byteOf(ps[i+j])
			all = u == v && (k == 0 && q == j || k != 0 && q == w-1-j)
		}
		if all {
			op := "le"
			if k != 0 {
				op = "be"
			}
			n := append(append([]*Term{}, ps[:i]...), in.numBytes(op, int64(w), v))
			ps = append(n, ps[i+w:]...)
		}
	}
	return ps
}

// byteOf: p is byte k of v, counted from the lowest.
func byteOf(p *Term) (v *Term, k int) {
	if p.Op != "elem1" || p.Args[0].Op != "trunc" || p.Args[0].Aux != "byte" && p.Args[0].Aux != "uint8" {
		return nil, 0
	}
	v = p.Args[0].Args[0]
	if v.Op == "bin" && v.Aux == ">>" && v.Args[1].IsInt && v.Args[1].I%8 == 0 {
		return v.Args[0], int(v.Args[1].I / 8)
	}
	return v, 0
}

func (in *Interner) constSeq(s string) *Term {
	x := in.mk("const", strconv.Quote(s), 0, nil)
	return x
}

func constBytes(t *Term) (string, bool) {
	if t.Op == "const" && !t.IsInt && len(t.Aux) > 0 && t.Aux[0] == '"' {
		s, err := strconv.Unquote(t.Aux)
		return s, err == nil
	}
	if t.Op == "elem1" && t.Args[0].IsInt && t.Args[0].I >= 0 && t.Args[0].I < 256 {
		return string([]byte{byte(t.Args[0].I)}), true
	}
	if t.Op == "zero" {
		if n, et, ok := arrayLen(t.T); ok && n <= 512 {
			if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return string(make([]byte, n)), true
			}
		}
	}
	return "", false
}

func asSub(in *Interner, t *Term) (x, lo, hi *Term, ok bool) {
	if t.Op == "sub" {
		return t.Args[0], t.Args[1], t.Args[2], true
	}
	if t.Op == "elem1" && t.Args[0].Op == "idx" {
		return t.Args[0].Args[0], t.Args[0].Args[1], in.AddC(t.Args[0].Args[1], 1), true
	}
	return nil, nil, nil, false
}

// Seq builds a sequence value out of single elements.
func (in *Interner) Seq(es []*Term, t types.Type) *Term {
	parts := make([]*Term, len(es))
	for i, e := range es {
		parts[i] = in.Elem1(e)
	}
	return in.Cat(t, parts...)
}

// Subst replaces from by to everywhere in t, re-normalising.
func (in *Interner) Subst(t, from, to *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if x == from {
			return to
		}
		if len(x.Args) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		args := make([]*Term, len(x.Args))
		ch := false
		for i, a := range x.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = in.Rebuild(x, args)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

// Rebuild re-applies x's operator to new arguments.
func (in *Interner) Rebuild(x *Term, a []*Term) *Term {
	switch x.Op {
	case "lin":
		l := toLin(x)
		r := linear{c: l.c, m: map[*Term]int64{}}
		for i, o := range x.Args {
			r = r.add(toLin(a[i]), l.m[o])
		}
		return in.fromLin(r, x.T)
	case "le0":
		return in.Le0(a[0])
	case "eq":
		return in.Eq(a[0], a[1])
	case "not":
		return in.Not(a[0])
	case "sel":
		return in.Sel(a[0], x.Aux, x.T)
	case "idx":
		return in.Idx(a[0], a[1], x.T)
	case "sub":
		return in.SubSeq(a[0], a[1], a[2], x.T)
	case "cat":
		return in.Cat(x.T, a...)
	case "len":
		return in.Len(a[0])
	case "ite":
		return in.Ite(a[0], a[1], a[2])
	case "mul":
		return in.MulT(a[0], a[1])
	}
	r := in.mk(x.Op, x.Aux, x.N, x.T, a...)
	r.Fn = x.Fn
	return r
}

// ---- memory ---------------------------------------------------------------------

func (x *Exec) fieldAddr(base *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	return x.In.mk("fa", fname(f), 0, types.NewPointer(f.Type()), StripIface(base))
}

func (x *Exec) indexAddr(base, idx *Term, et types.Type) *Term {
	base = StripIface(base)
	switch base.Op {
	case "sref":
		return x.indexAddr(base.Args[0], x.In.Add(base.Args[1], idx), et)
	case "sub":
		return x.indexAddr(base.Args[0], x.In.Add(base.Args[1], idx), et)
	}
	return x.In.mk("ia", "", 0, types.NewPointer(et), base, idx)
}

func (x *Exec) whole(st *State, loc *Term) *Term {
	if v, ok := st.store[loc]; ok {
		return v
	}
	in := x.In
	switch loc.Op {
	case "fa":
		return in.Sel(x.whole(st, loc.Args[0]), loc.Aux, deref(loc.T))
	case "ia":
		return in.Idx(x.whole(st, loc.Args[0]), loc.Args[1], deref(loc.T))
	case "alloc":
		return in.Zero(deref(loc.T))
	case "global":
		if x.P.zeroGlobals[loc.Aux] {
			return in.Zero(deref(loc.T))
		}
		if v := x.constGlobal(loc); v != nil {
			return v
		}
		if t := x.P.tables[loc.Aux]; t != nil {
			if v := x.tableTerm(loc.Aux); v != nil {
				if _, sl := deref(loc.T).Underlying().(*types.Slice); sl {
					return in.mk("sref", "", 0, deref(loc.T), in.mk("global", loc.Aux+"#", 0, types.NewPointer(types.NewArray(t.et, t.n))), in.Int(0), in.Int(t.n))
				}
				if t.arr != nil {
					return v
				}
			}
		}
		if n := strings.TrimSuffix(loc.Aux, "#"); n != loc.Aux {
			return x.tableTerm(n)
		}
		return in.mk("gval", loc.Aux, 0, deref(loc.T))
	}
	return loc
}

// Read is the value at loc in st.
func (x *Exec) Read(st *State, loc *Term) *Term { return x.read(st, loc) }

func (x *Exec) read(st *State, loc *Term) *Term {
	kids := st.kids[loc]
	if len(kids) == 0 {
		return x.whole(st, loc)
	}
	in := x.In
	t := deref(loc.T)
	if s := structOf(t); s != nil {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = x.read(st, x.fieldAddr(loc, s, i))
		}
		return in.mk("agg", typeName(t), 0, t, args...)
	}
	if n, et, ok := arrayLen(t); ok && n <= 1024 {
		es := make([]*Term, n)
		for i := range es {
			es[i] = x.read(st, x.indexAddr(loc, in.Int(int64(i)), et))
		}
		return x.aggArray(t, et, es)
	}
	// slice object with constant-index overlays
	v := x.whole(st, loc)
	for _, k := range kids {
		if k.Op == "ia" {
			v = in.mk("upd", "", 0, v.T, v, k.Args[1], x.read(st, k))
		} else if k.Op == "fa" {
			v = in.mk("setf", k.Aux, 0, v.T, v, x.read(st, k))
		}
	}
	return v
}

func (x *Exec) aggArray(t, et types.Type, es []*Term) *Term {
	in := x.In
	v := in.Seq(es, t)
	if v.Op == "cat" && v.T == nil {
		v.T = t
	}
	return v
}

func (x *Exec) nonConstIdx(loc *Term) bool {
	for {
		switch loc.Op {
		case "ia":
			if !loc.Args[1].IsInt {
				return true
			}
			loc = loc.Args[0]
		case "fa":
			loc = loc.Args[0]
		default:
			return false
		}
	}
}

func (x *Exec) dropKids(st *State, loc *Term) {
	for _, k := range st.kids[loc] {
		x.dropKids(st, k)
		delete(st.store, k)
	}
	delete(st.kids, loc)
}

func (x *Exec) write(st *State, loc, v *Term) {
	in := x.In
	loc = StripIface(loc)
	if x.nonConstIdx(loc) {
		switch loc.Op {
		case "ia":
			cur := x.read(st, loc.Args[0])
			if cur.Op == "upd" && cur.Args[1] == loc.Args[1] {
				cur = cur.Args[0]
			}
			x.write(st, loc.Args[0], in.mk("upd", "", 0, cur.T, cur, loc.Args[1], v))
			return
		case "fa":
			p := loc.Args[0]
			cur := x.read(st, p)
			pt := deref(p.T)
			if pt == nil {
				pt = cur.T
				if d := deref(pt); d != nil {
					pt = d
				}
			}
			x.write(st, p, in.SetField(cur, loc.Aux, v, pt))
			return
		}
	}
	x.dropKids(st, loc)
	st.store[loc] = v
	c := loc
	for c.Op == "fa" || c.Op == "ia" {
		p := c.Args[0]
		found := false
		for _, k := range st.kids[p] {
			if k == c {
				found = true
				break
			}
		}
		if found {
			break
		}
		st.kids[p] = append(st.kids[p], c)
		c = p
	}
}

// rootOf returns the object a location or reference is rooted at.
func rootOf(loc *Term) *Term {
	for {
		switch loc.Op {
		case "fa", "ia", "iface", "sref":
			loc = loc.Args[0]
		case "sub":
			loc = loc.Args[0]
		default:
			return loc
		}
	}
}

func isLocal(loc *Term) bool { return rootOf(loc).Op == "alloc" }

// canon replaces references to local memory by the values stored there.
func (x *Exec) canon(st *State, t *Term) *Term { return x.canonD(st, t, 0) }

// mapVal is the content of a local map all of whose keys are constants.
func (x *Exec) mapVal(st *State, t *Term, d int) *Term {
	cur, ok := st.store[t]
	if !ok || !isLocal(t) {
		return t
	}
	vals := map[*Term]*Term{}
	var keys []*Term
	for ; cur.Op == "mput"; cur = cur.Args[0] {
		if cur.Args[1].Op != "const" {
			return t
		}
		if vals[cur.Args[1]] == nil {
			vals[cur.Args[1]] = x.canonD(st, cur.Args[2], d+1)
			keys = append(keys, cur.Args[1])
		}
	}
	if cur.Op != "mempty" || len(keys) == 0 {
		return t
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Aux < keys[j].Aux })
	var args []*Term
	for _, k := range keys {
		args = append(args, k, vals[k])
	}
	return x.In.mk("mapval", "", 0, t.T, args...)
}

// isSymbol: t stands for what was there on entry.
func isSymbol(t *Term) bool {
	switch t.Op {
	case "param", "global", "gval":
		return true
	}
	return false
}

func (x *Exec) canonD(st *State, t *Term, d int) *Term {
	if d > 12 {
		return t
	}
	in := x.In
	switch t.Op {
	case "iface":
		return x.canonD(st, t.Args[0], d)
	case "alloc", "fa", "ia":
		if t.Op == "alloc" && t.Aux == "map" {
			return x.mapVal(st, t, d)
		}
		if t.Op == "alloc" && t.Aux == "chan" {
			return t
		}
		v := x.read(st, t)
		if v == t {
			return t
		}
		return x.canonD(st, v, d+1)
	case "sref":
		v := x.read(st, t.Args[0])
		v = x.canonD(st, v, d+1)
		return in.SubSeq(v, t.Args[1], t.Args[2], t.T)
	case "const", "param", "global", "zero", "gval", "iter", "loopvar":
		if v, ok := st.store[t]; ok && t.Op != "const" {
			return v
		}
		return t
	case "closure":
		r := in.mk("closure", t.Aux, 0, t.T)
		r.Fn = t.Fn
		return r
	case "agg", "cat", "elem1", "sub", "upd", "tuple", "idx", "sel", "fill", "copyinto", "ite", "catn":
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = a
			if (t.Op == "idx" || t.Op == "sel") && i == 0 && isSymbol(a) {
				continue // what was read is a value, and stays what it was
			}
			args[i] = x.canonD(st, a, d+1)
			if args[i] != a {
				ch = true
			}
		}
		if t.Op == "fill" { // element by element, from the first to the last
			if a := args[2]; a.Op == "idx" && a.Args[1].Op == "iter" && a.Args[1].N == t.N && !a.Args[0].Contains(a.Args[1]) && args[1].IsInt && args[1].I == 0 {
				c := x.counted(st, args[3])
				if l := in.Len(args[0]); x.Decide(st, in.Eq(c, l)) == 1 && x.Decide(st, in.Eq(c, in.Len(a.Args[0]))) == 1 {
					return a.Args[0]
				}
			}
		}
		if ch {
			return in.Rebuild(t, args)
		}
	}
	if len(st.kids[t]) > 0 && t.Op != "sel" || st.store[t] != nil {
		// opaque slice or array with known writes
		if _, isSlice := underSlice(t.T); isSlice {
			return x.read(st, t)
		}
	}
	return t
}

func underSlice(t types.Type) (*types.Slice, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Slice)
	return s, ok
}

// ---- facts ----------------------------------------------------------------------

func (x *Exec) nonNil(st *State, t *Term) bool {
	t0 := t
	t = StripIface(t)
	if t0.Op == "iface" && t.Op != "const" {
		if _, isptr := t.T.(*types.Pointer); !isptr || t.T == nil {
			return true
		}
	}
	switch t.Op {
	case "alloc", "closure", "func", "agg", "global", "make", "sref", "fa", "ia":
		return true
	case "const":
		return !t.IsNil()
	case "gval":
		return x.P.errGlobals[t.Aux]
	case "cat":
		return len(t.Args) > 0
	case "call":
		switch t.Aux {
		case "fmt.Errorf", "errors.New":
			return true
		}
		return t.Fn != nil && x.P.nonNilResult(t.Fn, 0)
	case "ext":
		c := t.Args[0]
		if c.Op != "call" || c.Fn == nil {
			return false
		}
		n := c.Fn.Signature.Results().Len()
		if n != 2 || t.Aux != "0" || !isErrType(c.Fn.Signature.Results().At(1).Type()) {
			return false
		}
		for _, f := range st.Facts {
			if f.Op == "eq" && f.Args[1].IsNil() && f.Args[0].Op == "ext" && f.Args[0].Aux == "1" && f.Args[0].Args[0] == c {
				return x.P.nonNilResult(c.Fn, 0)
			}
		}
	case "elem1":
		return true
	}
	return false
}

func isErrType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// nonNilResult: result i of fn is a pointer to something whenever fn does not fail.
func (p *Program) nonNilResult(fn *ssa.Function, i int) bool {
	if v, ok := p.nonNilRes[fn]; ok || len(fn.Blocks) == 0 {
		return v
	}
	if p.nonNilRes == nil {
		p.nonNilRes = map[*ssa.Function]bool{}
	}
	p.nonNilRes[fn] = false
	res := fn.Signature.Results()
	if _, ok := res.At(i).Type().Underlying().(*types.Pointer); !ok || fn.Recover != nil {
		return false
	}
	fails := res.Len() > 1 && isErrType(res.At(res.Len()-1).Type())
	var ok func(v ssa.Value, depth int) bool
	ok = func(v ssa.Value, depth int) bool {
		switch v := v.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			return true
		case *ssa.Phi:
			for _, e := range v.Edges {
				if depth > 3 || !ok(e, depth+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			f := v.Call.StaticCallee()
			return f != nil && f.Signature.Results().Len() == 1 && p.nonNilResult(f, 0)
		case *ssa.Extract:
			c, isc := v.Tuple.(*ssa.Call)
			if !isc || v.Index != 0 {
				return false
			}
			f := c.Call.StaticCallee()
			if f == nil || f.Signature.Results().Len() != 2 || !p.nonNilResult(f, 0) {
				return false
			}
			for _, r := range *c.Referrers() { // and its error is looked at
				if e, ise := r.(*ssa.Extract); ise && e.Index == 1 && isErrType(e.Type()) && len(*e.Referrers()) > 0 {
					return true
				}
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		r, isr := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isr {
			continue
		}
		if c, isc := r.Results[i].(*ssa.Const); isc && c.IsNil() && fails {
			if e, isc := r.Results[len(r.Results)-1].(*ssa.Const); !isc || !e.IsNil() {
				continue
			}
		}
		if !ok(r.Results[i], 0) {
			return false
		}
	}
	p.nonNilRes[fn] = true
	return true
}

// sentinel: t is an error variable set once (two different ones are never equal).
func (x *Exec) sentinel(t *Term) bool { return t.Op == "gval" && x.P.errGlobals[t.Aux] }

// staticLen is the length of a byte sequence when it is the same on every path.
func (x *Exec) staticLen(t *Term) int {
	if t.Op == "gval" {
		if n, ok := x.P.globalLen[t.Aux]; ok {
			return n
		}
	}
	if t.T != nil {
		if n, _, ok := arrayLen(t.T); ok {
			return int(n)
		}
	}
	return -1
}

// Decide folds cond using the facts of st: 1 true, -1 false, 0 unknown.
// eqParts: equality from that of the whole or of all parts.
func (x *Exec) eqParts(st *State, a, b *Term) int {
	in := x.In
	if a.Op == b.Op && (a.Op == "idx" && a.Args[1] == b.Args[1] || a.Op == "sel" && a.Aux == b.Aux) {
		p, q := a.Args[0], b.Args[0]
		if p != q && (st.known[in.Eq(p, q)] || x.eqParts(st, p, q) == 1) {
			return 1
		}
	}
	var n int64
	var et types.Type
	if isSeq := func(t *Term) bool {
		return t.Op == "sub" || t.Op == "cat" || t.Op == "fit" || t.Op == "const" && strings.HasPrefix(t.Aux, "\"")
	}; isSeq(a) || isSeq(b) {
		l := in.Len(a)
		if !l.IsInt || l.I == 0 || l.I > 8 || in.Len(b) != l {
			return 0
		}
		n, et = l.I, types.Typ[types.Uint8]
	} else {
		if a.T == nil || b.T == nil {
			return 0
		}
		var ok, ok2 bool
		var m int64
		n, et, ok = arrayLen(a.T)
		m, _, ok2 = arrayLen(b.T)
		if !ok || !ok2 || n != m || n > 8 {
			return 0
		}
	}
	all := 1
	for i := int64(0); i < n; i++ {
		e := in.Eq(in.Idx(a, in.Int(i), et), in.Idx(b, in.Int(i), et))
		switch {
		case e.IsTrue() || st.known[e]:
		case e.IsFalse() || st.known[in.Not(e)]:
			return -1
		default:
			all = 0
		}
	}
	return all
}

func (x *Exec) Decide(st *State, c *Term) int {
	in := x.In
	switch {
	case c.IsTrue():
		return 1
	case c.IsFalse():
		return -1
	}
	if st.known[c] {
		return 1
	}
	if st.known[in.Not(c)] {
		return -1
	}
	switch c.Op {
	case "not":
		return -x.Decide(st, c.Args[0])
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if m, ok := oneBit(a); ok && b.IsInt { // one bit of a number is 0 or the bit
			switch b.I {
			case 0:
				if st.known[in.Eq(a, in.Int(m))] {
					return -1
				}
				if st.known[in.Not(in.Eq(a, in.Int(m)))] {
					return 1
				}
			case m:
				if st.known[in.Eq(a, in.Int(0))] {
					return -1
				}
				if st.known[in.Not(in.Eq(a, in.Int(0)))] {
					return 1
				}
			default:
				return -1
			}
		}
		if a.Op == "agg" && b.Op == "agg" && len(a.Args) == len(b.Args) {
			all := 1
			for i := range a.Args {
				d := x.Decide(st, in.Eq(a.Args[i], b.Args[i]))
				if d < 0 {
					return -1
				}
				all = min(all, d)
			}
			return all
		}
		if d := x.eqParts(st, a, b); d != 0 {
			return d
		}
		if b.IsNil() {
			if x.nonNil(st, a) {
				return -1
			}
			for _, f := range st.Facts {
				if f.Op == "eq" && !f.Args[1].IsNil() {
					if f.Args[0] == a && x.nonNil(st, f.Args[1]) || f.Args[1] == a && x.nonNil(st, f.Args[0]) {
						return -1
					}
				}
			}
			return 0
		}
		if sa, sb := x.sentinel(a), x.sentinel(b); sa || sb {
			if sa && sb {
				return -1
			}
			v, s := a, b
			if sa {
				v, s = b, a
			}
			if v.Op == "call" && (v.Aux == "fmt.Errorf" || v.Aux == "errors.New") {
				return -1
			}
			for _, f := range st.Facts {
				if f.Op == "eq" {
					o := f.Args[1]
					if o == v {
						o = f.Args[0]
					} else if f.Args[0] != v {
						continue
					}
					if o.IsNil() || o != s && x.sentinel(o) {
						return -1
					}
				}
			}
			return 0
		}
		if la, lb := x.staticLen(a), x.staticLen(b); la >= 0 && lb >= 0 && la != lb {
			return -1
		}
		if b.IsConst() {
			for _, f := range st.Facts {
				if f.Op == "eq" && f.Args[0] == a && f.Args[1].IsConst() && f.Args[1] != b {
					return -1
				}
			}
		}
		if b.IsInt || isIntTerm(a) && isIntTerm(b) {
			d := toLin(in.Sub(a, b))
			nd := d.scale(-1)
			if x.lowUp(st, d) && x.lowUp(st, nd) {
				return 1
			}
			if x.lowUp(st, d.add(linear{c: 1}, 1)) || x.lowUp(st, nd.add(linear{c: 1}, 1)) {
				return -1
			}
		}
	case "le0":
		l := toLin(c.Args[0])
		if x.lowUp(st, l) {
			return 1
		}
		nl := l.scale(-1).add(linear{c: 1}, 1)
		if x.lowUp(st, nl) {
			return -1
		}
	}
	return 0
}

func isIntTerm(t *Term) bool {
	return t.IsInt || t.Op == "lin" || t.Op == "iter" || t.Op == "len" || t.T != nil && isIntType(t.T)
}

// nonNegTerm lists terms that are never negative.
func nonNegTerm(t *Term) bool {
	if t.Op == "len" || t.Op == "iter" || t.NonNeg {
		return true
	}
	if t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && t.Op != "lin" {
			return true
		}
	}
	return false
}

// lowUp: is l <= 0 implied by one fact (plus non-negativity of lengths)?
func (x *Exec) lowUp(st *State, l linear) bool {
	ok := func(d linear) bool {
		// d <= 0 using only signs
		if d.c > 0 {
			return false
		}
		for t, c := range d.m {
			if !(c < 0 && nonNegTerm(t)) {
				if c > 0 && t.T != nil {
					if b, isb := t.T.Underlying().(*types.Basic); isb && b.Kind() == types.Uint8 && t.Op != "lin" {
						d.c += 255 * c
						if d.c <= 0 {
							continue
						}
					}
				}
				return false
			}
		}
		return true
	}
	if ok(l) {
		return true
	}
	for _, f := range st.Facts {
		if f.Op == "le0" {
			m := toLin(f.Args[0])
			if ok(l.add(m, -1)) {
				return true
			}
		}
		if f.Op == "not" && f.Args[0].Op == "eq" && f.Args[0].Args[0].Op == "len" && f.Args[0].Args[1].IsInt && f.Args[0].Args[1].I == 0 {
			if ok(l.add(linear{c: 1, m: map[*Term]int64{f.Args[0].Args[0]: -1}}, -1)) {
				return true
			}
		}
		if f.Op == "eq" && (f.Args[1].IsInt) {
			m := toLin(f.Args[0]).add(toLin(f.Args[1]), -1)
			if ok(l.add(m, -1)) || ok(l.add(m, 1)) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) assume(st *State, c *Term) {
	if c.IsConst() || st.known[c] {
		return
	}
	st.known[c] = true
	st.Facts = append(st.Facts[:len(st.Facts):len(st.Facts)], c)
	if c.Op == "call" && len(c.Args) == 2 && (c.Aux == "bytes.HasPrefix" || c.Aux == "strings.HasPrefix") {
		n := x.In.Len(c.Args[1])
		x.assume(st, x.In.Le(n, x.In.Len(c.Args[0])))
		x.assume(st, x.In.Eq(x.In.SubSeq(c.Args[0], x.In.Int(0), n, c.Args[0].T), c.Args[1]))
	}
	q := c
	if c.Op == "not" {
		q = c.Args[0]
	}
	if q.Op == "eq" { // of a whole sequence, written as a slice of it
		for i, a := range q.Args {
			if a.Op == "sub" && a.Args[1] == x.In.Int(0) && a.Args[0].Op != "sub" && st.known[x.In.Eq(x.In.Len(a.Args[0]), a.Args[2])] {
				if w := x.In.Eq(a.Args[0], q.Args[1-i]); c == q {
					x.assume(st, w)
				} else {
					x.assume(st, x.In.Not(w))
				}
			}
		}
	}
	if c.Op == "eq" && c.Args[0].Op == "agg" && c.Args[1].Op == "agg" && len(c.Args[0].Args) == len(c.Args[1].Args) {
		for i := range c.Args[0].Args {
			if e := x.In.Eq(c.Args[0].Args[i], c.Args[1].Args[i]); !e.IsFalse() {
				x.assume(st, e)
			}
		}
	}
}

func (x *Exec) newAlloc(st *State, kind string, t types.Type) *Term {
	st.nalloc++
	return x.In.mk("alloc", kind, st.nalloc, t)
}

func (x *Exec) emit(st *State, e *Event) {
	e.NF = len(st.Facts)
	st.Events = append(st.Events[:len(st.Events):len(st.Events)], e)
}

var _ = fmt.Sprint

// oneBit: t is x & m for a single bit m.
func oneBit(t *Term) (int64, bool) {
	if t.Op != "bin" || t.Aux != "&" {
		return 0, false
	}
	for _, a := range t.Args {
		if a.IsInt && a.I > 0 && a.I&(a.I-1) == 0 {
			return a.I, true
		}
	}
	return 0, false
}
