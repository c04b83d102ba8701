package rules

import "verif/checker/eng"

// fold computes t for given values of its leaves (constant folding): numbers are int64,
// truth values 0 and 1.
func (f *F) fold(t *Term, leaf func(*Term) (int64, bool)) (int64, bool) {
	b2i := func(b bool) int64 {
		if b {
			return 1
		}
		return 0
	}
	if v, ok := leaf(t); ok {
		return v, true
	}
	switch {
	case t.IsInt:
		return t.I, true
	case t.IsTrue():
		return 1, true
	case t.IsFalse():
		return 0, true
	}
	var as []int64
	if t.Op != "lin" {
		for _, a := range t.Args {
			v, ok := f.fold(a, leaf)
			if !ok {
				return 0, false
			}
			as = append(as, v)
		}
	}
	switch t.Op {
	case "lin":
		c, m := eng.LinParts(t)
		for x, k := range m {
			v, ok := f.fold(x, leaf)
			if !ok {
				return 0, false
			}
			c += k * v
		}
		return c, true
	case "conv":
		return as[0], len(as) == 1
	case "mul":
		return as[0] * as[1], true
	case "not":
		return 1 - as[0], true
	case "eq":
		return b2i(as[0] == as[1]), true
	case "le0":
		return b2i(as[0] <= 0), true
	case "ite":
		if as[0] != 0 {
			return as[1], true
		}
		return as[2], true
	case "trunc":
		switch t.Aux {
		case "uint8", "byte":
			return as[0] & 0xff, true
		case "uint16":
			return as[0] & 0xffff, true
		case "uint32":
			return as[0] & 0xffffffff, true
		}
		return as[0], true
	case "bin":
		a, b := as[0], as[1]
		switch t.Aux {
		case "&":
			return a & b, true
		case "|":
			return a | b, true
		case "^":
			return a ^ b, true
		case "&^":
			return a &^ b, true
		case "<<":
			return a << uint(b), b >= 0 && b < 63
		case ">>":
			return a >> uint(b), b >= 0
		case "/":
			if b != 0 {
				return a / b, true
			}
		case "%":
			if b != 0 {
				return a % b, true
			}
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		}
	}
	return 0, false
}

// pathAt: the path classes whose facts all hold for the given values; ok is false when a
// fact cannot be folded.
func (f *F) pathAt(leaf func(*Term) (int64, bool)) (r []*eng.Out, ok bool) {
	for _, o := range f.Outs {
		all := true
		for _, c := range o.St.Facts {
			v, y := f.fold(c, leaf)
			if !y {
				return nil, false
			}
			if v == 0 {
				all = false
				break
			}
		}
		if all {
			r = append(r, o)
		}
	}
	return r, true
}

// bitOp decides a function over (bitmap, position) for every position of bitmaps of several
// lengths: want gives the byte looked at and the bit.  A getter returns the bit, a setter
// stores the byte with the bit added.
func (f *F) bitOp(rule string, setter, bigEndian bool) {
	if !f.ok() {
		return
	}
	f.r.Ob(rule, f.Name, true, f.pos(0), "")
	for _, l := range []int64{1, 2, 30, 32} {
		for n := int64(0); n < 8*l; n++ {
			at := n / 8
			if bigEndian {
				at = l - 1 - n/8
			}
			for _, b := range []int64{0, 0xff, 1 << uint(n%8), 0xff &^ (1 << uint(n%8)), 0xa5} {
				other := int64(0)
				if b == 0 {
					other = 0xff
				}
				leaf := func(t *Term) (int64, bool) {
					switch {
					case f.m("$1", t):
						return n, true
					case t.Op == "len" && f.m("$0", t.Args[0]):
						return l, true
					case t.Op == "idx" && f.m("$0", t.Args[0]):
						i, ok := f.fold(t.Args[1], func(x *Term) (int64, bool) {
							if f.m("$1", x) {
								return n, true
							}
							if x.Op == "len" && f.m("$0", x.Args[0]) {
								return l, true
							}
							return 0, false
						})
						if ok && i == at {
							return b, true
						}
						return other, ok
					}
					return 0, false
				}
				outs, ok := f.pathAt(leaf)
				if !ok || len(outs) != 1 || outs[0].Kind != "return" {
					f.fail(rule, f.Fn.Pos(), "the bit operation is not a function of the position")
					return
				}
				o := outs[0]
				bit := int64(1) << uint(n%8)
				if !setter {
					if v, ok := f.fold(o.Res[0], leaf); !ok || (v != 0) != (b&bit != 0) {
						f.fail(rule, o.Pos, "bit %d of %d bytes is read wrongly: %s", n, l, short(o.Res[0]))
						return
					}
					continue
				}
				last := b
				for _, e := range o.St.Events {
					if e.Kind != "store" {
						continue
					}
					loc := e.Args[0]
					if loc.Op != "ia" && loc.Op != "idx" {
						f.fail(rule, e.Pos, "the bitmap is changed by a write to %s", short(loc))
						return
					}
					i, ok1 := f.fold(loc.Args[1], leaf)
					v, ok2 := f.fold(e.Args[1], leaf)
					if !ok1 || !ok2 || i != at || !f.m("$0", loc.Args[0]) {
						f.fail(rule, e.Pos, "setting bit %d of %d bytes writes %s", n, l, short(loc))
						return
					}
					last = v & 0xff
				}
				if last != b|bit {
					f.fail(rule, o.Pos, "setting bit %d of %d bytes gives a wrong byte", n, l)
					return
				}
			}
		}
	}
}
