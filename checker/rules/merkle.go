package rules

import (
	"fmt"
	"go/token"
	"strings"

	"verif/checker/eng"
)

const (
	zeroH = "@merkletree.HashZero"
	nodeV = "db.Storage.Get($0.storage, ?k)#0"
)

func init() {
	register("C01", "Merkle proofs bind root, key and value", c01)
	register("C02", "One bit order for insert, lookup, proof generation and verification", c02)
}

func c01(r *R) {
	// verification accepts only when the recomputed root is the given one
	v := r.F("merkletree.VerifyProof", "merkletree.RootFromProof")
	if yes, _ := v.SplitBool(0); v.ok() {
		v.Must("accept-only-equal-root", yes,
			"eq(merkletree.RootFromProof($1,$2,$3)#1, nil)",
			"eq($0, merkletree.RootFromProof($1,$2,$3)#0)")
	}
	// the recomputed root is a fold of the siblings over the leaf
	f := r.F("merkletree.RootFromProof", "merkletree.SiblingsFromProof")
	f.NonEmpty("fold", f.Succ)
	f.Each("nonexistence-own-key", f.Succ, func(o *eng.Out) string {
		if f.has(o.St, "$0.Existence") || f.has(o.St, "eq($0.NodeAux, nil)") {
			return ""
		}
		if f.has(o.St, "not($0.Existence)") && f.has(o.St, "not(eq($1, $0.NodeAux.HIndex))") {
			return ""
		}
		return "a non-existence proof is accepted without checking that its auxiliary leaf has another key" + f.pathDesc(o)
	})
	f.Each("fold", f.Succ, func(o *eng.Out) string { return f.checkFold(o) })
	// hashing: domain separation and every input used
	h := r.F("merkletree.HashElemsKey", "-merkletree.NewHashFromBigInt")
	h.Each("hash-inputs", h.Succ, func(o *eng.Out) string {
		if len(h.Hits(o, "poseidon.PoseidonHash(_)")) != 1 {
			return "the key is not one hash of the inputs"
		}
		return ""
	})
	k := r.F("merkletree.LeafKey")
	k.Ret("leaf-key", k.Succ, 0, "merkletree.HashElemsKey(big.fromInt(1), cat(elem1($0), elem1($1)))#0")
	c01hash(r)
	// keys of nodes
	n := r.F("merkletree.Node.Key")
	n.Each("node-key", n.Succ, func(o *eng.Out) string {
		switch {
		case n.has(o.St, "not(eq($0.key, nil))"):
			return want(n, o, 0, "$0.key")
		case n.has(o.St, "eq($0.Type, 0)"):
			return want(n, o, 0, "merkletree.HashElems(cat(elem1($0.ChildL), elem1($0.ChildR)))#0")
		case n.has(o.St, "eq($0.Type, 1)"):
			return want(n, o, 0, "merkletree.HashElemsKey(big.fromInt(1), cat(elem1(?i), elem1(?v)))#0")
		}
		return want(n, o, 0, zeroH)
	})
	e := r.F("merkletree.Entry.HiHv")
	idx := "or($0.hIndex, merkletree.HashElems(sub($0.Data,0,4))#0, merkletree.HashElems(cat(elem1($0.Data[0]),elem1($0.Data[1]),elem1($0.Data[2]),elem1($0.Data[3])))#0)"
	val := "or($0.hValue, merkletree.HashElems(sub($0.Data,4,8))#0, merkletree.HashElems(cat(elem1($0.Data[4]),elem1($0.Data[5]),elem1($0.Data[6]),elem1($0.Data[7])))#0)"
	e.Ret("entry-hi", e.Succ, 0, idx)
	e.Ret("entry-hv", e.Succ, 1, val)
}

// want: result i matches pat.
func want(f *F, o *eng.Out, i int, pat string) string {
	if i < len(o.Res) && f.m(pat, o.Res[i]) {
		return ""
	}
	return fmt.Sprintf("result %d is %s, expected %s%s", i, short(o.Res[i]), pat, f.pathDesc(o))
}

// c01hash: the node hash is the Poseidon hash of all the given elements (and of the key),
// zero padded, every element in its own slot.
func c01hash(r *R) {
	one := "poseidon.PoseidonHash(?a)#0"
	res := "fit(common.SwapEndianness(big.Bytes(" + one + ")),32)"
	zero := "cat(elem1(big.fromInt(0)),elem1(big.fromInt(0)),elem1(big.fromInt(0)),elem1(big.fromInt(0)),elem1(big.fromInt(0)),elem1(big.fromInt(0)))"
	for _, name := range []string{"merkletree.HashElems", "merkletree.HashElemsKey"} {
		f := r.F(name, "-merkletree.NewHashFromBigInt")
		p := "$0"
		if name == "merkletree.HashElemsKey" {
			p = "$1"
		}
		elem := "big.SetBytes(common.SwapEndianness(" + p + "[?i]))"
		arr := "or(copyinto(" + zero + ",0,fill(make(len(" + p + ")),0," + elem + ",?i)), fill(" + zero + ",0," + elem + ",?i), copyinto(" + zero + ",0,catn(nil,elem1(" + elem + "),?i)))"
		in := arr
		if p == "$1" {
			in = "or(copyinto(" + arr + ",len($1),cat(elem1(or(?k)))), upd(" + arr + ",len($1),?k))"
		}
		f.NonEmpty("hash-inputs", f.Succ)
		f.Must("hash-room", f.Succ, map[string]string{"$0": "le(len($0),6)", "$1": "le(len($1),5)"}[p])
		f.Each("hash-inputs", f.Succ, func(o *eng.Out) string {
			b, ok := f.mb(res, o.Res[0])
			if !ok {
				return "the result is " + short(o.Res[0]) + ", not the serialised Poseidon hash"
			}
			c, ok := f.mb(in, b["a"])
			if !ok {
				// slot by slot, for a number of elements that the path knows
				n := f.X.T("len("+p+")", eng.Bind{})
				a, key := b["a"], (*Term)(nil)
				if p == "$1" {
					kb, is := f.mb("or(copyinto(?z,len($1),cat(elem1(or(?k)))), copyinto(?z,len($1),sub(cat(elem1(or(?k))),0,?r)), upd(?z,len($1),?k))", a)
					if is && (kb["r"] == nil || kb["r"] == f.X.In.Sub(f.X.In.Int(6), n)) {
						a, key = kb["z"], kb["k"]
					}
				}
				all, at, parts := p == "$0" || key != nil, int64(0), []*Term{a}
				if a.Op == "cat" {
					parts = a.Args
				}
				filled := "fill(make(len(" + p + ")),0," + strings.ReplaceAll(elem, "?i", "?j") + ",?j)"
				for _, e := range parts {
					k := f.X.In.Int(at)
					jb, one := f.mb("elem1("+filled+"[?k])", e)
					sb, some := f.mb("sub("+filled+",?k,?e)", e)
					switch {
					case f.m("elem1(or(big.fromInt(0),big.SetInt64(0)))", e):
						all = all && f.hasFact(o.St, f.X.In.Le(n, k))
						at++
					case one:
						all = all && jb["k"] == k && f.hasFact(o.St, f.X.In.Le(n, jb["j"]))
						at++
					case some:
						all = all && sb["k"] == k && sb["e"].IsInt && sb["e"].I > at && f.hasFact(o.St, f.X.In.Le(n, sb["j"]))
						at = sb["e"].I
					default:
						all = all && f.mB("elem1("+elem+")", e, eng.Bind{"i": k})
						at++
					}
				}
				all = all && at == 6
				if all {
					c, ok = eng.Bind{"k": key}, true
				}
			}
			if !ok {
				return "the hashed array is " + short(b["a"]) + ", expected every element in its slot, the rest zero"
			}
			if c["i"] != nil && !f.hasFact(o.St, f.X.In.Le(f.X.T("len("+p+")", nil), c["i"])) {
				return "the hash can skip elements" + f.pathDesc(o)
			}
			if p == "$1" {
				k := c["k"]
				if !(f.m("$0", k) || f.has(o.St, "eq($0, nil)") && f.m("or(big.SetInt64(0),big.fromInt(0))", k)) {
					return "the key that separates leaves from inner nodes is hashed as " + short(k)
				}
			}
			if !f.has(o.St, "eq(poseidon.PoseidonHash(_)#1, nil)") {
				return "an error of the hash function is ignored"
			}
			return ""
		})
		// an error only for too many elements or from the hash function itself
		lim := "le(7, len($0))"
		if p == "$1" {
			lim = "le(6, len($1))"
		}
		f.OneOf("hash-error", f.Fail, lim, "not(eq(poseidon.PoseidonHash(_)#1, nil))")
	}
}

// checkFold verifies that the returned root is obtained by hashing, for every level from
// depth-1 to 0, the value so far with the sibling of that level, on the side the key's bit says.
func (f *F) checkFold(o *eng.Out) string {
	root := o.Res[0]
	l, pi := f.phiOf(o, root)
	if l == nil {
		return "the returned root is " + short(root) + ", not a value carried through the levels of the proof"
	}
	leaf := "merkletree.HashElemsKey(big.fromInt(1), cat(elem1($1), elem1($2)))#0"
	aux := "merkletree.HashElemsKey(big.fromInt(1), cat(elem1($0.NodeAux.HIndex), elem1($0.NodeAux.HValue)))#0"
	init := ""
	switch {
	case f.has(o.St, "$0.Existence"):
		init = leaf
	case f.has(o.St, "eq($0.NodeAux, nil)"):
		init = zeroH
	case f.has(o.St, "not(eq($0.NodeAux, nil))"):
		init = aux
	default:
		return "the fold starts without testing the kind of proof" + f.pathDesc(o)
	}
	if !f.m(init, l.Init[pi]) {
		return "the fold starts from " + short(l.Init[pi]) + ", expected " + init
	}
	if len(l.Steps) == 0 {
		return "the loop never continues"
	}
	// the level: depth-1 down to 0, all of them
	depth, listed := "$0.depth", false
	if len(f.Hits(o, "merkletree.SiblingsFromProof($0)")) > 0 { // as many as the depth: a rule of its own
		depth, listed = "len(merkletree.SiblingsFromProof($0))", true
	}
	lvl := f.X.T("add(minus("+depth+", ?it), -1)", eng.Bind{"it": l.Iter})
	done := f.X.In.Le(f.X.T(depth, nil), l.Iter)
	ok := false
	for _, c := range o.St.Facts {
		if c == done {
			ok = true
		}
	}
	if !ok {
		return "the fold can stop before every level is used" + f.pathDesc(o)
	}
	var sibPhi *Term
	for _, s := range l.Steps {
		facts := append(append([]*Term{}, o.St.Facts...), s.St.Facts...)
		bit := f.bitFact(facts, "$1", lvl)
		if bit < 0 {
			return "a level is hashed without looking at the bit of the key" + stepDesc(s)
		}
		ne := -1
		for _, c := range s.St.Facts {
			c, neg := not(c)
			if b, y := f.mb("common.TestBitBigEndian($0.notempties, ?l)", c); y && b["l"] == lvl {
				ne = 1
				if neg {
					ne = 0
				}
			}
		}
		if ne < 0 && !listed {
			return "a level is hashed without looking at the bitmap of present siblings" + stepDesc(s)
		}
		var pat string
		if bit == 1 {
			pat = "merkletree.HashElems(cat(elem1(?s), elem1(?m)))#0"
		} else {
			pat = "merkletree.HashElems(cat(elem1(?m), elem1(?s)))#0"
		}
		b, y := f.X.Match(eng.P(pat), s.Next[pi], eng.Bind{"m": root})
		if !y {
			return fmt.Sprintf("with key bit %d the next value is %s", bit, short(s.Next[pi]))
		}
		if listed {
			if b["s"] != f.X.T("merkletree.SiblingsFromProof($0)[?l]", eng.Bind{"l": lvl}) {
				return "the sibling of a level is " + short(b["s"])
			}
		} else if ne == 0 {
			if !f.m(zeroH, b["s"]) {
				return "an absent sibling is hashed as " + short(b["s"])
			}
		} else {
			sb, y := f.mb("$0.Siblings[?i]", b["s"])
			if !y { // or what is left of them, and the last is dropped
				sb, y = f.mb("?i[minus(len(?i),1)]", b["s"])
			}
			if !y {
				return "a present sibling is taken from " + short(b["s"])
			}
			if sibPhi != nil && sibPhi != sb["i"] {
				return "siblings are taken by different counters"
			}
			sibPhi = sb["i"]
		}
		if !f.has(s.St, "eq(merkletree.HashElems(...)#1, nil)") {
			return "an error of the hash is ignored"
		}
	}
	if listed {
		return ""
	}
	if sibPhi == nil {
		return "no sibling is ever used"
	}
	_, si := f.phiOf(o, sibPhi)
	if si < 0 {
		return "siblings are indexed by " + short(sibPhi) + ", which is not a counter of the loop"
	}
	rest := l.Init[si] == f.X.T("$0.Siblings", nil)
	if !rest && l.Init[si] != f.X.T("add(len($0.Siblings), -1)", nil) {
		return "the first sibling used is " + short(l.Init[si])
	}
	for _, s := range l.Steps {
		used := f.has(s.St, "common.TestBitBigEndian($0.notempties, _)")
		exp := sibPhi
		if used && rest {
			exp = f.X.T("sub(?s,0,minus(len(?s),1))", eng.Bind{"s": sibPhi})
		} else if used {
			exp = f.X.In.AddC(sibPhi, -1)
		}
		if s.Next[si] != exp {
			return "the sibling counter does not step with the siblings used"
		}
	}
	return ""
}

func stepDesc(s *eng.Step) string {
	r := " [iteration:"
	for _, c := range s.St.Facts {
		r += " " + short(c) + ";"
	}
	return r + "]"
}

const getN = "db.Storage.Get($0.storage, $3)#0"

// x expands the abbreviations used in the tables of this file.
func mx(s string) string {
	for _, p := range [][2]string{
		{"GETERR", "db.Storage.Get($0.storage, $3)#1"},
		{"GET", getN},
		{"LEFT", "sub(" + getN + ",1,33)"},
		{"RIGHT", "sub(" + getN + ",33,65)"},
		{"OLDHI", "merkletree.HashElems(cat(elem1(sub(" + getN + ",1,33)),elem1(sub(" + getN + ",33,65)),elem1(sub(" + getN + ",65,97)),elem1(sub(" + getN + ",97,129))))#0"},
		{"NEWHI", "or($2.Entry.hIndex, merkletree.HashElems(sub($2.Entry.Data,0,4))#0, merkletree.HashElems(cat(elem1($2.Entry.Data[0]),elem1($2.Entry.Data[1]),elem1($2.Entry.Data[2]),elem1($2.Entry.Data[3])))#0)"},
		{"NEWHV", "or($2.Entry.hValue, merkletree.HashElems(sub($2.Entry.Data,4,8))#0, merkletree.HashElems(cat(elem1($2.Entry.Data[4]),elem1($2.Entry.Data[5]),elem1($2.Entry.Data[6]),elem1($2.Entry.Data[7])))#0)"},
		{"KEYNEW", "or($2.key, merkletree.HashElemsKey(big.fromInt(1), cat(elem1(NEWHI), elem1(NEWHV)))#0, merkletree.HashElems(cat(elem1($2.ChildL),elem1($2.ChildR)))#0, @merkletree.HashZero)"},
		{"KEYOLD", "or($3.key, merkletree.HashElemsKey(big.fromInt(1), cat(elem1(or($3.Entry.hIndex, merkletree.HashElems(_)#0)), elem1(or($3.Entry.hValue, merkletree.HashElems(_)#0))))#0, merkletree.HashElems(cat(elem1($3.ChildL),elem1($3.ChildR)))#0, @merkletree.HashZero)"},
		{"VALNEW", "or(zero(), cat(elem1($2.Type),$2.ChildL,$2.ChildR), cat(elem1($2.Type),$2.Entry.Data[0],$2.Entry.Data[1],$2.Entry.Data[2],$2.Entry.Data[3],$2.Entry.Data[4],$2.Entry.Data[5],$2.Entry.Data[6],$2.Entry.Data[7]))"},
	} {
		s = strings.ReplaceAll(s, p[0], p[1])
	}
	for strings.Contains(s, "NEWHI") || strings.Contains(s, "NEWHV") {
		return mx(s)
	}
	return s
}

func mrows(l ...string) []*Case {
	for i := range l {
		l[i] = mx(l[i])
	}
	return rows(l...)
}

func c02(r *R) {
	// lookup and proof generation
	for _, name := range []string{"merkletree.MerkleTree.GetDataByIndex", "merkletree.MerkleTree.GenerateProof"} {
		f := r.F(name)
		n := 0
		f.Each("descend", f.Outs, func(o *eng.Out) string {
			for _, l := range f.loops(o) {
				// the carried variable that is the key of the current node
				at := map[int]bool{}
				for _, s := range l.Steps {
					for i, nx := range s.Next {
						if b, y := f.mb("sub(db.Storage.Get($0.storage, ?k)#0, ?lo, ?hi)", nx); y && b["k"] == l.Phis[i] {
							at[i] = true
						}
					}
				}
				for _, s := range l.Steps {
					for i, nx := range s.Next {
						if !at[i] {
							continue
						}
						n++
						b, y := f.mb("sub(db.Storage.Get($0.storage, ?k)#0, ?lo, ?hi)", nx)
						if !y || b["k"] != l.Phis[i] {
							return "goes to the next level without going down to a child of the node" + stepDesc(s)
						}
						facts := append(append([]*Term{}, o.St.Facts...), s.St.Facts...)
						bit := f.bitFact(facts, "$1", l.Iter)
						if bit == 1 && f.m("33", b["lo"]) && f.m("65", b["hi"]) || bit == 0 && f.m("1", b["lo"]) && f.m("33", b["hi"]) {
							continue
						}
						return fmt.Sprintf("descends to %s when the bit of the key at this level is %d (-1: not tested)%s", short(nx), bit, stepDesc(s))
					}
				}
			}
			return ""
		})
		if f.ok() {
			f.r.Ob("descend/exists", name, n > 0, f.pos(token.NoPos), "no descent into a child found")
		}
	}
	c02insert(r)
}

// c02insert: the recursion that inserts a leaf goes down on the side of the key's bit and
// rebuilds each node with the changed child on that side and the other child unchanged.
func c02insert(r *R) {
	a := r.F("merkletree.MerkleTree.addLeaf", "merkletree.MerkleTree.pushLeaf")
	rec := func(side string) string {
		return "merkletree.MerkleTree.addLeaf($0,$1,$2," + side + ",add($4,1),$5)"
	}
	a.Table("insert-down", a.Succ, mrows(
		"empty => eq($3,@merkletree.HashZero); => KEYNEW",
		"stored empty ? => eq(GET[0],2); => KEYNEW",
		"leaf => eq(GET[0],1); eq(GETERR,nil); not(eq(OLDHI,NEWHI)) => merkletree.MerkleTree.pushLeaf($0,$1,$2,?n,$4,$5,?p)#0",
		"right => eq(GET[0],0); eq(GETERR,nil); $5[$4]; eq("+rec("RIGHT")+"#1,nil) => merkletree.HashElems(cat(elem1(LEFT),elem1("+rec("RIGHT")+"#0)))#0",
		"left => eq(GET[0],0); eq(GETERR,nil); not($5[$4]); eq("+rec("LEFT")+"#1,nil) => merkletree.HashElems(cat(elem1("+rec("LEFT")+"#0),elem1(RIGHT)))#0",
	)...)
	a.Each("insert-push-args", a.Succ, func(o *eng.Out) string {
		for _, h := range a.Hits(o, "merkletree.MerkleTree.pushLeaf(...)") {
			b, ok := a.mb("merkletree.MerkleTree.pushLeaf($0,$1,$2,?n,$4,$5,?p)", h.E.Res)
			if !ok {
				return "pushLeaf is called with " + short(h.E.Res)
			}
			if !a.m("agg(or("+getN+"[0],1),nil,nil,agg(cat(elem1(sub("+getN+",1,33)),...),...),...)", b["n"]) {
				return "the leaf pushed down is " + short(b["n"]) + ", not the one found at this place"
			}
			if hh, _, ok := a.pathBit(o.St.Facts, a.X.In.Idx(b["p"], a.X.T("$4", nil), nil)); !ok || !a.m(mx("OLDHI"), hh) {
				return "the path of the pushed leaf is " + short(b["p"]) + ", not the one of its own key"
			}
		}
		return ""
	})
	// a leaf is never put below the last level that lookups and proofs visit
	for f, k := range map[*F]int64{a: 1, r.F("merkletree.MerkleTree.pushLeaf"): 2} {
		f.Each("insert-level", f.Succ, func(o *eng.Out) string {
			if !f.hasFact(o.St, f.X.In.Le(f.X.In.Add(f.X.T("$4", nil), f.X.In.Int(k)), f.X.T("$0.maxLevels", nil))) {
				return "a leaf is added without checking that its level is one of the tree" + f.pathDesc(o)
			}
			return ""
		})
	}
	a.OneOf("insert-refusal", a.Fail, splitPats(mx("le($0.maxLevels,$4); not(eq(GETERR,nil)); eq(len(GET),0); lt(len(GET),1); eq(OLDHI,?x); not(eq(len(GET),65)); not(eq(len(GET),257)); not(eq(merkletree.HashElems(...)#1,nil)); not(eq(merkletree.HashElemsKey(...)#1,nil)); not(eq(merkletree.MerkleTree.pushLeaf(...)#1,nil)); not(eq(merkletree.MerkleTree.addLeaf(...)#1,nil)); not($0.writable); eq(db.Tx.Get($1,_)#1,nil); not(eq(GET[0],0))"))...)
	p := r.F("merkletree.MerkleTree.pushLeaf")
	next := "merkletree.MerkleTree.pushLeaf($0,$1,$2,$3,add($4,1),$5,$6)"
	p.Table("insert-diverge", p.Succ, mrows(
		"both right => eq($5[$4],$6[$4]); $5[$4]; eq("+next+"#1,nil) => merkletree.HashElems(cat(elem1(@merkletree.HashZero),elem1("+next+"#0)))#0",
		"both left => eq($5[$4],$6[$4]); not($5[$4]); eq("+next+"#1,nil) => merkletree.HashElems(cat(elem1("+next+"#0),elem1(@merkletree.HashZero)))#0",
		"new right => not(eq($5[$4],$6[$4])); $5[$4] => merkletree.HashElems(cat(elem1(KEYOLD),elem1(KEYNEW)))#0",
		"new left => not(eq($5[$4],$6[$4])); not($5[$4]) => merkletree.HashElems(cat(elem1(KEYNEW),elem1(KEYOLD)))#0",
	)...)
	p.OneOf("insert-refusal", p.Fail, splitPats(mx("le($0.maxLevels,add($4,1)); not(eq(merkletree.HashElems(...)#1,nil)); not(eq(merkletree.HashElemsKey(...)#1,nil)); not(eq(merkletree.MerkleTree.pushLeaf(...)#1,nil)); not($0.writable); eq(db.Tx.Get($1,_)#1,nil)"))...)
}
