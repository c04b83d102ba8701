package rules

import (
	"fmt"
	"go/token"
	"strings"

	"verif/checker/eng"
)

func init() {
	register("C03", "Lookups and generated proofs tell the truth about the tree", c03)
	register("C04", "A tree changes only by complete, durable insertions", c04)
	register("C05", "Merkle data survives serialisation; malformed bytes are refused", c05)
}

// sel is field name of struct value (or pointed-to struct) t.
func (f *F) sel(t *Term, name string) *Term { return f.X.In.Sel(eng.StripIface(t), name, nil) }

// at writes the patterns of a node read at key K.
func atKey(s string) string {
	g := "db.Storage.Get($0.storage, ?k)#0"
	for _, p := range [][2]string{
		{"GETERR", "db.Storage.Get($0.storage, ?k)#1"},
		{"NODEHI", "merkletree.HashElems(cat(elem1(sub(GET,1,33)),elem1(sub(GET,33,65)),elem1(sub(GET,65,97)),elem1(sub(GET,97,129))))#0"},
		{"NODEHV", "merkletree.HashElems(cat(elem1(sub(GET,129,161)),elem1(sub(GET,161,193)),elem1(sub(GET,193,225)),elem1(sub(GET,225,257))))#0"},
		{"GET", g},
	} {
		s = strings.ReplaceAll(s, p[0], p[1])
	}
	return s
}

// holdsAll: all facts (";"-separated) hold under b.
func (f *F) holdsAll(st *eng.State, pats string, b eng.Bind) bool {
	return f.solve(st, splitPats(pats), b, func(eng.Bind) bool { return true })
}

// curNode finds the loop-carried key of the node the path last looked at.
func (f *F) curNode(o *eng.Out) *Carried {
	for _, l := range f.loops(o) {
		for i, p := range l.Phis {
			for _, s := range l.Steps {
				if f.X.Holds(s.St, "eq(db.Storage.Get($0.storage, ?k)#1, nil)", eng.Bind{"k": p}) {
					return &Carried{l, l.Init[i], p, i, nil}
				}
			}
		}
	}
	return nil
}

// lastLevel: the path went down all the levels of the tree.
func (f *F) lastLevel(o *eng.Out) bool {
	node := f.curNode(o)
	return node != nil && node.Loop != nil && f.hasFact(o.St, f.X.In.Le(f.X.T("$0.maxLevels", nil), node.Loop.Iter))
}

func c03(r *R) {
	// what walks a tree walks the one asked for
	for _, n := range []string{"PrintGraphViz $1", "GraphViz $2", "DumpClaimsIoWriter $2", "DumpClaims $1"} {
		v := strings.Split(n, " ")
		f := r.F("merkletree.MerkleTree."+v[0], "merkletree.MerkleTree.GraphViz", "merkletree.MerkleTree.Walk")
		f.NonEmpty("walk-root", f.Succ)
		f.Each("walk-root", f.Succ, func(o *eng.Out) string {
			n := 0
			for _, h := range append(f.Hits(o, "merkletree.MerkleTree.GraphViz($0,_,?r)"), f.Hits(o, "merkletree.MerkleTree.Walk($0,?r,_)")...) {
				if n++; h.B["r"] != f.X.T(v[1], nil) && !(f.m("or($0.rootKey,merkletree.MerkleTree.RootKey($0))", h.B["r"]) && f.X.NilState(o.St, f.X.T(v[1], nil)) == 1) {
					return "goes through the tree of " + short(h.B["r"]) + f.pathDesc(o)
				}
			}
			if n != 1 {
				return "does not go through the tree once"
			}
			return ""
		})
	}
	g := r.F("merkletree.MerkleTree.GenerateProof")
	g.NonEmpty("proof", g.Succ)
	kinds := map[string]bool{}
	g.Each("proof", g.Succ, func(o *eng.Out) string {
		node := g.curNode(o)
		if node == nil {
			return "a proof is returned without walking down from a root" + g.pathDesc(o)
		}
		b := eng.Bind{"k": node.Cur}
		switch {
		case g.has(o.St, "eq($2, nil)"):
			if !g.m("$0.rootKey", node.Init) {
				return "without a root the proof starts at " + short(node.Init)
			}
		case g.has(o.St, "not(eq($2, nil))"):
			if !g.m("$2", node.Init) {
				return "the proof starts at " + short(node.Init) + ", not at the given root"
			}
		default:
			return "the root to start from is not chosen by the caller's argument"
		}
		res := o.Res[0]
		l := node.Loop
		if d := g.sel(res, "depth"); d != l.Iter {
			return "the depth of the proof is " + short(d) + ", not the level reached"
		}
		ex, aux := g.sel(res, "Existence"), g.sel(res, "NodeAux")
		isEx := g.X.Decide(o.St, ex)
		leafEq := g.holdsAll(o.St, atKey("eq(GET[0],1); eq($1, NODEHI)"), b)
		leafNe := g.holdsAll(o.St, atKey("eq(GET[0],1); not(eq($1, NODEHI))"), b)
		empty := g.holdsAll(o.St, "eq(?k, @merkletree.HashZero)", b) || g.holdsAll(o.St, atKey("eq(GET[0],2)"), b)
		switch {
		case isEx == 1:
			kinds["existence"] = true
			if !leafEq {
				return "existence is claimed without having found a leaf with the asked key" + g.pathDesc(o)
			}
		case isEx == -1 && aux.IsNil():
			kinds["empty"] = true
			if !empty {
				return "absence without auxiliary leaf is claimed where the path did not end in an empty node" + g.pathDesc(o)
			}
		case isEx == -1:
			kinds["aux"] = true
			if !leafNe {
				return "absence is claimed without having found a leaf with another key" + g.pathDesc(o)
			}
			if _, ok := g.X.Match(eng.P(atKey("NODEHI")), g.sel(aux, "HIndex"), b); !ok {
				return "the auxiliary leaf has index hash " + short(g.sel(aux, "HIndex"))
			}
			if _, ok := g.X.Match(eng.P(atKey("NODEHV")), g.sel(aux, "HValue"), b); !ok {
				return "the auxiliary leaf has value hash " + short(g.sel(aux, "HValue"))
			}
		default:
			return "the kind of proof is " + short(ex)
		}
		// siblings and their bitmap
		ne, sb := g.carried(o, g.sel(res, "notempties")), g.carried(o, g.sel(res, "Siblings"))
		if ne == nil || sb == nil || ne.Loop != l || sb.Loop != l {
			return "the siblings returned are not those collected on the way down"
		}
		if ne.Init.Op != "zero" || sb.Init.Op != "zero" && !sb.Init.IsNil() {
			return "the siblings do not start empty"
		}
		for _, s := range l.Steps {
			bit := g.bitFact(append(append([]*Term{}, o.St.Facts...), s.St.Facts...), "$1", l.Iter)
			if bit < 0 {
				return "a level is passed without looking at the bit of the key"
			}
			sib := "sub(db.Storage.Get($0.storage, ?k)#0,33,65)"
			if bit == 1 {
				sib = "sub(db.Storage.Get($0.storage, ?k)#0,1,33)"
			}
			zero := g.holdsAll(s.St, "eq("+sib+", @merkletree.HashZero)", b)
			non := g.holdsAll(s.St, "not(eq("+sib+", @merkletree.HashZero))", b)
			_, set := g.X.Match(eng.P("out(common.SetBitBigEndian(?n,?l))"), ne.Next(s), eng.Bind{"n": ne.Cur, "l": l.Iter})
			bb := eng.Bind{"k": node.Cur, "s": sb.Cur}
			_, app := g.X.Match(eng.P("or(cat(?s, elem1("+sib+")), cat(?s, "+sib+"))"), sb.Next(s), bb)
			switch {
			case zero && ne.Next(s) == ne.Cur && sb.Next(s) == sb.Cur:
			case non && set && app:
			default:
				return fmt.Sprintf("at a level with key bit %d the sibling is not recorded as it is (bitmap %s, siblings %s)%s", bit, short(ne.Next(s)), short(sb.Next(s)), stepDesc(s))
			}
		}
		return ""
	})
	if g.ok() {
		for _, k := range []string{"existence", "empty", "aux"} {
			r.Ob("proof/case "+k, g.Name, kinds[k], g.pos(token.NoPos), "no path generates this kind of proof")
		}
	}
	reasons := func(f *F, outs []*eng.Out, extra ...string) {
		f.OneOf("lookup-refusal", outs, append(splitPats(atKey("not(eq(GETERR,nil)); le(len(GET),0); not(eq(len(GET),65)); not(eq(len(GET),257)); not(eq(merkletree.HashElems(...)#1,nil)); not(eq(GET[0],2))")), extra...)...)
	}
	var ex, other []*eng.Out
	for _, o := range g.Fail {
		if g.m("@merkletree.ErrEntryIndexNotFound", o.Res[len(o.Res)-1]) {
			ex = append(ex, o)
		} else {
			other = append(other, o)
		}
	}
	g.Each("gives-up", ex, func(o *eng.Out) string {
		if g.lastLevel(o) {
			return ""
		}
		return "gives up before the last level" + g.pathDesc(o)
	})
	reasons(g, other)

	// lookup
	d := r.F("merkletree.MerkleTree.GetDataByIndex")
	d.NonEmpty("lookup", d.Succ)
	d.Each("lookup", d.Succ, func(o *eng.Out) string {
		node := d.curNode(o)
		if node == nil || !d.m("$0.rootKey", node.Init) {
			return "the lookup does not start at the current root" + d.pathDesc(o)
		}
		b := eng.Bind{"k": node.Cur}
		if !d.holdsAll(o.St, atKey("eq(GET[0],1); eq($1, NODEHI)"), b) {
			return "data is returned although the leaf found was not checked to have the asked key" + d.pathDesc(o)
		}
		g := "db.Storage.Get($0.storage, ?k)#0"
		var ps []string
		for i := 0; i < 8; i++ {
			ps = append(ps, fmt.Sprintf("elem1(sub(%s,%d,%d))", g, 1+32*i, 33+32*i))
		}
		if _, ok := d.X.Match(eng.P("cat("+strings.Join(ps, ",")+")"), o.Res[0], b); !ok {
			return "the data returned is " + short(o.Res[0]) + ", not the one stored in the leaf"
		}
		return ""
	})
	d.Each("lookup-absent", d.Fail, func(o *eng.Out) string {
		if !d.m("@merkletree.ErrEntryIndexNotFound", o.Res[1]) {
			// callers tell absence from failure by this error
			if node := d.curNode(o); node != nil && (o.Res[1].Op == "global" || o.Res[1].Op == "gval") {
				b := eng.Bind{"k": node.Cur}
				for _, p := range []string{"eq(?k, @merkletree.HashZero)", "eq(GET[0],2)", "eq(GET[0],1); not(eq($1, NODEHI))"} {
					if d.holdsAll(o.St, atKey(p), b) {
						return "absence is reported as " + short(o.Res[1]) + d.pathDesc(o)
					}
				}
				if node.Loop != nil {
					if d.lastLevel(o) {
						return "absence is reported as " + short(o.Res[1]) + d.pathDesc(o)
					}
				}
			}
			return ""
		}
		if d.lastLevel(o) {
			return ""
		}
		node := d.curNode(o)
		if node != nil {
			b := eng.Bind{"k": node.Cur}
			for _, p := range []string{"eq(?k, @merkletree.HashZero)", "eq(GET[0],2)", "eq(GET[0],1); not(eq($1, NODEHI))"} {
				if d.holdsAll(o.St, atKey(p), b) {
					return ""
				}
			}
		}
		return "an entry is reported absent although the path did not end" + d.pathDesc(o)
	})
	var rest []*eng.Out
	for _, o := range d.Fail {
		if !d.lastLevel(o) {
			rest = append(rest, o)
		}
	}
	reasons(d, rest, "eq(?k, @merkletree.HashZero)", atKey("eq(GET[0],2)"), atKey("not(eq($1, NODEHI))"))

	// EntryExists succeeds only when all the data agrees
	e := r.F("merkletree.MerkleTree.EntryExists", "merkletree.MerkleTree.GetDataByIndex", "merkletree.MerkleTree.Snapshot")
	hi := "or($1.hIndex, merkletree.HashElems(sub($1.Data,0,4))#0, merkletree.HashElems(cat(elem1($1.Data[0]),elem1($1.Data[1]),elem1($1.Data[2]),elem1($1.Data[3])))#0)"
	e.Table("entry-exists", e.Succ, rows(
		"given root => not(eq($2,nil)); eq(merkletree.MerkleTree.Snapshot($0,$2)#1,nil); eq(merkletree.MerkleTree.GetDataByIndex(merkletree.MerkleTree.Snapshot($0,$2)#0,"+hi+")#1,nil); "+entryEq("merkletree.MerkleTree.GetDataByIndex(merkletree.MerkleTree.Snapshot($0,$2)#0,"+hi+")#0"),
		"current root => eq($2,nil); eq(merkletree.MerkleTree.GetDataByIndex($0,"+hi+")#1,nil); "+entryEq("merkletree.MerkleTree.GetDataByIndex($0,"+hi+")#0"),
	)...)
	e.Each("entry-absent", e.Fail, func(o *eng.Out) string {
		if e.m("@merkletree.ErrEntryIndexNotFound", o.Res[0]) {
			return "other data are reported as an absent entry" + e.pathDesc(o)
		}
		return ""
	})
	e.OneOf("entry-refusal", e.Fail, append(splitPats("not(eq(merkletree.MerkleTree.Snapshot(...)#1,nil)); not(eq(merkletree.HashElems(...)#1,nil)); not(eq(merkletree.MerkleTree.GetDataByIndex(...)#1,nil))"),
		"not(eq(merkletree.MerkleTree.GetDataByIndex(...)#0[_], $1.Data[_]))", "not(eq(merkletree.MerkleTree.GetDataByIndex(...)#0, $1.Data))")...)

	// walking visits both children of every inner node
	w := r.F("merkletree.MerkleTree.walk")
	node := "agg(...)"
	lk, rk := "or("+mx("LEFT")+", out(...).ChildL)", "or("+mx("RIGHT")+", out(...).ChildR)"
	lk, rk = strings.ReplaceAll(lk, "$3", "$1"), strings.ReplaceAll(rk, "$3", "$1")
	get := strings.ReplaceAll(getN, "$3", "$1")
	w.Table("walk", w.Succ, rows(
		"empty => eq($1,@merkletree.HashZero) => nil => dyn($2,"+node+")",
		"stored empty ? => eq("+get+"[0],2) => nil => dyn($2,"+node+")",
		"leaf => eq("+get+"[0],1) => nil => dyn($2,"+node+")",
		"middle => eq("+get+"[0],0) => nil => dyn($2,"+node+"); merkletree.MerkleTree.walk($0,"+lk+",$2); merkletree.MerkleTree.walk($0,"+rk+",$2)",
	)...)
	w.Each("walk-error", w.Succ, func(o *eng.Out) string {
		for _, h := range w.Hits(o, "merkletree.MerkleTree.walk(...)") {
			if w.X.NilState(o.St, h.E.Res) != 1 {
				return "an error below is ignored"
			}
		}
		return ""
	})
	wk := r.F("merkletree.MerkleTree.Walk", "merkletree.MerkleTree.walk")
	wk.Table("walk-root", wk.Outs, rows(
		"given => not(eq($1,nil)) => merkletree.MerkleTree.walk($0,$1,$2)",
		"current => eq($1,nil) => merkletree.MerkleTree.walk($0,$0.rootKey,$2)",
	)...)
	// padded with empty levels up to levels, and one more
	sc := r.F("merkletree.Proof.AllSiblingsCircom", "merkletree.SiblingsFromProof", "merkletree.Hash.BigInt")
	sc.NonEmpty("siblings-circom", sc.Outs)
	sc.Each("siblings-circom", sc.Outs, func(o *eng.Out) string {
		el := "merkletree.Hash.BigInt(?s[?i])"
		list := "merkletree.SiblingsFromProof($0)"
		// in one go: those of the proof, then zeros
		if b, ok := sc.mb("fill(make(?m),0,ite(?c,merkletree.Hash.BigInt("+list+"[?i]),merkletree.Hash.BigInt(@merkletree.HashZero)),?i)", o.Res[0]); ok {
			n := sc.X.T("len("+list+")", eng.Bind{})
			b["n"] = sc.X.In.AddC(b["m"], -1)
			switch {
			case b["c"] != sc.X.In.Lt(b["i"], n):
				return "the siblings of the circuit are " + short(o.Res[0])
			case !sc.hasFact(o.St, sc.X.In.Le(sc.X.In.AddC(b["n"], 1), b["i"])):
				return "a sibling may be left out"
			case b["n"] == n && sc.solve(o.St, []string{"le($1," + "len(" + list + "))"}, b, yes), sc.m("$1", b["n"]) && sc.solve(o.St, []string{"le(len(" + list + "),$1)"}, b, yes):
				return ""
			}
			return "the circuit gets " + short(b["n"]) + " siblings and one more" + sc.pathDesc(o)
		}
		b, ok := sc.mb("or(fill(make(?n),0,"+el+",?i), catn(nil,elem1("+el+"),?i))", o.Res[0])
		if !ok {
			return "the siblings of the circuit are " + short(o.Res[0])
		}
		if sc.X.Decide(o.St, sc.X.In.Le(sc.X.T("len(?s)", b), b["i"])) != 1 {
			return "a sibling may be left out"
		}
		if n := b["n"]; n != nil && sc.X.Decide(o.St, sc.X.In.Eq(sc.X.T("len(?s)", b), n)) != 1 {
			return "the circuit gets " + short(n) + " siblings"
		}
		b, ok = sc.mb("cat(catn("+list+",elem1(@merkletree.HashZero),?k),elem1(@merkletree.HashZero))", b["s"])
		if !ok {
			return "the padding does not end with one level more: " + short(b["s"])
		}
		if !sc.solve(o.St, []string{"le($1,add(len(" + list + "),?k))"}, b, yes) {
			return "fewer levels than the circuit has"
		}
		for _, l := range sc.loops(o) {
			if l.Iter != b["k"] {
				continue
			}
			for _, st := range l.Steps {
				if !sc.solve(st.St, []string{"lt(add(len(" + list + "),?k),$1)"}, b, yes) {
					return "more levels than the circuit has"
				}
			}
			return ""
		}
		return "the number of levels padded is " + short(b["k"])
	})
	// the rest of the siblings handed to the circuits
	s := r.F("merkletree.SiblingsFromProof")
	s.NonEmpty("all-siblings", s.Succ)
	s.Each("all-siblings", s.Succ, func(o *eng.Out) string {
		c := s.carried(o, o.Res[0])
		if c == nil {
			return "the siblings are " + short(o.Res[0])
		}
		if !s.hasFact(o.St, s.X.In.Le(s.X.T("$0.depth", nil), c.Loop.Iter)) {
			return "the list can stop before every level is covered"
		}
		var idx *Term
		for _, st := range c.Loop.Steps {
			b := eng.Bind{"s": c.Cur, "l": c.Loop.Iter}
			used := s.holdsAll(st.St, "common.TestBitBigEndian($0.notempties,?l)", b)
			unused := s.holdsAll(st.St, "not(common.TestBitBigEndian($0.notempties,?l))", b)
			nb, isSib := s.X.Match(eng.P("or(cat(?s,elem1($0.Siblings[?i])),cat(?s,$0.Siblings[?i]))"), c.Next(st), b)
			_, isZero := s.X.Match(eng.P("or(cat(?s,elem1(@merkletree.HashZero)),cat(?s,@merkletree.HashZero))"), c.Next(st), b)
			if !(used && isSib || unused && isZero) {
				return "a level is listed as " + short(c.Next(st)) + stepDesc(st)
			}
			if isSib {
				if idx != nil && idx != nb["i"] {
					return "siblings are taken by different counters"
				}
				idx = nb["i"]
			}
		}
		if idx == nil {
			return "no sibling is ever listed"
		}
		ic := s.carried(o, idx)
		if ic == nil || !s.m("0", ic.Init) {
			return "siblings are indexed by " + short(idx)
		}
		for _, st := range c.Loop.Steps {
			e := ic.Cur
			if s.holdsAll(st.St, "common.TestBitBigEndian($0.notempties,?l)", eng.Bind{"l": c.Loop.Iter}) {
				e = s.X.In.AddC(ic.Cur, 1)
			}
			if ic.Next(st) != e {
				return "the sibling counter does not step with the siblings used"
			}
		}
		return ""
	})
}

// entryEq: the eight elements of d and of entry $1 are equal.
func entryEq(d string) string {
	var cs []string
	for i := 0; i < 8; i++ {
		cs = append(cs, fmt.Sprintf("eq(%s[%d], $1.Data[%d]) | eq(%s, $1.Data)", d, i, i, d))
	}
	return strings.Join(cs, "; ")
}

func c04(r *R) {
	r.noDeadlock("deadlock", "merkletree.")
	const tx = "db.Storage.NewTx($0.storage)#0"
	a := r.F("merkletree.MerkleTree.AddEntry", "merkletree.MerkleTree.addLeaf")
	add := "merkletree.MerkleTree.addLeaf($0, " + tx + ", ?leaf, $0.rootKey, 0, ?path)"
	var el []string
	for i := 0; i < 8; i++ {
		el = append(el, fmt.Sprintf("elem1(big.SetBytes(common.SwapEndianness($1.Data[%d])))", i))
	}
	inField := "utils.CheckBigIntArrayInField(cat(" + strings.Join(el, ",") + "))"
	a.Must("add-ok", a.Succ, "$0.writable", inField, "eq("+add+"#1, nil)", "eq(db.Tx.Commit("+tx+"), nil)")
	a.Table("add-order", a.Succ, rows(
		"commit => => nil => "+add+"; db.Tx.Put("+tx+", or(@merkletree.rootNodeValue,\"currentroot\"), cat(elem1(3), "+add+"#0)); db.Tx.Commit("+tx+"); ev:store(_, "+add+"#0)",
	)...)
	a.Each("add-memory-root", a.Outs, func(o *eng.Out) string {
		for _, h := range a.storesTo(o, "rootKey") {
			if !a.m(add+"#0", h.E.Args[1]) {
				return "the root in memory becomes " + short(h.E.Args[1])
			}
			if _, ok := a.X.FindFactN(h.St, h.E.NF, "eq(db.Tx.Commit("+tx+"), nil)", eng.Bind{}); !ok {
				return "the root in memory changes before the commit is known to have succeeded" + a.pathDesc(o)
			}
		}
		return ""
	})
	for _, ev := range []string{"merkletree.MerkleTree.addLeaf(...)", "db.Tx.Put(...)", "db.Tx.Commit(...)"} {
		a.Guard("add-guarded", a.Outs, ev, "$0.writable", inField)
	}
	a.Guard("add-complete", a.Outs, "db.Tx.Commit(?t)", "eq("+add+"#1, nil)")
	a.Each("add-args", a.Outs, func(o *eng.Out) string {
		for _, h := range a.Hits(o, "merkletree.MerkleTree.addLeaf(...)") {
			b, ok := a.mb(add, h.E.Res)
			if !ok {
				return "insertion starts as " + short(h.E.Res)
			}
			if t := a.sel(b["leaf"], "Type"); !a.m("1", t) {
				return "the inserted node has type " + short(t)
			}
			en := a.sel(b["leaf"], "Entry")
			if !a.m("or($1, agg($1.Data, ...))", en) {
				return "the inserted leaf holds " + short(en)
			}
			if hh, _, ok := a.pathBit(o.St.Facts, a.X.In.Idx(b["path"], a.X.T("7", nil), nil)); !ok || !a.m("or($1.hIndex, merkletree.HashElems(sub($1.Data,0,4))#0, merkletree.HashElems(cat(elem1($1.Data[0]),elem1($1.Data[1]),elem1($1.Data[2]),elem1($1.Data[3])))#0)", hh) {
				return "the path of the insertion is " + short(b["path"]) + ", not that of the entry's index"
			}
		}
		return ""
	})
	a.OneOf("add-refusal", a.Fail, "not($0.writable)", "not("+inField+")", "not(eq(db.Storage.NewTx($0.storage)#1,nil))", "not(eq(merkletree.HashElems(...)#1,nil))", "not(eq("+add+"#1, nil))", "not(eq(db.Tx.Commit("+tx+"), nil))")
	a.locked("add-lock", "RWMutex", []string{"merkletree.MerkleTree.addLeaf(...)", "db.Tx.Commit(...)"})

	// a stored node is content addressed, never overwritten, and only in a writable tree
	for _, name := range []string{"merkletree.MerkleTree.addNode"} {
		f := r.F(name)
		f.Guard("put-guarded", f.Outs, "db.Tx.Put($1, ?k, ?v)", "$0.writable", "not(eq(db.Tx.Get($1, ?k)#1, nil))")
		key := strings.ReplaceAll(mx("KEYNEW"), "$2", "$2")
		f.Table("put-key", f.Succ, mrows(
			"empty => eq($2.Type,2) => "+key+"; nil => => db.Tx.Put(...)",
			"node => not(eq($2.Type,2)); $0.writable => "+key+"; nil => db.Tx.Put($1,"+key+",VALNEW)",
		)...)
		f.Each("put-same-key", f.Succ, func(o *eng.Out) string {
			for _, h := range f.Hits(o, "db.Tx.Put(...)") {
				if k := h.E.Args[1]; k != o.Res[0] && !(k.Op == "gval" && o.Res[0].Op == "global" && k.Aux == o.Res[0].Aux) {
					return "the node is stored under " + short(h.E.Args[1]) + " but its key is reported as " + short(o.Res[0])
				}
			}
			return ""
		})
		f.OneOf("put-refusal", f.Fail, "not($0.writable)", "not(eq(merkletree.HashElems(...)#1,nil))", "not(eq(merkletree.HashElemsKey(...)#1,nil))", "eq(db.Tx.Get($1,_)#1, nil)")
	}
	// every function that stores a tree node or changes the root of a tree in memory
	r.onlyIn("root-writers", "the root key of a tree", r.fieldWriters("merkletree.MerkleTree", "rootKey"),
		"merkletree.NewMerkleTree", "merkletree.MerkleTree.Snapshot", "merkletree.MerkleTree.AddEntry", "merkletree.MerkleTree.ImportTree")
	r.onlyIn("writable-writers", "the writable flag of a tree", r.fieldWriters("merkletree.MerkleTree", "writable"), "merkletree.NewMerkleTree", "merkletree.MerkleTree.Snapshot")

	// snapshots
	s := r.F("merkletree.MerkleTree.Snapshot")
	s.Each("snapshot", s.Succ, func(o *eng.Out) string {
		t := o.Res[0]
		for f, p := range map[string]string{"storage": "$0.storage", "rootKey": "$1", "maxLevels": "$0.maxLevels", "writable": "false"} {
			if !s.m(p, s.sel(t, f)) {
				return "the snapshot has " + f + " " + short(s.sel(t, f))
			}
		}
		if !s.has(o.St, "eq($1,@merkletree.HashZero)") && !s.has(o.St, "eq(db.Storage.Get($0.storage,$1)#1,nil)") {
			return "a snapshot is made of a root that was not found in the storage"
		}
		return ""
	})
	s.NonEmpty("snapshot", s.Succ)

	// opening a tree
	r.Ob("zero-hash", "merkletree.HashZero", r.P.ZeroGlobal("merkletree.HashZero"), "merkletree", "the hash that stands for no node is not zero, or is assigned")
	n := r.F("merkletree.NewMerkleTree")
	root := "or(@merkletree.rootNodeValue,\"currentroot\")"
	get := "db.Storage.Get($0," + root + ")"
	n.Each("open", n.Succ, func(o *eng.Out) string {
		t := o.Res[0]
		if !n.m("$0", n.sel(t, "storage")) || !n.m("$1", n.sel(t, "maxLevels")) || !n.m("true", n.sel(t, "writable")) {
			return "the opened tree is " + short(t)
		}
		rk := n.sel(t, "rootKey")
		switch {
		case n.has(o.St, "eq("+get+"#1, nil)") && n.holdsAll(o.St, "lt(1,len("+get+"#0))", eng.Bind{}):
			if !n.m("or(fit(sub("+get+"#0,1,_),32), sub("+get+"#0,1,33))", rk) {
				return "the root of a stored tree is loaded as " + short(rk)
			}
			if len(n.Hits(o, "db.Tx.Put(...)")) > 0 {
				return "opening a stored tree writes to it"
			}
		case n.has(o.St, "eq("+get+"#1, @db.ErrNotFound)"):
			if !n.m("@merkletree.HashZero", rk) {
				return "a new tree starts with root " + short(rk)
			}
			if !n.has(o.St, "eq(db.Tx.Commit(db.Storage.NewTx($0)#0), nil)") || len(n.Hits(o, "db.Tx.Put(db.Storage.NewTx($0)#0,"+root+",cat(elem1(3),@merkletree.HashZero))")) != 1 {
				return "the root of a new tree is not stored" + n.pathDesc(o)
			}
		default:
			return "a tree is opened although its stored root could not be read" + n.pathDesc(o)
		}
		return ""
	})
	n.NonEmpty("open", n.Succ)
	n.OneOf("open-refusal", n.Fail, "le(len("+get+"#0),1)", "not(eq("+get+"#1, nil))")

	// importing a dump
	im := r.F("merkletree.MerkleTree.ImportTree")
	for _, ev := range []string{"db.Tx.Put(...)", "db.Tx.Commit(...)"} {
		im.Guard("import-guarded", im.Outs, ev, "$0.writable")
	}
	// a node is imported only under the hash of its content
	imk := r.F("merkletree.MerkleTree.ImportTree", "merkletree.deserializeKV", "merkletree.Node.Key", "merkletree.NewNodeFromBytes")
	kv := "merkletree.deserializeKV(_)"
	nd := "merkletree.NewNodeFromBytes(" + kv + "#1)"
	nput := 0
	imk.Each("import-node-key", imk.Outs, func(o *eng.Out) string {
		for _, h := range imk.Hits(o, "db.Tx.Put(_,"+kv+"#0,_)") {
			nput++
			for _, p := range []string{"eq(" + nd + "#1,nil)", "eq(merkletree.Node.Key(" + nd + "#0)#1,nil)", "eq(" + kv + "#0,merkletree.Node.Key(" + nd + "#0)#0)"} {
				if !imk.knownAt(h, p, eng.Bind{}) {
					return "a node of a dump is stored without checking that its key is the hash of its content" + imk.pathDesc(o)
				}
			}
		}
		return ""
	})
	r.Ob("import-node-key/stores", imk.Name, nput > 0, imk.pos(0), "no node of a dump is stored under its key")
	im.Must("import-ok", im.Succ, "$0.writable", "eq(db.Tx.Commit("+tx+"), nil)")
	im.Each("import-root", im.Outs, func(o *eng.Out) string {
		if o.Kind != "return" {
			return ""
		}
		succ := im.X.NilState(o.St, o.Res[0]) == 1
		puts := im.Hits(o, "db.Tx.Put("+tx+","+root+",cat(elem1(3),?r))")
		for _, h := range im.Hits(o, "db.Tx.Commit(...)") {
			if len(puts) == 0 || puts[0].I > h.I {
				return "the imported nodes are committed without the root record"
			}
			if !im.holdsAll(h.St, "eq(len(?r),32)", puts[0].B) {
				return "the root record is not checked to be a hash"
			}
		}
		st := im.storesTo(o, "rootKey")
		if succ && len(st) == 0 {
			return "the import succeeds without the tree taking the imported root"
		}
		for _, h := range st {
			if _, ok := im.X.FindFactN(h.St, h.E.NF, "eq(db.Tx.Commit("+tx+"), nil)", eng.Bind{}); !ok {
				return "the root in memory changes before the commit is known to have succeeded"
			}
		}
		return ""
	})
	im.locked("import-lock", "RWMutex", []string{"db.Tx.Commit(...)"})
}

// storesTo lists the stores to field name of an object that is not local to the function.
func (f *F) storesTo(o *eng.Out, field string) []Hit {
	var hs []Hit
	for _, h := range f.Flat(o) {
		if h.E.Kind == "store" && h.E.Args[0].Op == "fa" && h.E.Args[0].Aux == field {
			hs = append(hs, h)
		}
	}
	return hs
}

func c05(r *R) {
	r.sharedAppends("shared-append", "merkletree.")
	c05dumps(r)
	// nodes
	v := r.F("merkletree.Node.Value")
	data := "cat(elem1(or($0.Type,1)),$0.Entry.Data[0],$0.Entry.Data[1],$0.Entry.Data[2],$0.Entry.Data[3],$0.Entry.Data[4],$0.Entry.Data[5],$0.Entry.Data[6],$0.Entry.Data[7])"
	v.Table("node-bytes", v.Outs, rows(
		"middle => eq($0.Type,0) => cat(elem1(or($0.Type,0)),$0.ChildL,$0.ChildR)",
		"leaf => eq($0.Type,1) => "+data,
		"other => not(eq($0.Type,0)); not(eq($0.Type,1)) => or(zero(),nil)",
	)...)
	p := r.F("merkletree.NewNodeFromBytes", "!bounds")
	p.Each("node-parse", p.Succ, func(o *eng.Out) string {
		t := o.Res[0]
		if !p.m("or($0[0],0,1,2)", p.sel(t, "Type")) {
			return "the type is read from " + short(p.sel(t, "Type"))
		}
		switch {
		case p.has(o.St, "eq($0[0],0)"):
			if !p.has(o.St, "eq(len($0),65)") || !p.m("sub($0,1,33)", p.sel(t, "ChildL")) || !p.m("sub($0,33,65)", p.sel(t, "ChildR")) {
				return "an inner node is parsed as " + short(t)
			}
		case p.has(o.St, "eq($0[0],1)"):
			var el []string
			for i := 0; i < 8; i++ {
				el = append(el, fmt.Sprintf("elem1(sub($0,%d,%d))", 1+32*i, 33+32*i))
			}
			if !p.has(o.St, "eq(len($0),257)") || !p.m("cat("+strings.Join(el, ",")+")", p.sel(p.sel(t, "Entry"), "Data")) {
				return "a leaf is parsed as " + short(p.sel(t, "Entry"))
			}
		case p.has(o.St, "eq($0[0],2)"):
		default:
			return "bytes of an unknown kind are accepted as a node" + p.pathDesc(o)
		}
		return ""
	})
	p.NonEmpty("node-parse", p.Succ)
	p.Each("node-refuse", p.Fail, func(o *eng.Out) string {
		for _, w := range []string{"le(len($0),0)", "eq($0[0],0); not(eq(len($0),65))", "eq($0[0],1); not(eq(len($0),257))", "not(eq($0[0],0)); not(eq($0[0],1)); not(eq($0[0],2))", "eq($0[0],2); not(eq(len($0),1))"} {
			if p.holdsAll(o.St, w, eng.Bind{}) {
				return ""
			}
		}
		return "bytes are refused that are a serialised node" + p.pathDesc(o)
	})
	p.noBounds("node-no-panic", nil)

	// proofs
	w := r.F("merkletree.Proof.Bytes")
	w.NonEmpty("proof-bytes", w.Succ)
	w.Each("proof-bytes", w.Succ, func(o *eng.Out) string {
		base, ls := w.layers(o, o.Res[0])
		aux := w.has(o.St, "not(eq($0.NodeAux,nil))")
		exist := w.has(o.St, "$0.Existence")
		flags := 0
		got := map[string]bool{}
		n := "add(mul(32,len($0.Siblings)),%d)"
		size := fmt.Sprintf(n, 32)
		if aux {
			size = fmt.Sprintf(n, 96)
		}
		if base.Op != "cat" && base.Op != "catn" && (base.Op != "make" || !w.m(size, base.Args[0])) {
			return "the proof is written into " + short(base) + ", expected room for exactly its parts"
		}
		for _, l := range ls {
			switch {
			case w.m("0", l.off):
				if l.val.IsInt {
					flags = int(l.val.I)
				} else if b, ok := w.mb("bin(_,?c)", l.val); ok && l.val.Aux == "|" && b["c"].IsInt {
					flags |= int(b["c"].I)
				} else {
					return "the flags are set to " + short(l.val)
				}
			case w.m("1", l.off) && w.m("or($0.depth, trunc($0.depth))", l.val):
				got["depth"] = true
			case w.m("2", l.off) && w.m("$0.notempties", l.val):
				got["notempties"] = true
			case l.loop != nil && w.X.Decide(o.St, w.X.In.Le(w.X.T("len($0.Siblings)", nil), l.loop.Iter)) == 1 && l.off == w.X.T("add(mul(32,?i),32)", eng.Bind{"i": l.loop.Iter}) && w.mB("$0.Siblings[?i]", l.val, eng.Bind{"i": l.loop.Iter}):
				got["siblings"] = true
			case w.m(fmt.Sprintf(n, 32), l.off) && w.m("$0.NodeAux.HIndex", l.val):
				got["auxHi"] = true
			case w.m(fmt.Sprintf(n, 64), l.off) && w.m("$0.NodeAux.HValue", l.val):
				got["auxHv"] = true
			default:
				return "the serialised proof has " + short(l.val) + " at offset " + short(l.off)
			}
		}
		want := 0
		if !exist {
			want |= 1
		}
		if aux {
			want |= 2
		}
		if flags != want {
			return fmt.Sprintf("the flags byte is %d, expected %d%s", flags, want, w.pathDesc(o))
		}
		need := []string{"depth", "notempties", "siblings"}
		if aux {
			need = append(need, "auxHi", "auxHv")
		}
		for _, k := range need {
			if !got[k] {
				return "the serialised proof lacks its " + k
			}
		}
		return ""
	})
	rd := r.F("merkletree.NewProofFromBytes", "!bounds")
	rd.NonEmpty("proof-parse", rd.Succ)
	parse := func(o *eng.Out) string {
		t := o.Res[0]
		ex, aux := rd.sel(t, "Existence"), rd.sel(t, "NodeAux")
		e1 := rd.has(o.St, "eq(bin($0[0],1),0)")
		if !(ex.IsTrue() && e1 || ex.IsFalse() && rd.has(o.St, "not(eq(bin($0[0],1),0))") || rd.m("eq(bin($0[0],1),0)", ex)) {
			return "the existence flag is parsed as " + short(ex) + rd.pathDesc(o)
		}
		if !rd.m("$0[1]", rd.sel(t, "depth")) {
			return "the depth is parsed as " + short(rd.sel(t, "depth"))
		}
		if !rd.holdsAll(o.St, "le($0[1],240)", eng.Bind{}) {
			return "a depth beyond the bitmap of siblings is accepted"
		}
		if !rd.m("sub($0,2,32)", rd.sel(t, "notempties")) {
			return "the bitmap is parsed as " + short(rd.sel(t, "notempties"))
		}
		sb := rd.carried(o, rd.sel(t, "Siblings"))
		if sb == nil {
			return "the siblings are " + short(rd.sel(t, "Siblings"))
		}
		if d := rd.sibLoop(o, sb); d != "" {
			return d
		}
		if !rd.hasFact(o.St, rd.X.In.Le(rd.X.T("$0[1]", nil), sb.Loop.Iter)) {
			return "the siblings of some levels are not read"
		}
		// ?n: the siblings read, or a counter that steps with them
		ns := []*Term{rd.X.T("len(?s)", eng.Bind{"s": sb.Cur})}
		for i, p := range sb.Loop.Phis {
			if !rd.m("0", sb.Loop.Init[i]) {
				continue
			}
			with := true
			for _, s := range sb.Loop.Steps {
				e := p
				if sb.Next(s) != sb.Cur {
					e = rd.X.In.AddC(p, 1)
				}
				with = with && s.Next[i] == e
			}
			if with {
				ns = append(ns, p)
			}
		}
		some := func(k func(b eng.Bind) bool) bool {
			for _, n := range ns {
				if k(eng.Bind{"n": n}) {
					return true
				}
			}
			return false
		}
		switch {
		case aux.IsNil():
			if !some(func(b eng.Bind) bool { return rd.holdsAll(o.St, "eq(len($0), add(mul(32,?n),32))", b) }) {
				return "trailing bytes are accepted" + rd.pathDesc(o)
			}
			if !e1 && !rd.has(o.St, "eq(bin($0[0],2),0)") {
				return "the auxiliary leaf is left out without looking at its flag"
			}
		default:
			if !rd.has(o.St, "not(eq(bin($0[0],2),0))") || e1 {
				return "an auxiliary leaf is read without its flag"
			}
			for i, q := range []string{"HIndex", "HValue"} {
				from, to := 32+32*i, 64+32*i
				if !some(func(b eng.Bind) bool {
					return rd.mB(fmt.Sprintf("sub($0,add(mul(32,?n),%d),add(mul(32,?n),%d))", from, to), rd.sel(aux, q), b)
				}) && !(some(func(b eng.Bind) bool { return rd.holdsAll(o.St, "eq(len($0), add(mul(32,?n),96))", b) }) && i == 1 &&
					some(func(b eng.Bind) bool { return rd.mB("sub($0,add(mul(32,?n),64),len($0))", rd.sel(aux, q), b) })) {
					return "the auxiliary leaf is read as " + short(aux)
				}
			}
			if !some(func(b eng.Bind) bool { return rd.holdsAll(o.St, "eq(len($0), add(mul(32,?n),96))", b) }) {
				return "trailing bytes are accepted" + rd.pathDesc(o)
			}
		}
		return ""
	}
	rd.Each("proof-parse", rd.Succ, parse)
	// what is refused is not the serialisation of any proof
	rd.Each("proof-refuse", rd.Fail, func(o *eng.Out) string {
		if rd.has(o.St, "lt(len($0),32)") || rd.has(o.St, "lt(240,$0[1])") {
			return ""
		}
		for _, l := range rd.loops(o) {
			var cs []*Term
			for loc := range l.MemInit {
				if c := rd.carriedLoc(l, loc); c != nil {
					cs = append(cs, rd.X.T("len(?s)", eng.Bind{"s": c.Cur}))
				}
			}
			for i, p := range l.Phis {
				cs = append(cs, p)
				if c := rd.carried(o, p); c != nil && !rd.m("0", l.Init[i]) {
					cs = append(cs, rd.X.T("len(?s)", eng.Bind{"s": c.Cur}))
				}
			}
			for _, c := range cs {
				b := eng.Bind{"n": c}
				for _, p := range []string{
					"common.TestBitBigEndian(sub($0,2,32),_); lt(len($0),add(mul(32,?n),64))",
					"not(eq(bin($0[0],1),0)); not(eq(bin($0[0],2),0)); not(eq(len($0),add(mul(32,?n),96)))",
					"eq(bin($0[0],1),0); not(eq(len($0),add(mul(32,?n),32)))",
					"eq(bin($0[0],2),0); not(eq(len($0),add(mul(32,?n),32)))",
				} {
					if rd.holdsAll(o.St, p, b) {
						return ""
					}
				}
			}
		}
		return "bytes are refused that may be a serialised proof" + rd.pathDesc(o)
	})
	rd.noBounds("proof-no-panic", func(o *eng.Out, h Hit) bool {
		// slicing at 32*len(siblings): the loop invariant says those bytes were there
		b, ok := rd.mb("mul(32,len(?s))", h.E.Args[2])
		if !ok {
			if x := h.E.Args[2]; x.Op == "lin" {
				for _, l := range rd.loops(o) {
					for loc := range l.MemInit {
						c := rd.carriedLoc(l, loc)
						if c != nil && x == rd.X.T("mul(32,len(?s))", eng.Bind{"s": c.Cur}) {
							return rd.sibLoop(o, c) == ""
						}
					}
				}
			}
			return false
		}
		c := rd.carried(o, b["s"])
		return c != nil && rd.sibLoop(o, c) == ""
	})

	// key-value dumps
	k := r.F("merkletree.serializeKV")
	k.Table("kv-write", k.Succ, rows(
		"written ? => le(len($1),255); le(len($2),65535) => nil => io.Writer.Write($0, cat(elem1(or(trunc(len($1)),len($1))))); io.Writer.Write($0, common.Uint16ToBytes(or(trunc(len($2)),len($2)))); io.Writer.Write($0,$1); io.Writer.Write($0,$2)",
		"written at once ? => le(len($1),255); le(len($2),65535) => nil => io.Writer.Write($0, cat(elem1(or(trunc(len($1)),len($1))), common.Uint16ToBytes(or(trunc(len($2)),len($2))), $1, $2))",
	)...)
	k.NonEmpty("kv-write", k.Succ)
	k.Each("kv-write-errors", k.Succ, func(o *eng.Out) string {
		for _, h := range k.Hits(o, "io.Writer.Write(...)") {
			if !k.X.Holds(o.St, "eq(?w#1, nil)", eng.Bind{"w": h.E.Res}) {
				return "a failed write is ignored"
			}
		}
		return ""
	})
	dk := r.F("merkletree.deserializeKV", "!bounds")
	dk.Each("kv-read", dk.Succ, func(o *eng.Out) string {
		h := "out(io.ReadFull($0, zero()))"
		n := "common.BytesToUint16(sub(" + h + ",1,3))"
		all := func(t *Term) *Term {
			for t.Op == "sub" {
				t = t.Args[0]
			}
			return t
		}
		// the key and then the value, each read on its own unless it is empty
		rd := dk.Hits(o, "io.ReadFull($0,?b)")
		apart := len(rd) > 0 && dk.m("zero()", rd[0].B["b"])
		for i, want := range []string{h + "[0]", n} {
			b := all(o.Res[i])
			switch {
			case apart && b.Op == "out" && len(rd) > 1 && dk.mB("out(io.ReadFull($0,?b))", b, rd[1].B) && dk.m("make("+want+")", rd[1].B["b"]):
				rd = rd[1:]
			case apart && dk.m("make("+want+")", b) && dk.hasFact(o.St, dk.X.In.Eq(b.Args[0], dk.X.In.Int(0))):
			default:
				apart = false
			}
		}
		if apart && len(rd) == 1 {
			return ""
		}
		if a := all(o.Res[0]); a != all(o.Res[1]) || !dk.m("out(io.ReadFull($0, make(_)))", a) {
			return "key and value are " + short(o.Res[0]) + " and " + short(o.Res[1])
		}
		kl, vl := dk.X.In.Len(o.Res[0]), dk.X.In.Len(o.Res[1])
		if !dk.m("or("+h+"[0])", kl) {
			return "the key length is " + short(kl)
		}
		if !dk.m(n, vl) {
			return "the value length is " + short(vl)
		}
		return ""
	})
}

// c05dumps: what a dump writes is what an import reads.
func c05dumps(r *R) {
	opts := []string{"merkletree.MerkleTree.Walk", "merkletree.serializeKV", "merkletree.deserializeKV", "merkletree.MerkleTree.AddEntry", "merkletree.Node.Key"}
	data := "$0.Entry.Data[0],$0.Entry.Data[1],$0.Entry.Data[2],$0.Entry.Data[3],$0.Entry.Data[4],$0.Entry.Data[5],$0.Entry.Data[6],$0.Entry.Data[7]"
	cbs := func(f *F, rule string, cs ...*Case) {
		n := 0
		for _, o := range f.Outs {
			for _, h := range f.Hits(o, "merkletree.MerkleTree.Walk(...)") {
				n++
				f.Table(rule, h.E.CB, cs...)
			}
		}
		f.r.Ob(rule+"/walks", f.Name, n > 0, f.pos(token.NoPos), "the tree is not walked")
	}
	m := mac{"C": "?c", "D": strings.ReplaceAll(data, "$0", "?c")}

	// nodes: everything but empty nodes, under its own key, then the root
	d := r.F("merkletree.MerkleTree.DumpTree", opts...)
	cbs(d, "dump-nodes", m.rows(
		"empty => eq(~C.Type,2) =>  =>  => merkletree.serializeKV(...)",
		"no key ? => not(eq(?k#1,nil)) =>  =>  => merkletree.serializeKV(...)",
		"leaf => eq(~C.Type,1) => => merkletree.serializeKV($1, or(~C.key, merkletree.Node.Key(~C)#0), cat(elem1(or(~C.Type,1)), ~D))",
		"middle => eq(~C.Type,0) => => merkletree.serializeKV($1, or(~C.key, merkletree.Node.Key(~C)#0), cat(elem1(or(~C.Type,0)), ~C.ChildL, ~C.ChildR))",
		"no bytes ? => not(eq(~C.Type,0)); not(eq(~C.Type,1)) =>",
	)...)
	root := "or($2,$0.rootKey,phi($2,$0.rootKey))"
	d.Each("dump-root", d.Succ, func(o *eng.Out) string {
		ws := d.Hits(o, "merkletree.MerkleTree.Walk($0,?r,_)")
		want := map[int]string{1: "$0.rootKey", -1: "$2"}[d.X.NilState(o.St, d.X.T("$2", nil))]
		if want == "" {
			want = root
		}
		if len(ws) == 1 && !d.m(want, ws[0].B["r"]) && !(d.m("$2", ws[0].B["r"]) && want == "$0.rootKey") {
			return "the nodes dumped are those of " + short(ws[0].B["r"]) + d.pathDesc(o)
		}
		if ks := d.Hits(o, "merkletree.serializeKV($1,"+currentRoot+",?r)"); len(ks) > 0 && !d.m(want, ks[len(ks)-1].B["r"]) {
			return "the dump ends with the root " + short(ks[len(ks)-1].B["r"]) + d.pathDesc(o)
		}
		if len(ws) != 1 || !d.m(root, ws[0].B["r"]) {
			return "the nodes dumped are not those of one root"
		}
		ks := d.HitsB(o, "merkletree.serializeKV($1,?k,?r)", ws[0].B)
		var last []Hit
		for _, h := range ks {
			if !h.CB {
				last = append(last, h)
			}
		}
		if len(last) != 1 || last[0].I < ws[0].I || !d.m(currentRoot, last[0].B["k"]) {
			return "the dump does not end with the root its nodes belong to"
		}
		return ""
	})
	d.NonEmpty("dump-root", d.Succ)

	// import: every pair is stored as it is, the root record becomes the root
	im := r.F("merkletree.MerkleTree.ImportTree", opts...)
	pair := "merkletree.deserializeKV(_)"
	im.NonEmpty("import-pairs", im.Succ)
	im.Each("import-pairs", im.Succ, func(o *eng.Out) string {
		for _, l := range im.loops(o) {
			for _, s := range l.Steps {
				so := &eng.Out{St: &eng.State{}, Kind: "return"}
				*so.St = *s.St
				so.St.Events = s.Events
				b := eng.Bind{}
				isRoot := im.has(s.St, "eq("+pair+"#0,"+currentRoot+")")
				puts := im.HitsB(so, "db.Tx.Put(_,?k,?v)", b)
				switch {
				case isRoot && len(puts) == 0:
					if len(s.Next) == 0 {
						return "the root record of the dump is dropped"
					}
				case !isRoot && len(puts) == 1 && im.m(pair+"#0", puts[0].B["k"]) && im.m(pair+"#1", puts[0].B["v"]):
				default:
					return "a pair of the dump is not stored as it was written" + stepDesc(s)
				}
			}
			return ""
		}
		return "the pairs of the dump are not gone through"
	})

	// claims: exactly the leaves, as the hexadecimal form of their data
	dc := r.F("merkletree.MerkleTree.DumpClaims", opts...)
	cbs(dc, "dump-claims", m.rows(
		"leaf => eq(~C.Type,1) => => common.HexEncode(cat(~D))",
		"other => not(eq(~C.Type,1)) => => => common.HexEncode(...)",
	)...)
	dw := r.F("merkletree.MerkleTree.DumpClaimsIoWriter", opts...)
	cbs(dw, "dump-claims", m.rows(
		"leaf => eq(~C.Type,1) => => fmt.Fprintf($1, _, cat(_, elem1(common.HexEncode(cat(~D))))) | fmt.Fprintf($1, _, cat(elem1(common.HexEncode(cat(~D))))) | fmt.Fprint($1, _)",
		"other => not(eq(~C.Type,1)) => => => fmt.Fprintf(...)",
		"after a failed write ? => => => => fmt.Fprintf(...)",
	)...)
	dw.NonEmpty("dump-list", dw.Succ)
	dw.Each("dump-list", dw.Succ, func(o *eng.Out) string {
		var open, end bool
		walked := false
		for _, h := range dw.Flat(o) {
			if h.CB || h.E.Kind != "call" {
				continue
			}
			walked = walked || h.E.Name == "merkletree.MerkleTree.Walk"
			for _, a := range h.E.Args {
				open = open || !walked && a.Op == "const" && strings.HasPrefix(a.Aux, "\"[")
				end = end || walked && a.Op == "const" && strings.Contains(a.Aux, "]")
			}
		}
		if !open || !end {
			return "the claims are not written as one complete list" + dw.pathDesc(o)
		}
		return ""
	})
	// a comma stands between two claims, none after the last: it goes before a claim, as
	// something that is empty the first time
	dw.Each("dump-separator", dw.Outs, func(o *eng.Out) string {
		for _, h := range dw.Flat(o) {
			if !h.CB || h.E.Kind != "call" || !strings.HasPrefix(h.E.Name, "fmt.Fprint") || len(h.E.Args) < 3 {
				continue
			}
			for i, a := range h.E.Args[1:] {
				if a.Op != "const" {
					continue
				}
				t := a.Aux
				if j := strings.LastIndexByte(t, '%'); j >= 0 {
					t = t[j:]
				}
				if i == len(h.E.Args)-2 || h.E.Name == "fmt.Fprintf" {
					if strings.Contains(t, ",") {
						return "a comma follows every claim, also the last: " + h.E.Args[1].Aux
					}
				}
			}
		}
		return ""
	})
	ic := r.F("merkletree.MerkleTree.ImportDumpedClaims", opts...)
	ic.OneOf("import-refusal", ic.Fail, "not(eq(merkletree.MerkleTree.AddEntry(...),nil))", "not(eq(common.HexDecodeInto(...),nil))", "not(eq(len(or(strings.TrimPrefix(_,\"0x\"),$1[_])),512))")
	ic.forAll("import-claims", ic.Succ, "$1", rows(
		"added => eq(merkletree.MerkleTree.AddEntry(...),nil); eq(common.HexDecodeInto(_,?t),nil) => => common.HexDecodeInto(_, ?t); merkletree.MerkleTree.AddEntry($0, ?e)",
	)...)
	ic.Each("import-claim-data", ic.Outs, func(o *eng.Out) string {
		for _, h := range ic.Hits(o, "merkletree.MerkleTree.AddEntry(_,?e)") {
			for i := 0; i < 8; i++ {
				x := ic.X.T(fmt.Sprintf("?e.Data[%d]", i), h.B)
				if !ic.m(fmt.Sprintf("sub(out(common.HexDecodeInto(...)),%d,%d)", 32*i, 32*i+32), x) {
					return fmt.Sprintf("element %d of the imported claim is %s", i, short(x))
				}
			}
		}
		return ""
	})
}

const currentRoot = "or(@merkletree.rootNodeValue,\"currentroot\")"

// sibLoop: the loop reads, for each level whose bit is set, the next 32 bytes, after checking
// that they are there.
func (f *F) sibLoop(o *eng.Out, sb *Carried) string {
	if sb.Init == nil || sb.Init.Op != "zero" && !sb.Init.IsNil() {
		return "the siblings do not start empty"
	}
	var idx *Term
	for _, s := range sb.Loop.Steps {
		b := eng.Bind{"l": sb.Loop.Iter, "s": sb.Cur}
		set := f.holdsAll(s.St, "common.TestBitBigEndian(sub($0,2,32),?l)", b)
		unset := f.holdsAll(s.St, "not(common.TestBitBigEndian(sub($0,2,32),?l))", b)
		nx := sb.Next(s)
		if unset && nx == sb.Cur {
			continue
		}
		if !set {
			return "a sibling is read without its bit being set"
		}
		nb, ok := f.X.Match(eng.P("cat(?s, elem1(sub($0,?lo,?hi)))"), nx, b)
		if !ok {
			return "a present sibling is read as " + short(nx)
		}
		if d := f.X.In.Sub(nb["hi"], nb["lo"]); !f.m("32", d) {
			return "a sibling has length " + short(d)
		}
		i := nb["lo"]
		if idx != nil && idx != i {
			return "siblings are read at different places"
		}
		idx = i
		if f.X.Decide(s.St, f.X.In.Le(nb["hi"], f.X.T("len($0)", nil))) != 1 {
			return "a sibling is read without checking that its bytes are there"
		}
	}
	if idx == nil {
		return "no sibling is ever read"
	}
	// the offset is 32*(number of siblings read so far) + 32
	for i, p := range sb.Loop.Phis {
		if idx == f.X.T("add(mul(32,?p),32)", eng.Bind{"p": p}) && f.m("0", sb.Loop.Init[i]) {
			for _, s := range sb.Loop.Steps {
				e := p
				if sb.Next(s) != sb.Cur {
					e = f.X.In.AddC(p, 1)
				}
				if s.Next[i] != e {
					return "the place of the next sibling does not step with the siblings read"
				}
			}
			return ""
		}
	}
	if idx == f.X.T("add(mul(32,len(?s)),32)", eng.Bind{"s": sb.Cur}) {
		return ""
	}
	return "siblings are read at " + short(idx)
}
