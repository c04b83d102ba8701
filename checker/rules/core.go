package rules

import (
	"fmt"
	"strconv"
	"strings"

	"verif/checker/eng"
)

func init() {
	register("C10", "Claims and tree leaves survive serialisation in the fixed layout", c10)
	register("C09", "Identifiers and identity states", c09)
}

func c09(r *R) {
	in := func(f *F, t *Term, i int64) *Term { return f.X.In.Idx(t, f.X.In.Int(i), nil) }
	// checksum: the sum of the 29 bytes before it, high byte first
	c := r.F("core.CalculateChecksum")
	c.Each("checksum-sum", c.Outs, func(o *eng.Out) string {
		t := o.Res[0]
		if t.Op == "be" && t.N == 2 { // written as a number of two bytes
			hi := c.X.In.Mk("bin", ">>", t.Args[0], c.X.In.Int(8))
			t = c.X.In.Mk("cat", "", c.X.In.Mk("elem1", "", hi), c.X.In.Mk("elem1", "", t.Args[0]))
		}
		if t.Op != "cat" || len(t.Args) != 2 {
			return "the checksum is " + short(t)
		}
		var sums [2]*Term
		for k, a := range t.Args {
			if a.Op != "elem1" {
				return "the checksum is " + short(t)
			}
			v := a.Args[0]
			for v.Op == "trunc" {
				v = v.Args[0]
			}
			if k == 0 {
				if v.Op != "bin" || v.Aux != ">>" || !c.m("8", v.Args[1]) {
					return "the first byte of the checksum is not the high byte of the sum: " + short(v)
				}
				v = v.Args[0]
			} else if v.Op == "bin" && v.Aux == "&" {
				for j := range v.Args {
					if c.m("255", v.Args[j]) {
						v = v.Args[1-j]
						break
					}
				}
			}
			sums[k] = v
		}
		var ps [2]*Term
		for _, a := range sums[0].Args {
			if a.Op == "idx" && a.Args[0].Op == "param" {
				for k, n := range []string{"$0", "$1"} {
					if c.m(n, a.Args[0]) {
						ps[k] = a.Args[0]
					}
				}
			}
		}
		if ps[0] == nil || ps[1] == nil || sums[0] != sums[1] {
			return "the checksum does not cover type and genesis: " + short(t)
		}
		var want []*Term
		for i := int64(0); i < 2; i++ {
			want = append(want, in(c, ps[0], i))
		}
		for i := int64(0); i < 27; i++ {
			want = append(want, in(c, ps[1], i))
		}
		if !c.sumOf(sums[0], want) {
			return "the checksum is not the sum of the 29 bytes: " + short(sums[0])
		}
		return ""
	})
	c.NonEmpty("checksum-sum", c.Outs)
	cs := "core.CalculateChecksum"
	n := r.F("core.NewID", cs)
	n.Table("new-id", n.Outs, rows("id => => cat($0,$1,core.CalculateChecksum($0,$1))")...)
	k := r.F("core.CheckChecksum", cs)
	k.iff("check-checksum", 0, `not(eq(sub($0,29,31),"\x00\x00"))`, "eq(sub($0,29,31),core.CalculateChecksum(sub($0,0,2),sub($0,2,29)))")
	d := r.F("core.DecomposeID")
	d.Table("decompose", d.Outs, rows("parts => => sub($0,0,2); sub($0,2,29); sub($0,29,31); nil")...)
	// bytes and text
	ID := "or($0,sub($0,0,31),copyinto(_,0,$0))"
	b := r.F("core.IDFromBytes", "core.CheckChecksum")
	b.okIff("from-bytes", "eq(len($0),31)", "not(eq($0,zero()))", "core.CheckChecksum("+ID+")")
	b.Each("from-bytes", b.Succ, func(o *eng.Out) string {
		if o.Res[0] == nil || !b.m(ID, o.Res[0]) {
			return "the ID parsed is " + short(o.Res[0])
		}
		return ""
	})
	s := r.F("core.IDFromString", "core.IDFromBytes")
	s.Table("from-string", s.Outs, rows("id => => core.IDFromBytes(base58.Decode($0))#0; core.IDFromBytes(base58.Decode($0))#1")...)
	u := r.F("core.ID.UnmarshalText", "core.IDFromString")
	u.Table("unmarshal-text", u.Succ, rows("good => eq(core.IDFromString($1)#1,nil) => _ => ev:store($0,core.IDFromString($1)#0)")...)
	u.Table("unmarshal-text-bad", u.Fail, rows("bad => not(eq(core.IDFromString($1)#1,nil)) => core.IDFromString($1)#1")...)
	m := r.F("core.ID.MarshalText", "-core.ID.String", "-core.ID.Bytes")
	m.Table("marshal-text", m.Outs, rows("text => => base58.Encode($0); nil")...)
	st := r.F("core.ID.String", "-core.ID.Bytes")
	st.Table("string", st.Outs, rows("text => => base58.Encode($0)")...)
	by := r.F("core.ID.Bytes")
	by.Table("bytes", by.Outs, rows("bytes => => $0")...)
	bi := r.F("core.ID.BigInt")
	bi.Table("bigint", bi.Outs, rows("int => => merkletree.ElemBytes.BigInt(cat($0,elem1(0)))")...)
	for _, e := range []string{"core.ID.Equal", "core.ID.Equals"} {
		f := r.F(e)
		f.Each("equal", f.Outs, func(o *eng.Out) string {
			if len(o.Res) != 1 || !f.m("eq($0,$1)", o.Res[0]) {
				yes, no := f.SplitBool(0)
				for i, l := range [][]*eng.Out{yes, no} {
					for _, o := range l {
						if !f.Holds(o, []string{"eq($0,$1)", "not(eq($0,$1))"}[i]) {
							return "two IDs are compared by " + short(o.Res[0])
						}
					}
				}
			}
			return ""
		})
	}
	// identity state and genesis ID
	mm := mac{"IN": "merkletree.ElemBytesToPoseidonInput(cat(elem1($0),elem1($1),elem1($2)))", "PH": "poseidon.PoseidonHash(~IN#0)"}
	ci := r.F("core.CalculateIdenState", "-merkletree.HashElems")
	ci.Table("state", ci.Outs, mm.rows(
		"outside the field => not(eq(~IN#1,nil)) => nil; ~IN#1",
		"hash failure => eq(~IN#1,nil); not(eq(~PH#1,nil)) => nil; ~PH#1",
		"state => eq(~IN#1,nil); eq(~PH#1,nil) => merkletree.NewHashFromBigInt(~PH#0); nil",
	)...)
	is := r.F("core.IdenState", "core.CalculateIdenState")
	is.Each("state-panics", is.Outs, func(o *eng.Out) string {
		e := "core.CalculateIdenState($0,$1,$2)"
		if o.Kind == "return" && (!is.m(e+"#0", o.Res[0]) || !is.Holds(o, "eq("+e+"#1,nil)")) {
			return "the state returned is " + short(o.Res[0])
		}
		return ""
	})
	g := r.F("core.IdGenesisFromIdenState", "core.NewID", "-merkletree.Hash.Bytes")
	g.Table("genesis-id", g.Outs, rows("id => => core.NewID(@core.TypeBJP0,sub($0,5,32))")...)
	gm := r.F("genesis.CalculateIdGenesisMT")
	lr := mac{"KOP": "merkletree.MerkleTree.AddClaim($0,$2)", "LR": "claims.AddLeafRootsTree($1,merkletree.MerkleTree.RootKey($0))"}
	gm.Each("genesis", gm.Succ, func(o *eng.Out) string {
		if !gm.m("core.IdGenesisFromIdenState(core.IdenState(merkletree.MerkleTree.RootKey($0),@merkletree.HashZero,merkletree.MerkleTree.RootKey($1)))", o.Res[0]) {
			return "the ID is " + short(o.Res[0])
		}
		return ""
	})
	all := true // the keys' claim is added in the same loop as the others
	for _, o := range gm.Succ {
		all = all && !gm.has(o.St, lr.x("eq(~KOP,nil)"))
	}
	if seq := "cat(elem1($2),$3)"; all && len(gm.Succ) > 0 {
		gm.Must("genesis-complete", gm.Succ, lr.x("eq(~LR,nil)"))
		gm.forAll("genesis-claims", gm.Succ, seq, rows("claim => eq(merkletree.MerkleTree.AddClaim($0,"+seq+"[?i]),nil)")...)
	} else {
		gm.Must("genesis-complete", gm.Succ, lr.x("eq(~KOP,nil)"), lr.x("eq(~LR,nil)"))
		gm.forAll("genesis-claims", gm.Succ, "$3", rows("claim => eq(merkletree.MerkleTree.AddClaim($0,$3[?i]),nil)")...)
	}
	gm.Each("genesis-order", gm.Succ, func(o *eng.Out) string {
		last := -1
		for i, h := range gm.Flat(o) {
			if gm.evMatch("merkletree.MerkleTree.AddClaim($0,_)", h.E, eng.Bind{}, yes) {
				last = i
			}
		}
		var roots []int
		for i, h := range gm.Flat(o) {
			if gm.evMatch("merkletree.MerkleTree.RootKey($0)", h.E, eng.Bind{}, yes) {
				roots = append(roots, i)
			}
			if gm.evMatch("merkletree.MerkleTree.RootKey($1)", h.E, eng.Bind{}, yes) {
				for j, k := range gm.Flat(o) {
					if gm.evMatch(lr.x("~LR"), k.E, eng.Bind{}, yes) && j > i {
						return "the roots tree root is taken before the claims root is in it"
					}
				}
			}
		}
		for _, i := range roots {
			if i < last {
				return "the claims root is taken before all claims are in the tree"
			}
		}
		return ""
	})
	gi := r.F("genesis.CalculateIdGenesis", "genesis.CalculateIdGenesisMT")
	nt := "merkletree.NewMerkleTree(db.NewMemoryStorage(),140)"
	gi.Each("genesis-trees", gi.Succ, func(o *eng.Out) string {
		b, ok := gi.mb("genesis.CalculateIdGenesisMT("+nt+"#0,"+nt+"#0,$0,$1)#0", o.Res[0])
		_ = b
		if !ok {
			return "the ID is " + short(o.Res[0])
		}
		t := o.Res[0].Args[0]
		if t.Op == "call" && t.Args[0] == t.Args[1] {
			return "claims and roots share one tree"
		}
		return ""
	})
	gi.NonEmpty("genesis-trees", gi.Succ)
}

var claimInline = []string{"-merkletree.Entry.Index", "-merkletree.Entry.Value", "-claims.Metadata.Marshal", "-claims.Metadata.Unmarshal", "-claims.Metadata.Header", "-merkletree.ElemBytes.BigInt", "!consts"}

// witness: the in-memory witness functions are part of the analysed package.
func (r *R) witness(name string, opts ...string) *F {
	if r.P.WitnessErr != "" {
		r.Ob("witness", name, false, "?", "the witness functions do not type-check against this tree: "+r.P.WitnessErr)
		return &F{r: r, Name: name, Err: fmt.Errorf("no witness")}
	}
	return r.F(name, opts...)
}

func c10(r *R) {
	r.sharedAppends("shared-append", "claims.", "core.", "genesis.", "proof.")
	// metadata: every field read back, for every header
	m := r.witness("claims.witnessMetadata", claimInline...)
	n := 0
	m.Each("metadata-round-trip", m.Outs, func(o *eng.Out) string {
		if o.Kind != "return" {
			return "serialising or parsing the metadata fails" + m.pathDesc(o)
		}
		t := eng.StripIface(o.Res[0])
		if m.m("nil", t) {
			return ""
		}
		n++
		h := m.sel(t, "header")
		for _, f := range []string{"Type", "Subject", "SubjectPos", "Expiration", "Version"} {
			if !m.same(o.St, m.sel(h, f), "$0.header."+f) {
				return "the header field " + f + " is read back as " + short(m.sel(h, f)) + m.pathDesc(o)
			}
		}
		if !m.same(o.St, m.sel(t, "RevNonce"), "$0.RevNonce") {
			return "the nonce is read back as " + short(m.sel(t, "RevNonce"))
		}
		for f, c := range map[string]string{"Version": "$0.header.Version", "Expiration": "$0.header.Expiration"} {
			want := "0"
			if m.Holds(o, c) {
				want = "$0." + f
			}
			if !m.same(o.St, m.sel(t, f), want) {
				return f + " is read back as " + short(m.sel(t, f)) + m.pathDesc(o)
			}
		}
		if s := m.sel(t, "Subject"); m.Holds(o, "eq($0.header.Subject,0)") != (m.X.NilState(o.St, s) == 1) || m.X.NilState(o.St, s) != 1 && !m.same(o.St, s, "$0.Subject") {
			return "the subject is read back as " + short(s) + m.pathDesc(o)
		}
		return ""
	})
	r.Ob("metadata-round-trip/cases", m.Name, n >= 24 || !m.ok(), m.r.P.Pos(0), "some header is not covered")
	// the layout is fixed: type, flags, version in slot 0 of the index, nonce and expiration in
	// slot 0 of the value, the subject in slot 1 of either
	lo := r.witness("claims.witnessMarshalOver", claimInline...)
	for _, l := range []*F{r.witness("claims.witnessMarshal", claimInline...), lo} {
		over := l == lo
		l.Each("metadata-layout", l.Outs, func(o *eng.Out) string {
			if o.Kind != "return" {
				return "serialising the metadata fails"
			}
			t := eng.StripIface(o.Res[0])
			if l.m("nil", t) {
				return ""
			}
			d := l.sel(t, "Data")
			at := func(i, a, b int64) *Term {
				in := l.X.In
				return in.SubSeq(in.Idx(d, in.Int(i), nil), in.Int(a), in.Int(b), nil)
			}
			if !l.m("$0.header.Type", at(0, 0, 8)) {
				return "the type is not in the first 8 bytes: " + short(at(0, 0, 8))
			}
			flags := int64(0)
			for _, k := range []int64{0, 1, 2} {
				if l.Holds(o, fmt.Sprintf("eq($0.header.Subject,%d)", k)) {
					flags |= k
				}
			}
			value := l.Holds(o, "eq($0.header.SubjectPos,1)")
			if value {
				flags |= 4
			}
			exp, ver := l.Holds(o, "$0.header.Expiration"), l.Holds(o, "$0.header.Version")
			if exp {
				flags |= 8
			}
			if ver {
				flags |= 16
			}
			if b := l.X.In.Idx(at(0, 8, 9), l.X.In.Int(0), nil); !b.IsInt || b.I != flags {
				return fmt.Sprintf("the flags are %s, expected %d", short(b), flags) + l.pathDesc(o)
			}
			if over { // whatever the entry held
				return ""
			}
			want := "le($0.Version)"
			if !ver {
				want = "zero()"
			}
			zero := func(t *Term) bool { return l.zeroBytes(t) }
			if t := at(0, 12, 16); !(ver && l.m(want, t) || !ver && zero(t)) {
				return "the version is not in bytes 12 to 16 of the index: " + short(t)
			}
			if t := at(4, 0, 4); !l.m("le($0.RevNonce)", t) {
				return "the nonce is not in the first 4 bytes of the value: " + short(t)
			}
			if t := at(4, 4, 12); !(exp && l.m("le($0.Expiration)", t) || !exp && zero(t)) {
				return "the expiration is not in bytes 4 to 12 of the value: " + short(t)
			}
			slot := int64(1)
			if value {
				slot = 5
			}
			self := l.Holds(o, "eq($0.header.Subject,0)")
			if t := at(slot, 0, 31); !(!self && l.m("$0.Subject", t) || self && zero(t)) {
				return "the subject is not in its slot: " + short(t) + l.pathDesc(o)
			}
			if t := at(6-slot, 0, 31); !zero(t) {
				return "the other subject slot holds " + short(t)
			}
			return ""
		})
	}
	nn := r.witness("claims.witnessNonce", claimInline...)
	nn.Each("nonce-read", nn.Outs, func(o *eng.Out) string {
		if o.Kind == "return" && !nn.m("$0.RevNonce", o.Res[0]) {
			return "GetRevocationNonce reads " + short(o.Res[0])
		}
		return ""
	})
	nn.NonEmpty("nonce-read", nn.Succ)
	// the claims
	for name, fields := range map[string]string{
		"claims.witnessBasic":      "IndexSlot=$0,ValueSlot=$1,nonce=$2",
		"claims.witnessOtherIden":  "Subject=$0,IndexSlot=$1,ValueSlot=$2,nonce=$3",
		"claims.witnessKeyBabyJub": "Ax=$0,Ay=$1,KeyType=$2,nonce=$3",
	} {
		f := r.witness(name, claimInline...)
		f.Each("claim-round-trip", f.Outs, func(o *eng.Out) string {
			if o.Kind != "return" {
				return "serialising or parsing fails" + f.pathDesc(o)
			}
			for k, t := range o.Res[:2] {
				t = eng.StripIface(t)
				md := f.sel(t, "metadata")
				for _, kv := range strings.Split(fields, ",") {
					kv := strings.Split(kv, "=")
					v := f.sel(t, kv[0])
					switch kv[0] {
					case "nonce":
						v = f.sel(md, "RevNonce")
					case "Subject":
						v = f.sel(md, "Subject")
					}
					p := kv[1]
					if k == 1 && kv[0][0] == 'A' {
						p = "or(" + p + ",big.SetBytes(common.SwapEndianness(fit(common.SwapEndianness(big.Bytes(" + p + ")),32))))"
					}
					if !f.same(o.St, v, p) {
						return kv[0] + " becomes " + short(v)
					}
				}
				if f.sel(md, "header") != f.sel(f.sel(eng.StripIface(o.Res[0]), "metadata"), "header") {
					return "the header is read back as " + short(f.sel(md, "header"))
				}
			}
			// the entry is inside the field whatever the content
			if name == "claims.witnessKeyBabyJub" {
				return ""
			}
			d := f.sel(eng.StripIface(o.Res[2]), "Data")
			for i := int64(0); i < 8; i++ {
				in := f.X.In
				if b := in.Idx(in.Idx(d, in.Int(i), nil), in.Int(31), nil); !f.m("0", b) && !f.zeroBytes(b) {
					return fmt.Sprintf("byte 31 of element %d is %s: the entry can fall outside the field", i, short(b))
				}
			}
			return ""
		})
		f.NonEmpty("claim-round-trip", f.Succ)
	}
	// leaves
	lr := r.witness("claims.witnessLeafRoots", claimInline...)
	lr.Each("leaf-round-trip", lr.Outs, func(o *eng.Out) string {
		if t := eng.StripIface(o.Res[0]); !lr.m("$0", t) && !lr.m("$0.Root", lr.sel(t, "Root")) {
			return "a roots leaf is read back as " + short(t)
		}
		return ""
	})
	lv := r.witness("claims.witnessLeafRev", claimInline...)
	lv.Each("leaf-round-trip", lv.Outs, func(o *eng.Out) string {
		if t := eng.StripIface(o.Res[0]); !lv.m("$0.Nonce", lv.sel(t, "Nonce")) || !lv.m("$0.Version", lv.sel(t, "Version")) {
			return "a revocations leaf is read back as " + short(t)
		}
		return ""
	})
}

// same: t is the value p (a pattern), structurally or by what the path established.
func (f *F) same(st *eng.State, t *Term, p string) bool {
	if f.m(p, t) {
		return true
	}
	return f.X.BuildEach(eng.P(p), eng.Bind{}, func(w *Term, _ eng.Bind) bool {
		return w == t || f.X.Decide(st, f.X.In.Eq(w, t)) == 1 || t.Op == "true" && f.X.Decide(st, w) == 1 || t.Op == "false" && f.X.Decide(st, w) == -1 || t.Op == "const" && t.Aux == "true" && f.X.Decide(st, w) == 1 || t.Op == "const" && t.Aux == "false" && f.X.Decide(st, w) == -1
	})
}

// zeroBytes: t is all zero bytes.
func (f *F) zeroBytes(t *Term) bool {
	switch {
	case t.Op == "zero" || t.IsInt && t.I == 0:
		return true
	case t.Op == "const":
		s, err := strconv.Unquote(t.Aux)
		return err == nil && strings.Trim(s, "\x00") == ""
	case t.Op == "cat" || t.Op == "elem1" || t.Op == "sub" && len(t.Args) > 0:
		for _, a := range t.Args {
			if t.Op == "sub" {
				return f.zeroBytes(t.Args[0])
			}
			if !f.zeroBytes(a) {
				return false
			}
		}
		return true
	}
	return false
}
