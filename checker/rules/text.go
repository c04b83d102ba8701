package rules

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/eng"
)

func init() {
	register("C11", "Text, JSON and byte codecs give back the whole value", c11)
	register("C12", "An entry is read as a claim only when valid and of that type", c12)
}

var hexInline = []string{"-common.SwapEndianness", "-common.HexDecode", "-common.HexEncode", "-common.HexDecodeInto", "-common.Hex.String", "!consts"}

// gives: the witness always returns these values.
func (r *R) gives(name string, opts []string, want ...string) {
	f := r.witness(name, opts...)
	f.Each("round-trip", f.Outs, func(o *eng.Out) string {
		if o.Kind != "return" {
			return "a round trip panics" + f.pathDesc(o)
		}
		for i, w := range want {
			if !f.same(o.St, eng.StripIface(o.Res[i]), w) && !(w == "nil" && f.X.NilState(o.St, o.Res[i]) == 1) {
				return fmt.Sprintf("a round trip gives %s where %s is expected%s", short(o.Res[i]), w, f.pathDesc(o))
			}
		}
		return ""
	})
	f.NonEmpty("round-trip", f.Outs)
}

func c11(r *R) {
	for n, w := range map[string]string{
		"0": "zero()", "1": "cat(elem1($0[0])) | $0", "2": "cat(elem1($0[1]),elem1($0[0]))",
		"5":  "cat(elem1($0[4]),elem1($0[3]),elem1($0[2]),elem1($0[1]),elem1($0[0]))",
		"32": "",
	} {
		f := r.witness("common.witnessSwap"+n, "-common.SwapEndianness")
		f.Each("swap", f.Outs, func(o *eng.Out) string {
			if o.Kind != "return" {
				return "swapping fails"
			}
			l := map[string]int64{"0": 0, "1": 1, "2": 2, "5": 5, "32": 32}[n]
			in := f.X.In
			if !f.m(fmt.Sprint(l), in.Len(o.Res[0])) {
				return "the swapped bytes are " + short(o.Res[0])
			}
			for i := int64(0); i < l; i++ {
				if !f.m(fmt.Sprintf("$0[%d]", l-1-i), in.Idx(o.Res[0], in.Int(i), nil)) {
					return fmt.Sprintf("byte %d of %d swapped bytes is %s", i, l, short(in.Idx(o.Res[0], in.Int(i), nil)))
				}
			}
			return ""
		})
		_ = w
	}
	r.gives("common.witnessHex", hexInline, "$0", "nil")
	r.gives("common.witnessHexInto", hexInline, "$0", "nil")
	r.gives("common.witnessHexPlain", hexInline, "$0", "nil")
	r.gives("common.witnessU16", hexInline, "$0")
	r.gives("common.witnessU32", hexInline, "$0")
	for _, w := range []string{"Hash", "Data"} {
		r.gives("merkletree.witness"+w+"Text", hexInline, "$0", "nil")
	}
	r.gives("merkletree.witnessHashHex", hexInline, "$0", "nil")
	r.gives("merkletree.witnessEntryText", hexInline, "$0.Data", "nil", "nil", "nil")
	r.gives("merkletree.witnessClone", hexInline, "$0.Data", "nil", "nil")
	r.gives("merkletree.witnessDataBytes", hexInline, "$0")
	r.gives("merkletree.witnessElems", hexInline, "cat($0,$1)")
	// the subject flags and the type of a claim as text
	for n, vals := range map[string][]string{"Subject": {"0", "1", "2"}, "SubjectPos": {"0", "1"}} {
		f := r.witness("claims.witness"+n+"Text", hexInline...)
		seen := map[string]bool{}
		f.Each("flag-text", f.Outs, func(o *eng.Out) string {
			if o.Kind != "return" {
				return "the text form of a flag panics" + f.pathDesc(o)
			}
			for _, v := range vals {
				if f.same(o.St, f.X.T("$0", nil), v) {
					if f.X.NilState(o.St, o.Res[1]) != 1 || !f.same(o.St, o.Res[0], v) {
						return v + " is read back from its text as " + short(o.Res[0]) + f.pathDesc(o)
					}
					seen[v] = true
					return ""
				}
			}
			if f.X.NilState(o.St, o.Res[1]) != -1 {
				return "a flag that does not exist has a text form" + f.pathDesc(o)
			}
			return ""
		})
		if f.ok() {
			r.Ob("flag-text/all", f.Name, len(seen) == len(vals), "?", "some flags have no text form")
		}
	}
	tt := r.witness("claims.witnessTypeText", append([]string{"-common.Hex.String"}, hexInline...)...)
	tt.NonEmpty("type-text", tt.Succ)
	tt.Each("type-text", tt.Outs, func(o *eng.Out) string {
		if o.Kind != "return" || f0(tt, o, 1) != 1 || !tt.same(o.St, o.Res[0], "$0") {
			return "a claim type is read back from its text as " + short(o.Res[0]) + tt.pathDesc(o)
		}
		return ""
	})
	// base64: the whole string without its padding
	b6 := r.F("common.Base64Decode")
	b6.Each("base64", b6.Outs, func(o *eng.Out) string {
		b, ok := b6.mb("base64.Encoding.DecodeString(@base64.RawStdEncoding,?s)#0", b6.result(o, 0))
		if !ok {
			return "the result is " + short(o.Res[0]) + ", not the decoding of the string"
		}
		more := func(n int) bool { // there is no longer padding
			return n == 3 || b6.has(o.St, fmt.Sprintf("not(strings.HasSuffix($0,%q))", strings.Repeat("=", n+1))) || n == 0 && b6.has(o.St, "le(len($0),2)")
		}
		if b6.m("strings.TrimRight($0,\"=\")", b["s"]) || b6.m("$0", b["s"]) && more(0) {
			return ""
		}
		// one padding character after the other: a text has two at most
		for t, n := b["s"], 0; n < 8; n++ {
			if n >= 2 && b6.m("$0", t) || b6.m("$0", t) && b6.hasFact(o.St, b6.X.T("not(strings.HasSuffix(?s,\"=\"))", b)) {
				return ""
			}
			bb, ok := b6.mb("or(strings.TrimSuffix(?t,\"=\"),sub(?t,0,add(len(?t),-1)))", t)
			if !ok || t.Op == "sub" && !b6.hasFact(o.St, b6.X.T("strings.HasSuffix(?t,\"=\")", bb)) {
				break
			}
			t = bb["t"]
		}
		// or found to be padding one by one
		for n := 0; n < 4; n++ {
			if n == 3 && b6.m("sub($0,0,add(len($0),-3))", b["s"]) {
				return ""
			}
			s := fmt.Sprintf("strings.HasSuffix(sub($0,0,add(len($0),-%d)),\"=\")", n)
			if b6.m(fmt.Sprintf("sub($0,0,add(len($0),-%d))", n), b["s"]) && b6.has(o.St, "not("+s+")") {
				return ""
			}
			if n == 0 {
				s = "strings.HasSuffix($0,\"=\")"
			}
			if !b6.has(o.St, s) {
				break
			}
		}
		for n := 1; n <= 3; n++ {
			p := strings.Repeat("=", n)
			if !more(n) {
				continue
			}
			if b6.m(fmt.Sprintf("strings.TrimSuffix($0,%q)", p), b["s"]) || b6.m(fmt.Sprintf("sub($0,0,add(len($0),-%d))", n), b["s"]) && b6.has(o.St, fmt.Sprintf("strings.HasSuffix($0,%q)", p)) {
				return ""
			}
		}
		return "what is decoded is " + short(b["s"]) + b6.pathDesc(o)
	})
	b6.NonEmpty("base64", b6.Outs)
	for n, w := range map[string]string{"common.Base64ToBytes": "base64.Encoding.DecodeString(@base64.StdEncoding,$0)#0", "common.BytesToBase64": "base64.Encoding.EncodeToString(@base64.StdEncoding,$0)"} {
		f := r.F(n)
		f.Ret("base64", f.Outs, 0, w)
	}
	for n, w := range map[string]string{"common.UnmarshalJSONHexDecodeInto": "common.HexDecodeInto($0,out(json.Unmarshal($1,_)))", "common.UnmarshalJSONHexDecode": "common.HexDecode(out(json.Unmarshal($0,_)))#1"} {
		f := r.F(n, "common.HexDecodeInto", "common.HexDecode")
		ju := map[bool]string{true: "json.Unmarshal($1,_)", false: "json.Unmarshal($0,_)"}[strings.HasSuffix(n, "Into")]
		f.Table("json-hex", f.Outs, rows(
			"text => eq("+ju+",nil) => "+map[bool]string{true: w, false: strings.TrimSuffix(w, "#1") + "#0; " + w}[strings.HasSuffix(n, "Into")],
			"not a string => not(eq("+ju+",nil)) => "+map[bool]string{true: "", false: "nil; "}[strings.HasSuffix(n, "Into")]+ju)...)
	}
	pj := r.witness("merkletree.witnessProofJSON", append([]string{"merkletree.Proof.Bytes", "merkletree.NewProofFromBytes", "-common.UnmarshalJSONHexDecode"}, hexInline...)...)
	pj.Table("proof-json", pj.Succ, rows("whole => => merkletree.NewProofFromBytes(merkletree.Proof.Bytes($0))#0; nil")...)
	// text of the wrong length or with other characters is refused
	h := r.F("common.HexDecodeInto")
	h.Each("hex-into", h.Succ, func(o *eng.Out) string {
		for _, src := range []string{"$1", "sub($1,2,len($1))", "bytes.TrimPrefix($1,\"0x\")"} {
			// decoded apart: all of it, when it fits, is copied
			if de := "hex.DecodeString(" + src + ")"; h.Holds(o, "eq("+de+"#1,nil)") && h.copied(o, "$0", de+"#0") && h.hasFact(o.St,
				h.X.In.Eq(h.X.T("len($0)", nil), h.X.In.Mk("bin", "/", h.X.T("len("+src+")", nil), h.X.In.Int(2)))) && (src[0] != 's' || h.Holds(o, "bytes.HasPrefix($1,\"0x\")")) {
				return ""
			}
			if h.Holds(o, "eq(hex.Decode($0,"+src+")#1,nil)") && h.Holds(o, "eq(len($0),hex.Decode($0,"+src+")#0)") {
				if src[0] != 's' || h.Holds(o, "bytes.HasPrefix($1,\"0x\")") {
					return ""
				}
			}
		}
		return "text is accepted that does not fill the destination" + h.pathDesc(o)
	})
	h.NonEmpty("hex-into", h.Succ)
	h.Each("hex-into-room", h.Outs, func(o *eng.Out) string {
		if o.Kind == "panic" {
			return "panics" + h.pathDesc(o)
		}
		for _, e := range h.Hits(o, "hex.Decode($0,?s)") {
			n := h.X.In.Len(e.B["s"])
			if !h.knownAt(e, "eq(len($0),?q) | le(?q,len($0)) | eq(?n,mul(2,len($0))) | eq(len($0),hex.DecodedLen(?n)) | le(hex.DecodedLen(?n),len($0))", eng.Bind{"n": n, "q": h.X.In.Mk("bin", "/", n, h.X.In.Int(2))}) {
				return "text is decoded that may be longer than the destination" + h.pathDesc(o)
			}
		}
		return ""
	})
	ht := r.F("common.Hex.UnmarshalText")
	ht.NonEmpty("hex-text", ht.Succ)
	ht.Each("hex-text", ht.Succ, func(o *eng.Out) string {
		half := eng.Bind{"half": ht.X.In.Mk("bin", "/", ht.X.T("len($1)", nil), ht.X.In.Int(2))}
		if !ht.mB("or(hex.DecodeString($1)#0,make(or(hex.DecodedLen(len($1)),?half)),sub(_,0,hex.Decode(_,$1)#0),out(hex.Decode(make(or(hex.DecodedLen(len($1)),?half)),$1)),sub(out(hex.Decode(make(or(hex.DecodedLen(len($1)),?half)),$1)),0,or(hex.DecodedLen(len($1)),?half)))", ht.lastStore(o, "$0"), half) {
			return "the bytes read are " + short(ht.lastStore(o, "$0"))
		}
		if !ht.Holds(o, "eq(hex.Decode(_,$1)#1,nil)") && !ht.Holds(o, "eq(hex.DecodeString($1)#1,nil)") {
			return "bytes are read from text that is not hex" + ht.pathDesc(o)
		}
		return ""
	})
	for n, l := range map[string]string{"Uint32ToEthBytes": "32", "Uint64ToEthBytes": "64"} {
		f := r.F("common." + n)
		ok := []*eng.Out{}
		for _, o := range f.Outs {
			if o.Kind == "return" {
				ok = append(ok, o)
			}
		}
		f.NonEmpty("eth-bytes", ok)
		f.Each("eth-bytes", ok, func(o *eng.Out) string {
			if f.m("or(bbytes(out(binary.Write(_,@binary.BigEndian,$0))),be($0))", o.Res[0]) || len(f.Hits(o, "binary.bigEndian.PutUint"+l+"(_,_,$0)")) == 1 || len(f.Hits(o, "binary.BigEndian.PutUint"+l+"(_,$0)")) == 1 {
				return ""
			}
			n := map[string]int64{"32": 4, "64": 8}[l]
			for i := int64(0); i < n; i++ {
				if !f.m(fmt.Sprintf("or(byte%d(_),shr($0,%d),trunc(shr($0,%d)))", i, 8*(n-1-i), 8*(n-1-i)), f.X.In.Idx(o.Res[0], f.X.In.Int(i), nil)) {
					return "the bytes are " + short(o.Res[0])
				}
			}
			return ""
		})
	}
	hd := r.F("common.HexDecode")
	hd.Each("hex-decode", hd.Succ, func(o *eng.Out) string {
		if !hd.m("hex.DecodeString(strings.TrimPrefix($0,\"0x\"))#0", o.Res[0]) && !hd.m("hex.DecodeString($0)#0", o.Res[0]) && !hd.m("hex.DecodeString(sub($0,2,len($0)))#0", o.Res[0]) {
			return "hex text is decoded to " + short(o.Res[0])
		}
		return ""
	})
	hd.NonEmpty("hex-decode", hd.Succ)
	hd.NonEmpty("hex-decode-refuses", hd.Fail)
	r.decodeFresh()
	hc := r.F("claims.HexToClaimGeneric", "common.HexDecode", "claims.NewClaimGeneric")
	hc.Each("hex-claim-length", hc.Succ, func(o *eng.Out) string {
		if !hc.Holds(o, "eq(len(common.HexDecode($0)#0),256)") {
			return "a claim is read from hex text of any length" + hc.pathDesc(o)
		}
		return ""
	})
	hc.NonEmpty("hex-claim-length", hc.Succ)
	ha := r.F("claims.ClaimArrayToHexArray", "claims.ClaimToHex")
	ha.Each("hex-claims-written", ha.Outs, func(o *eng.Out) string {
		for _, w := range []string{"claims.ClaimToHex($0[?i])", "claims.ClaimToHex($0[?i])#0"} {
			if b, ok := ha.mb("or(catn(nil,elem1("+w+"),len($0)), catn(nil,elem1("+w+"),?i), fill(make(len($0)),0,"+w+",?i))", o.Res[0]); ok && ha.X.Decide(o.St, ha.X.In.Le(ha.X.T("len($0)", nil), b["i"])) == 1 {
				return ""
			}
		}
		if ha.m("nil", o.Res[0]) && ha.has(o.St, "eq(len($0),0)") {
			return ""
		}
		return "the claims written are " + short(o.Res[0]) + ha.pathDesc(o)
	})
	ha.NonEmpty("hex-claims-written", ha.Succ)
	hh := r.F("merkletree.HexStringToHash", "common.HexDecode")
	hh.NonEmpty("hash-of-hex", hh.Succ)
	hh.Each("hash-of-hex", hh.Succ, func(o *eng.Out) string {
		if !hh.m("or(sub(common.HexDecode($0)#0,0,32),fit(common.HexDecode($0)#0,32),out(common.HexDecodeInto(_,$0)))", o.Res[0]) {
			return "hex text becomes the hash " + short(o.Res[0])
		}
		return ""
	})
	// numbers and elements
	for n, w := range map[string]string{
		"merkletree.NewElemBytesFromBigInt": "fit(common.SwapEndianness(big.Bytes($0)),32)",
		"merkletree.NewHashFromBigInt":      "fit(common.SwapEndianness(big.Bytes($0)),32)",
		"merkletree.ElemBytes.BigInt":       "big.SetBytes(common.SwapEndianness($0))",
		"merkletree.Hash.BigInt":            "big.SetBytes(common.SwapEndianness($0)) | merkletree.ElemBytes.BigInt($0)",
	} {
		f := r.F(n)
		f.Table("numbers", f.Outs, rows("number => => "+w)...)
	}
	for n, w := range map[string]string{"merkletree.Hash.Equals": "eq($0,$1)"} {
		f := r.F(n)
		f.iff("equal", 0, w)
	}
	for n, p := range map[string]string{"merkletree.Data.Equal": "$%d[%d]", "merkletree.Entry.Equal": "$%d.Data[%d]"} {
		f := r.F(n)
		var cs []string
		for i := 0; i < 8; i++ {
			cs = append(cs, "eq("+fmt.Sprintf(p, 0, i)+","+fmt.Sprintf(p, 1, i)+")")
		}
		if n == "merkletree.Data.Equal" {
			cs = append(cs, "eq($0,$1)")
		} else {
			cs = append(cs, "eq($0.Data,$1.Data)")
		}
		f.iff("equal", 0, cs...)
	}
	r.F("common.TestBit").bitOp("bits", false, false)
	r.F("common.SetBit").bitOp("bits", true, false)
	r.F("common.TestBitBigEndian").bitOp("bits", false, true)
	r.F("common.SetBitBigEndian").bitOp("bits", true, true)
}

func c12(r *R) {
	types := map[string]string{"ClaimTypeBasic": "Basic", "ClaimTypeKeyBabyJub": "KeyBabyJub", "ClaimTypeOtherIden": "OtherIden"}
	codes := map[string]string{"Basic": "le(0)", "KeyBabyJub": "le(1)", "OtherIden": "le(2)"}
	_, _ = types, codes
	// every element is inside the field and the constructor is the one of the type
	f := r.F("claims.NewClaimFromEntry", "claims.NewClaimBasicFromEntry", "claims.NewClaimKeyBabyJubFromEntry", "claims.NewClaimOtherIdenFromEntry", "-claims.Metadata.Unmarshal", "-claims.ClaimHeader.Unmarshal", "-merkletree.Entry.Index", "-merkletree.Entry.Value")
	var in []string
	for i := 0; i < 8; i++ {
		in = append(in, fmt.Sprintf("utils.CheckBigIntInField(merkletree.ElemBytes.BigInt($0.Data[%d])) | utils.CheckBigIntInField(merkletree.ElemBytes.BigInt($0.Data[%d]))", i, i))
	}
	f.Must("in-field", f.Succ, in...)
	ty := "sub($0.Data[0],0,8)"
	f.Table("type-dispatch", f.Succ, rows(
		"basic => eq("+ty+",@claims.ClaimTypeBasic) => claims.NewClaimBasicFromEntry($0); nil",
		"key => eq("+ty+",@claims.ClaimTypeKeyBabyJub) => claims.NewClaimKeyBabyJubFromEntry($0); nil",
		"other => eq("+ty+",@claims.ClaimTypeOtherIden) => claims.NewClaimOtherIdenFromEntry($0); nil",
	)...)
	f.Each("unknown-type", f.Fail, func(o *eng.Out) string {
		if f.m("@claims.ErrInvalidClaimType", o.Res[1]) {
			for t := range types {
				if !f.Holds(o, "not(eq("+ty+",@claims."+t+"))") {
					return "a claim of type " + t + " is refused as unknown" + f.pathDesc(o)
				}
			}
			return ""
		}
		for i := 0; i < 8; i++ {
			if f.Holds(o, negate(strings.Split(in[i], " | ")[0])) {
				return ""
			}
		}
		return "an entry inside the field and of a known type is refused" + f.pathDesc(o)
	})
	// the codes, names and headers of the known types
	for g, want := range map[string]string{"claims.ClaimTypeBasic": "0", "claims.ClaimTypeKeyBabyJub": "1", "claims.ClaimTypeOtherIden": "2"} {
		n := strings.TrimPrefix(g, "claims.ClaimType")
		w := r.witness("claims.witnessType"+n, "!consts")
		w.Each("type-code", w.Outs, func(o *eng.Out) string {
			for i := int64(0); i < 8; i++ {
				b := w.X.In.Idx(o.Res[0], w.X.In.Int(i), nil)
				exp := "0"
				if i == 7 {
					exp = want
				}
				if !w.m(exp, b) && !(b.IsInt && fmt.Sprint(b.I) == exp) {
					return fmt.Sprintf("the code of %s is %s", g, short(o.Res[0]))
				}
			}
			return ""
		})
	}
	m := r.witness("claims.witnessMetadataJSON", hexInline...)
	n := 0
	m.Each("metadata-json", m.Succ, func(o *eng.Out) string {
		n++
		t := o.Res[0]
		h := m.sel(t, "header")
		for _, x := range []string{"Type", "Subject", "SubjectPos", "Expiration", "Version"} {
			if !m.same(o.St, m.sel(h, x), "$0.header."+x) {
				return "the header field " + x + " is read back as " + short(m.sel(h, x)) + m.pathDesc(o)
			}
		}
		if !m.same(o.St, m.sel(t, "RevNonce"), "$0.RevNonce") {
			return "the nonce is read back as " + short(m.sel(t, "RevNonce"))
		}
		for x, c := range map[string]string{"Version": "$0.header.Version", "Expiration": "$0.header.Expiration"} {
			want := "0"
			if m.Holds(o, c) {
				want = "$0." + x
			}
			if !m.same(o.St, m.sel(t, x), want) {
				return x + " is read back as " + short(m.sel(t, x)) + m.pathDesc(o)
			}
		}
		s := m.sel(t, "Subject")
		if m.Holds(o, "eq($0.header.Subject,0)") {
			if m.X.NilState(o.St, s) != 1 {
				return "a claim without subject is read back with " + short(s) + m.pathDesc(o)
			}
		} else if m.X.NilState(o.St, s) != -1 || !m.same(o.St, s, "$0.Subject") {
			return "the subject is read back as " + short(s) + m.pathDesc(o)
		}
		// the header of a known type is the one of that type
		known := false
		for i, sub := range []string{"0", "0", "2"} {
			if !m.typeIs(o, i) {
				continue
			}
			known = true
			for x, v := range map[string]string{"Subject": sub, "SubjectPos": "0", "Expiration": "false", "Version": "false"} {
				if !m.same(o.St, m.sel(h, x), v) {
					return fmt.Sprintf("metadata of type %d is accepted with another %s than claims of this type have", i, x) + m.pathDesc(o)
				}
			}
		}
		for i := 0; !known && i < 3; i++ {
			if !m.typeIsNot(o, i) {
				return fmt.Sprintf("metadata is accepted without comparing its type with type %d", i) + m.pathDesc(o)
			}
		}
		return ""
	})
	r.Ob("metadata-json/cases", m.Name, n >= 9 || !m.ok(), r.P.Pos(0), "some metadata can no longer be read back")
	// generic claims keep the entry; a new nonce gives a new entry without cached hashes
	gi := append([]string{"-merkletree.Entry.Index", "-merkletree.Entry.Value", "-claims.Metadata.Marshal", "-claims.Metadata.Unmarshal", "-claims.Metadata.Header", "-merkletree.Entry.Clone", "-merkletree.NewDataFromBytes", "-merkletree.Data.Bytes", "-merkletree.Entry.Bytes", "-claims.NewClaimGeneric", "-claims.ClaimToHex", "-claims.HexToClaimGeneric"}, hexInline...)
	gh := r.witness("claims.witnessGenericHex", gi...)
	gh.Each("generic-hex", gh.Outs, func(o *eng.Out) string {
		if o.Kind != "return" {
			return "reading back the hex form of a claim panics" + gh.pathDesc(o)
		}
		t := eng.StripIface(o.Res[0])
		if !gh.same(o.St, gh.sel(t, "Data"), "$0.Data") || gh.X.NilState(o.St, o.Res[1]) != 1 {
			return "a claim in hex is read back as " + short(t) + gh.pathDesc(o)
		}
		return ""
	})
	gn := r.witness("claims.witnessGenericNonce", gi...)
	gn.Each("generic-nonce", gn.Outs, func(o *eng.Out) string {
		if o.Kind != "return" {
			return "a generic claim panics" + gn.pathDesc(o)
		}
		if !gn.same(o.St, gn.sel(o.Res[0], "RevNonce"), "$1") {
			return "a new nonce of a generic claim is read back as " + short(gn.sel(o.Res[0], "RevNonce"))
		}
		e := eng.StripIface(o.Res[1])
		d := gn.sel(e, "Data")
		in := gn.X.In
		for _, c := range []string{"hIndex", "hValue"} {
			if gn.X.NilState(o.St, gn.sel(e, c)) != 1 {
				return "the entry keeps a hash cached before the nonce was set: " + short(gn.sel(e, c))
			}
		}
		for _, k := range []int64{0, 1, 2, 3, 4, 5, 6, 7} {
			lo := int64(0)
			el := in.Idx(d, in.Int(k), nil)
			if k == 0 {
				if !gn.m("sub($0.Data[0],0,8)", in.SubSeq(el, in.Int(0), in.Int(8), nil)) {
					return "the type of a generic claim changes"
				}
				lo = 9
			}
			if k == 4 {
				if !gn.m("le($1)", in.SubSeq(el, in.Int(0), in.Int(4), nil)) {
					return "the nonce of the entry is " + short(in.SubSeq(el, in.Int(0), in.Int(4), nil))
				}
				lo = 4
			}
			if t := in.SubSeq(el, in.Int(lo), in.Int(32), nil); !gn.m(fmt.Sprintf("sub($0.Data[%d],%d,32) | $0.Data[%d]", k, lo, k), t) && !gn.m(fmt.Sprintf("$0.Data[%d]", k), t) {
				return fmt.Sprintf("setting the nonce of a generic claim changes element %d to %s", k, short(t)) + gn.pathDesc(o)
			}
		}
		return ""
	})
	gn.NonEmpty("generic-nonce", gn.Succ)
	for _, p := range []*F{f, r.F("claims.HexToClaimGeneric", gi...), r.F("claims.NewClaimGeneric", gi...)} {
		p.NoPanic("any-entry")
	}
}

func (f *F) typeIs(o *eng.Out, i int) bool {
	return f.Holds(o, fmt.Sprintf("eq($0.header.Type,?t)")) && f.typeCmp(o, i, "eq($0.header.Type,?t)")
}
func (f *F) typeIsNot(o *eng.Out, i int) bool { return f.typeCmp(o, i, "not(eq($0.header.Type,?t))") }

// typeCmp: the path compared the type with the code i.
func (f *F) typeCmp(o *eng.Out, i int, pat string) bool {
	found := false
	for _, c := range o.St.Facts {
		f.X.MatchAll(eng.P(pat), c, eng.Bind{}, func(b eng.Bind) bool {
			if v := f.X.In.Idx(b["t"], f.X.In.Int(7), types.Typ[types.Uint8]); v.IsInt && v.I == int64(i) {
				found = true
			}
			return found
		})
	}
	return found
}

// f0: whether result i is nil on the path.
func f0(f *F, o *eng.Out, i int) int { return f.X.NilState(o.St, o.Res[i]) }

// decodeFresh: what a decoder accepts and returns does not depend on what its target held.
func (r *R) decodeFresh() {
	for _, fn := range r.P.Funcs {
		n := r.rootName(fn)
		if skipPkg(n) || fn.Parent() != nil || !strings.Contains(n, ".Unmarshal") || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 1 {
			continue
		}
		f := r.F(n)
		var uses func(t *Term) bool
		uses = func(t *Term) bool {
			if t.Op == "param" && t.Aux == "0" {
				return true
			}
			for _, a := range t.Args {
				if t.Op == "call" && a.Op == "param" {
					continue // the target itself, to be written
				}
				if uses(a) {
					return true
				}
			}
			return false
		}
		f.Each("decode-fresh", f.Outs, func(o *eng.Out) string {
			facts := append([]*Term{}, o.St.Facts...)
			for _, l := range f.loops(o) {
				for _, s := range l.Steps {
					facts = append(facts, s.St.Facts...)
				}
			}
			for _, c := range facts {
				if uses(c) && !f.m("eq($0,nil)", c) && !f.m("not(eq($0,nil))", c) {
					return "what is decoded depends on what the target held: " + short(c) + f.pathDesc(o)
				}
			}
			return ""
		})
	}
}

// copied: what matches src is copied to what matches dst.
func (f *F) copied(o *eng.Out, dst, src string) bool {
	for _, e := range o.St.Events {
		if e.Kind == "store" && e.Name == "copy" && f.m(dst, e.Args[0]) && f.m(src, e.Args[1]) {
			return true
		}
	}
	return false
}
