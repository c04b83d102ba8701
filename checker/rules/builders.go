package rules

import (
	"fmt"
	"strings"
	"verif/checker/eng"
)

func init() {
	register("C25", "Entries built from numbers, text or bytes hold every given value", c25)
}

// c25: each of the constructors of entries and claim data puts the value of its i-th argument,
// and nothing else, into slot i; malformed input is refused, and nothing else is.
func c25(r *R) {
	slots := func(elem string) string {
		var p []string
		for i := 0; i < 8; i++ {
			p = append(p, "elem1("+strings.ReplaceAll(elem, "@@", fmt.Sprint(i))+")")
		}
		return "cat(" + strings.Join(p, ",") + ")"
	}
	entry := func(d string) string { return "agg(" + d + ",nil,nil)" }
	big := "or(fit(big.Bytes(%s),32),fit(common.SwapEndianness(big.Bytes(%s)),32))"
	of := func(x string) string { return strings.ReplaceAll(big, "%s", x) }
	num := "or(big.fromInt(%s),big.SetInt64(%s))"
	ints := of(strings.ReplaceAll(num, "%s", "$@@"))
	arr := of(strings.ReplaceAll(num, "%s", "$0[@@]"))
	hex := of("big.SetBytes(common.HexDecode($@@)#0)")
	for _, c := range []struct{ fn, pat string }{
		{"BigIntsToData", slots(of("$@@"))},
		{"IntsToData", slots(ints)},
		{"IntArrayToData", slots(arr)},
		{"NewEntryFromInts", entry(slots(ints))},
		{"NewEntryFromIntArray", entry(slots(arr))},
	} {
		f := r.F("merkletree." + c.fn)
		f.NonEmpty("slots", f.Outs)
		f.Ret("slots", f.Outs, 0, c.pat)
	}
	var when []string
	var bad []string
	for i := 0; i < 8; i++ {
		when = append(when, fmt.Sprintf("eq(common.HexDecode($%d)#1,nil)", i))
		bad = append(bad, fmt.Sprintf("not(eq(common.HexDecode($%d)#1,nil))", i))
	}
	for _, c := range []struct{ fn, pat string }{
		{"HexsToData", slots(hex)},
		{"NewEntryFromHexs", entry(slots(hex))},
	} {
		f := r.F("merkletree." + c.fn)
		f.NonEmpty("slots", f.Succ)
		f.Ret("slots", f.Succ, 0, c.pat)
		f.Must("hex-valid", f.Succ, when...)
		f.OneOf("hex-refusal", f.Fail, bad...)
	}
	var bs []string
	for i := 0; i < 8; i++ {
		bs = append(bs, fmt.Sprintf("elem1(sub($0,%d,%d))", 32*i, 32*i+32))
	}
	nb := r.F("merkletree.NewEntryFromBytes")
	nb.NonEmpty("slots", nb.Succ)
	nb.Ret("slots", nb.Succ, 0, entry("cat("+strings.Join(bs, ",")+")"))
	nb.Must("length", nb.Succ, "eq(len($0),256)")
	nb.OneOf("length-refusal", nb.Fail, "not(eq(len($0),256))")
	nd := r.F("merkletree.NewDataFromBytes")
	nd.NonEmpty("slots", nd.Outs)
	nd.Ret("slots", nd.Outs, 0, "cat("+strings.Join(bs, ",")+")")
	c25names(r)
}

// c25names: types and slots made from a name are the last bytes of its hash, the numbered types
// are that number, and an element without its most significant byte is inside the field.
func c25names(r *R) {
	for n, w := range map[string]string{
		"claims.HashString":         "sub(crypto.HashBytes(or($0,cat(elem1($0)))),1,32)",
		"claims.NewClaimType":       "sub(crypto.HashBytes(or($0,cat(elem1($0)))),24,32)",
		"claims.NewClaimTypeNum":    "be($0)",
		"claims.ClearMostSigByte":   "cat(sub($0,0,31),elem1(0))",
		"claims.GetRevocationNonce": "unle(sub($0.Data[4],0,4))",
	} {
		f := r.F(n)
		f.NonEmpty("names", f.Outs)
		f.Ret("names", f.Outs, 0, w)
	}
	h := r.F("claims.HexArrayToClaimGenericArray", "claims.HexToClaimGeneric")
	h.NonEmpty("hex-claims", h.Succ)
	h.Each("hex-claims", h.Succ, func(o *eng.Out) string {
		if b, ok := h.mb("or(catn(nil,elem1(claims.HexToClaimGeneric($0[?i])#0),len($0)), catn(nil,elem1(claims.HexToClaimGeneric($0[?i])#0),?i), fill(make(len($0)),0,claims.HexToClaimGeneric($0[?i])#0,?i))", o.Res[0]); !ok || h.X.Decide(o.St, h.X.In.Le(h.X.T("len($0)", nil), b["i"])) != 1 {
			return "the claims read are " + short(o.Res[0]) + h.pathDesc(o)
		}
		return ""
	})
	h.forAll("hex-claims-read", h.Succ, "$0", rows("read => eq(claims.HexToClaimGeneric($0[_])#1,nil) => => claims.HexToClaimGeneric(_)")...)
	h.OneOf("hex-claims-refusal", h.Fail, "not(eq(claims.HexToClaimGeneric(_)#1,nil))")
}
