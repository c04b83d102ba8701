package rules

import (
	"verif/checker/eng"
)

func init() {
	register("C17", "A verifier accepts only what the chain and the proofs support", c17)
}

var veM = mac{
	"CH": "$0.idenPubOnChain",
	// existence credential ~C
	"HI":  "merkletree.Entry.HIndex(~C.Claim)",
	"HV":  "merkletree.Entry.HValue(~C.Claim)",
	"RT":  "merkletree.RootFromProof(~C.MtpClaim,~HI#0,~HV#0)",
	"ST":  "core.CalculateIdenState(~RT#0,~C.RevocationsTreeRoot,~C.RootsTreeRoot)",
	"ON":  "idenpubonchain.IdenPubOnChainer.GetStateByBlock(~CH,~C.Id,~C.IdenStateData.BlockN)",
	"EXI": "~C.MtpClaim.Existence; eq(~HI#1,nil); eq(~HV#1,nil); eq(~RT#1,nil); eq(~ST#1,nil); eq(~ST#0,~C.IdenStateData.IdenState); eq(~ON#1,nil)",
	// validity credential $1
	"MD":  "out(claims.Metadata.Unmarshal(_,~C.Claim))",
	"EXP": "claims.Metadata.Header(~MD).Expiration",
	"RI":  "merkletree.Entry.HIndex(claims.LeafRevocationsTree.Entry(or(claims.NewLeafRevocationsTree(claims.GetRevocationNonce(~C.Claim),4294967295),agg(claims.GetRevocationNonce(~C.Claim),4294967295))))",
	"RV":  "merkletree.Entry.HValue(claims.LeafRevocationsTree.Entry(or(claims.NewLeafRevocationsTree(claims.GetRevocationNonce(~C.Claim),4294967295),agg(claims.GetRevocationNonce(~C.Claim),4294967295))))",
	"RR":  "merkletree.RootFromProof($1.MtpNotNonce,~RI#0,~RV#0)",
	"VS":  "core.CalculateIdenState($1.ClaimsTreeRoot,~RR#0,$1.RootsTreeRoot)",
	"VON": "idenpubonchain.IdenPubOnChainer.GetStateByBlock(~CH,~C.Id,$1.IdenStateData.BlockN)",
	"VAL": "not($1.MtpNotNonce.Existence); eq(~RI#1,nil); eq(~RV#1,nil); eq(~RR#1,nil); eq(~VS#1,nil); eq(~VS#0,$1.IdenStateData.IdenState); eq(~VON#1,nil)",
}

// same: two descriptions of a state on chain agree in every field.
func same(on, d string) string {
	return "reflect.DeepEqual(" + on + "," + d + ")"
}

func sameFields(on, d string) string {
	return "eq(" + on + ".BlockN," + d + ".BlockN); eq(" + on + ".BlockTs," + d + ".BlockTs); " + eqv(on+".IdenState", d+".IdenState")
}

// freshM: the conditions under which state st with timestamp ts of identity id is fresh.
func freshM(id, st, ts, fresh, now string) mac {
	return mac{
		"LAST":  "idenpubonchain.IdenPubOnChainer.GetState($0.idenPubOnChain," + id + ")",
		"NEW":   "lt(minus(" + now + "," + fresh + "),time.Unix(" + ts + ",0))",
		"OLD":   "le(time.Unix(" + ts + ",0),minus(" + now + "," + fresh + "))",
		"ISL":   eqv("~LAST#0.IdenState", st),
		"FRESH": "~NEW",
	}
}

func (m mac) join(o mac) mac {
	r := mac{}
	for k, v := range m {
		r[k] = v
	}
	for k, v := range o {
		r[k] = v
	}
	return r
}

func c17(r *R) {
	// existence
	ex := r.F("verifier.Verifier.VerifyCredentialExistence")
	m := veM.with("C", "$1")
	ex.Table("existence", ex.Succ, m.rows(
		"issued => ~EXI; "+same("~ON#0", "~C.IdenStateData")+" => nil",
		"issued, field by field? => ~EXI; "+sameFields("~ON#0", "~C.IdenStateData")+" => nil")...)
	existFail := []string{
		"not of existence => not(~C.MtpClaim.Existence) => @verifier.ErrMtpNonExistence",
		"bad claim => not(eq(~HI#1,nil))",
		"bad claim value => not(eq(~HV#1,nil))",
		"bad proof => not(eq(~RT#1,nil))",
		"no state => not(eq(~ST#1,nil))",
		"another state => " + neqv("~ST#0", "~C.IdenStateData.IdenState") + " => @verifier.ErrCalculatedIdenStateDoesntMatch",
		"not on chain => not(eq(~ON#1,nil))",
		"chain differs? => not(" + same("~ON#0", "~C.IdenStateData") + ") => @verifier.ErrIdenStateOnChainDoesntMatch",
		"chain number differs? => not(eq(~ON#0.BlockN,~C.IdenStateData.BlockN)) => @verifier.ErrIdenStateOnChainDoesntMatch",
		"chain time differs? => not(eq(~ON#0.BlockTs,~C.IdenStateData.BlockTs)) => @verifier.ErrIdenStateOnChainDoesntMatch",
		"chain state differs? => " + neqv("~ON#0.IdenState", "~C.IdenStateData.IdenState") + " => @verifier.ErrIdenStateOnChainDoesntMatch",
	}
	ex.Table("existence-refused", ex.Fail, m.rows(existFail...)...)

	// validity
	va := r.F("verifier.Verifier.VerifyCredentialValidity")
	now := "dyn($0.timeNow)"
	m = veM.with("C", "$1.CredentialExistence").join(freshM("~C.Id", "$1.IdenStateData.IdenState", "$1.IdenStateData.BlockTs", "$2", now))
	m["ALIVE"] = "le(" + now + ",time.Unix(~MD.Expiration,0))"
	all := "~EXI; " + same("~ON#0", "~C.IdenStateData") + "; ~VAL; " + same("~VON#0", "$1.IdenStateData")
	va.Table("validity", va.Succ, m.rows(
		"no expiration, fresh => not(~EXP); "+all+"; ~NEW => nil",
		"no expiration, last => not(~EXP); "+all+"; ~OLD; eq(~LAST#1,nil); ~ISL => nil",
		"not expired, fresh => ~EXP; ~ALIVE; "+all+"; ~NEW => nil",
		"not expired, last => ~EXP; ~ALIVE; "+all+"; ~OLD; eq(~LAST#1,nil); ~ISL => nil",
	)...)
	va.Table("validity-refused", va.Fail, m.rows(append(existFail,
		"expired => ~EXP; lt(time.Unix(~MD.Expiration,0),"+now+") => @verifier.ErrClaimExpired",
		"nonce in the tree => $1.MtpNotNonce.Existence => @verifier.ErrMtpExistence",
		"old, last unknown => ~OLD; not(eq(~LAST#1,nil))",
		"old, not last => ~OLD; eq(~LAST#1,nil); "+neqv("~LAST#0.IdenState", "$1.IdenStateData.IdenState"),
		"bad leaf => not(eq(~RI#1,nil))",
		"bad leaf value => not(eq(~RV#1,nil))",
		"bad proof of validity => not(eq(~RR#1,nil))",
		"no state of validity => not(eq(~VS#1,nil))",
		"another state of validity => "+neqv("~VS#0", "$1.IdenStateData.IdenState")+" => @verifier.ErrCalculatedIdenStateDoesntMatch",
		"validity not on chain => not(eq(~VON#1,nil))",
		"chain differs on validity? => not("+same("~VON#0", "$1.IdenStateData")+") => @verifier.ErrIdenStateOnChainDoesntMatch",
	)...)...)

	// zero knowledge
	zk := r.F("verifier.Verifier.VerifyZkProofCredential", "merkletree.NewHashFromBigInt")
	m = mac{
		"VK": "zk.ZkFiles.VerificationKey($5)",
		"VF": "verifier.Verify(~VK#0,$1,$2)",
		"S":  "merkletree.NewHashFromBigInt($2[0])",
		"ON": "idenpubonchain.IdenPubOnChainer.GetStateByBlock($0.idenPubOnChain,$3,$4)",
	}.join(freshM("$3", "~S", "~ON#0.BlockTs", "$6", now))
	okz := "eq(~VK#1,nil); ~VF; eq(~ON#1,nil); eq(~ON#0.BlockN,$4); " + eqv("~ON#0.IdenState", "~S")
	zk.Table("zk", zk.Succ, m.rows(
		"fresh => "+okz+"; ~NEW => nil",
		"last => "+okz+"; ~OLD; eq(~LAST#1,nil); ~ISL | "+eqv("~LAST#0.IdenState", "~ON#0.IdenState")+" => nil",
	)...)
	// the proof is about the numbers that are compared: none is reduced by the curve
	zk.forAll("zk-field", zk.Succ, "$2", rows("not negative => le(0,big.Sign($2[?i]))")...)
	zk.Table("zk-refused", zk.Fail, m.rows(
		"no key => not(eq(~VK#1,nil))",
		"not a field element => lt(big.Sign($2[?i]),0) => @verifier.ErrFailedVerifyZkProofCredential",
		"proof does not verify => not(~VF) => @verifier.ErrFailedVerifyZkProofCredential",
		"not on chain => not(eq(~ON#1,nil))",
		"another block => not(eq(~ON#0.BlockN,$4)) => @verifier.ErrIdenStateOnChainDoesntMatch",
		"another state => "+neqv("~ON#0.IdenState", "~S")+" => @verifier.ErrIdenStateOnChainDoesntMatch",
		"old, last unknown => ~OLD; not(eq(~LAST#1,nil))",
		"old, not last => ~OLD; eq(~LAST#1,nil); "+neqv("~LAST#0.IdenState", "~S")+" | "+neqv("~LAST#0.IdenState", "~ON#0.IdenState"),
	)...)

	// constructors give the verifier what they are asked to
	nt := r.F("verifier.NewWithTimeNow")
	nt.Each("new", nt.Outs, func(o *eng.Out) string {
		if !nt.m("$0", nt.sel(o.Res[0], "idenPubOnChain")) || !nt.m("$1", nt.sel(o.Res[0], "timeNow")) {
			return "the verifier does not use the given chain and clock"
		}
		return ""
	})
	nw := r.F("verifier.New")
	nw.Each("new", nw.Outs, func(o *eng.Out) string {
		if !nw.m("$0", nw.sel(o.Res[0], "idenPubOnChain")) {
			return "the verifier does not use the given chain"
		}
		return ""
	})
	// the clock of New is the real one
	nw.Each("clock", nw.Outs, func(o *eng.Out) string {
		c := nw.sel(o.Res[0], "timeNow")
		if c.Op != "func" {
			return "the clock of the verifier is " + short(c)
		}
		if c.Aux == "time.Now" {
			return ""
		}
		x := r.F(c.Aux)
		x.Each("clock", x.Outs, func(o *eng.Out) string {
			if len(o.Res) != 1 || !x.m("time.Now()", o.Res[0]) {
				return "the clock of the verifier is not the real one"
			}
			return ""
		})
		return ""
	})
}
