package rules

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	register("C18", "Holders build proofs only from public data that match the chain", c18)
}

// result fields: on every given path each field of result i is as given ("Field: pattern").
func (f *F) fields(rule string, outs []*eng.Out, i int, m mac, specs ...string) {
	f.NonEmpty(rule, outs)
	f.Each(rule, outs, func(o *eng.Out) string {
		if o.Kind != "return" {
			return ""
		}
		for _, s := range specs {
			k := strings.Index(s, ":")
			name, pat := strings.TrimSpace(s[:k]), m.x(strings.TrimSpace(s[k+1:]))
			v := f.sel(o.Res[i], name)
			if v == nil || !f.mAny(pat, v) && !f.equal(o, pat, v) {
				return name + " is " + short(v) + ", not " + pat + f.pathDesc(o)
			}
		}
		return ""
	})
}

// equal: v is known to equal one of the alternatives of pat on this path.
func (f *F) equal(o *eng.Out, pat string, v *Term) bool {
	for _, alt := range strings.Split(pat, " | ") {
		if f.X.BuildEach(eng.P(strings.TrimSpace(alt)), eng.Bind{}, func(t *Term, _ eng.Bind) bool {
			return f.X.Decide(o.St, f.X.In.Eq(t, v)) == 1
		}) {
			return true
		}
	}
	return false
}

// mAny: v matches one of the alternatives of pat.
func (f *F) mAny(pat string, v *Term) bool {
	for _, alt := range strings.Split(pat, " | ") {
		if f.m(strings.TrimSpace(alt), v) || f.m(strings.TrimSpace(alt), eng.StripIface(v)) {
			return true
		}
	}
	return false
}

// tags: the fields of a struct type carry these names under the given tag key.
func (r *R) tags(rule, typ, key string, want map[string]string) {
	t := r.P.Type(typ)
	if t == nil {
		r.Ob("anchor", typ, false, "?", "type not found")
		return
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		r.Ob("anchor", typ, false, "?", "not a struct")
		return
	}
	got := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		got[st.Field(i).Name()] = reflect.StructTag(st.Tag(i)).Get(key)
	}
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.Ob(rule, typ+"."+k, got[k] == want[k], "?", "field "+k+" is named "+got[k]+", not "+want[k])
	}
}

func c18(r *R) {
	// public data: both trees are the published ones and belong to one state
	pd := r.F("idenpuboffchain.NewPublicDataFromBlobs")
	imp := func(blob string) string {
		return "merkletree.MerkleTree.ImportTree(?" + blob + ",bytes.NewReader($0." + blob + "))"
	}
	rv, rt := imp("RevocationsTree"), imp("RootsTree")
	cis := "core.CalculateIdenState($0.ClaimsTreeRoot,$0.RevocationsTreeRoot,$0.RootsTreeRoot)"
	pd.Each("public-data", pd.Succ, func(o *eng.Out) string {
		rev, rot := pd.sel(o.Res[0], "RevocationsTree"), pd.sel(o.Res[0], "RootsTree")
		b := eng.Bind{"RevocationsTree": rev, "RootsTree": rot}
		if !pd.m("merkletree.NewMerkleTree(db.NewMemoryStorage(),_)#0", rev) || !pd.m("merkletree.NewMerkleTree(db.NewMemoryStorage(),_)#0", rot) || rev == rot {
			return "the trees are not two fresh ones in memory"
		}
		if len(pd.Hits(o, "db.NewMemoryStorage()")) < 2 {
			return "both trees share one storage"
		}
		for _, p := range []string{"eq(" + rv + ",nil)", "eq(" + rt + ",nil)",
			"eq(merkletree.MerkleTree.RootKey(?RevocationsTree),$0.RevocationsTreeRoot)",
			"eq(merkletree.MerkleTree.RootKey(?RootsTree),$0.RootsTreeRoot)",
			"eq(" + cis + "#1,nil)", "eq(" + cis + "#0,$0.IdenState)"} {
			if !pd.solve(o.St, []string{p}, b, yes) {
				return "public data are accepted without " + p + pd.pathDesc(o)
			}
		}
		// the roots are compared after the import
		for _, n := range []string{"RevocationsTree", "RootsTree"} {
			if _, ok := pd.did(o, -1, b, imp(n), "merkletree.MerkleTree.RootKey(?"+n+")"); !ok {
				return "the root of " + n + " is compared before the tree is imported"
			}
		}
		return ""
	})
	// trees of others are as deep as those an issuer makes
	for _, fn := range []string{"idenpuboffchain.NewPublicDataFromBlobs", "genesis.CalculateIdGenesis"} {
		f := r.F(fn)
		f.NonEmpty("levels", f.Succ)
		f.Each("levels", f.Succ, func(o *eng.Out) string {
			for _, h := range f.Hits(o, "merkletree.NewMerkleTree(_,?n)") {
				if n := h.B["n"]; n.IsInt && n.I < 140 {
					return "a tree has only " + short(n) + " levels, the default of issuers is 140"
				}
			}
			return ""
		})
	}
	pd.fields("public-data-fields", pd.Succ, 0, mac{}, "IdenState: $0.IdenState", "ClaimsTreeRoot: $0.ClaimsTreeRoot")
	pd.NonEmpty("public-data-roots", pd.Succ)
	pd.Each("public-data-roots", pd.Succ, func(o *eng.Out) string {
		for _, n := range []string{"RevocationsTreeRoot", "RootsTreeRoot"} {
			v := pd.sel(o.Res[0], n)
			if v != nil && (pd.m("$0."+n, v) || pd.equal(o, "$0."+n, v)) {
				continue
			}
			// the root of the imported tree itself, once it is known to be the one in the blob
			if v == nil {
				return n + " is not set"
			}
			b, ok := pd.mb("merkletree.MerkleTree.RootKey(?t)", v)
			if ok && pd.X.Holds(o.St, "eq(merkletree.MerkleTree.RootKey(?t),$0."+n+")", b) {
				continue
			}
			return n + " is " + short(v) + ", not $0." + n + pd.pathDesc(o)
		}
		return ""
	})
	// every refusal has a reason
	pd.Table("public-data-refused", pd.Fail, rows(
		"storage => not(eq(merkletree.NewMerkleTree(_,_)#1,nil))",
		"import => not(eq(merkletree.MerkleTree.ImportTree(_,_),nil))",
		"revocations root => not(eq(merkletree.MerkleTree.RootKey(?t),$0.RevocationsTreeRoot)); eq(merkletree.MerkleTree.ImportTree(?t,bytes.NewReader($0.RevocationsTree)),nil)",
		"roots root => not(eq(merkletree.MerkleTree.RootKey(?t),$0.RootsTreeRoot)); eq(merkletree.MerkleTree.ImportTree(?t,bytes.NewReader($0.RootsTree)),nil)",
		"no state => not(eq("+cis+"#1,nil))",
		"another state => not(eq("+cis+"#0,$0.IdenState)) => nil; @idenpuboffchain.ErrCalculatedIdenStateDoesntMatch",
	)...)

	// the holder
	m := mac{
		"GS":  "idenpubonchain.IdenPubOnChainer.GetState($0.idenPubOnChain,$1.Id)",
		"PD":  "idenpuboffchain.IdenPubOffChainReader.GetPublicData($0.idenPubOffChainReader,$1.IdenPubUrl,$1.Id,~GS#0.IdenState)",
		"REV": "merkletree.MerkleTree.RootKey(~PD#0.RevocationsTree)",
		"ROT": "merkletree.MerkleTree.RootKey(~PD#0.RootsTree)",
		"CIS": "core.CalculateIdenState(~PD#0.ClaimsTreeRoot,~REV,~ROT)",
		"NON": "or(out(claims.Metadata.Unmarshal(_,$1.Claim)).RevNonce,claims.GetRevocationNonce($1.Claim))",
		"HI":  "merkletree.Entry.HIndex(claims.LeafRevocationsTree.Entry(or(claims.NewLeafRevocationsTree(~NON,4294967295),agg(~NON,4294967295))))",
		"MTP": "merkletree.MerkleTree.GenerateProof(~PD#0.RevocationsTree,~HI#0,or(nil,~REV,~PD#0.RevocationsTree))",
	}
	vd := r.F("holder.Holder.HolderGetCredentialValidityData")
	okd := "eq(~GS#1,nil); eq(~PD#1,nil); eq(~CIS#1,nil); eq(~CIS#0,~GS#0.IdenState); eq(~HI#1,nil); eq(~MTP#1,nil)"
	vd.Table("validity-data", vd.Succ, m.rows("valid => "+okd+"; not(~MTP#0.Existence)")...)
	vd.fields("validity-data-fields", vd.Succ, 0, m, "IdenStateData: ~GS#0", "MtpNotNonce: ~MTP#0", "ClaimsTreeRoot: ~PD#0.ClaimsTreeRoot",
		"RevTreeRoot: ~REV", "RootsTreeRoot: ~ROT", "PublicData: ~PD#0")
	vd.Table("validity-data-refused", vd.Fail, m.rows(
		"no state on chain => not(eq(~GS#1,nil))",
		"no public data => not(eq(~PD#1,nil))",
		"no state => not(eq(~CIS#1,nil))",
		"another state => not(eq(~CIS#0,~GS#0.IdenState)) => nil; @holder.ErrCalculatedIdenStateDoesntMatch",
		"bad leaf => not(eq(~HI#1,nil))",
		"no proof => not(eq(~MTP#1,nil))",
		"revoked => eq(~MTP#1,nil); ~MTP#0.Existence => nil; @holder.ErrRevokedClaim",
	)...)
	cv := r.F("holder.Holder.HolderGetCredentialValidity", "holder.Holder.HolderGetCredentialValidityData")
	data := "holder.Holder.HolderGetCredentialValidityData($0,$1)"
	cv.Must("validity", cv.Succ, "eq("+data+"#1,nil)")
	cv.fields("validity-fields", cv.Succ, 0, mac{"D": data + "#0"}, "CredentialExistence: $1", "IdenStateData: ~D.IdenStateData", "MtpNotNonce: ~D.MtpNotNonce",
		"ClaimsTreeRoot: ~D.ClaimsTreeRoot", "RootsTreeRoot: ~D.RootsTreeRoot")

	// inputs of the circuit
	pi := r.F("holder.Holder.HolderGetCredentialProofInputs")
	m = mac{
		"HI": "merkletree.Entry.HIndex($2.Claim)",
		"HV": "merkletree.Entry.HValue($2.Claim)",
		"RT": "merkletree.RootFromProof($2.MtpClaim,~HI#0,~HV#0)",
		"LH": "merkletree.Entry.HIndex(claims.LeafRootsTree.Entry(or(claims.NewLeafRootsTree(~RT#0),agg(~RT#0))))",
		"MR": "merkletree.MerkleTree.GenerateProof($3.PublicData.RootsTree,~LH#0,or(nil,$3.RootsTreeRoot,merkletree.MerkleTree.RootKey($3.PublicData.RootsTree)))",
		"SE": "merkletree.Proof.AllSiblingsCircom($2.MtpClaim,$4)",
		"SN": "merkletree.Proof.AllSiblingsCircom($3.MtpNotNonce,$4)",
		"SR": "merkletree.Proof.AllSiblingsCircom(~MR#0,$4)",
		"AX": "$3.MtpNotNonce.NodeAux",
	}
	oki := "eq(~HI#1,nil); eq(~HV#1,nil); eq(~RT#1,nil); eq(~LH#1,nil); eq(~MR#1,nil); ~MR#0.Existence; eq(len(~SE),add($4,1)); eq(len(~SN),add($4,1)); eq(len(~SR),add($4,1))"
	pi.Table("inputs", pi.Succ, m.rows("no other leaf => "+oki+"; eq(~AX,nil)", "other leaf => "+oki+"; not(eq(~AX,nil))")...)
	pi.fields("inputs-fields", pi.Succ, 0, m, "PrivateKey: $1.PrivateKey", "ClaimKOpMtp: $1.MtpSiblings", "ClaimKOpClaimsTreeRoot: $1.ClaimsTreeRoot",
		"CredExistMtp: ~SE", "CredExistClaimsTreeRoot: merkletree.Hash.BigInt(~RT#0)", "CredValidNotRevMtp: ~SN",
		"CredValidClaimsTreeRoot: merkletree.Hash.BigInt($3.ClaimsTreeRoot)", "CredValidRevTreeRoot: merkletree.Hash.BigInt($3.RevTreeRoot)",
		"CredValidRootsTreeRoot: merkletree.Hash.BigInt($3.RootsTreeRoot)", "CredValidRootMtp: ~SR", "IdenState: merkletree.Hash.BigInt($3.IdenStateData.IdenState)",
		"Claim: cat(elem1(merkletree.ElemBytes.BigInt($2.Claim.Data[0])),elem1(merkletree.ElemBytes.BigInt($2.Claim.Data[1])),elem1(merkletree.ElemBytes.BigInt($2.Claim.Data[2])),elem1(merkletree.ElemBytes.BigInt($2.Claim.Data[3])),elem1(merkletree.ElemBytes.BigInt($2.Claim.Data[4])),elem1(merkletree.ElemBytes.BigInt($2.Claim.Data[5])),elem1(merkletree.ElemBytes.BigInt($2.Claim.Data[6])),elem1(merkletree.ElemBytes.BigInt($2.Claim.Data[7])))")
	pi.Each("inputs-aux", pi.Succ, func(o *eng.Out) string {
		want := []string{"or(big.fromInt(1),big.SetUint64(1),big.NewInt(1),big.SetInt64(1),big.SetUint64(_,1),big.SetInt64(_,1))", "or(zero(),big.NewInt(0),big.fromInt(0))", "or(zero(),big.NewInt(0),big.fromInt(0))"}
		if !pi.has(o.St, "eq($3.MtpNotNonce.NodeAux,nil)") {
			want = []string{"or(zero(),big.NewInt(0),big.fromInt(0))", "merkletree.Hash.BigInt($3.MtpNotNonce.NodeAux.HIndex)", "merkletree.Hash.BigInt($3.MtpNotNonce.NodeAux.HValue)"}
		}
		for i, n := range []string{"CredValidNotRevMtpNoAux", "CredValidNotRevMtpAuxHi", "CredValidNotRevMtpAuxHv"} {
			if v := pi.sel(o.Res[0], n); !pi.m(want[i], v) && !(strings.HasPrefix(want[i], "or(zero") && v.Op == "zero") {
				return n + " is " + short(v) + pi.pathDesc(o)
			}
		}
		return ""
	})
	pi.Table("inputs-refused", pi.Fail, m.rows(
		"bad claim index => not(eq(~HI#1,nil))",
		"bad claim value => not(eq(~HV#1,nil))",
		"bad proof => not(eq(~RT#1,nil))",
		"bad root leaf => not(eq(~LH#1,nil))",
		"no proof of the root => not(eq(~MR#1,nil))",
		"root not in the tree => not(~MR#0.Existence) => nil; @holder.ErrRootNotFound",
		"claim too deep => not(eq(len(~SE),add($4,1)))",
		"nonce too deep => not(eq(len(~SN),add($4,1)))",
		"root too deep => not(eq(len(~SR),add($4,1)))",
	)...)
	r.tags("signals", "holder.CredentialProofInputs", "mapstructure", map[string]string{
		"Claim": "claim", "PrivateKey": "hoKOpSk", "ClaimKOpMtp": "hoClaimKOpMtp", "ClaimKOpClaimsTreeRoot": "hoClaimKOpClaimsTreeRoot",
		"CredExistMtp": "isProofExistMtp", "CredExistClaimsTreeRoot": "isProofExistClaimsTreeRoot", "CredValidNotRevMtp": "isProofValidNotRevMtp",
		"CredValidNotRevMtpNoAux": "isProofValidNotRevMtpNoAux", "CredValidNotRevMtpAuxHi": "isProofValidNotRevMtpAuxHi", "CredValidNotRevMtpAuxHv": "isProofValidNotRevMtpAuxHv",
		"CredValidClaimsTreeRoot": "isProofValidClaimsTreeRoot", "CredValidRevTreeRoot": "isProofValidRevTreeRoot", "CredValidRootsTreeRoot": "isProofValidRootsTreeRoot",
		"CredValidRootMtp": "isProofRootMtp", "IdenState": "isIdenState",
	})

	// the zero knowledge proof that is handed out verifies
	zk := r.F("holder.Holder.HolderGenZkProofCredential", "holder.Holder.HolderGetCredentialValidityData", "holder.Holder.HolderGetCredentialProofInputs")
	m = mac{
		"PK": "zk.ZkFiles.ProvingKey($5)", "VK": "zk.ZkFiles.VerificationKey($5)", "WC": "zk.ZkFiles.WitnessCalcWASM($5)",
		"OW": "issuer.Issuer.GenIdOwnershipGenesisInputs($0.Issuer,$3)",
		"D":  data,
		"IN": "holder.Holder.HolderGetCredentialProofInputs($0,~OW#0,$1,~D#0,$4)",
		"MS": "mapstructure.Decode(~IN#0,_)",
		"MP": "out(~MS)",
		"AD": "dyn($2,~MP)",
		"WI": "witnesscalc.CalculateWitnessBinWASM(~WC#0,~MP)",
		"GP": "prover.GenerateProof(~PK#0,~WI#0)",
	}
	zk.Table("zk", zk.Succ, m.rows("proof => eq(~PK#1,nil); eq(~VK#1,nil); eq(~WC#1,nil); eq(~OW#1,nil); eq(~D#1,nil); eq(~IN#1,nil); eq(~MS,nil); eq(~AD,nil); eq(~WI#1,nil); eq(~GP#2,nil); verifier.Verify(~VK#0,~GP#0,~GP#1) => => ~MS; ev:mapdel(~MP,\"claim\"); ~AD; ~WI; ~GP; verifier.Verify(~VK#0,~GP#0,~GP#1)")...)
	zk.fields("zk-fields", zk.Succ, 0, m, "IssuerID: $1.Id", "IdenStateBlockN: ~D#0.IdenStateData.BlockN")
	zk.Each("zk-out", zk.Succ, func(o *eng.Out) string {
		z := zk.sel(o.Res[0], "ZkProofOut")
		if !zk.m(m.x("~GP#0"), zk.sel(z, "Proof")) || !zk.m(m.x("~GP#1"), zk.sel(z, "PubSignals")) {
			return "the proof handed out is not the verified one"
		}
		return ""
	})
	zk.Table("zk-refused", zk.Fail, m.rows(
		"pk => not(eq(~PK#1,nil))", "vk => not(eq(~VK#1,nil))", "wasm => not(eq(~WC#1,nil))", "ownership => not(eq(~OW#1,nil))", "data => not(eq(~D#1,nil))",
		"inputs => not(eq(~IN#1,nil))", "decode => not(eq(~MS,nil))", "more inputs => not(eq(~AD,nil))", "witness => not(eq(~WI#1,nil))", "proof => not(eq(~GP#2,nil))",
		"does not verify => eq(~GP#2,nil); not(verifier.Verify(~VK#0,~GP#0,~GP#1)) => nil; @holder.ErrFailedVerifyZkProofCredential",
	)...)

	// construction
	ld := r.F("holder.Load")
	ld.Must("load", ld.Succ, "eq(issuer.Load($0,$1,$2,$3,$4)#1,nil)")
	ld.fields("load", ld.Succ, 0, mac{}, "Issuer: issuer.Load($0,$1,$2,$3,$4)#0", "idenPubOffChainReader: $5", "idenPubOnChain: $2")
	cr := r.F("holder.Create")
	cr.Must("create", cr.Succ, "eq(issuer.Create($0.Config,$1,$2,$3,$4)#1,nil)")
	cr.Each("create", cr.Succ, func(o *eng.Out) string {
		if !cr.m("issuer.Create($0.Config,$1,$2,$3,$4)#0", o.Res[0]) {
			return "Create does not give the identifier of the created issuer"
		}
		return ""
	})
	// holders are genesis only identities by default
	r.globalField("genesis-only", "holder.ConfigDefault", "GenesisOnly", "true")
}

// globalField: every store to the field of a global sets the given constant, and there is one.
func (r *R) globalField(rule, global, field, want string) {
	n := 0
	isGlobal := func(v ssa.Value) bool {
		g, ok := v.(*ssa.Global)
		return ok && g.Pkg.Pkg.Name()+"."+g.Name() == global
	}
	for _, fn := range r.P.Funcs {
		// what becomes the global as a whole
		made := map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isGlobal(st.Addr) {
					if u, ok := st.Val.(*ssa.UnOp); ok {
						made[u.X] = true
					}
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != field {
					continue
				}
				var root ssa.Value = fa.X
				for {
					if f, ok := root.(*ssa.FieldAddr); ok {
						root = f.X
						continue
					}
					break
				}
				if !isGlobal(root) && !made[root] {
					continue
				}
				n++
				c, ok := st.Val.(*ssa.Const)
				r.Ob(rule, global+"."+field, ok && c.Value != nil && c.Value.ExactString() == want, r.P.Pos(st.Pos()), global+"."+field+" is not set to "+want)
			}
		}
	}
	r.Ob(rule, global+"."+field+" is set", n > 0, "?", global+"."+field+" is not set to "+want)
}

func fieldName(fa *ssa.FieldAddr) string {
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}
