package rules

import (
	"fmt"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	register("C13", "Issued claims get fresh, durable nonces; revocation covers them", c13)
	register("C14", "State publication is a crash-safe state machine", c14)
	register("C15", "Credentials match the state known to be on chain", c15)
	register("C16", "An issuer loads what was stored and guards its state", c16)
}

var isM = mac{
	"TX":   "db.Storage.NewTx($0.storage)",
	"LIST": "$0.idenStateList",
	"ZERO": "@merkletree.HashZero",
	"P":    "$0._idenStatePending",
	"T":    "$0._idenStatePendingTransacted",
	"ON":   "$0._idenStateDataOnChain.IdenState",
	"KP":   "or(@issuer.dbKeyIdenStatePending,\"idenstatepending\")",
	"KT":   "or(@issuer.dbKeyIdenStatePendingTransacted,\"idenstatependingtxed\")",
	"KD":   "or(@issuer.dbKeyIdenStateDataOnChain,\"idenstatedataonchain\")",
	"KS":   "or(@issuer.dbKeyEthTxSetState,\"ethtxsetstate\")",
	"KI":   "or(@issuer.dbKeyEthTxInitState,\"ethtxinitstate\")",
}

// eqv is the fact that two hashes are equal.
func eqv(a, b string) string  { return "eq(" + a + "," + b + ")" }
func neqv(a, b string) string { return "not(eq(" + a + "," + b + "))" }

// knownAt: one of the alternatives of pat is known before event h.
func (f *F) knownAt(h Hit, pat string, b eng.Bind) bool {
	for _, alt := range strings.Split(pat, " | ") {
		if _, ok := f.X.FindFactN(h.St, h.E.NF, strings.TrimSpace(alt), b); ok {
			return true
		}
	}
	return false
}

// did: the events pats happen in this order before position upto (-1: anywhere).
func (f *F) did(o *eng.Out, upto int, b eng.Bind, pats ...string) (eng.Bind, bool) {
	flat := f.Flat(o)
	if upto >= 0 && upto < len(flat) {
		flat = flat[:upto]
	}
	var res eng.Bind
	ok := f.solveEvents(o, flat, pats, 0, b, func(n eng.Bind) bool { res = n; return true })
	return res, ok
}

// genesisOnly: an operation that changes the identity refuses genesis only identities first.
func (r *R) genesisOnly(f *F, effects ...string) {
	f.Each("genesis-only", f.Outs, func(o *eng.Out) string {
		if f.has(o.St, "$0.cfg.GenesisOnly") {
			if len(o.Res) == 0 || !f.m("@issuer.ErrIdenGenesisOnly", eng.StripIface(o.Res[len(o.Res)-1])) {
				return "a genesis only identity does not get ErrIdenGenesisOnly"
			}
			for _, h := range f.Flat(o) {
				if h.E.Kind == "call" || h.E.Kind == "store" {
					return "a genesis only identity still reaches " + h.E.Name
				}
			}
			return ""
		}
		for _, e := range effects {
			for _, h := range f.Hits(o, e) {
				if !f.knownAt(h, "not($0.cfg.GenesisOnly)", eng.Bind{}) {
					return e + " happens without checking that the identity is not genesis only" + f.pathDesc(o)
				}
			}
		}
		return ""
	})
	f.r.Ob("genesis-only/guarded", f.Name, f.someFact("$0.cfg.GenesisOnly"), f.pos(0), "the identity is never asked whether it is genesis only")
}

func c13(r *R) {
	// the nonce generator
	nx := r.F("issuer.UniqueNonceGen.Next")
	g := "db.StorageValue.Get($0.index,$1)"
	nx.Table("nonce-next", nx.Succ, rows(
		"next => eq("+g+"#1,nil); not(eq("+g+"#0,4294967295)) => or("+g+"#0,add(trunc(add("+g+"#0,1)),-1)); nil => db.StorageValue.Set($0.index,$1,or(add("+g+"#0,1),trunc(add("+g+"#0,1))))",
	)...)
	nx.Table("nonce-none", nx.Fail, rows(
		"used up => eq("+g+"#1,nil); eq("+g+"#0,4294967295) | le(4294967295,"+g+"#0) => => => db.StorageValue.Set(...)",
		"failed => not(eq("+g+"#1,nil)) => => => db.StorageValue.Set(...)",
	)...)
	nx.lockDisc("nonce-lock", nx.Outs, "$0.mutex", nil, []string{g, "db.StorageValue.Set(...)"})
	ni := r.F("issuer.UniqueNonceGen.Init")
	ni.Table("nonce-init", ni.Outs, rows("init => => => db.StorageValue.Set($0.index,$1,0)")...)

	// issuing
	is := r.F("issuer.Issuer.IssueClaim", "issuer.UniqueNonceGen.Next")
	add := "merkletree.MerkleTree.AddClaim($0.claimsTree,$1) | merkletree.MerkleTree.AddEntry($0.claimsTree,claims.Claimer.Entry($1))"
	non := "issuer.UniqueNonceGen.Next($0.nonceGen,?t)"
	r.genesisOnly(is, "merkletree.MerkleTree.AddClaim(...)", "merkletree.MerkleTree.AddEntry(...)", "issuer.UniqueNonceGen.Next(...)")
	is.Table("issue", is.Succ, isM.rows(
		"issued => eq(~TX#1,nil); eq("+non+"#1,nil); eq(db.Tx.Commit(?t),nil) => nil => "+non+"; db.Tx.Commit(?t); ev:store(at(claims.Claimer.Metadata($1).RevNonce),"+non+"#0); "+add)...)
	is.Each("issue-durable", is.Outs, func(o *eng.Out) string {
		for _, a := range strings.Split(add, " | ") {
			for _, h := range is.Hits(o, a) {
				b, ok := is.did(o, h.I, eng.Bind{}, non, "db.Tx.Commit(?t)", isM.x("ev:store(at(claims.Claimer.Metadata($1).RevNonce),"+non+"#0)"))
				if !ok {
					return "a claim is added before its nonce is stored for good and set in the claim" + is.pathDesc(o)
				}
				if !is.knownAt(h, "eq(db.Tx.Commit(?t),nil)", b) || !is.knownAt(h, "eq("+non+"#1,nil)", b) {
					return "a claim is added although its nonce may not have been stored" + is.pathDesc(o)
				}
			}
		}
		return ""
	})
	// a failed issue leaves the nonce of the claim as it was
	is.Each("issue-failed", is.Fail, func(o *eng.Out) string {
		var last, first *Term
		for _, h := range is.Flat(o) {
			if h.E.Kind == "store" && is.m("at(claims.Claimer.Metadata($1).RevNonce)", h.E.Args[0]) {
				last = h.E.Args[1]
				if first == nil {
					first = last
				}
			}
		}
		if last != nil && !is.m("claims.Claimer.Metadata($1).RevNonce", last) {
			return "a claim that could not be issued keeps the new nonce" + is.pathDesc(o)
		}
		return ""
	})
	is.lockDisc("issue-lock", is.Outs, "$0.rw", nil, []string{"merkletree.MerkleTree.AddClaim(...)", "merkletree.MerkleTree.AddEntry(...)", "issuer.UniqueNonceGen.Next(...)", "db.Tx.Commit(...)", "ev:store(...)"})

	// genesis claims get nonces too, from the same counter, in the same transaction
	cr := r.F("issuer.Create", "issuer.UniqueNonceGen.Next", "issuer.UniqueNonceGen.Init", "issuer.loadMTs")
	cr.Each("create-nonces", cr.Succ, func(o *eng.Out) string {
		b, ok := cr.did(o, -1, eng.Bind{}, "issuer.UniqueNonceGen.Init(?g,?t)", "issuer.UniqueNonceGen.Next(?g,?t)", "genesis.CalculateIdGenesisMT(?clt,?rot,?k,_)", "db.Tx.Commit(?t)")
		if !ok {
			return "the genesis claims do not get nonces from the generator in the transaction that is committed"
		}
		if n := len(cr.Hits(o, "issuer.UniqueNonceGen.Init(...)")); n != 1 {
			return "the generator is initialised more than once"
		}
		if _, ok := cr.did(o, -1, b, "issuer.UniqueNonceGen.Next(?g,?t)", "ev:store(at(claims.ClaimKeyBabyJub.Metadata(?k).RevNonce),issuer.UniqueNonceGen.Next(?g,?t)#0) | ev:store(at(?k.Metadata.RevNonce),issuer.UniqueNonceGen.Next(?g,?t)#0) | ev:store(at(?k.metadata.RevNonce),issuer.UniqueNonceGen.Next(?g,?t)#0)", "genesis.CalculateIdGenesisMT(?clt,?rot,?k,_)"); !ok {
			return "the operational key claim has no nonce of its own"
		}
		return ""
	})
	cr.NonEmpty("create-nonces", cr.Succ)
	cr.forAll("create-claim-nonces", cr.Succ, "$2", rows(
		"nonce => eq(issuer.UniqueNonceGen.Next(?g,?t)#1,nil) => => issuer.UniqueNonceGen.Next(?g,?t); ev:store(at(claims.Claimer.Metadata($2[?i]).RevNonce),issuer.UniqueNonceGen.Next(?g,?t)#0)",
	)...)

	// revoking: the nonce recorded in the tree for that claim, all versions
	rv := r.F("issuer.Issuer.RevokeClaim")
	r.genesisOnly(rv, "claims.AddLeafRevocationsTree(...)")
	hi := "merkletree.Entry.HIndex(merkletree.Entrier.Entry($1))"
	data := "merkletree.MerkleTree.GetDataByIndex($0.claimsTree," + hi + "#0)"
	rv.Each("revoke", rv.Succ, func(o *eng.Out) string {
		hs := rv.Hits(o, "claims.AddLeafRevocationsTree(?tr,?n,?v)")
		if len(hs) != 1 {
			return "revoking does not add one leaf"
		}
		b := hs[0].B
		if !rv.m("$0.revocationsTree", b["tr"]) {
			return "the leaf goes into " + short(b["tr"])
		}
		if !rv.m("4294967295", b["v"]) {
			return "the revoked version is " + short(b["v"]) + ", not all of them"
		}
		if b["n"].Op != "call" || b["n"].Aux != "claims.GetRevocationNonce" || !rv.m(data+"#0", rv.X.T("?e.Data", eng.Bind{"e": b["n"].Args[0]})) {
			return "the revoked nonce is " + short(b["n"]) + ", not the one in the tree for this claim"
		}
		for _, p := range []string{"eq(" + data + "#1,nil)", "eq(" + hi + "#1,nil)"} {
			if !rv.knownAt(hs[0], p, eng.Bind{}) {
				return "the claim is revoked without " + p
			}
		}
		if !rv.Holds(o, "eq(claims.AddLeafRevocationsTree(_,_,_),nil)") {
			return "revoking succeeds although the leaf may be missing"
		}
		return ""
	})
	rv.NonEmpty("revoke", rv.Succ)
	rv.lockDisc("revoke-lock", rv.Outs, "$0.rw", nil, []string{"claims.AddLeafRevocationsTree(...)", "merkletree.MerkleTree.GetDataByIndex(...)"})

	// the leaves themselves
	l := r.F("claims.AddLeafRevocationsTree")
	l.Each("revocation-leaf", l.Outs, func(o *eng.Out) string {
		hs := l.Hits(o, "merkletree.MerkleTree.AddEntry($0,?e)")
		if len(hs) != 1 || o.Res[0] != hs[0].E.Res {
			return "adding a revocation leaf is not adding one entry and reporting its error"
		}
		d := l.sel(eng.StripIface(hs[0].B["e"]), "Data")
		for k, v := range map[int64]string{0: "$1", 4: "$2"} {
			in := l.X.In
			if b := in.SubSeq(in.Idx(d, in.Int(k), nil), in.Int(0), in.Int(4), nil); !l.m("le("+v+")", b) {
				return fmt.Sprintf("element %d of the revocation leaf is %s", k, short(b))
			}
		}
		return ""
	})
	rt := r.F("claims.AddLeafRootsTree")
	rt.Each("roots-leaf", rt.Outs, func(o *eng.Out) string {
		hs := rt.Hits(o, "merkletree.MerkleTree.AddEntry($0,?e)")
		if len(hs) != 1 || o.Res[0] != hs[0].E.Res {
			return "adding a roots leaf is not adding one entry and reporting its error"
		}
		if b := rt.X.In.Idx(rt.sel(eng.StripIface(hs[0].B["e"]), "Data"), rt.X.In.Int(0), nil); !rt.m("$1", b) {
			return "the root in the leaf is " + short(b)
		}
		return ""
	})
	// nothing else changes the trees of an identity
	r.onlyCallers("tree-writers", "merkletree.MerkleTree.AddClaim", "issuer.Issuer.IssueClaim", "genesis.CalculateIdGenesisMT", "genesis.CalculateIdGenesis")
	r.onlyCallers("tree-writers", "claims.AddLeafRevocationsTree", "issuer.Issuer.RevokeClaim")
	r.onlyCallers("tree-writers", "claims.AddLeafRootsTree", "issuer.Issuer.PublishState", "genesis.CalculateIdGenesisMT", "genesis.CalculateIdGenesis")
}

// someFact: some path knows pat.
func (f *F) someFact(pat string) bool {
	for _, o := range f.Outs {
		if f.has(o.St, pat) {
			return true
		}
	}
	return false
}

// onlyCallers: only these functions of the module (outside tests) call fn.
func (r *R) onlyCallers(rule, fn string, allowed ...string) {
	ok := map[string]bool{fn: true}
	for _, a := range allowed {
		ok[a] = true
	}
	var cs []*ssa.Function
	if g := r.P.Func(fn); g != nil {
		cs = r.callersOnce()[g]
	} else {
		cs = r.invokers(fn)
	}
	if len(cs) == 0 {
		r.Ob("anchor", fn, false, "?", "nothing calls what this rule is about")
	}
	for _, c := range cs {
		for _, n := range r.owners(c) {
			if skipPkg(n) {
				continue
			}
			r.Ob(rule, n+" calls "+fn, ok[n], r.P.Pos(c.Pos()), n+" calls "+fn+", which only "+strings.Join(allowed, ", ")+" may")
		}
	}
}

// idx is the entry of the list of states at the given distance from the end.
func stateAt(t, n string) string {
	return "db.StorageList.GetByIdx($0.idenStateList," + t + ",add(db.StorageList.Length($0.idenStateList," + t + ")#0," + n + "),_)"
}

const (
	initState = "idenpubonchain.IdenPubOnChainer.InitState($0.idenPubOnChain,$0.id,?old,?new,?pr)"
	setState  = "idenpubonchain.IdenPubOnChainer.SetState($0.idenPubOnChain,$0.id,?new,?pr)"
	publish   = "idenpuboffchain.IdenPubOffChainWriter.Publish($0.idenPubOffChainWriter,$0.id,?pd)"
	genProof  = "issuer.Issuer.GenZkProofIdenStateUpdate($0,?old,?new)"
	addRoot   = "claims.AddLeafRootsTree($0.rootsTree,merkletree.MerkleTree.RootKey($0.claimsTree))"
)

// posOf is the position in the flattened path of the event that produced t, or -1.
func (f *F) posOf(o *eng.Out, t *Term) int {
	for i, h := range f.Flat(o) {
		if h.E.Res == t {
			return i
		}
	}
	return -1
}

func c14(r *R) {
	f := r.F("issuer.Issuer.PublishState", "issuer.Issuer.GenZkProofIdenStateUpdate")
	r.genesisOnly(f, "idenpubonchain.IdenPubOnChainer.InitState(...)", "idenpubonchain.IdenPubOnChainer.SetState(...)", "idenpuboffchain.IdenPubOffChainWriter.Publish(...)", "claims.AddLeafRootsTree(...)", "db.StorageList.Append(...)", "db.Tx.Put(...)")
	fresh := []string{eqv("$0._idenStatePending", "@merkletree.HashZero"), "not($0._idenStatePendingTransacted)"}
	busy := func(o *eng.Out) bool { // a transaction is on its way
		return f.solve(o.St, []string{neqv("$0._idenStatePending", "@merkletree.HashZero"), "$0._idenStatePendingTransacted"}, eng.Bind{}, yes)
	}
	known := func(h Hit, pats []string, b eng.Bind) bool {
		for _, p := range pats {
			if !f.knownAt(h, p, b) {
				return false
			}
		}
		return true
	}
	f.Each("publish-pending", f.Outs, func(o *eng.Out) string {
		if busy(o) {
			if !f.m("@issuer.ErrIdenStatePendingNotNil", eng.StripIface(o.Res[0])) {
				return "publishing while a transaction is pending is not refused with ErrIdenStatePendingNotNil"
			}
			for _, h := range f.Flat(o) {
				if h.E.Kind == "store" || h.E.Kind == "call" && (strings.HasPrefix(h.E.Name, "db.") || strings.HasPrefix(h.E.Name, "idenpub") || strings.HasPrefix(h.E.Name, "claims.")) {
					return "publishing while a transaction is pending still reaches " + h.E.Name
				}
			}
		} else if f.m("@issuer.ErrIdenStatePendingNotNil", eng.StripIface(o.Res[0])) {
			return "publishing is refused although no transaction is pending" + f.pathDesc(o)
		}
		return ""
	})
	f.Ob14("publish-pending", busy)

	last := stateAt("?t0", "-1")
	last2 := stateAt("?t0", "-2")
	sent := 0
	f.Each("publish-chain", f.Outs, func(o *eng.Out) string {
		ini, set := f.Hits(o, initState), f.Hits(o, setState)
		if n := len(f.Hits(o, "idenpubonchain.IdenPubOnChainer.InitState(...)")) + len(f.Hits(o, "idenpubonchain.IdenPubOnChainer.SetState(...)")); n != len(ini)+len(set) {
			return "the state is sent for another identity or to another contract"
		} else if n > 1 {
			return "more than one transaction is sent"
		} else if n == 0 {
			return ""
		}
		h := append(ini, set...)[0]
		sent++
		b := eng.Bind{"new": h.B["new"]}
		if old, ok := h.B["old"]; ok {
			b["old"] = old
		}
		// the right call for what is on chain
		if want, fn := eqv("$0._idenStateDataOnChain.IdenState", "@merkletree.HashZero"), "InitState"; len(ini) == 1 {
			if !f.knownAt(h, want, b) {
				return fn + " is sent although the identity may be on chain" + f.pathDesc(o)
			}
		} else if !f.knownAt(h, neqv("$0._idenStateDataOnChain.IdenState", "@merkletree.HashZero"), b) {
			return "SetState is sent although the identity may not be on chain" + f.pathDesc(o)
		}
		// with a proof of this very transition
		b, ok := f.did(o, h.I, b, genProof)
		if !ok || !f.knownAt(h, "eq("+genProof+"#1,nil)", b) || !f.mB(genProof+"#0.Proof", h.B["pr"], b) {
			return "the proof sent is not the one generated for this transition" + f.pathDesc(o)
		}
		app := f.HitsB(o, "db.StorageList.Append($0.idenStateList,?t,?new,?roots)", b)
		if n := len(f.Hits(o, "db.StorageList.Append(...)")); n > 1 || n != len(app) {
			return "a state is recorded that is not the one sent" + f.pathDesc(o)
		}
		if len(app) == 1 {
			// a new state: recorded and marked pending before it is sent
			a := app[0]
			if !known(a, fresh, b) {
				return "a new state is recorded although one may be pending" + f.pathDesc(o)
			}
			nb, ok := f.did(o, h.I, a.B, isM.x("db.Tx.Put(?t,~KP,?new)"))
			if ok {
				nb, ok = f.did(o, h.I, nb, isM.x("db.Tx.Put(?t,~KT,cat(elem1(0)))"))
			}
			if ok {
				nb, ok = f.did(o, h.I, nb, "db.StorageList.Append($0.idenStateList,?t,?new,?roots)", "db.Tx.Commit(?t)")
			}
			if !ok || !f.knownAt(h, "eq(db.Tx.Commit(?t),nil)", nb) || !f.knownAt(h, "eq(db.StorageList.Append($0.idenStateList,?t,?new,?roots),nil)", nb) {
				return "the state is sent before it is stored as the pending one" + f.pathDesc(o)
			}
			if c, ok := f.did(o, h.I, nb, "db.Tx.Commit(?t)"); !ok || f.posOf(o, f.commitOf(o, c)) < a.I {
				return "the state is stored after the commit"
			}
			b2, ok := f.mb("core.IdenState(?c,?v,?r)", b["new"])
			if !ok || !f.mB("merkletree.MerkleTree.RootKey($0.claimsTree)", b2["c"], eng.Bind{}) || !f.mB("merkletree.MerkleTree.RootKey($0.revocationsTree)", b2["v"], eng.Bind{}) || !f.mB("merkletree.MerkleTree.RootKey($0.rootsTree)", b2["r"], eng.Bind{}) {
				return "the state sent is " + short(b["new"]) + ", not the state of the trees"
			}
			for k, fld := range map[string]string{"c": "ClaimsTreeRoot", "v": "RevocationsTreeRoot", "r": "RootsTreeRoot"} {
				if f.sel(a.B["roots"], fld) != b2[k] {
					return "the " + fld + " recorded is not the one of the state"
				}
			}
			// the previous state is the last one recorded
			ob, ok := f.mb("fit("+last+"#0,32)", b["old"])
			if !ok || f.posOf(o, f.X.T(last+"#0", ob)) > a.I {
				if !ok {
					return "the previous state is " + short(b["old"]) + ", not the last one recorded"
				}
			}
			if !f.knownAt(a, neqv("core.IdenState(_,_,_)", "?old"), b) {
				return "a new state is recorded although the state may not have changed" + f.pathDesc(o)
			}
			// the new claims root goes into the roots tree first
			same := eqv("merkletree.MerkleTree.RootKey($0.claimsTree)", "out("+last+").ClaimsTreeRoot")
			if !f.knownAt(h, same, ob) {
				ad := f.Hits(o, addRoot)
				if len(ad) == 0 || f.posOf(o, b2["r"]) < ad[0].I {
					return "the claims root is not in the roots tree of the state that is sent" + f.pathDesc(o)
				}
				if !f.knownAt(h, "eq("+addRoot+",nil) | eq("+addRoot+",@merkletree.ErrEntryIndexAlreadyExists)", eng.Bind{}) {
					return "the state is sent although the claims root may not have been added"
				}
			}
			return ""
		}
		// a retry: the pending state, the last one recorded, is sent
		if f.solve(o.St, fresh, eng.Bind{}, yes) {
			return "a state is sent that is not recorded" + f.pathDesc(o)
		}
		nb, ok := f.mb("fit("+last+"#0,32)", b["new"])
		if !ok {
			return "a retry sends " + short(b["new"]) + ", not the last state recorded"
		}
		if !f.mB("fit("+last2+"#0,32)", b["old"], nb) {
			return "a retry proves the step from " + short(b["old"]) + ", not from the state before the last"
		}
		return ""
	})
	r.Ob("publish-sends", f.Name, sent > 0, f.pos(0), "no path sends a state")

	done := 0
	f.Each("publish-done", f.Succ, func(o *eng.Out) string {
		ini, set := f.Hits(o, initState), f.Hits(o, setState)
		if len(ini)+len(set) == 0 {
			if !f.solve(o.St, append([]string{neqv("core.IdenState(_,_,_)", "fit("+last+"#0,32)")}, fresh...), eng.Bind{}, yes) &&
				f.solve(o.St, append([]string{eqv("core.IdenState(_,_,_)", "fit("+last+"#0,32)")}, fresh...), eng.Bind{}, yes) {
				for _, h := range f.Flat(o) {
					if h.E.Kind == "store" || h.E.Kind == "call" && (strings.HasPrefix(h.E.Name, "db.Tx.P") || strings.HasSuffix(h.E.Name, "Commit") || strings.HasPrefix(h.E.Name, "idenpub") || h.E.Name == "db.StorageList.Append") {
						return "nothing has changed and still " + h.E.Name
					}
				}
				return ""
			}
			return "publishing succeeds without sending the state" + f.pathDesc(o)
		}
		done++
		h := append(ini, set...)[0]
		key, at := "~KI", "at($0._ethTxInitState)"
		if len(set) == 1 {
			key, at = "~KS", "at($0._ethTxSetState)"
		}
		b := eng.Bind{"new": h.B["new"], "eth": f.X.T("?c#0", eng.Bind{"c": h.E.Res})}
		if !f.solve(o.St, []string{"eq(?c#1,nil)"}, eng.Bind{"c": h.E.Res}, yes) {
			return "publishing succeeds although the transaction may have failed"
		}
		// the transaction and the pending state are stored together, after it was sent
		b, ok := f.did(o, -1, b, isM.x("db.StoreJSON(?t,"+key+",?eth)"))
		if !ok {
			return "the transaction sent is not stored" + f.pathDesc(o)
		}
		for _, p := range []string{"db.StoreJSON(?t," + key + ",?eth)", "db.Tx.Put(?t,~KP,?new)", "db.Tx.Put(?t,~KT,cat(elem1(1)))"} {
			if nb, ok := f.did(o, -1, b, isM.x(p), "db.Tx.Commit(?t)", publish); !ok || len(f.HitsB(o, "db.Tx.Commit(?t)", nb)) != 1 {
				return "what is sent is not stored before it is published: " + p + f.pathDesc(o)
			}
		}
		for _, p := range []string{"eq(db.Tx.Commit(?t),nil)", isM.x("eq(db.StoreJSON(?t," + key + ",?eth),nil)")} {
			if !f.solve(o.St, []string{p}, b, yes) {
				return "publishing succeeds without " + p
			}
		}
		if c := f.HitsB(o, "db.Tx.Commit(?t)", b); c[0].I < h.I {
			return "the record is committed before the transaction is sent"
		}
		for loc, v := range map[string]*Term{"at($0._idenStatePending)": b["new"], at: b["eth"]} {
			if got := f.lastStore(o, loc); got != v {
				return loc + " is " + short(got) + " in the end, not what was stored"
			}
		}
		if got := f.lastStore(o, "at($0._idenStatePendingTransacted)"); got == nil || !f.m("true", got) {
			return "the state is not marked as sent in memory"
		}
		// the public data: of the state that was sent
		pub := f.Hits(o, publish)
		if len(pub) != 1 || pub[0].I < h.I {
			return "the public data is not published once, after the state is sent"
		}
		if !f.Holds(o, "eq("+publish+",nil)") {
			return "publishing succeeds although the public data may not be published"
		}
		pd := pub[0].B["pd"]
		if f.sel(pd, "IdenState") != b["new"] || !f.m("$0.revocationsTree", f.sel(pd, "RevocationsTree")) || !f.m("$0.rootsTree", f.sel(pd, "RootsTree")) {
			return "the public data published is not of the state that was sent"
		}
		for i, fld := range []string{"ClaimsTreeRoot", "RevocationsTreeRoot", "RootsTreeRoot"} {
			got := f.sel(pd, fld)
			if b2, ok := f.mb("core.IdenState(?c,?v,?r)", b["new"]); ok {
				if got != []*Term{b2["c"], b2["v"], b2["r"]}[i] {
					return "the " + fld + " published is not the one of the state"
				}
			} else if !f.m("out("+last+")."+fld, got) {
				return "the " + fld + " published is not the one of the state"
			}
		}
		return ""
	})
	f.Refused("publish-refused", f.Fail, "$0.cfg.GenesisOnly", neqv("$0._idenStatePending", "@merkletree.HashZero")+" & $0._idenStatePendingTransacted", "lt(db.StorageList.Length($0.idenStateList,_)#0,1)", "lt(db.StorageList.Length($0.idenStateList,_)#0,2)")
	r.Ob("publish-done", f.Name+" paths", done > 0, f.pos(0), "no path publishes")
	// called again after a failure in between, the root is there already
	f.tolerates("publish-again", "claims.AddLeafRootsTree(...)", "@merkletree.ErrEntryIndexAlreadyExists")
	// memory follows storage
	f.Each("publish-memory", f.Outs, func(o *eng.Out) string {
		for _, h := range f.Hits(o, "ev:store(at($0._idenStatePending),?v)") {
			sentYet := false
			for _, c := range append(f.Hits(o, initState), f.Hits(o, setState)...) {
				sentYet = sentYet || c.I < h.I
			}
			if sentYet {
				continue
			}
			b, ok := f.did(o, h.I, h.B, isM.x("db.Tx.Put(?t,~KP,?v)"), "db.Tx.Commit(?t)")
			if !ok || !f.knownAt(h, "eq(db.Tx.Commit(?t),nil)", b) {
				return "the pending state changes in memory before it is stored" + f.pathDesc(o)
			}
		}
		return ""
	})
	f.lockDisc("publish-lock", f.Outs, "$0.rw", []string{"merkletree.MerkleTree.RootKey(...)"}, []string{"db.StorageList.Append(...)", "db.Tx.Put(...)", "db.Tx.Commit(...)", "claims.AddLeafRootsTree(...)", "idenpubonchain.IdenPubOnChainer.InitState(...)", "idenpubonchain.IdenPubOnChainer.SetState(...)", "ev:store(...)"})
	r.onlyCallers("chain-writers", "idenpubonchain.IdenPubOnChainer.InitState", "issuer.Issuer.PublishState")
	r.onlyCallers("chain-writers", "idenpubonchain.IdenPubOnChainer.SetState", "issuer.Issuer.PublishState")
	r.c14sync()
}

// lastStore is the last value stored where pat says.
func (f *F) lastStore(o *eng.Out, pat string) *Term {
	var v *Term
	for _, h := range f.Hits(o, "ev:store("+pat+",?v)") {
		v = h.B["v"]
	}
	return v
}

// invokers are the functions that call the interface method fn.
func (r *R) invokers(fn string) []*ssa.Function {
	var res []*ssa.Function
	for _, g := range r.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && namedOf(c.Common().Value.Type())+"."+c.Common().Method.Name() == fn {
					res = append(res, g)
				}
			}
		}
	}
	return res
}

func (f *F) Ob14(rule string, p func(o *eng.Out) bool) {
	n := 0
	for _, o := range f.Outs {
		if p(o) {
			n++
		}
	}
	f.r.Ob(rule+"/exists", f.Name, n > 0, f.pos(0), "no path is about this case")
}

func (f *F) commitOf(o *eng.Out, b eng.Bind) *Term {
	for _, h := range f.HitsB(o, "db.Tx.Commit(?t)", b) {
		return h.E.Res
	}
	return nil
}

func (r *R) c14sync() {
	f := r.F("issuer.Issuer.SyncIdenStatePublic")
	r.genesisOnly(f, "idenpubonchain.IdenPubOnChainer.GetState(...)", "idenpubonchain.IdenPubOnChainer.TxConfirmBlocks(...)", "db.Tx.Put(...)", "db.Tx.Commit(...)")
	idle := []string{eqv("$0._idenStatePending", "@merkletree.HashZero"), "not($0._idenStatePendingTransacted)"}
	busy := func(o *eng.Out) bool {
		return f.solve(o.St, []string{neqv("$0._idenStatePending", "@merkletree.HashZero"), "$0._idenStatePendingTransacted"}, eng.Bind{}, yes)
	}
	conf := "idenpubonchain.IdenPubOnChainer.TxConfirmBlocks($0.idenPubOnChain,?tx)"
	cmp, pmc := "big.Cmp("+conf+"#0,big.SetUint64($0.cfg.ConfirmBlocks))", "big.Cmp(big.SetUint64($0.cfg.ConfirmBlocks),"+conf+"#0)"
	enough := "not(eq(" + cmp + ",-1)) | le(0," + cmp + ") | not(eq(" + pmc + ",1)) | le(" + pmc + ",0)"
	few := "eq(" + cmp + ",-1) | lt(" + cmp + ",0) | eq(" + pmc + ",1) | lt(0," + pmc + ")"
	none := eqv("$0._idenStateDataOnChain.IdenState", "@merkletree.HashZero")
	some := neqv("$0._idenStateDataOnChain.IdenState", "@merkletree.HashZero")
	f.Ob14("sync-pending", busy)
	f.Each("sync-wait", f.Outs, func(o *eng.Out) string {
		for _, h := range f.Hits(o, conf) {
			want := none
			if f.m("$0._ethTxSetState", h.B["tx"]) {
				want = some
			} else if !f.m("$0._ethTxInitState", h.B["tx"]) {
				return "the transaction looked at is " + short(h.B["tx"])
			}
			if !f.knownAt(h, want, eng.Bind{}) {
				return "the transaction looked at is not the one that made the state pending" + f.pathDesc(o)
			}
		}
		for _, h := range f.Hits(o, "idenpubonchain.IdenPubOnChainer.GetState(...)") {
			if !f.m("$0.idenPubOnChain", h.E.Args[0]) || !f.m("$0.id", h.E.Args[1]) {
				return "the state of another identity is read"
			}
			if busy(o) && (!f.knownAt(h, "eq("+conf+"#1,nil)", eng.Bind{}) || !f.knownAt(h, enough, eng.Bind{})) {
				return "the state on chain is read although the transaction is not confirmed by enough blocks" + f.pathDesc(o)
			}
		}
		return ""
	})
	data := "idenpubonchain.IdenPubOnChainer.GetState($0.idenPubOnChain,$0.id)"
	n := 0
	f.Each("sync-confirm", f.Outs, func(o *eng.Out) string {
		for _, h := range f.Hits(o, "db.Tx.Commit(?t)") {
			n++
			for _, p := range []string{isM.x("db.Tx.Put(?t,~KP,@merkletree.HashZero)"), isM.x("db.Tx.Put(?t,~KT,cat(elem1(0)))")} {
				if _, ok := f.did(o, h.I, h.B, p); !ok {
					return "the pending state is not cleared in the transaction that is committed"
				}
			}
			b, ok := f.did(o, h.I, h.B, isM.x("db.StoreJSON(?t,~KD,?d)"))
			if !ok || !f.knownAt(h, isM.x("eq(db.StoreJSON(?t,~KD,?d),nil)"), b) {
				return "the state data on chain is not stored in the transaction that is committed"
			}
			d := f.Hits(o, data)
			switch {
			case len(d) == 0:
				return "the pending state is confirmed without looking at the chain"
			case f.m(data+"#0", b["d"]):
				if !f.knownAt(h, "eq("+data+"#1,nil)", eng.Bind{}) {
					return "state data is used although it may not have been read"
				}
			case f.m("@merkletree.HashZero", f.sel(b["d"], "IdenState")):
				if !f.knownAt(h, "eq("+data+"#1,@idenpubonchain.ErrIdenNotOnChain)", eng.Bind{}) {
					return "the identity is taken to be missing on chain without being told so"
				}
			default:
				return "the state data stored is " + short(b["d"])
			}
			cs, csp := eng.Bind{"cs": f.sel(b["d"], "IdenState")}, "?cs"
			if f.m("@merkletree.HashZero", cs["cs"]) {
				csp = "@merkletree.HashZero"
			}
			if !f.knownAt(h, eqv(csp, "$0._idenStatePending"), cs) {
				return "the pending state is confirmed although the chain may hold another one" + f.pathDesc(o)
			}
			if f.solve(o.St, idle, eng.Bind{}, yes) {
				return "a state is confirmed although none is pending"
			}
			if !f.knownAt(h, neqv(csp, "$0._idenStateDataOnChain.IdenState"), cs) {
				return "the pending state is cleared although the chain still holds the old one" + f.pathDesc(o)
			}
			commit := "eq(db.Tx.Commit(?t),nil)"
			if !f.solve(o.St, []string{commit}, b, yes) {
				continue
			}
			for loc, v := range map[string]string{"at($0._idenStatePending)": "@merkletree.HashZero", "at($0._idenStatePendingTransacted)": "false"} {
				if got := f.lastStore(o, loc); got == nil || !f.m(v, got) {
					return loc + " is " + short(got) + " after the state was confirmed"
				}
			}
			if got := f.lastStore(o, "at($0._idenStateDataOnChain)"); got != b["d"] {
				return "the state data in memory is " + short(got) + ", not the one stored"
			}
		}
		for _, h := range f.Flat(o) {
			if h.E.Kind == "store" && strings.HasPrefix(h.E.Args[0].String(), "&$0._idenState") && !f.knownAt(h, "eq(db.Tx.Commit(_),nil)", eng.Bind{}) {
				return "the state in memory changes before it is stored" + f.pathDesc(o)
			}
		}
		return ""
	})
	r.Ob("sync-confirm/exists", f.Name, n > 0, f.pos(0), "no path confirms a pending state")
	f.Each("sync-same", f.Succ, func(o *eng.Out) string {
		if len(f.Hits(o, "db.Tx.Commit(_)")) > 0 {
			if !f.Holds(o, "eq(db.Tx.Commit(_),nil)") {
				return "the sync succeeds although the state may not be stored"
			}
			return ""
		}
		for err, st := range map[string]string{"nil": data + "#0.IdenState", "@idenpubonchain.ErrIdenNotOnChain": "@merkletree.HashZero"} {
			if f.solve(o.St, []string{"eq(" + data + "#1," + err + ")", eqv(st, "$0._idenStateDataOnChain.IdenState")}, eng.Bind{}, yes) {
				return ""
			}
		}
		if busy(o) && (f.Holds(o, "eq("+conf+"#1,@eth.ErrReceiptNotReceived)") || f.solve(o.St, []string{few, "eq(" + conf + "#1,nil)"}, eng.Bind{}, yes)) {
			return ""
		}
		return "the sync succeeds although the chain does not hold the expected state" + f.pathDesc(o)
	})
	f.NonEmpty("sync-same", f.Succ)
	var unexpected []string
	for err, st := range map[string]string{"nil": data + "#0.IdenState", "@idenpubonchain.ErrIdenNotOnChain": "@merkletree.HashZero"} {
		is, differs := "eq("+data+"#1,"+err+")", neqv(st, "$0._idenStateDataOnChain.IdenState")
		unexpected = append(unexpected, is+" & "+differs+" & "+idle[0]+" & "+idle[1], is+" & "+differs+" & "+neqv(st, "$0._idenStatePending"))
	}
	f.Refused("sync-refused", f.Fail, append(unexpected, "$0.cfg.GenesisOnly")...)
	f.lockDisc("sync-lock", f.Outs, "$0.rw", nil, []string{"idenpubonchain.IdenPubOnChainer.GetState(...)", "db.Tx.Put(...)", "db.Tx.Commit(...)", "ev:store(...)"})
	r.onlyIn("state-writers", "the pending state", r.fieldWriters("issuer.Issuer", "_idenStatePending"), "issuer.Issuer.setIdenStatePending", "issuer.Issuer.loadIdenStatePending", "issuer.Issuer.PublishState", "issuer.Issuer.SyncIdenStatePublic", "issuer.Create", "issuer.Load")
	r.onlyIn("state-writers", "the state on chain", r.fieldWriters("issuer.Issuer", "_idenStateDataOnChain"), "issuer.Issuer.setIdenStateDataOnChain", "issuer.Issuer.loadIdenStateDataOnChain", "issuer.Issuer.SyncIdenStatePublic", "issuer.Create", "issuer.Load")
}

func c15(r *R) {
	r.sharedAppends("shared-append", "issuer.", "holder.", "verifier.")
	f := r.F("issuer.Issuer.GenCredentialExistence")
	r.genesisOnly(f, "merkletree.MerkleTree.GenerateProof(...)")
	m := isM.with(
		"EN", "merkletree.Entrier.Entry($1)",
		"HI", "merkletree.Entry.HIndex(merkletree.Entrier.Entry($1))",
		"SL", "db.StorageList.Get($0.idenStateList,?t,$0._idenStateDataOnChain.IdenState,_)",
		"R", "out(db.StorageList.Get($0.idenStateList,?t,$0._idenStateDataOnChain.IdenState,_))",
		"GP", "merkletree.MerkleTree.GenerateProof($0.claimsTree,merkletree.Entry.HIndex(merkletree.Entrier.Entry($1))#0,out(db.StorageList.Get($0.idenStateList,?t,$0._idenStateDataOnChain.IdenState,_)).ClaimsTreeRoot)",
		"EE", "merkletree.MerkleTree.EntryExists($0.claimsTree,merkletree.Entrier.Entry($1),out(db.StorageList.Get($0.idenStateList,?t,$0._idenStateDataOnChain.IdenState,_)).ClaimsTreeRoot)",
		"EC", "merkletree.MerkleTree.EntryExists($0.claimsTree,merkletree.Entrier.Entry($1),nil)",
	)
	f.Table("credential", f.Succ, m.rows(
		"issued => not(eq($0._idenStateDataOnChain.IdenState,@merkletree.HashZero)); eq(~SL,nil); eq(~HI#1,nil); eq(~GP#1,nil); ~GP#0.Existence; eq(~EE,nil) => _; nil",
	)...)
	f.Each("credential-fields", f.Succ, func(o *eng.Out) string {
		t := eng.StripIface(o.Res[0])
		for fld, p := range map[string]string{"Id": "$0.id", "IdenStateData": "$0._idenStateDataOnChain", "MtpClaim": "~GP#0", "Claim": "~EN", "RevocationsTreeRoot": "~R.RevocationsTreeRoot", "RootsTreeRoot": "~R.RootsTreeRoot", "IdenPubUrl": "idenpuboffchain.IdenPubOffChainWriter.Url($0.idenPubOffChainWriter)"} {
			if !f.m(m.x(p), f.sel(t, fld)) {
				return fld + " of the credential is " + short(f.sel(t, fld))
			}
		}
		return ""
	})
	absent := func(p string) string {
		return "eq(" + p + ",@merkletree.ErrEntryIndexNotFound) | eq(" + p + ",@merkletree.ErrEntryDataNotMatch)"
	}
	f.Each("credential-refused", f.Fail, func(o *eng.Out) string {
		e := eng.StripIface(o.Res[1])
		want := ""
		switch {
		case f.m("@issuer.ErrIdenStateOnChainZero", e):
			want = "eq($0._idenStateDataOnChain.IdenState,@merkletree.HashZero)"
		case f.m("@issuer.ErrClaimNotYetInOnChainState", e):
			want = "eq(~EC,nil)"
		case f.m("@issuer.ErrClaimNotFoundClaimsTree", e):
			want = absent("~EC") + " | " + absent("~EE")
		default:
			return ""
		}
		if !f.solve(o.St, []string{m.x(want)}, eng.Bind{}, yes) {
			return "fails with " + short(e) + " although that may not be the case" + f.pathDesc(o)
		}
		return ""
	})
	f.Each("credential-why", f.Outs, func(o *eng.Out) string {
		e := eng.StripIface(o.Res[1])
		for w, g := range map[string]string{"eq($0._idenStateDataOnChain.IdenState,@merkletree.HashZero)": "@issuer.ErrIdenStateOnChainZero", "eq(~EC,nil)": "@issuer.ErrClaimNotYetInOnChainState",
			absent("~EC"): "@issuer.ErrClaimNotFoundClaimsTree", absent("~EE"): "@issuer.ErrClaimNotFoundClaimsTree"} {
			if f.solve(o.St, []string{m.x(w)}, eng.Bind{}, yes) && !f.m(g, e) {
				return "when " + m.x(w) + " the error is " + short(e)
			}
		}
		// an answer of the tree is handed on only when it does not mean that the claim is absent
		for _, p := range []string{"~EC", "~EE"} {
			b, ok := f.mb("?e", e)
			if !ok || !f.m(m.x(p), e) {
				continue
			}
			for _, g := range []string{"@merkletree.ErrEntryIndexNotFound", "@merkletree.ErrEntryDataNotMatch"} {
				if !f.solve(o.St, []string{"not(eq(?e," + g + "))"}, b, yes) {
					return "the claim may be absent (" + g + ") and the error is " + short(e) + f.pathDesc(o)
				}
			}
		}
		return ""
	})
	f.Refused("credential-refused", f.Fail, m.x("eq($0._idenStateDataOnChain.IdenState,@merkletree.HashZero)"), "$0.cfg.GenesisOnly", m.x("eq(~EC,nil)"), m.x(absent("~EC")), m.x(absent("~EE")))
	f.lockDisc("credential-lock", f.Outs, "$0.rw", []string{"merkletree.MerkleTree.GenerateProof(...)", "merkletree.MerkleTree.EntryExists(...)", "db.StorageList.Get(...)"}, nil)

	// the inputs of the proofs
	g := r.F("issuer.Issuer.GenIdOwnershipGenesisInputs")
	gm := mac{
		"SK": "keystore.KeyStore.ExportKey($0.keyStore,$0.kOpComp)",
		"MP": "db.LoadJSON($0.storage,or(@issuer.dbKeyGenesisClaimKOpMtp,\"genclaimkopmtp\"),_)",
		"SB": "merkletree.Proof.AllSiblingsCircom(out(db.LoadJSON($0.storage,or(@issuer.dbKeyGenesisClaimKOpMtp,\"genclaimkopmtp\"),_)),$1)",
		"CR": "db.LoadJSON($0.storage,or(@issuer.dbKeyGenesisClaimTreeRoot,\"genclr\"),_)",
	}
	g.Table("ownership-inputs", g.Succ, gm.rows(
		"inputs => eq(~SK#1,nil); eq(~MP,nil); eq(~CR,nil); eq(len(~SB),add($1,1)) => _; nil",
	)...)
	g.Refused("ownership-refused", g.Fail, gm.x("not(eq(len(~SB),add($1,1)))"))
	g.Each("ownership-fields", g.Succ, func(o *eng.Out) string {
		t := eng.StripIface(o.Res[0])
		for fld, p := range map[string]string{"Id": "core.ID.BigInt($0.id)", "PrivateKey": "babyjub.PrivateKey.Scalar(~SK#0)", "MtpSiblings": "~SB", "ClaimsTreeRoot": "merkletree.Hash.BigInt(out(~CR))"} {
			if !g.m(gm.x(p), g.sel(t, fld)) {
				return fld + " is " + short(g.sel(t, fld))
			}
		}
		return ""
	})
	z := r.F("issuer.Issuer.GenZkProofIdenStateUpdate", "issuer.Issuer.GenIdOwnershipGenesisInputs")
	zm := mac{
		"C":  "$0.idenStateZkProofConf",
		"IN": "issuer.Issuer.GenIdOwnershipGenesisInputs($0,$0.idenStateZkProofConf.Levels)",
		"PK": "zk.ZkFiles.ProvingKey($0.idenStateZkProofConf.Files)",
		"VK": "zk.ZkFiles.VerificationKey($0.idenStateZkProofConf.Files)",
		"WA": "zk.ZkFiles.WitnessCalcWASM($0.idenStateZkProofConf.Files)",
		"W":  "witnesscalc.CalculateWitnessBinWASM(zk.ZkFiles.WitnessCalcWASM($0.idenStateZkProofConf.Files)#0,?in)",
		"PR": "prover.GenerateProof(zk.ZkFiles.ProvingKey($0.idenStateZkProofConf.Files)#0,witnesscalc.CalculateWitnessBinWASM(zk.ZkFiles.WitnessCalcWASM($0.idenStateZkProofConf.Files)#0,?in)#0)",
	}
	z.Table("state-proof", z.Succ, zm.rows(
		"proved => eq(~IN#1,nil); eq(~PK#1,nil); eq(~VK#1,nil); eq(~WA#1,nil); eq(~W#1,nil); eq(~PR#2,nil); verifier.Verify(~VK#0,~PR#0,~PR#1) => _; nil",
	)...)
	z.Each("state-proof-inputs", z.Succ, func(o *eng.Out) string {
		hs := z.Hits(o, "witnesscalc.CalculateWitnessBinWASM(_,?in)")
		if len(hs) != 1 {
			return "the witness is not calculated once"
		}
		in := hs[0].B["in"]
		for fld, p := range map[string]string{"Proof": "~PR#0", "PubSignals": "~PR#1"} {
			if got := z.sel(eng.StripIface(o.Res[0]), fld); !z.m(zm.x(p), got) {
				return fld + " returned is " + short(got)
			}
		}
		want := map[string]string{"id": "~IN#0.Id", "oldIdState": "merkletree.Hash.BigInt($1)", "userPrivateKey": "~IN#0.PrivateKey", "siblings": "~IN#0.MtpSiblings", "claimsTreeRoot": "~IN#0.ClaimsTreeRoot", "newIdState": "merkletree.Hash.BigInt($2)"}
		if in.Op != "mapval" {
			return "the inputs of the circuit are " + short(in)
		}
		if len(in.Args) != 2*len(want) {
			return "the circuit gets other inputs than it has"
		}
		for i := 0; i < len(in.Args); i += 2 {
			k := strings.Trim(in.Args[i].Aux, "\"")
			if want[k] == "" || !z.m(zm.x(want[k]), in.Args[i+1]) {
				return "the input " + k + " of the circuit is " + short(in.Args[i+1])
			}
		}
		return ""
	})

	z.Refused("state-proof-refused", z.Fail, zm.x("not(verifier.Verify(~VK#0,~PR#0,~PR#1))"))

	// signatures by the operational key
	sb := r.F("issuer.Issuer.SignBinary")
	sb.Table("sign-binary", sb.Outs, rows("sign => => keystore.KeyStore.SignRaw($0.keyStore,$0.kOpComp,cat($1,$2))#0; keystore.KeyStore.SignRaw($0.keyStore,$0.kOpComp,cat($1,$2))#1")...)
	ss := r.F("issuer.Issuer.SignState")
	h := "poseidon.PoseidonHash(cat(elem1(out(utils.SetBigIntFromLEBytes(_,fit(@issuer.SigPrefixSetState,31)))),elem1(merkletree.Hash.BigInt($1)),elem1(merkletree.Hash.BigInt($2)),elem1(_),elem1(_),elem1(_)))"
	ss.Table("sign-state", ss.Outs, rows(
		"sign => eq("+h+"#1,nil) => keystore.KeyStore.SignElem($0.keyStore,$0.kOpComp,"+h+"#0)#0; keystore.KeyStore.SignElem($0.keyStore,$0.kOpComp,"+h+"#0)#1",
		"hash => not(eq("+h+"#1,nil)) => nil; "+h+"#1 | not(nil)",
	)...)
	se := r.F("issuer.Issuer.SignElems")
	se.Table("sign-elems", se.Outs, rows(
		"sign => eq(poseidon.PoseidonHash($1)#1,nil) => keystore.KeyStore.SignElem($0.keyStore,$0.kOpComp,poseidon.PoseidonHash($1)#0)#0; keystore.KeyStore.SignElem($0.keyStore,$0.kOpComp,poseidon.PoseidonHash($1)#0)#1",
		"hash => not(eq(poseidon.PoseidonHash($1)#1,nil)) => nil; _",
	)...)
}

// key is a storage key of the issuer, by name or by value.
func isKey(n, lit string) string { return "or(@issuer." + n + ",\"" + lit + "\")" }

func c16(r *R) {
	r.noDeadlock("deadlock", "issuer.", "holder.")
	m := isM.with(
		"CFG", isKey("dbKeyConfig", "config"), "KOP", isKey("dbKeyKOp", "kop"), "ID", isKey("dbKeyId", "id"),
		"HIK", isKey("dbKeyClaimKOpHi", "claimkophi"), "MTP", isKey("dbKeyGenesisClaimKOpMtp", "genclaimkopmtp"), "CLR", isKey("dbKeyGenesisClaimTreeRoot", "genclr"),
		"NON", isKey("dbKeyNonceIdx", "nonceidx"), "LST", isKey("dbPrefixIdenStateList", "idenstates:"),
		"PC", isKey("dbPrefixClaimsTree", "treeclaims:"), "PV", isKey("dbPrefixRevocationTree", "treerevocation:"), "PR", isKey("dbPrefixRootsTree", "treeroots:"),
	)
	tree := func(s, cfg, pre, lvl string) string {
		return "merkletree.NewMerkleTree(db.Storage.WithPrefix(" + s + "," + pre + ")," + cfg + "." + lvl + ")"
	}
	clt, ret, rot := tree("$3", "$0", "~PC", "MaxLevelsClaimsTree"), tree("$3", "$0", "~PV", "MaxLevelsRevocationTree"), tree("$3", "$0", "~PR", "MaxLevelsRootsTree")

	// creating: everything in one transaction
	c := r.F("issuer.Create")
	gen := "genesis.CalculateIdGenesisMT(" + clt + "#0," + rot + "#0,_,_)"
	c.Each("create-one-commit", c.Outs, func(o *eng.Out) string {
		if n := len(c.Hits(o, "db.Tx.Commit(_)")); n > 1 || n == 0 && len(c.Succ) > 0 && isSucc(c, o) {
			return "creating an identity commits more or less than one transaction"
		}
		ts := map[*Term]bool{}
		for _, h := range c.Flat(o) {
			if h.E.Kind != "call" {
				continue
			}
			switch n := h.E.Name; {
			case n == "db.Tx.Put" || n == "db.Tx.Commit" || n == "db.StoreJSON":
				ts[h.E.Args[0]] = true
			case n == "db.StorageList.Append" || n == "db.StorageList.Init" || n == "db.StorageValue.Set":
				ts[h.E.Args[1]] = true
			}
		}
		if len(ts) > 1 {
			return "creating an identity uses more than one transaction"
		}
		return ""
	})
	c.Each("create-stored", c.Succ, func(o *eng.Out) string {
		cm := c.Hits(o, "db.Tx.Commit(?t)")[0]
		if !c.solve(o.St, []string{"eq(?c,nil)"}, eng.Bind{"c": cm.E.Res}, yes) {
			return "creating succeeds although nothing may be stored"
		}
		g, ok := c.did(o, cm.I, cm.B, m.x(gen))
		if !ok || eng.StripIface(o.Res[0]) != c.X.T("?g#0", eng.Bind{"g": c.Hits(o, m.x(gen))[0].E.Res}) {
			return "the ID returned is not the one of the genesis trees"
		}
		gi := c.Hits(o, m.x(gen))[0].I
		g["id"] = eng.StripIface(o.Res[0])
		root := "core.IdenState(merkletree.MerkleTree.RootKey(" + clt + "#0),merkletree.MerkleTree.RootKey(" + ret + "#0),merkletree.MerkleTree.RootKey(" + rot + "#0))"
		for _, p := range []string{
			"db.Tx.Put(?t,~ID,?id)", "db.Tx.Put(?t,~KOP,$1)", "db.Tx.Put(?t,~HIK,merkletree.Entry.HIndex(?e)#0)", "db.Tx.Put(?t,~CFG,json.Marshal($0)#0) | db.StoreJSON(?t,~CFG,$0)",
			"db.StoreJSON(?t,~MTP,merkletree.MerkleTree.GenerateProof(" + clt + "#0,merkletree.Entry.HIndex(?e)#0,or(nil,merkletree.MerkleTree.RootKey(" + clt + "#0)))#0)",
			"db.StoreJSON(?t,~CLR,merkletree.MerkleTree.RootKey(" + clt + "#0))",
			"db.StoreJSON(?t,~KI,nil)", "db.StoreJSON(?t,~KS,nil)", "db.Tx.Put(?t,~KP,@merkletree.HashZero)", "db.Tx.Put(?t,~KT,cat(elem1(0)))",
			"db.StorageValue.Set(db.NewStorageValue(~NON),?t,_)",
		} {
			if _, ok := c.did(o, cm.I, g, m.x(p)); !ok {
				return "not stored with the new identity: " + m.x(p)
			}
		}
		if _, ok := c.did(o, cm.I, g, m.x("db.StorageList.Init(db.NewStorageList(~LST),?t)"), m.x("db.StorageList.Append(db.NewStorageList(~LST),?t,"+root+",_)")); !ok {
			return "the genesis state is not recorded in the list of states"
		}
		a := c.Hits(o, m.x("db.StorageList.Append(db.NewStorageList(~LST),?t,core.IdenState(?c,?v,?r),?roots)"))[0]
		for k, fld := range map[string]string{"c": "ClaimsTreeRoot", "v": "RevocationsTreeRoot", "r": "RootsTreeRoot"} {
			if c.sel(a.B["roots"], fld) != a.B[k] {
				return "the " + fld + " recorded is not the one of the state"
			}
			if c.posOf(o, a.B[k]) < gi {
				return "the root recorded is read before the genesis claims are added"
			}
		}
		for _, h := range append(c.Hits(o, "merkletree.MerkleTree.GenerateProof(...)"), c.Hits(o, m.x("db.StoreJSON(?t,~CLR,?root)"))...) {
			i := h.I
			if t := h.B["root"]; t != nil {
				i = c.posOf(o, t)
			}
			if i < gi {
				return h.E.Name + " is about the tree before the genesis claims are added"
			}
		}
		d := c.HitsB(o, m.x("db.StoreJSON(?t,~KD,?d)"), cm.B)
		if len(d) != 1 || !c.m("@merkletree.HashZero", c.sel(d[0].B["d"], "IdenState")) {
			return "a new identity does not start without a state on chain"
		}
		return ""
	})
	c.NonEmpty("create-stored", c.Succ)

	// loading what was stored
	l := r.F("issuer.Load", "issuer.Issuer.SyncIdenStatePublic")
	cfg := "out(json.Unmarshal(db.Storage.Get($0,~CFG)#0,_))"
	lclt, lret, lrot := tree("$0", cfg, "~PC", "MaxLevelsClaimsTree"), tree("$0", cfg, "~PV", "MaxLevelsRevocationTree"), tree("$0", cfg, "~PR", "MaxLevelsRootsTree")
	l.Each("load", l.Succ, func(o *eng.Out) string {
		is := eng.StripIface(o.Res[0])
		if hs := l.Hits(o, "issuer.Issuer.SyncIdenStatePublic(?is)"); len(hs) > 0 {
			is = hs[0].B["is"]
		}
		for fld, p := range map[string]string{
			"storage": "$0", "keyStore": "$1", "idenPubOnChain": "$2", "idenStateZkProofConf": "$3", "idenPubOffChainWriter": "$4", "cfg": cfg,
			"id": "fit(db.Storage.Get($0,~ID)#0,31)", "kOpComp": "fit(db.Storage.Get($0,~KOP)#0,32)",
			"claimsTree": lclt + "#0", "revocationsTree": lret + "#0", "rootsTree": lrot + "#0", "idenStateList": "db.NewStorageList(~LST)",
			"_idenStateDataOnChain": "out(db.LoadJSON($0,~KD,_))", "_idenStatePending": "fit(db.Storage.Get($0,~KP)#0,32)",
			"_ethTxInitState": "out(db.LoadJSON($0,~KI,_))", "_ethTxSetState": "out(db.LoadJSON($0,~KS,_))",
		} {
			if got := l.sel(is, fld); !l.m(m.x(p), got) {
				return fld + " is loaded as " + short(got)
			}
		}
		if got := l.sel(l.sel(is, "nonceGen"), "index"); !l.m(m.x("db.NewStorageValue(~NON)"), got) {
			return "the nonces are loaded from " + short(got)
		}
		by := m.x("db.Storage.Get($0,~KT)#0[0]")
		switch got := l.sel(is, "_idenStatePendingTransacted"); {
		case l.m("true", got):
			if !l.Holds(o, "not(eq("+by+",0))") && !l.Holds(o, "eq("+by+",1)") {
				return "a pending state is taken for sent although it may not be"
			}
		case l.m("false", got):
			if !l.Holds(o, "eq("+by+",0)") && !l.Holds(o, "not(eq("+by+",1))") {
				return "a pending state is taken for not sent although it may be"
			}
		case !l.m("not(eq("+by+",0))", got) && !l.m("eq("+by+",1)", got):
			return "whether the pending state was sent is loaded as " + short(got)
		}
		for _, p := range []string{"db.Storage.Get($0,~CFG)#1", "json.Unmarshal(db.Storage.Get($0,~CFG)#0,_)", "db.Storage.Get($0,~ID)#1", "db.Storage.Get($0,~KOP)#1", "db.LoadJSON($0,~KD,_)", "db.Storage.Get($0,~KP)#1", "db.Storage.Get($0,~KT)#1", "db.LoadJSON($0,~KI,_)", "db.LoadJSON($0,~KS,_)", lclt + "#1", lret + "#1", lrot + "#1"} {
			if !l.Holds(o, m.x("eq("+p+",nil)")) {
				return "loading succeeds although this may have failed: " + m.x(p)
			}
		}
		if l.has(o.St, m.x(cfg+".GenesisOnly")) {
			if len(l.Hits(o, "issuer.Issuer.SyncIdenStatePublic(_)")) > 0 {
				return "a genesis only identity asks the chain"
			}
			return ""
		}
		for _, p := range []string{"not(eq($2,nil))", "not(eq($3,nil))", "not(eq($4,nil))", "eq(zk.ZkFiles.LoadAll($3.Files),nil)", "eq(issuer.Issuer.SyncIdenStatePublic(_),nil)"} {
			if !l.Holds(o, p) {
				return "an identity that publishes its state is loaded without " + p + l.pathDesc(o)
			}
		}
		return ""
	})
	l.NonEmpty("load", l.Succ)
	l.Refused("load-refused", l.Fail, "eq($2,nil)", "eq($3,nil)", "eq($4,nil)")
	l.Each("load-missing", l.Fail, func(o *eng.Out) string {
		for g, w := range map[string]string{"@issuer.ErrIdenPubOnChainNil": "eq($2,nil)", "@issuer.ErrIdenStateSNARKPathsNil": "eq($3,nil)", "@issuer.ErrIdenPubOffChainWriterNil": "eq($4,nil)"} {
			if l.m(g, eng.StripIface(o.Res[1])) && (!l.Holds(o, w) || !l.Holds(o, m.x("not("+cfg+".GenesisOnly)"))) {
				return "loading fails with " + g + " although it is not missing or not needed"
			}
		}
		return ""
	})

	// every exported method reads and writes the mutable fields under the lock
	fields := "_idenStateDataOnChain,_idenStatePending,_idenStatePendingTransacted,_ethTxSetState,_ethTxInitState"
	var reads, writes []string
	for _, fl := range strings.Split(fields, ",") {
		reads = append(reads, "ev:load(at($0."+fl+"))")
		writes = append(writes, "ev:store(at($0."+fl+"),_)")
	}
	reads = append(reads, "merkletree.MerkleTree.RootKey(...)")
	n := 0
	for _, fn := range r.P.Funcs {
		name := r.P.Name(fn)
		if fn.Parent() != nil || !strings.HasPrefix(name, "issuer.Issuer.") || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		n++
		a := r.F(name, "!load:"+fields, "issuer.Issuer.GenZkProofIdenStateUpdate")
		if a.ok() {
			a.lockDisc("accessor-lock", a.Outs, "$0.rw", reads, writes)
		}
	}
	r.Ob("accessor-lock/methods", "issuer.Issuer", n >= 15, "?", "the methods of the issuer were not found")
	for fn, want := range map[string]string{"issuer.Issuer.IdenStateOnChain": "$0._idenStateDataOnChain.IdenState", "issuer.Issuer.StateDataOnChain": "$0._idenStateDataOnChain", "issuer.Issuer.ID": "$0.id", "issuer.Issuer.KeyOperational": "$0.kOpComp"} {
		a := r.F(fn)
		a.Ret("accessor", a.Outs, 0, want)
	}
	p := r.F("issuer.Issuer.IdenStatePending")
	p.Ret("accessor", p.Outs, 0, "$0._idenStatePending")
	p.Ret("accessor", p.Outs, 1, "$0._idenStatePendingTransacted")
	s := r.F("issuer.Issuer.State")
	s.Each("state", s.Outs, func(o *eng.Out) string {
		b, ok := s.mb("core.IdenState(?c,?v,?r)", o.Res[0])
		if !ok || !s.m("merkletree.MerkleTree.RootKey($0.claimsTree)", b["c"]) || !s.m("merkletree.MerkleTree.RootKey($0.revocationsTree)", b["v"]) || !s.m("merkletree.MerkleTree.RootKey($0.rootsTree)", b["r"]) {
			return "the state is " + short(o.Res[0])
		}
		for k, fld := range map[string]string{"c": "ClaimsTreeRoot", "v": "RevocationsTreeRoot", "r": "RootsTreeRoot"} {
			if s.sel(o.Res[1], fld) != b[k] {
				return "the " + fld + " is not the one of the state"
			}
		}
		return ""
	})
	// no two parts of the storage overlap
	r.disjointKeys("issuer", []string{"dbPrefixClaimsTree", "dbPrefixRevocationTree", "dbPrefixRootsTree", "dbPrefixIdenStateList"},
		[]string{"dbKeyConfig", "dbKeyKOp", "dbKeyClaimKOpHi", "dbKeyGenesisClaimKOpMtp", "dbKeyGenesisClaimTreeRoot", "dbKeyId", "dbKeyNonceIdx", "dbKeyIdenStateDataOnChain", "dbKeyIdenStatePending", "dbKeyIdenStatePendingTransacted", "dbKeyEthTxSetState", "dbKeyEthTxInitState"})
}

func isSucc(f *F, o *eng.Out) bool {
	for _, s := range f.Succ {
		if s == o {
			return true
		}
	}
	return false
}

// globalLits are the string constants the package level byte slices of pkg start with.
func (r *R) globalLits(pkg string) map[string]string {
	res := map[string]string{}
	for _, p := range r.P.Prog.AllPackages() {
		if p.Pkg.Name() != pkg || p.Func("init") == nil {
			continue
		}
		for _, b := range p.Func("init").Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				v := st.Val
				if c, ok := v.(*ssa.Convert); ok {
					v = c.X
				}
				if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					res[g.Name()] = constant.StringVal(c.Value)
				}
			}
		}
	}
	return res
}

// disjointKeys: no prefix is a prefix of another one or of a key, no two keys are the same.
func (r *R) disjointKeys(pkg string, prefixes, keys []string) {
	lits := r.globalLits(pkg)
	for i, a := range append(append([]string{}, prefixes...), keys...) {
		v, ok := lits[a]
		if !ok {
			continue // written some other way; what is stored where is decided by the other rules
		}
		for j, b := range append(append([]string{}, prefixes...), keys...) {
			w, ok := lits[b]
			if !ok || i == j {
				continue
			}
			if i < len(prefixes) {
				r.Ob("disjoint-keys", a+" "+b, !strings.HasPrefix(w, v), "?", "what is stored under "+b+" lies within "+a)
			} else if j > i {
				r.Ob("disjoint-keys", a+" "+b, v != w, "?", a+" and "+b+" are the same key")
			}
		}
	}
}
