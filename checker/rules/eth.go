package rules

import (
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

func init() {
	register("C21", "Signatures bind message, length, date and signer", c21)
	register("C22", "A nonce is valid once and until it expires", c22)
	register("C23", "States on chain are read and set as asked", c23)
}

// ethMsg is the hash of an Ethereum message (a pattern) of this length.
func ethMsg(msg, l string) string {
	const p = `"\x19Ethereum Signed Message:\n"`
	h := `or(fmt.Sprintf("%s%d",cat(elem1(` + p + `),elem1(` + l + `))),cat(` + p + `,strconv.Itoa(` + l + `)),` +
		`fmt.Sprintf("\x19Ethereum Signed Message:\n%d",cat(elem1(` + l + `))))`
	return "fit(crypto.Keccak256(or(cat(elem1(" + h + "),elem1(" + msg + ")),cat(elem1(cat(" + h + "," + msg + "))))),32)"
}

func c21(r *R) {
	r.sharedAppends("shared-append", "keystore.", "crypto.", "idensigner.")
	hb := r.F("crypto.HashBytes")
	hb.Table("hash", hb.Outs, rows("keccak => => fit(crypto.Keccak256($0),32)")...)
	hb.NoPanic("hash")
	eh := r.F("crypto.EthHash")
	eh.Table("message-hash", eh.Outs, rows("prefixed => => "+ethMsg("$0", "len($0)"))...)

	// verification: the key recovered from the signature of exactly this hash is the one of the address
	same := func(h, sig string) []string {
		rec := "crypto.Ecrecover(" + h + "," + sig + ")"
		a := "crypto.PubkeyToAddress(or(crypto.UnmarshalPubkey(" + rec + "#0)#0))"
		return []string{"eq(" + rec + "#1,nil)", "eq(crypto.UnmarshalPubkey(" + rec + "#0)#1,nil)?",
			"eq($0," + a + ") | eq(common.Address.Bytes($0),common.Address.Bytes(" + a + "))"}
	}
	date := "cat($2,be($3))"
	dl := "add(len($2),len(be($3)))"
	sig := "cat(sub($1,0,64),elem1(_))"
	for _, v := range []struct {
		fn, hash, sig string
	}{
		{"crypto.VerifySig", "$2", "$1"},
		{"crypto.VerifySigEthMsg", ethMsg("$2", "len($2)"), sig},
		{"crypto.VerifySigEthMsgDate", ethMsg("or("+date+",cat($2,be($3)))", "or("+dl+",add(len($2),8))"), sig},
	} {
		f := r.F(v.fn)
		f.iff("verify", 0, same(v.hash, v.sig)...)
		f.NoPanic("verify")
		if v.fn == "crypto.VerifySig" {
			continue
		}
		// the recovery byte: 27 or 28 stand for 0 or 1, all others must stay invalid
		f.Each("verify-recovery", f.Outs, func(o *eng.Out) string {
			for _, h := range f.Hits(o, "crypto.Ecrecover(...)") {
				v := f.X.In.Idx(h.E.Args[1], f.X.In.Int(64), nil)
				for n := int64(0); n < 256; n++ {
					c, ok := f.fold(v, func(t *Term) (int64, bool) { return n, f.m("$1[64]", t) })
					if !ok {
						return "the recovery byte is " + short(v)
					}
					if c &= 255; c < 4 && c != n-27 {
						return "a signature with recovery byte " + strconv.Itoa(int(n)) + " is taken for one with " + strconv.Itoa(int(c))
					}
					if n == 27 && c != 0 || n == 28 && c != 1 {
						return "recovery byte " + strconv.Itoa(int(n)) + " becomes " + strconv.Itoa(int(c))
					}
				}
			}
			return ""
		})
	}

	// verifying leaves the signature as it was, so that it can be verified again
	for _, n := range []string{"VerifySig", "VerifySigEthMsg", "VerifySigEthMsgDate"} {
		f := r.F("crypto."+n, "-crypto.VerifySig", "-crypto.VerifySigEthMsg")
		f.Each("verify-pure", f.Outs, func(o *eng.Out) string {
			for _, h := range f.Flat(o) {
				if h.E.Kind == "store" {
					return "verifying changes " + short(h.E.Args[0])
				}
			}
			return ""
		})
		f.NonEmpty("verify-pure", f.Outs)
	}

	// signing
	sg := r.F("crypto.Sign")
	sg.Table("sign", sg.Outs, rows("signed => => keystore.KeyStore.SignHash($1,$2,$0)#0; keystore.KeyStore.SignHash($1,$2,$0)#1")...)
	se := r.F("crypto.SignEthMsg")
	sh := "keystore.KeyStore.SignHash($0,$1," + ethMsg("$2", "len($2)") + ")"
	se.Table("sign-message", se.Outs, rows(
		"signed => eq("+sh+"#1,nil) => _; nil",
		"not signed => not(eq("+sh+"#1,nil)) => nil; "+sh+"#1")...)
	se.Each("sign-recovery", se.Succ, func(o *eng.Out) string {
		b, ok := se.mb("fit(upd("+sh+"#0,64,?v),65)", o.Res[0])
		if !ok {
			b, ok = se.mb("or(cat(or(sub("+sh+"#0,0,64),sub(fit("+sh+"#0,65),0,64)),elem1(?v)),upd(fit("+sh+"#0,65),64,?v))", o.Res[0])
		}
		if !ok {
			return "the signature is " + short(o.Res[0])
		}
		if v := b["v"]; v.Op == "trunc" && (v.Aux == "byte" || v.Aux == "uint8") {
			b["v"] = v.Args[0]
		}
		for n := int64(0); n < 4; n++ {
			if v, ok := se.fold(b["v"], func(t *Term) (int64, bool) { return n, se.m("or("+sh+"#0[64],fit("+sh+"#0,65)[64])", t) }); !ok || v != n+27 {
				return "recovery byte " + strconv.Itoa(int(n)) + " becomes " + short(b["v"])
			}
		}
		return ""
	})
	gp := r.F("crypto.GetPkFromKeyStore")
	gp.Must("key-of-address", gp.Succ, "eq(keystore.KeyStore.SignHash($0,?a,_)#1,nil)", "eq(crypto.Ecrecover(_,keystore.KeyStore.SignHash($0,?a,_)#0)#1,nil)")
	gp.Each("key-of-address-hash", gp.Succ, func(o *eng.Out) string {
		for _, h := range gp.Hits(o, "keystore.KeyStore.SignHash($0,?a,?h)") {
			if a := gp.sel(h.B["a"], "Address"); a == nil || !gp.m("$1", a) {
				return "the key of " + short(h.B["a"]) + " signs"
			}
			for _, e := range gp.Hits(o, "crypto.Ecrecover(?h,?s)") {
				if !gp.mB("or(?h,sub(out(keystore.KeyStore.SignHash($0,_,?h)),0,32),out(keystore.KeyStore.SignHash($0,_,?h)))", e.B["h"], h.B) {
					return "the key is recovered for " + short(e.B["h"])
				}
			}
		}
		return ""
	})
	gp.Ret("key-of-address", gp.Succ, 0, "crypto.UnmarshalPubkey(crypto.Ecrecover(_,keystore.KeyStore.SignHash($0,_,_)#0)#0)#0")

	// keys and signatures as JSON
	pm := r.F("crypto.PublicKey.MarshalJSON")
	pm.Table("key-json", pm.Outs, rows("hex => => json.Marshal(common.HexEncode(crypto.CompressPubkey($0.PublicKey)))#0; json.Marshal(common.HexEncode(crypto.CompressPubkey($0.PublicKey)))#1")...)
	pu := r.F("crypto.PublicKey.UnmarshalJSON")
	rd := "common.UnmarshalJSONHexDecodeInto(?z,$1)"
	dp := "crypto.DecompressPubkey(or(sub(out(" + rd + "),0,33),out(" + rd + ")))"
	pu.Table("key-json", pu.Outs, rows(
		"read => eq("+rd+",nil); eq("+dp+"#1,nil) => nil => ev:store(at($0.PublicKey),"+dp+"#0)",
		"not hex => not(eq("+rd+",nil)) => "+rd,
		"no key => eq("+rd+",nil); not(eq("+dp+"#1,nil)) => "+dp+"#1")...)
	pu.Each("key-json-length", pu.Succ, func(o *eng.Out) string {
		for _, h := range pu.Hits(o, rd) {
			if !pu.m("33", pu.X.In.Len(h.E.Args[0])) {
				return "the key is read from " + short(pu.X.In.Len(h.E.Args[0])) + " bytes"
			}
		}
		return ""
	})
	for _, s := range []string{"crypto.Signature", "crypto.SignatureEthMsg"} {
		f := r.F(s + ".MarshalJSON")
		f.Table("signature-json", f.Outs, rows("hex => => json.Marshal(common.HexEncode($0))#0; json.Marshal(common.HexEncode($0))#1")...)
		f = r.F(s + ".UnmarshalJSON")
		f.Table("signature-json", f.Outs, rows("hex => => common.UnmarshalJSONHexDecodeInto($0,$1)")...)
	}

	// the signer of an identity
	ns := r.F("idensigner.New")
	ns.fields("signer", ns.Outs, 0, mac{}, "ks: $0", "pk: $1", "pkComp: babyjub.PublicKey.Compress($1)")
	r.onlyIn("signer-key", "the key of a signer", r.fieldWriters("idensigner.IdenSigner", "pkComp"), "idensigner.New")
	pk := r.F("idensigner.IdenSigner.PublicKey")
	pk.Table("signer-public", pk.Outs, rows("key => => $0.pk")...)
	sr := "keystore.KeyStore.SignRaw($0.ks,$0.pkComp,$1)"
	sm := r.F("idensigner.IdenSigner.SignEthMsg")
	sm.Table("signer-sign", sm.Outs, rows("signed => => "+sr+"#0; "+sr+"#1")...)
	sd := r.F("idensigner.IdenSigner.SignEthMsgDate")
	now := "time.Time.Unix(time.Now())"
	sr = "keystore.KeyStore.SignRaw($0.ks,$0.pkComp,cat($1,be(?d)))"
	sd.Each("signer-sign-date", sd.Outs, func(o *eng.Out) string {
		if o.Kind != "return" {
			return "panics"
		}
		b, ok := sd.mb(sr+"#0", o.Res[0])
		if !ok && sd.X.NilState(o.St, o.Res[0]) == 1 && len(o.Res) == 3 {
			return ""
		}
		if !ok {
			return "the signature is " + short(o.Res[0])
		}
		if o.Res[1] != b["d"] || !sd.m(now, b["d"]) {
			return "the date given is " + short(o.Res[1]) + ", the one signed " + short(b["d"])
		}
		if !sd.mB(sr+"#1", o.Res[2], b) && !(sd.X.NilState(o.St, o.Res[2]) == 1 && sd.solve(o.St, []string{"eq(" + sr + "#1,nil)"}, b, yes)) {
			return "the error is " + short(o.Res[2])
		}
		return ""
	})
	// how old a message may be
	vt := r.F("utils.VerifyTimestamp")
	vt.NoPanic("timestamp")
	d := ""
	for age := int64(0); age < 8 && d == "" && vt.ok(); age++ {
		for limit := int64(0); limit < 8 && d == ""; limit++ {
			leaf := func(t *Term) (int64, bool) {
				switch {
				case vt.m("$1", t):
					return limit, true
				case vt.m("time.Duration.Seconds(minus(time.Now(),time.Unix($0,_)))", t):
					return age, true
				case vt.m("minus(time.Now(),time.Unix($0,_))", t):
					return age * 1e9, true
				}
				return 0, false
			}
			outs, ok := vt.pathAt(leaf)
			if !ok || len(outs) != 1 || outs[0].Kind != "return" {
				d = "whether a timestamp is accepted does not follow from its age and the limit"
				break
			}
			v, ok := vt.fold(outs[0].Res[0], leaf)
			if !ok || (v != 0) != (age <= limit) {
				d = "a timestamp " + strconv.Itoa(int(age)) + " s old is decided wrongly for a limit of " + strconv.Itoa(int(limit)) + " s: " + short(outs[0].Res[0])
			}
		}
	}
	r.Ob("timestamp", vt.Name, d == "", vt.pos(0), d)
}

// atomic: each event matching to comes after one matching from since the mutex was last taken.
func (f *F) atomic(rule string, outs []*eng.Out, mutex, from, to string) {
	f.Each(rule, outs, func(o *eng.Out) string {
		flat := f.Flat(o)
		start := 0
		for i, h := range flat {
			if h.E.Kind == "call" && len(h.E.Args) > 0 && lockOp(h.E.Name) != 0 && f.m(mutex, h.E.Args[0]) {
				start = i
				continue
			}
			if !f.evMatch(to, h.E, eng.Bind{}, yes) {
				continue
			}
			ok := false
			for _, p := range flat[start:i] {
				ok = ok || f.evMatch(from, p.E, eng.Bind{}, yes)
			}
			if !ok {
				return to + " at " + f.pos(h.E.Pos) + " relies on what was seen before the lock was taken" + f.pathDesc(o)
			}
		}
		return ""
	})
}

func c22(r *R) {
	r.noDeadlock("deadlock", "core.N", "core.n", "noncedb.")
	const n = "core.NonceDb."
	now := "time.Time.Unix(time.Now())"
	obj := "lookup($0.nonceObjsByNonce,$1)"
	watch := "!load:nonceObjsByNonce,noncesHeap,deleteCounter"
	reads := []string{"ev:load($0.nonceObjsByNonce,_)"}
	writes := []string{"ev:mapupd($0.nonceObjsByNonce,...)", "ev:mapdel($0.nonceObjsByNonce,_)", "heap.Push($0.noncesHeap.elems,_)", "heap.Pop($0.noncesHeap.elems)", "ev:store(at(lookup($0.nonceObjsByNonce,_)._),_)"}

	add := r.F(n+"Add", watch)
	add.Table("add", add.Outs, rows(
		"new => not(has($0.nonceObjsByNonce,$1)) => _ => ev:mapupd($0.nonceObjsByNonce,$1,_) | heap.Push($0.noncesHeap.elems,_); heap.Push($0.noncesHeap.elems,_) | ev:mapupd($0.nonceObjsByNonce,$1,_)",
		"known => has($0.nonceObjsByNonce,$1) => nil => => ev:mapupd(...); heap.Push(...)")...)
	nw := r.F(n+"New", watch)
	for _, f := range []*F{add, nw} {
		f.Each("add-object", f.Outs, func(o *eng.Out) string {
			if o.Kind != "return" {
				return ""
			}
			ups, push := f.Hits(o, "ev:mapupd($0.nonceObjsByNonce,...)"), f.Hits(o, "heap.Push($0.noncesHeap.elems,_)")
			if len(ups) == 0 && len(push) == 0 {
				if f.X.NilState(o.St, o.Res[0]) != 1 {
					return "gives " + short(o.Res[0]) + ", which is not kept"
				}
				return ""
			}
			if len(ups) != 1 || len(push) != 1 {
				return "a nonce is put " + strconv.Itoa(len(ups)) + " times in the table and " + strconv.Itoa(len(push)) + " times in the queue"
			}
			v := ups[0].E.Raw[2]
			if eng.StripIface(push[0].E.Raw[1]) != v || o.Raw[0] != v {
				return "the nonce given is not the one kept"
			}
			ob := ups[0].E.Args[2]
			key, delta, aux := "$1", "$2", "$3"
			if f == nw {
				key, delta, aux = "common.HexEncode(?r)", "$1", "$2"
			}
			if !f.m(key, f.sel(ob, "Nonce")) || f.sel(ob, "Nonce") != ups[0].E.Args[1] ||
				!f.m("add("+now+","+delta+")", f.sel(ob, "Expiration")) || !f.m(aux, f.sel(ob, "Aux")) {
				return "the nonce kept is " + short(ob)
			}
			return ""
		})
	}
	nw.Each("random", nw.Succ, func(o *eng.Out) string {
		for _, h := range nw.Hits(o, "ev:mapupd($0.nonceObjsByNonce,...)") {
			b, ok := nw.mb("common.HexEncode(?r)", h.E.Args[1])
			if !ok || !nw.m("or(sub(out(rand.Read(?z)),0,32),out(rand.Read(?z)))", b["r"]) || !nw.Holds(o, "eq(rand.Read(?z)#1,nil)") {
				return "the nonce is " + short(h.E.Args[1])
			}
		}
		return ""
	})
	aa := r.F(n+"AddAux", watch)
	aa.Table("add-aux", aa.Outs, rows(
		"added => has($0.nonceObjsByNonce,$1); eq("+obj+".Aux,nil) => true => ev:store(at("+obj+".Aux),$2)",
		"unknown => not(has($0.nonceObjsByNonce,$1)) => false => => ev:store(at(_.Aux),_)",
		"has one => has($0.nonceObjsByNonce,$1); not(eq("+obj+".Aux,nil)) => false => => ev:store(at(_.Aux),_)")...)
	se := r.F(n+"Search", n+"DeleteOld", n+"DeleteOldOportunistic", watch)
	sd := r.F(n+"SearchAndDelete", n+"DeleteOld", n+"DeleteOldOportunistic", watch)
	for _, f := range []*F{se, sd} {
		yes, no := f.SplitBool(1)
		isYes := map[*eng.Out]bool{}
		for _, o := range yes {
			isYes[o] = true
		}
		outs := append(append([]*eng.Out{}, yes...), no...)
		for _, o := range f.Outs {
			if o.Kind != "return" {
				outs = append(outs, o)
			}
		}
		f.Each("search", outs, func(o *eng.Out) string {
			if o.Kind != "return" {
				return "panics"
			}
			// the table may have been cleaned before
			t := "or(" + obj + ",lookup(_,$1))"
			valid := isYes[o]
			hit := "has(_,$1)"
			found := f.Holds(o, hit) || f.Holds(o, "not(eq(lookup(_,$1),nil))") // no nil is ever kept
			switch {
			case valid && !(found && f.Holds(o, "le("+now+","+t+".Expiration)") && f.m(t, o.Res[0])):
				return "given as valid although unknown or expired" + f.pathDesc(o)
			case !valid && !(f.Holds(o, "not("+hit+")") || f.Holds(o, "eq(lookup(_,$1),nil)") || found && f.Holds(o, "lt("+t+".Expiration,"+now+")")):
				return "refused although known and not expired" + f.pathDesc(o)
			}
			del := len(f.Hits(o, "ev:mapdel(_,$1)"))
			found = found || f.Holds(o, "not(eq(lookup(_,$1),nil))")
			if f == sd && found && del != 1 || f == se && del != 0 {
				return "the nonce is deleted " + strconv.Itoa(del) + " times" + f.pathDesc(o)
			}
			return ""
		})
	}
	sd.atomic("consume-once", sd.Outs, "$0.mutex", "ev:load(_,$1)", "ev:mapdel(_,$1)")
	aa.atomic("aux-once", aa.Outs, "$0.mutex", "ev:load(_,$1)", "ev:store(at(_.Aux),_)")
	add.atomic("add-once", add.Outs, "$0.mutex", "ev:load(_,$1)", "ev:mapupd(...)")

	old := r.F(n+"DeleteOld", watch)
	const queue = "loopmem(at($0.noncesHeap.elems))"
	// peeked: the loop variable holds the first nonce of the queue, or nil when there is none
	peeked := func(o *eng.Out, l *eng.Loop, i int) bool {
		is := func(st *eng.State, q string, t *Term) bool {
			return old.m(q+"[0]", t) || t == old.X.In.Nil() && old.solve(st, []string{"eq(len(" + q + "),0)"}, eng.Bind{}, yes)
		}
		ok := is(o.St, "$0.noncesHeap.elems", l.Init[i])
		for _, s := range l.Steps {
			ok = ok && is(s.St, "out(heap.Pop("+queue+"))", s.Next[i])
		}
		return ok
	}
	heads := func(o *eng.Out, l *eng.Loop) (r []eng.Bind) {
		for i, p := range l.Phis {
			if peeked(o, l, i) {
				r = append(r, eng.Bind{"c": p})
			}
		}
		for _, s := range l.Steps {
			old.solve(s.St, []string{"not(eq(?c,nil))"}, eng.Bind{}, func(b eng.Bind) bool {
				if old.m(queue+"[0]", b["c"]) {
					r = append(r, b)
					return true
				}
				return false
			})
			old.solve(s.St, []string{"not(eq(len(" + queue + "),0))"}, eng.Bind{}, func(b eng.Bind) bool {
				r = append(r, eng.Bind{"c": old.X.T(queue+"[0]", eng.Bind{})})
				return true
			})
		}
		return r
	}
	kinds := rows(
		"expired => lt(?c.Expiration,"+now+"); ptreq(_,_) | eq(_,_) => => heap.Pop("+queue+"); ev:mapdel(_,?c.Nonce) | ev:mapdel(_,tassert(heap.Pop("+queue+")).Nonce)",
		"added again => lt(?c.Expiration,"+now+"); not(ptreq(_,_)) | not(eq(_,_)) => => heap.Pop("+queue+") => ev:mapdel(...)")
	seen := make([]bool, len(kinds))
	old.Each("clean", old.Outs, func(o *eng.Out) string {
		for _, l := range old.loops(o) {
			hs := heads(o, l)
			for _, s := range l.Steps {
				so := &eng.Out{St: &eng.State{}, Kind: "return"}
				*so.St = *s.St
				so.St.Events = s.Events
				ok := false
				for i, c := range kinds {
					for _, b := range hs {
						if old.rowB(so, c, b, nil) && len(old.Hits(so, "heap.Pop(_)")) == 1 && len(old.Hits(so, "ev:mapdel(...)")) <= 1 {
							ok, seen[i] = true, true
						}
					}
				}
				if !ok {
					return "an iteration does what no permitted case allows" + stepDesc(s)
				}
			}
		}
		return ""
	})
	for i, c := range kinds {
		r.Ob("clean/case "+c.Name, old.Name, seen[i], old.pos(token.NoPos), "no iteration does this any more")
	}
	old.Each("clean-all", old.Outs, func(o *eng.Out) string {
		if o.Kind != "return" {
			return ""
		}
		for _, q := range []string{"$0.noncesHeap.elems", queue} {
			if old.Holds(o, "eq(len("+q+"),0)") || old.Holds(o, "eq("+q+"[0],nil)") || old.Holds(o, "le("+now+","+q+"[0].Expiration)") {
				return ""
			}
		}
		for _, l := range old.loops(o) {
			for _, b := range heads(o, l) {
				if old.solve(o.St, []string{"eq(?c,nil)"}, b, yes) || old.solve(o.St, []string{"le(" + now + ",?c.Expiration)"}, b, yes) {
					return ""
				}
			}
		}
		return "stops although the first nonce of the queue may have expired" + old.pathDesc(o)
	})
	op := r.F(n+"DeleteOldOportunistic", n+"DeleteOld", watch)
	for _, f := range []*F{add, nw, aa, se, sd, old} {
		f.lockDisc("lock", f.Outs, "$0.mutex", reads, writes)
	}
	op.lockDisc("lock-counter", op.Outs, "$0.deleteCounterMutex", []string{"ev:load(at($0.deleteCounter))"}, []string{"ev:store(at($0.deleteCounter),_)"})
	op.Each("lock-order", op.Outs, func(o *eng.Out) string {
		held := false
		for _, h := range op.Flat(o) {
			if h.E.Kind == "call" {
				switch lockOp(h.E.Name) {
				case 'L':
					held = true
				case 'U':
					held = false
				}
				if held && h.E.Name == n+"DeleteOld" {
					return "cleans while holding the counter's lock"
				}
			}
		}
		return ""
	})
	// the queue is ordered by expiry
	ls := r.F("core.nonceObjs.Less")
	ls.Table("queue-order", ls.Outs, rows("order => => lt($0[$1].Expiration,$0[$2].Expiration)")...)
	le := r.F("core.nonceObjs.Len")
	le.Table("queue-len", le.Outs, rows("length => => len($0)")...)
	sw := r.F("core.nonceObjs.Swap")
	sw.Table("queue-swap", sw.Outs, rows("swap => => => ev:store(at($0[$1]),$0[$2]) | ev:store(at($0[$2]),$0[$1]); ev:store(at($0[$2]),$0[$1]) | ev:store(at($0[$1]),$0[$2])")...)
	pu := r.F("core.nonceObjs.Push")
	pu.Table("queue-push", pu.Outs, rows("append => => => ev:store($0,cat($0,elem1(_)))")...)
	po := r.F("core.nonceObjs.Pop")
	po.Table("queue-pop", po.Outs, rows("last => => $0[minus(len($0),1)] => ev:store($0,sub(or($0,store(...)),0,minus(len($0),1)))")...)
	ne := r.F("core.NewNonceDb")
	ne.NoPanic("new")
	ne.NonEmpty("new-empty", ne.Outs)
	ne.Each("new-empty", ne.Outs, func(o *eng.Out) string {
		if m := ne.sel(o.Res[0], "nonceObjsByNonce"); m == nil || ne.X.NilState(o.St, m) != -1 {
			return "the table of nonces is " + short(m)
		}
		return ""
	})
}

func c23(r *R) {
	r.noDeadlock("deadlock", "idenpubonchain", "eth.", "local.")
	const p = "idenpubonchain.IdenPubOnChain."
	inl := []string{"-eth.Client.Call", "-eth.Client.CallAuth"}
	base := mac{
		"CT":  "contracts.NewState($0.addresses.IdenStates,$0.client.client)",
		"ID":  "core.ID.BigInt($1)",
		"HH":  "merkletree.NewHashFromBigInt(~G#2)",
		"NOT": "or(eq(~HH,@merkletree.HashZero),eq(big.Sign(~G#2),0))",
		"OK":  "eq(~CT#1,nil); eq(~G#3,nil)",
	}
	for _, q := range []struct{ fn, get, none, match, miss string }{
		{"GetState", "GetStateDataById(~CT#0.StateCaller,nil,~ID)", "ErrIdenNotOnChain", "", ""},
		{"GetStateClosestToBlock", "GetStateDataByBlock(~CT#0.StateCaller,nil,~ID,$2)", "ErrIdenNotOnChainOrBlockTooNew", "", ""},
		{"GetStateClosestToTime", "GetStateDataByTime(~CT#0.StateCaller,nil,~ID,$2)", "ErrIdenNotOnChainOrTimeTooNew", "", ""},
		{"GetStateByBlock", "GetStateDataByBlock(~CT#0.StateCaller,nil,~ID,$2)", "ErrIdenNotOnChainOrBlockTooNew", "eq(~G#0,$2)", "ErrIdenByBlockNotFound"},
		{"GetStateByTime", "GetStateDataByTime(~CT#0.StateCaller,nil,~ID,$2)", "ErrIdenNotOnChainOrTimeTooNew", "eq(~G#1,$2)", "ErrIdenByTimeNotFound"},
	} {
		f := r.F(p+q.fn, inl...)
		m := base.with("G", "contracts.StateCaller."+q.get)
		cs := []string{
			"no contract => not(eq(~CT#1,nil)) => nil; ~CT#1",
			"not read => eq(~CT#1,nil); not(eq(~G#3,nil)) => nil; ~G#3",
			"not on chain => ~OK; ~NOT => nil; @idenpubonchain." + q.none,
		}
		if q.match == "" {
			cs = append(cs, "read => ~OK; not(~NOT) => _; nil")
		} else {
			cs = append(cs, "read => ~OK; not(~NOT); "+q.match+" => _; nil", "another => ~OK; not(~NOT); not("+q.match+") => nil; @idenpubonchain."+q.miss)
		}
		f.Table("read", f.Outs, m.rows(cs...)...)
		f.fields("read-data", f.Succ, 0, m, "BlockN: ~G#0"+map[bool]string{true: " | $2"}[q.fn == "GetStateByBlock"], "BlockTs: ~G#1"+map[bool]string{true: " | $2"}[q.fn == "GetStateByTime"], "IdenState: ~HH")
	}

	au := mac{
		"GP":  "ethclient.Client.SuggestGasPrice($0.client.client,_)",
		"KT":  "bind.NewKeyStoreTransactor($0.client.ks,$0.client.account)",
		"CT":  "contracts.NewState($0.addresses.IdenStates,$0.client.client)",
		"ID":  "core.ID.BigInt($1)",
		"ACC": "not(eq($0.client.account,nil))",
		"OK":  "~ACC; eq(~GP#1,nil); eq(~KT#1,nil); eq(~CT#1,nil)",
	}
	for _, q := range []struct{ fn, call string }{
		{"SetState", "contracts.StateTransactor.SetState(~CT#0.StateTransactor,~KT#0,merkletree.Hash.BigInt($2),~ID,~PR#0,~PR#1,~PR#2)"},
		{"InitState", "contracts.StateTransactor.InitState(~CT#0.StateTransactor,~KT#0,merkletree.Hash.BigInt($3),merkletree.Hash.BigInt($2),~ID,~PR#0,~PR#1,~PR#2)"},
	} {
		f := r.F(p+q.fn, inl...)
		m := au.with("CALL", q.call, "PR", "zk.ProofToBigInts("+map[string]string{"SetState": "$3", "InitState": "$4"}[q.fn]+")")
		f.Table("set", f.Outs, m.rows(
			"sent => ~OK; eq(~CALL#1,nil) => ~CALL#0; nil",
			"no account => eq($0.client.account,nil) => nil; fmt.Errorf(_,cat(elem1(@eth.ErrAccountNil))) | @eth.ErrAccountNil",
			"no price => not(eq(~GP#1,nil)) => nil; fmt.Errorf(_,cat(elem1(~GP#1))) | ~GP#1",
			"no key => not(eq(~KT#1,nil)) => nil; fmt.Errorf(_,cat(elem1(~KT#1))) | ~KT#1",
			"no contract => not(eq(~CT#1,nil)) => nil; fmt.Errorf(_,cat(elem1(~CT#1))) | ~CT#1",
			"not sent => ~OK; not(eq(~CALL#1,nil)) => nil; fmt.Errorf(_,cat(elem1(~CALL#1))) | ~CALL#1",
		)...)
		f.Each("set-once", f.Outs, func(o *eng.Out) string {
			if n := len(f.Hits(o, m.x(q.call))); n > 1 {
				return "the state is set " + strconv.Itoa(n) + " times"
			}
			return ""
		})
	}
	tc := r.F(p + "TxConfirmBlocks")
	m := mac{"RC": "eth.Client.GetReceipt($0.client,$1)", "CB": "eth.Client.CurrentBlock($0.client)"}
	tc.Table("confirmations", tc.Outs, m.rows(
		"confirmed => eq(~RC#1,nil); eq(~CB#1,nil) => _; nil",
		"no receipt => not(eq(~RC#1,nil)) => nil; ~RC#1",
		"no block => not(eq(~CB#1,nil)) => nil; ~CB#1")...)
	tc.Each("confirmations-number", tc.Succ, func(o *eng.Out) string {
		if v := tc.X.Canon(o.St, o.Raw[0]); !tc.m("big.Sub(_,_)", v) {
			for _, h := range tc.Flat(o) {
				if h.E.Kind == "store" && h.E.Raw[0] == o.Raw[0] {
					v = h.E.Args[len(h.E.Args)-1]
				}
			}
			if !tc.m(m.x("or(big.Sub(~CB#0,~RC#0.BlockNumber),big.Sub(_,big.Sub(~CB#0,~RC#0.BlockNumber)))"), v) {
				return "the number is " + short(v)
			}
		} else if !tc.m(m.x("big.Sub(~CB#0,~RC#0.BlockNumber)"), v) {
			return "the number is " + short(v)
		}
		return ""
	})

	// transactions: signed by the account, and confirmed only by a receipt that does not say failed
	ca := r.F("eth.Client.CallAuth")
	m = mac{
		"GP": "ethclient.Client.SuggestGasPrice($0.client,_)",
		"KT": "bind.NewKeyStoreTransactor($0.ks,$0.account)",
		"FN": "dyn($2,$0.client,~KT#0)",
	}
	called := "not(eq($0.account,nil)); eq(~GP#1,nil); eq(~KT#1,nil)"
	sets := "ev:store(at(~KT#0.Value),_) & ev:store(at(~KT#0.GasLimit),%s) & ev:store(at(~KT#0.GasPrice),or(~GP#0,big.Add(~GP#0,_),big.Add(_,~GP#0))); ~FN"
	ca.Table("call", ca.Outs, m.rows(
		"called => "+called+"; not(eq($1,0)) => ~FN#0; ~FN#1 => "+sub1(sets, "$1"),
		"called, no limit => "+called+"; eq($1,0) => ~FN#0; ~FN#1 => "+sub1(sets, "_"),
		"no account => eq($0.account,nil) => nil; @eth.ErrAccountNil => => dyn($2,...)",
		"no price => not(eq(~GP#1,nil)) => nil; ~GP#1 => => dyn($2,...)",
		"no key => not(eq(~KT#1,nil)) => nil; ~KT#1 => => dyn($2,...)",
	)...)
	ca.Each("call-limit", ca.Outs, func(o *eng.Out) string {
		if v := ca.lastStore(o, m.x("at(~KT#0.GasLimit)")); v != nil && !ca.m("$1", v) && !ca.Holds(o, "eq($1,0)") {
			return "the limit given is replaced by " + short(v)
		}
		return ""
	})
	ca.Each("call-no-value", ca.Outs, func(o *eng.Out) string {
		for _, h := range ca.Hits(o, m.x("ev:store(at(~KT#0.Value),?v)")) {
			if v := h.B["v"]; !ca.m("or(nil,big.fromInt(0),big.SetUint64(0))", v) && v.Op != "zero" {
				return "the call pays " + short(v)
			}
		}
		return ""
	})
	for _, fn := range []string{"WaitReceipt", "GetReceipt"} {
		f := r.F("eth.Client." + fn)
		m := mac{"TR": "ethclient.Client.TransactionReceipt($0.client,?c,types.Transaction.Hash($1))"}
		f.Table("receipt", f.Outs, m.rows(
			"confirmed => not(eq(~TR#0,nil)); not(eq(~TR#0.Status,0)) => ~TR#0; ~TR#1 | nil",
			"not read ? => not(eq(~TR#0,nil)); not(eq(~TR#1,nil)) => _; ~TR#1",
			"failed => not(eq(~TR#0,nil)); eq(~TR#0.Status,0) => _; @eth.ErrReceiptStatusFailed",
			"none => eq(~TR#0,nil) => _; @eth.ErrReceiptNotReceived",
		)...)
	}
	wr := r.F("eth.Client.WaitReceipt")
	wr.Each("receipt-waited", wr.Outs, func(o *eng.Out) string {
		if o.Kind != "return" || !wr.m("@eth.ErrReceiptNotReceived", o.Res[1]) {
			return ""
		}
		for _, c := range o.St.Facts {
			if s := c.String(); strings.Contains(s, "time.Now()") && strings.Contains(s, "$0.ReceiptTimeout") && (c.Op != "le0" || !strings.Contains(s, "-$0.ReceiptTimeout")) {
				return ""
			}
		}
		for _, p := range []string{"time.After($0.ReceiptTimeout)", "time.NewTimer($0.ReceiptTimeout)", "context.WithTimeout(_,$0.ReceiptTimeout)"} {
			if len(wr.Hits(o, p)) > 0 {
				return ""
			}
		}
		return "gives up before the time to wait has passed" + wr.pathDesc(o)
	})
	r.networkTimeouts()
	cb := r.F("eth.Client.CurrentBlock")
	cb.Table("block", cb.Outs, rows(
		"read => eq(ethclient.Client.HeaderByNumber($0.client,_,nil)#1,nil) => ethclient.Client.HeaderByNumber($0.client,_,nil)#0.Number; nil",
		"not read => not(eq(ethclient.Client.HeaderByNumber($0.client,_,nil)#1,nil)) => nil; ethclient.Client.HeaderByNumber($0.client,_,nil)#1")...)
	nc := r.F("eth.NewClient")
	nc.fields("client", nc.Outs, 0, mac{}, "client: $0", "account: $1", "ks: $2")
	nc.Each("client-timeout", nc.Outs, func(o *eng.Out) string {
		if t := nc.sel(o.Res[0], "ReceiptTimeout"); t == nil || !t.IsInt || t.I < 1e9 {
			return "the time to wait for a receipt is " + short(t)
		}
		return ""
	})
	no := r.F("idenpubonchain.New")
	no.fields("new", no.Outs, 0, mac{}, "client: $0", "addresses: $1")
	de := r.F("eth.Client.Deploy", "eth.Client.CallAuth", "eth.Client.WaitReceipt")
	m = mac{"CA": "eth.Client.CallAuth($0,_,?f)", "WR": "eth.Client.WaitReceipt($0,~CA#0)"}
	de.Table("deploy", de.Outs, m.rows(
		"deployed => eq(~CA#1,nil); eq(~WR#1,nil) => _; nil",
		"not sent => not(eq(~CA#1,nil)) => _; fmt.Errorf(_,cat(elem1(_),elem1(~CA#1)))",
		"not confirmed => eq(~CA#1,nil); not(eq(~WR#1,nil)) => _; fmt.Errorf(_,cat(elem1(_),elem1(~WR#1)))")...)
	de.fields("deploy-data", de.Succ, 0, m, "Tx: ~CA#0", "Receipt: ~WR#0")
	ds := r.F("idenpubonchain.DeployState")
	m = mac{"DV": "eth.Client.Deploy($0,?nv,?fv)", "DS": "eth.Client.Deploy($0,?ns,?fs)"}
	ds.Each("deploy-verifier", ds.Outs, func(o *eng.Out) string {
		n := 0
		for _, h := range ds.Hits(o, "contracts.DeployState(?a,?c,?addr)") {
			n++
			if !(ds.m("eth.Client.Deploy($0,_,_)#0.Address", h.B["addr"]) && ds.Holds(o, "eq(eth.Client.Deploy($0,_,_)#1,nil)") ||
				ds.m("$1.Verifier", h.B["addr"]) && ds.Holds(o, "not(eq($1,nil))") && ds.Holds(o, "not(eq($1.Verifier,nil))")) {
				return "the contract of states is deployed for the verifier " + short(h.B["addr"])
			}
		}
		if n == 0 && ds.X.NilState(o.St, o.Res[1]) == 1 {
			return "the contract of states is not deployed"
		}
		return ""
	})

	ds.Each("deploy-result", ds.Succ, func(o *eng.Out) string {
		var res []*Term
		for _, h := range ds.Hits(o, "eth.Client.Deploy($0,...)") {
			res = append(res, ds.X.In.Mk("ext", "0", h.E.Res))
		}
		st, ve := ds.sel(o.Res[0], "State"), ds.sel(o.Res[0], "Verifier")
		if len(res) == 0 || st != res[len(res)-1] || len(res) == 2 && ve != res[0] || len(res) == 1 && !ds.m("$1.Verifier", ds.sel(ve, "Address")) {
			return "what is deployed is given as " + short(o.Res[0]) + ds.pathDesc(o)
		}
		return ""
	})
	ds.NonEmpty("deploy-result", ds.Succ)
	ds.OneOf("deploy-refusal", ds.Fail, "not(eq(eth.Client.Deploy($0,...)#1,nil))")

	// the chain kept in memory
	const l = "idenpubonchain/local.IdenPubOnChain."
	m = mac{
		"H":  "lookup($0.idenStatesData,$1)",
		"L":  "~H.IdenStates[minus(len(~H.IdenStates),1)]",
		"IN": "has($0.idenStatesData,$1)",
	}
	lw := "!load:idenStatesData,pendingInit,pendingSet"
	reads := []string{"ev:load($0.idenStatesData,_)", "ev:load(at($0.idenStatesData))"}
	writes := []string{"ev:mapupd($0.idenStatesData,...)", "ev:store(at($0._),_)", "ev:store(at(lookup(_,_)._),_)"}
	gs := r.F(l+"GetState", lw)
	gs.Table("local-read", gs.Outs, m.rows("known => ~IN => ~L; nil", "unknown => not(~IN) => nil; @idenpubonchain.ErrIdenNotOnChain")...)
	gb := r.F(l+"GetStateByBlock", lw)
	gb.Table("local-read", gb.Outs, m.rows("known => ~IN; has(~H.ByBlock,$2) => lookup(~H.ByBlock,$2); nil",
		"other block => ~IN; not(has(~H.ByBlock,$2)) => nil; @idenpubonchain.ErrIdenByBlockNotFound", "unknown => not(~IN) => nil; @idenpubonchain.ErrIdenNotOnChain")...)
	gt := r.F(l+"GetStateByTime", lw)
	gt.Table("local-read", gt.Outs, m.rows("known => ~IN; has(~H.ByTime,$2) => lookup(~H.ByTime,$2); nil",
		"other time => ~IN; not(has(~H.ByTime,$2)) => nil; @idenpubonchain.ErrIdenByTimeNotFound", "unknown => not(~IN) => nil; @idenpubonchain.ErrIdenNotOnChain")...)
	vf := func(pr, old, nw string) string {
		return "verifier.Verify($0.verifyingKey," + pr + ",cat(elem1(or(merkletree.ElemBytes.BigInt(cat($1,elem1(0))),merkletree.ElemBytes.BigInt(fit($1,32)),core.ID.BigInt($1))),elem1(merkletree.Hash.BigInt(" + old + ")),elem1(merkletree.Hash.BigInt(" + nw + "))))"
	}
	ss := r.F(l+"SetState", lw)
	v := vf("$3", "~L.IdenState", "$2")
	ss.Table("local-set", ss.Outs, m.rows(
		"set => ~IN; "+v+" => _; nil => ev:store(at($0.pendingSet),cat($0.pendingSet,elem1(_)))",
		"unknown => not(~IN) => nil; @idenpubonchain.ErrIdenNotOnChain => => ev:store(at($0._),_)",
		"not proved => ~IN; not("+v+") => nil; fmt.Errorf(...) => => ev:store(at($0._),_)")...)
	is := r.F(l+"InitState", lw)
	v = vf("$4", "$2", "$3")
	is.Table("local-init", is.Outs, m.rows(
		"set => not(~IN); "+v+" => types.NewTransaction(_,_,_,_,_,big.Bytes(big.SetUint64(dyn($0.blockNow)))); nil => ev:store(at($0.pendingInit),cat($0.pendingInit,elem1(_)))",
		"known => ~IN => nil; fmt.Errorf(...) => => ev:store(at($0._),_)",
		"not proved => not(~IN); not("+v+") => nil; fmt.Errorf(...) => => ev:store(at($0._),_)")...)
	for f, nw := range map[*F]string{ss: "$2", is: "$3"} {
		f.Each("local-pending", f.Succ, func(o *eng.Out) string {
			for _, h := range f.Hits(o, "ev:store(at($0._),cat(_,elem1(?e)))") {
				d := f.sel(h.B["e"], "IdenStateData")
				if !f.m("$1", f.sel(h.B["e"], "Id")) || !f.m(nw, f.sel(d, "IdenState")) || !f.m("dyn($0.blockNow)", f.sel(d, "BlockN")) || !f.m("time.Time.Unix(dyn($0.timeNow))", f.sel(d, "BlockTs")) {
					return "what is to be set is " + short(h.B["e"])
				}
			}
			return ""
		})
	}
	sy := r.F(l+"Sync", lw)
	sy.forAll("local-sync-init", sy.Outs, "$0.pendingInit", rows("new => => => ev:mapupd($0.idenStatesData,$0.pendingInit[?i].Id,_)")...)
	d := "$0.pendingSet[?i].IdenStateData"
	sy.forAll("local-sync-set", sy.Outs, "$0.pendingSet", rows(
		"next => => => ev:store(at(lookup(_,$0.pendingSet[?i].Id).IdenStates),cat(_,elem1("+d+"))) & ev:mapupd(_.ByTime,"+d+".BlockTs,"+d+") & ev:mapupd(_.ByBlock,"+d+".BlockN,"+d+")")...)
	sy.Each("local-sync", sy.Outs, func(o *eng.Out) string {
		for _, h := range sy.Hits(o, "ev:mapupd($0.idenStatesData,$0.pendingInit[?i].Id,_)") {
			v := h.E.Args[2]
			if h.Step != nil && h.Step.St != nil { // as it is in the end
				v = sy.X.Canon(h.Step.St, h.E.Raw[2])
			}
			d := "$0.pendingInit[?i].IdenStateData"
			if !sy.mB("cat(elem1("+d+"))", sy.sel(v, "IdenStates"), h.B) {
				return "the history of a new identity is " + short(v)
			}
			for fl, key := range map[string]string{"ByTime": "BlockTs", "ByBlock": "BlockN"} {
				b := eng.Bind{"i": h.B["i"], "m": sy.sel(v, fl)}
				if len(sy.HitsB(o, "ev:lmapupd(?m,"+d+"."+key+","+d+")", b)) == 0 {
					return "the first state of an identity is not found " + fl
				}
			}
		}
		for _, q := range []string{"pendingInit", "pendingSet"} {
			if v := sy.lastStore(o, "at($0."+q+")"); v == nil || !(sy.m("0", sy.X.In.Len(v)) || sy.X.NilState(o.St, v) == 1) {
				return q + " is set again at the next sync"
			}
		}
		return ""
	})
	lt := r.F(l + "TxConfirmBlocks")
	lt.Table("local-confirmations", lt.Outs, rows("known => => big.Sub(big.SetUint64(dyn($0.blockNow)),big.SetBytes(types.Transaction.Data($1))); nil")...)
	for _, f := range []*F{gs, gb, gt, ss, is, sy} {
		f.lockDisc("local-lock", f.Outs, "$0.rw", reads, writes)
	}
	nl := r.F("idenpubonchain/local.New")
	nl.fields("local-new", nl.Outs, 0, mac{}, "timeNow: $0", "blockNow: $1", "verifyingKey: $2")
	nl.Each("local-new-map", nl.Outs, func(o *eng.Out) string {
		if nl.X.NilState(o.St, nl.sel(o.Res[0], "idenStatesData")) != -1 && nl.X.NilState(o.St, nl.sel(o.Res[0], "idenStatesData")) != 0 {
			return "the states are kept in a nil map"
		}
		return ""
	})
}

// networkTimeouts: no request is given up at once.
func (r *R) networkTimeouts() {
	for _, fn := range r.P.Funcs {
		root := r.rootName(fn)
		if skipPkg(root) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "context.WithTimeout" {
					continue
				}
				if k, ok := c.Call.Args[1].(*ssa.Const); ok {
					r.Ob("time-allowed", root, k.Int64() >= 1e8, r.P.Pos(c.Pos()), "a request is given only "+k.Value.String()+" ns")
				}
			}
		}
	}
}

// sub1 replaces the %s of a pattern.
func sub1(p, s string) string { return strings.ReplaceAll(p, "%s", s) }
