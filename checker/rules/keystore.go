package rules

import (
	"fmt"
	"verif/checker/eng"
)

func init() {
	register("C19", "The key store keeps keys encrypted, signs with the right key, wipes it", c19)
}

func c19(r *R) {
	r.noDeadlock("deadlock", "keystore.")
	// encryption: fresh salt and nonce, a key derived from the passphrase with the stored parameters
	en := r.F("keystore.EncryptData")
	read := "or(io.ReadFull(@rand.Reader,_),rand.Read(_))"
	en.NonEmpty("encrypt", en.Succ)
	en.Each("encrypt", en.Succ, func(o *eng.Out) string {
		v := o.Res[0]
		b := eng.Bind{}
		for _, x := range []struct{ f, n string }{{"Salt", "32"}, {"Nonce", "24"}} {
			t := en.sel(v, x.f)
			if t == nil {
				return "no " + x.f
			}
			nb, ok := en.mb("or(sub(?a,0,"+x.n+"),?a)", t)
			if !ok || !en.m("out("+read+")", nb["a"]) || !en.solve(o.St, []string{"eq(len(?t)," + x.n + ")"}, eng.Bind{"t": t}, yes) {
				return x.f + " is not " + x.n + " bytes read from crypto/rand: " + short(t) + en.pathDesc(o)
			}
			b[x.f], b["a"+x.f] = t, nb["a"]
		}
		if b["aSalt"] == b["aNonce"] {
			return "the nonce is the salt"
		}
		for _, x := range []string{"Salt", "Nonce"} {
			if c, ok := en.mb("out(?c)", b["a"+x]); !ok || !en.solve(o.St, []string{"eq(?c#1,nil)"}, c, yes) {
				return x + " is used although reading it may have failed"
			}
		}
		data := en.sel(v, "EncryptedData")
		if data == nil || !en.mB("secretbox.Seal(nil,$0,or(?aNonce,fit(?Nonce,24)),fit(scrypt.Key($1,or(?Salt,?aSalt),$2,8,$3,32)#0,32))", data, b) {
			return "the data are not sealed under the key derived from the passphrase: " + short(data)
		}
		if !en.solve(o.St, []string{"eq(scrypt.Key($1,or(?Salt,?aSalt),$2,8,$3,32)#1,nil)"}, b, yes) {
			return "the key is used although deriving it may have failed"
		}
		return ""
	})
	en.fields("encrypt-params", en.Succ, 0, mac{}, "ScryptN: $2", "ScryptP: $3")
	m := mac{
		"K":  "scrypt.Key($1,$0.Salt,$0.ScryptN,8,$0.ScryptP,32)",
		"OP": "secretbox.Open(nil,$0.EncryptedData,fit($0.Nonce,24),fit(~K#0,32))",
	}
	de := r.F("keystore.DecryptData")
	de.Table("decrypt", de.Outs, m.rows(
		"opened => eq(~K#1,nil); ~OP#1 => ~OP#0; nil",
		"no key => not(eq(~K#1,nil)) => nil; ~K#1",
		"refused => eq(~K#1,nil); not(~OP#1) => nil; @keystore.ErrInvalidEncData",
	)...)

	// the parameters of the key derivation are those documented, for keys already encrypted and as strong
	for n, v := range map[string]int64{"StandardScryptN": 1 << 18, "StandardScryptP": 1, "LightScryptN": 1 << 12, "LightScryptP": 6} {
		c := r.constant("keystore", n)
		r.Ob("scrypt-params", n, c >= v, "keystore/keystore.go", fmt.Sprint(n, " is ", c, ", documented is ", v))
	}
	for g, w := range map[string]string{"LightKeyStoreParams": "Light", "StandardKeyStoreParams": "Standard"} {
		for _, x := range []string{"ScryptN", "ScryptP"} {
			r.globalField("scrypt-params", "keystore."+g, x, fmt.Sprint(r.constant("keystore", w+x)))
		}
	}
	mw, mr := r.F("keystore.MemStorage.Write"), r.F("keystore.MemStorage.Read")
	mw.Table("mem-storage", mw.Outs, rows("written => => nil")...)
	mw.Each("mem-storage-kept", mw.Outs, func(o *eng.Out) string {
		if o.Kind != "return" {
			return ""
		}
		var kept *Term
		for _, h := range mw.Hits(o, "ev:store($0,_)") {
			if h.E.Name != "copy" { // a copy keeps the old length
				kept = mw.X.Canon(o.St, h.E.Raw[1])
			}
		}
		if kept == nil || !mw.mAny("$1 | cat($1)", kept) {
			return "what is kept is " + short(kept)
		}
		return ""
	})
	mr.Table("mem-storage", mr.Outs, rows("read => => or($0,cat($0)); nil")...)

	// the storage is locked while it is used, and only then
	nk := r.F("keystore.NewKeyStore")
	m = mac{
		"TL": "keystore.Storage.TryLock($0)",
		"RD": "keystore.Storage.Read($0)",
		"UN": "json.Unmarshal(~RD#0,_)",
		"NE": "os.IsNotExist(~RD#1)",
		"UL": "keystore.Storage.Unlock($0)",
	}
	held := "eq(~TL#1,nil); ~TL#0; "
	nk.Table("open", nk.Outs, m.rows(
		"not lockable => not(eq(~TL#1,nil)) => nil; ~TL#1 => => ~RD; ~UL",
		"locked by another => eq(~TL#1,nil); not(~TL#0) => nil; @keystore.ErrStorageLock => => ~RD; ~UL",
		"new => "+held+"~NE => _; nil => ~TL; ~RD => ~UL",
		"empty => "+held+"eq(~RD#1,nil); eq(len(~RD#0),0) => _; nil => ~TL; ~RD => ~UL",
		"read => "+held+"eq(~RD#1,nil); eq(~UN,nil); not(eq(len(~RD#0),0)) => _; nil => ~TL; ~RD; ~UN => ~UL",
		"unreadable => "+held+"not(~NE); not(eq(~RD#1,nil)) => nil; ~RD#1 => ~RD; ~UL",
		"corrupt => "+held+"not(eq(~UN,nil)) => nil; ~UN => ~RD; ~UL",
	)...)
	nk.fields("open-fields", nk.Succ, 0, m, "storage: $0", "params: $1")
	nk.Each("open-keys", nk.Succ, func(o *eng.Out) string {
		ks, cache := nk.sel(o.Res[0], "encryptedKeys"), nk.sel(o.Res[0], "cache")
		if ks == nil || cache == nil || ks == cache || cache.Op != "alloc" {
			return "the cache is not a fresh map"
		}
		if len(nk.Hits(o, "ev:lmapupd(_,_,_)")) > 0 {
			return "keys are added while opening"
		}
		if nk.Holds(o, m.x("eq(~UN,nil)")) {
			if !nk.m(m.x("out(~UN)"), ks) {
				return "the keys are not those read: " + short(ks)
			}
		} else if ks.Op != "alloc" {
			return "the keys of a new store are " + short(ks)
		}
		return ""
	})
	nk.MustCall("open-finalizer", nk.Succ, "runtime.SetFinalizer(_,_)")

	// a key is added to the storage first, next to all others, and only then to memory
	im := r.F("keystore.KeyStore.ImportKey", "keystore.EncryptData")
	m = mac{
		"ENC": "keystore.EncryptData($1,$2,$0.params.ScryptN,$0.params.ScryptP)",
		"PK":  "babyjub.PublicKey.Compress(babyjub.PrivateKey.Public($1))",
		"JS":  "json.Marshal(?m)",
		"WR":  "keystore.Storage.Write($0.storage,~JS#0)",
	}
	im.Table("import", im.Outs, m.rows(
		"imported => eq(~ENC#1,nil); eq(~JS#1,nil); eq(~WR,nil) => ~PK; nil => ~ENC; ev:lmapupd(?m,~PK,~ENC#0); ~JS; ~WR; ev:store(at($0.encryptedKeys),?m)",
		"not encrypted => not(eq(~ENC#1,nil)) => nil; ~ENC#1 => => ev:store(at($0._),_); keystore.Storage.Write(...)",
		"not encoded => not(eq(~JS#1,nil)) => nil; ~JS#1 => => ev:store(at($0._),_); keystore.Storage.Write(...)",
		"not written => not(eq(~WR,nil)) => nil; ~WR => => ev:store(at($0._),_)",
	)...)
	im.NoCall("import-no-direct", im.Outs, "ev:mapupd($0.encryptedKeys,_,_)", "ev:mapdel($0.encryptedKeys,_)", "ev:mapupd($0.cache,_,_)", "ev:lmapdel(_,_)")
	im.eachStep("import-keeps", im.Succ, "next(range($0.encryptedKeys))#0", "not(next(range($0.encryptedKeys))#0)", m.rows(
		"old key => => => ev:lmapupd(_,next(range($0.encryptedKeys))#1,next(range($0.encryptedKeys))#2)",
		"same key? => eq(next(range($0.encryptedKeys))#1,~PK)")...)
	im.Each("import-keeps-into", im.Succ, func(o *eng.Out) string {
		v := im.lastStore(o, "at($0.encryptedKeys)")
		for _, h := range im.Hits(o, "ev:lmapupd(?m,_,_)") {
			if h.B["m"] != v {
				return "keys are copied to another map than the one kept"
			}
		}
		return ""
	})
	nw := r.F("keystore.KeyStore.NewKey", "keystore.KeyStore.ImportKey")
	nw.Table("new", nw.Outs, rows("new => => keystore.KeyStore.ImportKey($0,?k,$1)#0; keystore.KeyStore.ImportKey($0,babyjub.NewRandPrivKey(),$1)#1")...)
	ky := r.F("keystore.KeyStore.Keys")
	ky.Ret("keys", ky.Outs, 0, "or(catn(_,elem1(next(range($0.encryptedKeys))#1),_),fill(make(maplen($0.encryptedKeys)),0,next(range($0.encryptedKeys))#1,_))")
	ky.eachStep("keys-all", ky.Outs, "next(range($0.encryptedKeys))#0", "not(next(range($0.encryptedKeys))#0)", rows("key => ")...)

	// secret keys: unlocked with the passphrase, exported as copies
	uk := r.F("keystore.KeyStore.UnlockKey", "keystore.DecryptData")
	m = mac{
		"HAS": "has($0.encryptedKeys,$1)",
		"DEC": "keystore.DecryptData(lookup($0.encryptedKeys,$1),$2)",
		"SK":  "or(fit(~DEC#0,32),sub(~DEC#0,0,32),~DEC#0)",
		"PUB": "babyjub.PublicKey.Compress(babyjub.PrivateKey.Public(~SK))",
		"LEN": "eq(len(~DEC#0),32)",
	}
	none := "=> => ev:mapupd($0.cache,_,_)"
	uk.Table("unlock", uk.Outs, m.rows(
		"unlocked => ~HAS; eq(~DEC#1,nil); ~LEN; eq(~PUB,$1) => nil => ev:mapupd($0.cache,$1,~SK)",
		"unknown => not(~HAS) => @keystore.ErrKeyNotFound "+none,
		"not decrypted => ~HAS; not(eq(~DEC#1,nil)) => ~DEC#1 "+none,
		"wrong length => ~HAS; eq(~DEC#1,nil); not(~LEN) => @keystore.ErrInvalidEncData "+none,
		"wrong key => ~HAS; eq(~DEC#1,nil); not(eq(~PUB,$1)) => @keystore.ErrInvalidEncData "+none,
	)...)
	ex := r.F("keystore.KeyStore.ExportKey")
	ex.Table("export", ex.Outs, rows(
		"exported => has($0.cache,$1) => lookup($0.cache,$1); nil",
		"locked => not(has($0.cache,$1)) => nil; @keystore.ErrKeyNotInCache")...)
	ex.Each("export-copy", ex.Succ, func(o *eng.Out) string {
		if eng.StripIface(o.Raw[0]).Op != "alloc" {
			return "the key handed out is the one in the cache, not a copy"
		}
		return ""
	})

	// close: every key is wiped and forgotten, then the storage is unlocked
	cl := r.F("keystore.KeyStore.Close")
	emptied := func(o *eng.Out) bool { // the cache is a new map at the end
		hs := cl.Hits(o, "ev:store(at($0.cache),_)")
		return len(hs) > 0 && hs[len(hs)-1].E.Raw[1].Op == "alloc" && len(cl.Hits(o, "ev:mapupd($0.cache,...)")) == 0
	}
	if len(cl.Outs) > 0 && !emptied(cl.Outs[0]) {
		cl.eachStep("close-wipes", cl.Outs, "next(range($0.cache))#0", "not(next(range($0.cache))#0)", rows(
			"key => => => ev:mapdel($0.cache,next(range($0.cache))#1)")...)
	}
	cl.Each("close-all", cl.Outs, func(o *eng.Out) string {
		if !cl.Holds(o, "not(next(range($0.cache))#0)") {
			return "the search for cached keys stops before the last one"
		}
		if !emptied(o) && len(cl.Hits(o, "ev:mapdel($0.cache,_)")) == 0 {
			return "the cached keys are not forgotten"
		}
		return ""
	})
	cl.Each("close-wipes-key", cl.Outs, func(o *eng.Out) string {
		for _, l := range cl.loops(o) {
			for _, s := range l.Steps {
				if !cl.stepHas(s, "next(range($0.cache))#0") {
					continue
				}
				wiped := false
				bytes := 0
				for loc, v := range s.Mem {
					if cl.m("next(range($0.cache))#2", loc) && v.Op == "zero" {
						wiped = true
					}
					if loc.Op == "ia" && cl.m("next(range($0.cache))#2", loc.Args[0]) && cl.m("0", v) {
						bytes++
					}
				}
				wiped = wiped || bytes == 32
				for _, e := range s.Events {
					if e.Kind == "loop" && cl.has(s.St, "le(32,?i)") {
						for _, in := range e.Loop.Steps {
							for _, w := range in.Events {
								wiped = wiped || cl.evMatch("ev:store(at(elem(next(range($0.cache))#2,_)),0)", w, eng.Bind{}, yes)
							}
						}
					}
				}
				if !wiped {
					return "a cached key is dropped without being wiped" + stepDesc(s)
				}
			}
		}
		return ""
	})
	cl.Table("close", cl.Outs, rows("closed => => keystore.Storage.Unlock($0.storage) => ev:mapdel($0.cache,_) | ev:store(at($0.cache),_); keystore.Storage.Unlock($0.storage)")...)

	// signatures: by the key asked for, over prefix, date and message, and verified alike
	se := r.F("keystore.KeyStore.SignElem")
	se.Table("sign-elem", se.Outs, rows(
		"signed => has($0.cache,$1) => babyjub.Signature.Compress(babyjub.PrivateKey.SignPoseidon(lookup($0.cache,$1),$2)); nil",
		"locked => not(has($0.cache,$1)) => nil; @keystore.ErrKeyNotInCache")...)
	sr := r.F("keystore.KeyStore.SignRaw", "keystore.KeyStore.SignElem")
	sr.Table("sign-raw", sr.Outs, rows("hash => => keystore.KeyStore.SignElem($0,$1,poseidon.HashBytes($2))#0; keystore.KeyStore.SignElem($0,$1,poseidon.HashBytes($2))#1")...)
	sg := r.F("keystore.KeyStore.Sign", "keystore.KeyStore.SignRaw")
	m = mac{"SR": "keystore.KeyStore.SignRaw($0,$1,cat($2,be(?d),$3))"}
	sg.Table("sign", sg.Outs, m.rows("dated => => ~SR#0; ?d; ~SR#1")...)
	sg.Ret("sign-date", sg.Outs, 1, "time.Time.Unix(time.Now())")
	ve := r.F("keystore.VerifySignatureElem")
	m = mac{"PK": "or(babyjub.Point.Decompress(babyjub.NewPoint(),$0),babyjub.PublicKeyComp.Decompress($0))", "SG": "or(babyjub.Signature.Decompress(_,$2),babyjub.SignatureComp.Decompress($2))"}
	ve.Table("verify-elem", ve.Outs, m.rows(
		"verified => eq(~PK#1,nil); eq(~SG#1,nil) => babyjub.PublicKey.VerifyPoseidon(~PK#0,$1,~SG#0); nil",
		"no key => not(eq(~PK#1,nil)) => false; ~PK#1",
		"no signature => not(eq(~SG#1,nil)) => false; ~SG#1")...)
	vr := r.F("keystore.VerifySignatureRaw", "keystore.VerifySignatureElem")
	vr.Table("verify-raw", vr.Outs, mac{"V": "keystore.VerifySignatureElem($0,poseidon.HashBytes($2),$1)"}.rows("hash => => ~V#0; ~V#1")...)
	vs := r.F("keystore.VerifySignature", "keystore.VerifySignatureRaw")
	vs.Table("verify", vs.Outs, mac{"V": "keystore.VerifySignatureRaw($0,$1,cat($2,be($3),$4))"}.rows("dated => => ~V#0; ~V#1")...)

	// locks
	for _, n := range []string{"ImportKey", "ExportKey", "UnlockKey", "SignElem", "Keys", "Close"} {
		f := r.F("keystore.KeyStore."+n, "!load:cache,encryptedKeys", "keystore.EncryptData", "keystore.DecryptData")
		f.lockDisc("lock "+n, f.Outs, "$0.rw", []string{"ev:load(at($0.cache))", "ev:load(at($0.encryptedKeys))"},
			[]string{"ev:store(at($0._),_)", "ev:mapupd($0._,_,_)", "ev:mapdel($0._,_)", "keystore.Storage.Write(...)"})
	}

	// the file: used only while locked, replaced in one step, readable by the owner only
	fw := r.F("keystore.FileStorage.Write")
	m = mac{
		"LK": "flock.Flock.Locked($0.lock)",
		"OP": "os.OpenFile(?tmp,577,384)",
		"WR": "os.File.Write(~OP#0,$1)",
		"SY": "os.File.Sync(~OP#0)",
		"CL": "os.File.Close(~OP#0)",
		"MV": "os.Rename(?tmp,$0.path)",
	}
	fw.Table("file-write", fw.Outs, m.rows(
		"written => ~LK; eq(~OP#1,nil); eq(~WR#1,nil); eq(~SY,nil); eq(~CL,nil) => ~MV => ~LK; ~OP; ~WR; ~SY; ~CL; ~MV",
		"not locked => not(~LK) => @keystore.ErrStorageUnlocked => => os.OpenFile(...); os.Rename(...); os.Remove(...)",
		"not opened => ~LK; not(eq(~OP#1,nil)) => ~OP#1 => => os.Rename(...)",
		"not written => ~LK; eq(~OP#1,nil); not(eq(~WR#1,nil)) => ~WR#1 => ~CL => os.Rename(...)",
		"not synced => ~LK; not(eq(~SY,nil)) => ~SY => ~CL => os.Rename(...)",
		"not closed => ~LK; not(eq(~CL,nil)) => ~CL => => os.Rename(...)",
	)...)
	fw.Each("file-write-aside", fw.Outs, func(o *eng.Out) string {
		for _, h := range fw.Hits(o, "os.OpenFile(...)") {
			if !fw.m("cat($0.path,_)", h.E.Args[0]) {
				return "writes to " + short(h.E.Args[0]) + " and not to a file beside the key file"
			}
		}
		return ""
	})
	fr := r.F("keystore.FileStorage.Read")
	fr.Table("file-read", fr.Outs, rows(
		"read => flock.Flock.Locked($0.lock) => os.ReadFile($0.path)#0; os.ReadFile($0.path)#1",
		"not locked => not(flock.Flock.Locked($0.lock)) => nil; @keystore.ErrStorageUnlocked => => os.ReadFile(...)")...)
	tl := r.F("keystore.FileStorage.TryLock")
	tl.Table("file-lock", tl.Outs, rows("lock => => flock.Flock.TryLock($0.lock)#0; flock.Flock.TryLock($0.lock)#1")...)
	ul := r.F("keystore.FileStorage.Unlock")
	ul.Table("file-unlock", ul.Outs, rows("unlock => => flock.Flock.Unlock($0.lock) => => os.Remove(...); os.RemoveAll(...)")...)
	for _, f := range []*F{fw, fr, tl, ul} {
		f.lockDisc("file-mutex", f.Outs, "$0.rw", []string{"flock.Flock.Locked(...)", "os.ReadFile(...)"},
			[]string{"os.OpenFile(...)", "os.Rename(...)", "flock.Flock.TryLock(...)", "flock.Flock.Unlock(...)"})
	}
	nf := r.F("keystore.NewFileStorage")
	nf.fields("file-new", nf.Outs, 0, mac{}, "path: $0", "lock: flock.New(?p)")
	nf.Each("file-new-lock", nf.Outs, func(o *eng.Out) string {
		if b, ok := nf.mb("flock.New(?p)", nf.sel(o.Res[0], "lock")); !ok || !nf.m("cat($0,_)", b["p"]) {
			return "the lock is not a file of its own beside the key file"
		}
		return ""
	})
}
