package rules

import (
	"sort"
	"strconv"
	"strings"

	"verif/checker/eng"
)

func init() {
	register("C20", "Published off-chain data are found again under their state", c20)
}

// foldable: o can be taken for these values (facts that cannot be folded are left open).
func (f *F) foldable(o *eng.Out, leaf func(*Term) (int64, bool)) bool {
	for _, c := range o.St.Facts {
		if v, ok := f.fold(c, leaf); ok && v == 0 {
			return false
		}
	}
	return true
}

// slotKey is the key of entry name in slot idx (patterns): ?f is the format.
func slotKey(name, idx string) string {
	return "fmt.Sprintf(?f,cat(elem1(" + name + "),elem1(" + idx + ")))"
}

func c20(r *R) {
	r.noDeadlock("deadlock", "writerhttp.", "idenpuboffchain", "readerhttp.")
	const w = "writerhttp."
	idx := "db.Tx.Get(_,@writerhttp.dbKeyCacheIdx)#0[0]"
	fields := []string{"IdenState", "ClaimsTreeRoot", "RootsTreeRoot", "RevocationsTreeRoot"}
	trees := []string{"RootsTree", "RevocationsTree"}

	// publishing: everything goes into the current slot, in one transaction, with the next slot
	pu := r.F(w + "IdenPubOffChainWriteHttp.Publish")
	m := mac{
		"DRO": "merkletree.MerkleTree.DumpTree($2.RootsTree,?bo,$2.RootsTreeRoot)",
		"DRE": "merkletree.MerkleTree.DumpTree($2.RevocationsTree,?be,$2.RevocationsTreeRoot)",
		"NTX": "db.Storage.NewTx($0.storage)",
		"IX":  "db.Tx.Get(~NTX#0,@writerhttp.dbKeyCacheIdx)",
		"CO":  "db.Tx.Commit(~NTX#0)",
	}
	pu.Table("publish", pu.Outs, m.rows(
		"published => eq(~DRO,nil); eq(~DRE,nil); eq(~NTX#1,nil); eq(~IX#1,nil); eq(~CO,nil) => nil => ~CO => ",
		"roots not dumped => not(eq(~DRO,nil)) => ~DRO => => db.Tx.Commit(_)",
		"revocations not dumped => not(eq(~DRE,nil)) => ~DRE => => db.Tx.Commit(_)",
		"no transaction => not(eq(~NTX#1,nil)) => ~NTX#1 => => db.Tx.Commit(_)",
		"no slot => not(eq(~IX#1,nil)) => ~IX#1 => => db.Tx.Commit(_)",
		"not committed => not(eq(~CO,nil)) => ~CO",
	)...)
	names := map[string]string{} // public data field -> global naming its key
	format := ""
	type follows struct {
		o *eng.Out
		n *Term
	}
	var next []follows
	pu.Each("publish-slot", pu.Succ, func(o *eng.Out) string {
		got := map[string]bool{}
		tx := pu.X.T(m.x("~NTX#0"), eng.Bind{})
		puts := pu.Hits(o, "db.Tx.Put(_,_,_)")
		flat := pu.Flat(o)
		commit := -1
		for i, h := range flat {
			if h.E.Kind == "call" && h.E.Name == "db.Tx.Commit" {
				commit = i
			}
		}
		for _, h := range puts {
			a := h.E.Args
			if a[0] != tx {
				return "something is put in another transaction"
			}
			if h.I > commit {
				return "something is put after the commit"
			}
			if pu.m("@writerhttp.dbKeyCacheIdx", a[1]) {
				b, ok := pu.mb("cat(elem1(?n))", a[2])
				if !ok {
					return "the next slot is written as " + short(a[2])
				}
				next = append(next, follows{o, b["n"]})
				got["next"] = true
				continue
			}
			b, ok := pu.mb(slotKey("?k", idx), a[1])
			if !ok {
				return "something is put under " + short(a[1]) + ", not a key of the current slot"
			}
			k := short(b["k"])
			fm := short(b["f"])
			if format != "" && fm != format {
				return "keys of one slot have different forms"
			}
			format = fm
			field := ""
			for _, n := range fields {
				if pu.m("or($2."+n+",sub($2."+n+",0,32))", a[2]) {
					field = n
				}
			}
			for _, n := range trees {
				for _, h := range pu.Hits(o, "merkletree.MerkleTree.DumpTree($2."+n+",?w,$2."+n+"Root)") {
					if pu.mB("bytes.Buffer.Bytes(?w)", a[2], h.B) {
						field = n
					}
					if c := a[2]; c.Op == "bbytes" && c.Args[0].Op == "out" && c.Args[0].Args[0] == h.E.Res {
						field = n
					}
				}
			}
			if field == "" {
				return "published is " + short(a[2]) + ", which is no part of the public data" + pu.pathDesc(o)
			}
			if got[field] {
				return field + " is put twice"
			}
			got[field] = true
			for n, g := range names {
				if (n == field) != (g == k) {
					return field + " and " + n + " are published under " + k + " and " + g
				}
			}
			names[field] = k
		}
		if len(got) != 7 {
			return "not everything is published: only " + strings.Join(boolKeys(got), ", ")
		}
		return ""
	})
	if pu.ok() {
		verbs := strings.Count(format, "%")
		pu.r.Ob("slot-key", pu.Name, verbs == 2 && (strings.Contains(format, "%s") || strings.Contains(format, "%x")) &&
			!strings.Contains(format, "%s%s"), pu.pos(0), "keys of slots have the form "+format+", which does not tell name and slot apart")
	}
	// each tree is dumped into a buffer of its own
	pu.Each("publish-buffers", pu.Succ, func(o *eng.Out) string {
		var ws []*Term
		for _, h := range pu.Hits(o, "merkletree.MerkleTree.DumpTree(...)") {
			w := eng.StripIface(h.E.Raw[1])
			for _, t := range ws {
				if t == w {
					return "both trees are dumped into one buffer"
				}
			}
			ws = append(ws, w)
		}
		return ""
	})
	pu.lockDisc("publish-lock", pu.Outs, "$0.rw", nil, []string{"db.Tx.Put(...)", "db.Tx.Get(...)", "db.Tx.Commit(_)"})

	// reading
	gp := r.F(w + "IdenPubOffChainWriteHttp.GetPublicData")
	var prev []*eng.Out
	prevIdx := map[*eng.Out]*Term{}
	gp.Each("read", gp.Succ, func(o *eng.Out) string {
		if o.Kind != "return" {
			return ""
		}
		v := o.Res[0]
		var slot *Term
		for _, n := range append(append([]string{}, fields...), trees...) {
			t := gp.sel(v, n)
			if t == nil {
				return "no " + n
			}
			g := names[n]
			get := "db.Tx.Get(?t," + slotKey("?k", "?i") + ")"
			pat := "or(sub(" + get + "#0,0,32),fit(" + get + "#0,32))"
			if n == "RootsTree" || n == "RevocationsTree" {
				pat = get + "#0"
			}
			b, ok := gp.mb(pat, t)
			if !ok {
				return n + " is " + short(t) + gp.pathDesc(o)
			}
			if g != short(b["k"]) || short(b["f"]) != format {
				return n + " is read from " + short(b["k"]) + " but published under " + g
			}
			if slot != nil && slot != b["i"] {
				return "the parts come from different slots"
			}
			slot = b["i"]
			if !gp.m(m.x("~NTX#0"), b["t"]) {
				return n + " is read in another transaction"
			}
			if !gp.solve(o.St, []string{"eq(" + get + "#1,nil)"}, b, yes) {
				return n + " is used although reading it may have failed"
			}
		}
		b := eng.Bind{"i": slot}
		if gp.Holds(o, "eq($1,nil)") {
			prev = append(prev, o)
			prevIdx[o] = slot
			return ""
		}
		for _, h := range gp.Hits(o, "db.Tx.Get(_,_)") {
			nb := eng.Bind{"i": slot, "h": h.E.Res}
			if kb, ok := gp.mb("db.Tx.Get(_,"+slotKey("?k", "?i")+")", h.E.Res); ok && kb["i"] == slot && short(kb["k"]) == names["IdenState"] &&
				gp.solve(o.St, []string{"eq($1,?h#0)"}, nb, yes) {
				return ""
			}
		}
		_ = b
		return "the slot is not known to hold the state asked for" + gp.pathDesc(o)
	})
	// not found: only after a look at every slot
	gp.Table("read-failed", gp.Fail, m.rows(
		"no transaction => not(eq(~NTX#1,nil)) => nil; ~NTX#1",
		"no slot => eq($1,nil); not(eq(db.Tx.Get(_,@writerhttp.dbKeyCacheIdx)#1,nil)) => nil; db.Tx.Get(_,@writerhttp.dbKeyCacheIdx)#1",
		"not read => not(eq(db.Tx.Get(~NTX#0,?k)#1,nil)) => nil; db.Tx.Get(~NTX#0,?k)#1",
		"unknown state => not(eq($1,nil)) => nil; @writerhttp.ErrIdenStateNotFound",
	)...)
	var nf []*eng.Out
	for _, o := range gp.Fail {
		if o.Kind == "return" && gp.m("@writerhttp.ErrIdenStateNotFound", o.Res[1]) {
			nf = append(nf, o)
		}
	}
	look := "db.Tx.Get(_," + slotKey("?k", "?n") + ")"
	skip := rows(
		"unused => eq("+look+"#1,@db.ErrNotFound)",
		"another => eq("+look+"#1,nil); not(eq($1,"+look+"#0))")
	gp.tolerates("read-unused-slot", "db.Tx.Get(_,"+slotKey(strings.Replace(names["IdenState"], "gval:", "@", 1), "_")+")#1", "@db.ErrNotFound", "not(eq($1,nil))")
	gp.Each("read-search-all", nf, func(o *eng.Out) string {
		for _, l := range gp.loops(o) {
			if l.Iter != nil && (gp.solve(o.St, []string{"le($0.cfg.CacheLen,?i)"}, eng.Bind{"i": l.Iter}, yes)) {
				for _, s := range l.Steps {
					at := l.Iter // or its conversion: it is below CacheLen, a byte
					for _, e := range s.Events {
						if e.Kind == "call" && e.Res != nil {
							if b, ok := gp.mb("db.Tx.Get(_,"+slotKey("?k", "?i")+")", e.Res); ok && b["i"].Op == "trunc" && b["i"].Args[0] == l.Iter {
								at = b["i"]
							}
							if b, ok := gp.mb("db.Tx.Get(_,"+slotKey("?k", "?i")+")", e.Res); ok && (b["i"] != at || short(b["k"]) != names["IdenState"]) {
								return "the search looks at " + short(e.Res)
							}
						}
					}
					so := &eng.Out{St: s.St, Kind: "return"}
					ok := false
					for _, c := range skip {
						ok = ok || gp.rowB(so, c, eng.Bind{"n": at}, nil)
					}
					if !ok {
						return "a slot that may hold the state is passed over" + stepDesc(s)
					}
				}
				return ""
			}
		}
		return "the search does not go through all slots" + gp.pathDesc(o)
	})
	gp.lockDisc("read-lock", gp.Outs, "$0.rw", []string{"db.Tx.Get(...)"}, []string{"db.Tx.Put(...)"})
	gp.NoCall("read-only", gp.Outs, "db.Tx.Put(...)", "db.Tx.Commit(_)")

	// the ring of slots, for every length: the last slot is the one published to last, and all are used in turn
	ring := func() string {
		if len(next) == 0 || len(prev) == 0 {
			return "the slots are not found"
		}
		for l := int64(1); l < 256; l++ {
			at := int64(0)
			seen := map[int64]bool{}
			for k := int64(0); k < l; k++ {
				if seen[at] {
					return "with " + strconv.Itoa(int(l)) + " slots slot " + strconv.Itoa(int(at)) + " is used again before the others"
				}
				seen[at] = true
				leaf := func(f *F, v int64) func(t *Term) (int64, bool) {
					return func(t *Term) (int64, bool) {
						switch {
						case f.m("$0.cfg.CacheLen", t):
							return l, true
						case f.m(idx, t):
							return v, true
						}
						return 0, false
					}
				}
				n := int64(-1)
				for _, t := range next {
					if lf := leaf(pu, at); pu.foldable(t.o, lf) {
						v, ok := pu.fold(t.n, lf)
						if !ok || v < 0 || v >= l || n >= 0 && v != n {
							return "with " + strconv.Itoa(int(l)) + " slots " + strconv.Itoa(int(at)) + " is followed by " + short(t.n)
						}
						n = v
					}
				}
				if n < 0 {
					return "with " + strconv.Itoa(int(l)) + " slots nothing is published after slot " + strconv.Itoa(int(at))
				}
				found := false
				for _, o := range prev {
					lf := leaf(gp, n)
					if !gp.foldable(o, lf) {
						continue
					}
					p, ok := gp.fold(prevIdx[o], lf)
					if !ok || p != at {
						return "with " + strconv.Itoa(int(l)) + " slots, after publishing to slot " + strconv.Itoa(int(at)) + " the last data are looked for in slot " + strconv.Itoa(int(p))
					}
					found = true
				}
				if !found {
					return "the last data are not found"
				}
				at = n
			}
		}
		return ""
	}
	if pu.ok() && gp.ok() {
		d := ring()
		r.Ob("ring", gp.Name, d == "", gp.pos(0), d)
	}

	// creating and loading
	nw := r.F(w + "NewIdenPubOffChainWriteHttp")
	m = mac{
		"NTX": "db.Storage.NewTx($1)",
		"CFG": "db.StoreJSON(~NTX#0,@writerhttp.dbKeyConfig,$0)",
		"CO":  "db.Tx.Commit(~NTX#0)",
	}
	nw.Table("new", nw.Outs, m.rows(
		"created => eq(~NTX#1,nil); eq(~CFG,nil); eq(~CO,nil) => _; nil => ~CFG; ~CO",
		"no transaction => not(eq(~NTX#1,nil)) => nil; ~NTX#1",
		"not stored => not(eq(~CFG,nil)) => nil; ~CFG => => db.Tx.Commit(_)",
		"not committed => not(eq(~CO,nil)) => nil; ~CO",
	)...)
	nw.Table("new-first-slot", nw.Succ, m.rows("zero => => => db.Tx.Put(~NTX#0,@writerhttp.dbKeyCacheIdx,cat(elem1(0))); ~CO")...)
	nw.fields("new-fields", nw.Succ, 0, m, "storage: $1", "cfg: $0")
	ld := r.F(w + "LoadIdenPubOffChainWriteHttp")
	m = mac{"LJ": "db.LoadJSON($0,@writerhttp.dbKeyConfig,_)"}
	ld.Table("load", ld.Outs, m.rows(
		"loaded => eq(~LJ,nil) => _; nil",
		"not loaded => not(eq(~LJ,nil)) => nil; ~LJ")...)
	ld.fields("load-fields", ld.Succ, 0, m, "storage: $0", "cfg: out(~LJ)")
	var keys []string
	for k := range r.globalLits("writerhttp") {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r.disjointKeys("writerhttp", nil, keys)

	// over HTTP: the identity and the state asked for
	rd := r.F("readerhttp.IdenPubOffChainReadHttp.GetPublicData")
	m = mac{
		"CL":  "httpclient.NewHttpClient($1)",
		"REQ": "sling.Sling.Get(sling.Sling.Path(httpclient.HttpClient.NewRequest(~CL),?p),\"\")",
		"DO":  "httpclient.HttpClient.DoRequest(~CL,?req,_)",
		"PD":  "idenpuboffchain.NewPublicDataFromBlobs(out(~DO))",
	}
	rd.Table("read-http", rd.Outs, m.rows(
		"read => eq(~DO,nil); eq(~PD#1,nil) => ~PD#0; nil",
		"not received => not(eq(~DO,nil)) => nil; ~DO",
		"refused => eq(~DO,nil); not(eq(~PD#1,nil)) => nil; ~PD#1",
	)...)
	rd.Each("read-http-path", rd.Outs, func(o *eng.Out) string {
		n := 0
		for _, h := range rd.Hits(o, m.x("~DO")) {
			n++
			if b, ok := rd.mb(m.x("~REQ"), h.B["req"]); !ok {
				return "the request is " + short(h.B["req"])
			} else if rd.has(o.St, "eq($3,nil)") {
				if !rd.m("cat(core.ID.String($2),\"/laststate\")", b["p"]) {
					return "the last data are asked for at " + short(b["p"])
				}
			} else if !rd.m("cat(core.ID.String($2),\"/state/\",merkletree.Hash.Hex($3))", b["p"]) || !rd.has(o.St, "not(eq($3,nil))") {
				return "the data of a state are asked for at " + short(b["p"])
			}
		}
		if n != 1 {
			return strconv.Itoa(n) + " requests are sent"
		}
		return ""
	})

	// the HTTP client: relative paths extend the URL, only a 2xx answer is one, and it is validated
	hc := r.F("httpclient.NewHttpClient")
	hc.NoPanic("client")
	hc.noBounds("client-bounds", nil)
	hc.Each("client-base", hc.Outs, func(o *eng.Out) string {
		for _, h := range hc.Hits(o, "sling.Sling.Base(_,?u)") {
			u := h.B["u"]
			if !(hc.m("or(cat($0,\"/\"),cat(or(strings.TrimSuffix($0,\"/\"),strings.TrimRight($0,\"/\")),\"/\"))", u) || hc.m("$0", u) && hc.Holds(o, "strings.HasSuffix($0,\"/\")")) {
				return "requests are relative to " + short(u) + ", which may not end with a slash"
			}
		}
		return ""
	})
	hc.fields("client-fields", hc.Outs, 0, mac{}, "client: sling.Sling.Base(sling.New(),_)", "validate: validator.New()")
	hr := r.F("httpclient.HttpClient.NewRequest")
	hr.Table("client-request", hr.Outs, rows("new => => sling.Sling.New($0.client)")...)
	dr := r.F("httpclient.HttpClient.DoRequest")
	m = mac{
		"RC": "sling.Sling.Receive($1,$2,?e)",
		"SC": "~RC#0.StatusCode",
		"CL": "io.ReadCloser.Close(~RC#0.Body)",
		"VA": "validator.Validate.Struct($0.validate,$2)",
		"OK": "eq(~RC#1,nil); le(200,~SC); lt(~SC,300)",
		"KP": "eq(or(reflect.Value.Kind(reflect.ValueOf($2)),reflect.Type.Kind(reflect.TypeOf($2)),reflect.Type.Kind(reflect.Value.Type(reflect.ValueOf($2)))),22)",
		"KS": "eq(or(reflect.Value.Kind(reflect.Value.Elem(reflect.ValueOf($2))),reflect.Value.Kind(reflect.Indirect(reflect.ValueOf($2))),reflect.Type.Kind(reflect.Type.Elem(reflect.TypeOf($2)))),25)",
	}
	dr.Table("request", dr.Outs, m.rows(
		"answered, validated => ~OK; not(eq($2,nil)); ~KP; ~KS => ~VA => ~RC; ~CL",
		"answered, no struct => ~OK; not(~KS) => nil => ~RC; ~CL",
		"answered, no pointer => ~OK; not(~KP) => nil => ~RC; ~CL",
		"answered, nothing wanted => ~OK; eq($2,nil) => nil => ~RC; ~CL",
		"no answer => not(eq(~RC#1,nil)) => ~RC#1",
		"refused below? => eq(~RC#1,nil); lt(~SC,200) => out(~RC) => ~CL",
		"refused => eq(~RC#1,nil); le(300,~SC) => out(~RC) => ~CL",
	)...)

	// the local store
	lg := r.F("idenpuboffchain/local.IdenPubOffChain.GetPublicData")
	m = mac{
		"I": "lookup($0.idens,$2)",
		"U": "eq($1,$0.url); has($0.idens,$2)",
	}
	lg.Table("local-read", lg.Outs, m.rows(
		"last => ~U; eq($3,nil); has(~I.datas,~I.last) => lookup(~I.datas,~I.last); nil",
		"state => ~U; not(eq($3,nil)); has(~I.datas,$3) => lookup(~I.datas,$3); nil",
		"another server => not(eq($1,$0.url)) => nil; fmt.Errorf(...)",
		"unknown identity => not(has($0.idens,$2)) => nil; fmt.Errorf(...)",
		"nothing published => ~U; eq($3,nil); not(has(~I.datas,~I.last)) => nil; fmt.Errorf(...)",
		"unknown state => ~U; not(eq($3,nil)); not(has(~I.datas,$3)) => nil; fmt.Errorf(...)",
	)...)
	lg.lockDisc("local-read-lock", lg.Outs, "$0.rw", nil, nil)
	lp := r.F("idenpuboffchain/local.IdenPubOffChain.Publish")
	lp.Table("local-publish", lp.Outs, m.rows(
		"known => has($0.idens,$1) => nil => ev:mapupd(lookup($0.idens,$1).datas,$2.IdenState,$2)",
		"first => not(has($0.idens,$1)) => nil => ev:lmapupd(?m,$2.IdenState,$2)",
	)...)
	lp.Each("local-publish-last", lp.Outs, func(o *eng.Out) string {
		if lp.Holds(o, "has($0.idens,$1)") {
			if v := lp.lastStore(o, "at(lookup($0.idens,$1).last)"); v == nil || !lp.m("$2.IdenState", v) {
				return "the last state is not the one published"
			}
			return ""
		}
		for _, h := range lp.Hits(o, "ev:mapupd($0.idens,$1,_)") {
			v := lp.X.Canon(o.St, h.E.Raw[2])
			if d := lp.sel(v, "datas"); d == nil || len(lp.HitsB(o, "ev:lmapupd(?m,$2.IdenState,$2)", eng.Bind{"m": d})) == 0 {
				return "the data of a new identity are not kept with it"
			}
			if l := lp.sel(v, "last"); l == nil || !lp.m("$2.IdenState", l) {
				return "the last state of a new identity is not the one published"
			}
			return ""
		}
		return "a new identity is not kept"
	})
	lp.lockDisc("local-publish-lock", lp.Outs, "$0.rw", nil, []string{"ev:mapupd(...)", "ev:store(at(lookup($0.idens,$1)._),_)"})
}

func boolKeys(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	return
}
