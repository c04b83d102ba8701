package rules

import (
	"strconv"
	"strings"

	"verif/checker/eng"
)

func init() {
	register("C24", "Circuit files are used only when their hash is the expected one", c24)
}

func c24(r *R) {
	r.noDeadlock("deadlock", "zk.")
	const z = "zk.ZkFiles."
	opq := []string{"zk.download", "zk.checkHash", "zk.calcHash"}
	methods := map[string]*F{}
	files := map[string]string{"ProvingKey": "provingKey", "VerificationKey": "verificationKey", "WitnessCalcWASM": "witnessCalcWASM"}
	for n := range files {
		for _, p := range []string{"", "Load", "Download"} {
			methods[p+n] = r.F(z+p+n, opq...)
		}
	}
	for n, c := range files {
		m := mac{
			"JOIN": "path.Join(cat(elem1($0.Path),elem1($0.basename." + n + ")))",
			"SET":  "$0.path" + n,
			"P":    "or(~SET,~JOIN)",
			"OK":   "eq(zk.checkHash(~JOIN,$0.hashes." + n + "),nil)",
			"DL":   `zk.download(cat($0.Url,"/",$0.basename.` + n + "),~JOIN)",
			"ANY":  "or($0.provingKey,$0.verificationKey,$0.witnessCalcWASM,$0.pathProvingKey,$0.pathVerificationKey,$0.pathWitnessCalcWASM)",
		}
		checked := func(f *F, h Hit, p *Term) bool {
			switch {
			case f.m(m.x("~JOIN"), p):
				return f.knownAt(h, m.x("~OK"), eng.Bind{})
			case f.m(m.x("~SET"), p):
				// a loaded file was loaded from a checked path (the stores below)
				return f.knownAt(h, m.x(`not(eq(~SET,""))`), eng.Bind{}) || f.knownAt(h, "not(eq($0."+c+",nil))", eng.Bind{})
			}
			return false
		}
		for _, p := range []string{"", "Load", "Download"} {
			f := methods[p+n]
			// files are read only at the path whose content has the expected hash
			f.Each("checked", f.Outs, func(o *eng.Out) string {
				for _, fn := range []string{"os.ReadFile(?p)", "os.Open(?p)", "os.ReadFile(?p)", "os.OpenFile(?p,...)"} {
					for _, h := range f.Hits(o, fn) {
						if !checked(f, h, h.B["p"]) {
							return "the file " + short(h.B["p"]) + " is read before its hash was found to be the expected one" + f.pathDesc(o)
						}
					}
				}
				for _, h := range f.Hits(o, m.x("ev:store(at(~SET),?p)")) {
					if !f.m(m.x("~JOIN"), h.B["p"]) || !checked(f, h, h.B["p"]) {
						return "the file " + short(h.B["p"]) + " is kept for use before its hash was found to be the expected one" + f.pathDesc(o)
					}
				}
				for g, c2 := range files {
					if g != n && len(f.Hits(o, "ev:store(at($0.path"+g+"),_)"))+len(f.Hits(o, "ev:store(at($0."+c2+"),_)")) > 0 {
						return g + " is changed" + f.pathDesc(o)
					}
				}
				return ""
			})
			f.NonEmpty("checked", f.Succ)
			// the hash is compared for a file that was downloaded or is there, and from the right place
			f.Each("from-url", f.Outs, func(o *eng.Out) string {
				for _, h := range f.Hits(o, "zk.download(?u,?p)") {
					if f.evTerm(h.E) == nil || !f.m(m.x("~DL"), f.evTerm(h.E)) {
						return short(h.B["u"]) + " is downloaded to " + short(h.B["p"]) + f.pathDesc(o)
					}
				}
				return ""
			})
			f.lockDisc("locked", f.Outs, "$0.m", []string{"zk.download(...)", "zk.checkHash(...)"},
				[]string{"ev:store(at($0._),_)"})
			f.NoPanic("checked")
		}
		RD := "os.ReadFile(~P)"
		parse := ""
		val := "$0." + c
		switch n {
		case "VerificationKey":
			parse = "parsers.ParseVk(" + RD + "#0)"
		case "WitnessCalcWASM":
			parse = RD
		}
		dn := methods["Download"+n]
		dn.Table("download", dn.Outs, m.rows(
			"downloaded => eq(os.MkdirAll($0.Path,_),nil); eq(~DL,nil); ~OK => nil => ev:store(at(~SET),~JOIN)",
			"no folder => not(eq(os.MkdirAll($0.Path,_),nil)) => os.MkdirAll($0.Path,_) => => ev:store(at(~SET),_)",
			"not downloaded => not(eq(~DL,nil)) => ~DL => => ev:store(at(~SET),_)",
			"other content => not(eq(zk.checkHash(~JOIN,$0.hashes."+n+"),nil)) => zk.checkHash(~JOIN,$0.hashes."+n+") => => ev:store(at(~SET),_)",
		)...)
		for _, p := range []string{"", "Load", "Download"} {
			methods[p+n].NotAfter("checked-after-download", methods[p+n].Outs, "zk.checkHash(...)", "zk.download(...)")
		}
		if n == "ProvingKey" {
			m = m.with("J", "parsers.ParsePk(os.ReadFile(~P)#0)", "B", "parsers.ParsePkBin(os.Open(~P)#0)", "G", "parsers.ParsePkGoBin(os.Open(~P)#0)",
				"ISJ", `eq($0.provingKeyFormat,"json")`, "ISB", `eq($0.provingKeyFormat,"bin")`, "ISG", `eq($0.provingKeyFormat,"go.bin")`,
				"FRESH", "eq($0.provingKey,nil)", "NC", "not($0.cacheProvingKey)")
			get := methods[n]
			get.Table("get", get.Outs, m.rows(
				"kept => not(~FRESH); $0.cacheProvingKey => $0.provingKey; nil",
				"json => ~ISJ; eq(os.ReadFile(~P)#1,nil); eq(~J#1,nil) => ~J#0; nil",
				"bin => ~ISB; eq(os.Open(~P)#1,nil); eq(~B#1,nil) => ~B#0; nil",
				"go.bin => ~ISG; eq(os.Open(~P)#1,nil); eq(~G#1,nil) => ~G#0; nil",
				"no json => ~ISJ; not(eq(~J#1,nil)) => nil; ~J#1",
				"no bin => ~ISB; not(eq(~B#1,nil)) => nil; ~B#1",
				"no go.bin => ~ISG; not(eq(~G#1,nil)) => nil; ~G#1",
				"not read => not(eq(os.ReadFile(~P)#1,nil)) => nil; os.ReadFile(~P)#1",
				"not opened => not(eq(os.Open(~P)#1,nil)) => nil; os.Open(~P)#1",
				"other format => not(~ISJ); not(~ISB); not(~ISG) => nil; fmt.Errorf(...)",
				"no folder => not(eq(os.MkdirAll($0.Path,_),nil)) => nil; os.MkdirAll($0.Path,_)",
				"not downloaded => not(eq(~DL,nil)) => nil; ~DL",
				"other content => not(~OK) => nil; zk.checkHash(~JOIN,$0.hashes."+n+")",
			)...)
			for _, f := range []*F{get, methods["Load"+n]} {
				f.Each("keep", f.Outs, func(o *eng.Out) string {
					for _, h := range f.Hits(o, "ev:store(at($0."+c+"),?v)") {
						if !f.m(m.x("or(~J#0,~B#0,~G#0)"), h.B["v"]) || !f.Holds(o, "$0.cacheProvingKey") ||
							!f.Holds(o, m.x("eq(~J#1,nil) | eq(~B#1,nil) | eq(~G#1,nil)")) {
							return "kept is " + short(h.B["v"]) + f.pathDesc(o)
						}
					}
					return ""
				})
			}
			continue
		}
		rows := []string{
			"kept => not(eq(" + val + ",nil)) => " + val + "; nil",
			"loaded => eq(" + parse + "#1,nil) => " + parse + "#0; nil => ev:store(at(" + val + ")," + parse + "#0)",
			"not read => not(eq(" + RD + "#1,nil)) => nil; " + RD + "#1 => => ev:store(at(" + val + "),_)",
			"no folder => not(eq(os.MkdirAll($0.Path,_),nil)) => nil; os.MkdirAll($0.Path,_) => => ev:store(at(" + val + "),_)",
			"not downloaded => not(eq(~DL,nil)) => nil; ~DL => => ev:store(at(" + val + "),_)",
			"other content => not(~OK) => nil; zk.checkHash(~JOIN,$0.hashes." + n + ") => => ev:store(at(" + val + "),_)",
		}
		if n == "VerificationKey" {
			rows = append(rows, "not parsed => not(eq("+parse+"#1,nil)) => nil; "+parse+"#1 => => ev:store(at("+val+"),_)")
		}
		methods[n].Table("get", methods[n].Outs, m.rows(rows...)...)
		methods["Load"+n].Each("keep", methods["Load"+n].Outs, func(o *eng.Out) string {
			f := methods["Load"+n]
			for _, h := range f.Hits(o, "ev:store(at("+val+"),?v)") {
				if !f.m(m.x(parse+"#0"), h.B["v"]) || !f.Holds(o, m.x("eq("+parse+"#1,nil)")) {
					return "kept is " + short(h.B["v"]) + f.pathDesc(o)
				}
			}
			return ""
		})
	}
	for n, c := range files {
		own := []string{z + n, z + "Load" + n, z + "Download" + n, z + "load" + n, z + "download" + n, z + "LoadAll", z + "DownloadAll"}
		for _, fld := range []string{"path" + n, c} {
			for fn, pos := range r.fieldWriters("zk.ZkFiles", fld) {
				ok := false
				for _, a := range own {
					ok = ok || a == fn
				}
				r.Ob("writers", fn+" "+fld, ok, pos, fn+" changes "+fld)
			}
		}
	}
	// all means each of the three
	for n, what := range map[string][]string{"LoadAll": opq, "DownloadAll": opq, "InsecureDownloadAll": opq} {
		f := r.F(z+n, what...)
		f.NonEmpty("all", f.Succ)
		f.Each("all", f.Succ, func(o *eng.Out) string {
			for x, c := range files {
				d := "eq(zk.download(cat($0.Url,\"/\",$0.basename." + x + "),path.Join(cat(elem1($0.Path),elem1($0.basename." + x + ")))),nil)"
				if !f.Holds(o, d) && !(n == "LoadAll" && (f.Holds(o, "not(eq($0."+c+",nil))") || f.Holds(o, "not(eq($0.path"+x+",\"\"))"))) {
					return x + " is left out" + f.pathDesc(o)
				}
				if n == "LoadAll" && x != "ProvingKey" && !f.Holds(o, "not(eq($0."+c+",nil))") && f.lastStore(o, "at($0."+c+")") == nil {
					return x + " is not loaded" + f.pathDesc(o)
				}
				if n == "DownloadAll" && f.lastStore(o, "at($0.path"+x+")") == nil {
					return x + " is not kept for use" + f.pathDesc(o)
				}
			}
			return ""
		})
	}
	ih := r.F(z+"InsecureCalcHashes", opq...)
	ih.lockDisc("locked", ih.Outs, "$0.m", []string{"zk.calcHash(...)"}, nil)
	var specs []string
	for _, n := range []string{"ProvingKey", "VerificationKey", "WitnessCalcWASM"} {
		specs = append(specs, n+": hex.EncodeToString(zk.calcHash(path.Join(cat(elem1($0.Path),elem1($0.basename."+n+"))))#0)")
	}
	ih.NonEmpty("hashes", ih.Succ)
	ih.fields("hashes", ih.Succ, 0, mac{}, specs...)
	nf := r.F("zk.NewZkFiles")
	nf.fields("new", nf.Outs, 0, mac{}, "Url: $0", "Path: $1", "provingKeyFormat: $2", "hashes: $3", "cacheProvingKey: $4",
		`pathProvingKey: ""`, `pathVerificationKey: ""`, `pathWitnessCalcWASM: ""`, "provingKey: nil", "verificationKey: nil", "witnessCalcWASM: nil")
	nf.Each("new-names", nf.Outs, func(o *eng.Out) string {
		b := nf.sel(o.Res[0], "basename")
		var fs []*Term
		for n := range files {
			fs = append(fs, nf.sel(b, n))
		}
		if fs[0] == fs[1] || fs[1] == fs[2] || fs[0] == fs[2] {
			return "two files have one name"
		}
		return ""
	})

	// comparing hashes
	ch := r.F("zk.checkHash", "zk.calcHash")
	ch.okIff("hash", "eq(hex.DecodeString($1)#1,nil)", "eq(zk.calcHash($0)#1,nil)", "eq(zk.calcHash($0)#0,hex.DecodeString($1)#0)")
	ca := r.F("zk.calcHash")
	cm := mac{"O": "os.Open($0)", "C": "io.Copy(sha256.New(),~O#0)", "R": "or(os.ReadFile($0),os.ReadFile($0),io.ReadAll(~O#0),io.ReadAll(~O#0))"}
	ca.Table("hash-content", ca.Outs, cm.rows(
		"hashed? => eq(~O#1,nil); eq(~C#1,nil) => hash.Hash.Sum(sha256.New(),nil); nil => ~C | hash.Hash.Sum(sha256.New(),nil)",
		"hashed? => eq(~R#1,nil) => sha256.Sum256(~R#0); nil",
		"not opened? => not(eq(~O#1,nil)) => nil; ~O#1",
		"not opened? => not(eq(~R#1,nil)) => nil; ~R#1",
		"not read? => not(eq(~C#1,nil)) => nil; ~C#1")...)
	ca.NonEmpty("hash-content", ca.Succ)
	ca.Before("hash-order", ca.Succ, "io.Copy(...)", "hash.Hash.Sum(...)")

	// downloading
	dl := r.F("zk.download")
	get := "http.Client.Get(_,$0)"
	dl.Each("download", dl.Outs, func(o *eng.Out) string {
		if o.Kind != "return" {
			return "panics"
		}
		flat := dl.Flat(o)
		at := func(pat string, b eng.Bind) (int, eng.Bind) {
			for i, h := range flat {
				if h.E.Kind == "call" {
					nb := eng.Bind{}
					for k, v := range b {
						nb[k] = v
					}
					var got eng.Bind
					if dl.evMatch(pat, h.E, nb, func(b eng.Bind) bool { got = b; return true }) {
						if got == nil {
							got = nb
						}
						return i, got
					}
				}
			}
			return -1, nil
		}
		lock, _ := at("flock.Flock.TryLock(_)", nil)
		locked := lock >= 0 && dl.Holds(o, "flock.Flock.TryLock(_)#0") && dl.Holds(o, "eq(flock.Flock.TryLock(_)#1,nil)")
		unlock, _ := at("flock.Flock.Unlock(_)", nil)
		if locked && unlock < 0 {
			return "the lock stays held" + dl.pathDesc(o)
		}
		ren, _ := at("os.Rename(_,_)", nil)
		for i, h := range flat {
			if h.E.Kind != "call" {
				continue
			}
			switch h.E.Name {
			case "os.Create", "os.OpenFile", "os.WriteFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.Link", "os.Symlink":
				if dl.m("$1", h.E.Args[0]) {
					return h.E.Name + " changes the file itself, which others may be using" + dl.pathDesc(o)
				}
				if h.E.Name != "os.Remove" && (!locked || i < lock || unlock >= 0 && i > unlock) {
					return h.E.Name + " without holding the lock" + dl.pathDesc(o)
				}
			}
		}
		if ren >= 0 {
			a := flat[ren].E.Args
			if !dl.m("$1", a[1]) {
				return "the download ends up at " + short(a[1])
			}
			b := eng.Bind{"t": a[0]}
			cr, _ := at("os.Create(?t)", b)
			cp, _ := at("io.Copy(os.Create(?t)#0,"+get+"#0.Body)", b)
			cl, _ := at("os.File.Close(os.Create(?t)#0)", b)
			sy, _ := at("os.File.Sync(os.Create(?t)#0)", b)
			if sy < cp || sy > ren || !dl.solve(o.St, []string{"eq(os.File.Sync(os.Create(?t)#0),nil)"}, eng.Bind{"t": a[0]}, yes) {
				return "the file may be incomplete after a crash: it is not flushed before it gets its name" + dl.pathDesc(o)
			}
			if cr < 0 || cp < cr || cl < cp || ren < cl {
				return "what becomes the file is not the whole download" + dl.pathDesc(o)
			}
			for _, c := range []string{"eq(os.Create(?t)#1,nil)", "eq(io.Copy(os.Create(?t)#0," + get + "#0.Body)#1,nil)", "eq(os.File.Close(os.Create(?t)#0),nil)", "eq(" + get + "#1,nil)"} {
				if !dl.solve(o.St, []string{c}, eng.Bind{"t": a[0]}, yes) {
					return "what becomes the file may be incomplete: not known is " + c + dl.pathDesc(o)
				}
			}
			// only a successful answer
			for s := int64(100); s < 600; s++ {
				if (s < 200 || s >= 300) && dl.foldable(o, func(t *Term) (int64, bool) { return s, dl.m(get+"#0.StatusCode", t) }) {
					return "an answer with status " + strconv.Itoa(int(s)) + " becomes the file" + dl.pathDesc(o)
				}
			}
		}
		if dl.X.NilState(o.St, o.Res[0]) == 1 && !dl.Holds(o, "eq(os.Stat($1)#1,nil)") && !(ren >= 0 && dl.Holds(o, "eq(os.Rename(_,$1),nil)")) {
			return "reports success without a file" + dl.pathDesc(o)
		}
		return ""
	})
	dl.NonEmpty("download", dl.Succ)
	dl.Exists("download", dl.Succ, "os.Rename(_,$1)")

	// proofs as the contract takes them
	fe := func(s, a, b string) string { return "elem1(big.SetBytes(sub(" + s + "," + a + "," + b + ")))" }
	g1 := func(p string) string {
		s := "bn256.G1.Marshal(" + p + ")"
		return "cat(" + fe(s, "0", "32") + "," + fe(s, "32", "or(len("+s+"),64)") + ")"
	}
	g2 := func(p string) string {
		s := "bn256.G2.Marshal(" + p + ")"
		return "cat(elem1(cat(" + fe(s, "0", "32") + "," + fe(s, "32", "64") + ")),elem1(cat(" + fe(s, "64", "96") + "," + fe(s, "96", "or(len("+s+"),128)") + ")))"
	}
	pf := r.F("zk.ProofToBigInts")
	pf.Table("proof", pf.Outs, rows("coordinates => => "+g1("$0.A")+"; "+g2("$0.B")+"; "+g1("$0.C"))...)
	for n, w := range map[string]string{"zk.G1ToBigInts": g1("$0"), "zk.G2ToBigInts": g2("$0")} {
		f := r.F(n)
		f.Table("proof", f.Outs, rows("coordinates => => "+w)...)
	}
	// public signals as JSON: each number, in order
	ps := r.F("zk.PubSignals.MarshalJSON")
	el := "hex.EncodeToString(common.SwapEndianness(big.Bytes($0[?i])))"
	el = "or(fill(make(len($0)),0," + el + ",?i),catn(nil,elem1(" + el + "),?i))"
	ps.Table("signals-json", ps.Outs, rows("written => => json.Marshal("+el+")#0; json.Marshal("+el+")#1")...)
	pu := r.F("zk.PubSignals.UnmarshalJSON")
	un := "json.Unmarshal($1,_)"
	de := "hex.DecodeString(out(" + un + ")[?i])"
	bi := "big.SetBytes(common.SwapEndianness(" + de + "#0))"
	pu.Table("signals-json", pu.Outs, rows(
		"read => eq("+un+",nil) => nil => ev:store($0,or(fill(make(len(out("+un+"))),0,"+bi+",?i),catn(nil,elem1("+bi+"),?i)))",
		"no list => not(eq("+un+",nil)) => "+un+" => => ev:store($0,_)",
		"not hex => not(eq("+de+"#1,nil)) => "+de+"#1 => => ev:store($0,_)")...)
	pu.Each("signals-json-each", pu.Succ, func(o *eng.Out) string {
		v := pu.lastStore(o, "$0")
		var from *Term
		if v != nil {
			if b, ok := pu.mb("catn(nil,elem1(big.SetBytes(common.SwapEndianness(hex.DecodeString(?l[?i])#0))),?i)", v); ok {
				from = b["l"]
			}
		}
		return pu.filled(o, v, from)
	})
	ps.Each("signals-json-each", ps.Outs, func(o *eng.Out) string {
		for _, h := range ps.Hits(o, "json.Marshal(?v)") {
			return ps.filled(o, eng.StripIface(h.B["v"]), ps.X.T("$0", nil))
		}
		return ""
	})
	// inputs of the circuit as text: every one, under its name
	im := r.F("zk.InputsToMapStrings")
	im.Each("inputs-text", im.Succ, func(o *eng.Out) string {
		n := 0
		for _, l := range im.loops(o) {
			for _, s := range l.Steps {
				so := &eng.Out{St: &eng.State{}, Kind: "return"}
				*so.St = *s.St
				so.St.Events = s.Events
				hs := im.Hits(so, "ev:lmapupd(?m,next(range(?in))#1,?v)")
				if len(hs) == 0 {
					own := len(im.Hits(so, "ev:lmapupd(_,_,_)")) > 0
					for _, c := range s.Facts {
						own = own || im.m("next(range(_))#0", c)
					}
					if own {
						return "an input is left out or under another name" + stepDesc(s)
					}
					continue
				}
				h := hs[len(hs)-1]
				n++
				v := eng.StripIface(h.B["v"])
				if !im.m("mapstructure.Decode($0,_)", h.B["in"]) && !im.m("out(mapstructure.Decode($0,_))", h.B["in"]) {
					return "the inputs are " + short(h.B["in"])
				}
				val := func(t *Term) bool {
					return strings.HasPrefix(t.Op, "tassert") && len(t.Args) == 1 && im.mB("next(range(?in))#2", t.Args[0], h.B)
				}
				switch {
				case v.Op == "fill" || v.Op == "catn":
					b, ok := im.mb("or(fill(make(len(?l)),0,big.String(?l[?i]),?i),catn(nil,elem1(big.String(?l[?i])),?i))", v)
					if !ok || !val(b["l"]) || im.filled(so, v, b["l"]) != "" {
						return "a list of inputs becomes " + short(v)
					}
				default:
					b, ok := im.mb("big.String(?x)", v)
					if !ok || !val(b["x"]) {
						return "an input becomes " + short(v)
					}
				}
			}
		}
		if n == 0 {
			return "no input is turned into text"
		}
		return ""
	})
}

// filled: t is a slice whose elements were all set by a loop.
func (f *F) filled(o *eng.Out, t, from *Term) string {
	if t != nil && t.Op == "catn" && from != nil { // one by one
		if f.X.Decide(o.St, f.X.In.Le(f.X.In.Len(from), t.Args[2])) != 1 {
			return "not all elements are added" + f.pathDesc(o)
		}
		return ""
	}
	if t == nil || t.Op != "fill" {
		return "what is made is not a list of all elements" + f.pathDesc(o)
	}
	if it := t.Args[len(t.Args)-1]; f.X.Decide(o.St, f.X.In.Le(f.X.In.Len(t), it)) != 1 {
		return "not all elements are set" + f.pathDesc(o)
	}
	return ""
}
