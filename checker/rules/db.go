package rules

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

func init() {
	register("C06", "Storage transactions are atomic and both backends agree", c06)
	register("C08", "Stored lists and values read back what was written", c08)
}

// eachStep: every outcome has a loop all of whose iterations satisfy the fact iter (a pattern),
// that ends only when exit holds, and every iteration is one of the rows.  A row without When
// is tried on each iteration.
func (f *F) eachStep(rule string, outs []*eng.Out, iter, exit string, cases ...*Case) {
	f.NonEmpty(rule, outs)
	seen := map[int]bool{}
	f.Each(rule, outs, func(o *eng.Out) string {
		var l *eng.Loop
		for _, c := range f.loops(o) {
			n := 0
			for _, s := range c.Steps {
				if f.has(s.St, iter) {
					n++
				}
			}
			if len(c.Steps) > 0 && n == len(c.Steps) {
				l = c
				break
			}
		}
		if l == nil {
			if f.has(o.St, exit) {
				return "" // left before the first iteration, nothing to do
			}
			return "does not go through the elements (" + iter + ")" + f.pathDesc(o)
		}
		if exit != "" && !f.has(o.St, exit) {
			return "can stop before the last element" + f.pathDesc(o)
		}
		for _, s := range l.Steps {
			ok := false
			for i, c := range cases {
				so := &eng.Out{St: &eng.State{}, Kind: "return"}
				*so.St = *s.St
				so.St.Events = s.Events
				var upto string
				if f.row(so, c, &upto) {
					ok = true
					seen[i] = true
				}
			}
			if !ok {
				return "an iteration does what no permitted case allows" + stepDesc(s)
			}
		}
		return ""
	})
	if f.ok() {
		for i, c := range cases {
			if !c.Opt {
				f.r.Ob(rule+"/case "+c.Name, f.Name, seen[i], f.pos(f.Fn.Pos()), "no iteration does this any more")
			}
		}
	}
}

var dbm = mac{
	"LDB":  "or($0.LevelDbStorage.ldb,$0.ldb)",
	"KEY":  "cat(or($0.LevelDbStorage.prefix,$0.prefix),$1)",
	"H":    "sha256.Sum256(~KEY)",
	"LGET": "leveldb.DB.Get(~LDB,~KEY,_)",
	"MKEY": "cat(or($0.s.prefix,$0.prefix),$1)",
	"MH":   "sha256.Sum256(~MKEY)",
	"NEXT": "next(range(?m))",
}

func c06(r *R) {
	r.noDeadlock("deadlock", "db.")
	r.sharedAppends("shared-append", "db.Memory", "db.Level", "db.Kv", "db.c")
	m := dbm
	// a LevelDB transaction: everything goes to the database in one batch
	c := r.F("db.LevelDbStorageTx.Commit")
	c.Each("one-batch", c.Outs, func(o *eng.Out) string {
		ws := c.Hits(o, "leveldb.DB.Write(...)")
		if len(ws) != 1 {
			return "the commit is not one write of one batch"
		}
		b, ok := c.mb(m.x("leveldb.DB.Write(~LDB,?b,_)"), ws[0].E.Res)
		if !ok || ws[0].Step != nil {
			return "the commit writes " + short(ws[0].E.Res)
		}
		if o.Res[0] != ws[0].E.Res && c.X.Decide(o.St, c.X.In.Eq(o.Res[0], ws[0].E.Res)) != 1 {
			return "the result of the write is not what the commit returns"
		}
		if h := c.Hits(o, "leveldb.DB.Put(...)"); len(h) > 0 {
			return "a key is written outside the batch"
		}
		if h := c.Hits(o, "leveldb.DB.Delete(...)"); len(h) > 0 {
			return "a key is deleted"
		}
		cr := c.carried(o, b["b"])
		if cr == nil || cr.Init == nil || cr.Init.Op != "zero" {
			return "the batch is not filled by going through the pending writes"
		}
		for _, s := range cr.Loop.Steps {
			if !c.mB("out(leveldb.Batch.Put(?b,next(range($0.cache))#2.K,next(range($0.cache))#2.V))", cr.Next(s), eng.Bind{"b": cr.Cur}) {
				return "a pending write goes into the batch as " + short(cr.Next(s))
			}
		}
		if !c.has(o.St, "not(next(range($0.cache))#0)") {
			return "some pending writes can be left out of the batch"
		}
		return ""
	})
	c.NonEmpty("one-batch", c.Outs)
	for _, n := range []string{"db.LevelDbStorageTx.Put", "db.LevelDbStorageTx.Add", "db.LevelDbStorageTx.Close", "db.LevelDbStorageTx.Get"} {
		f := r.F(n)
		f.NoCall("nothing-before-commit", f.Outs, "leveldb.DB.Write(...)", "leveldb.DB.Put(...)", "leveldb.DB.Delete(...)")
	}
	p := r.F("db.LevelDbStorageTx.Put")
	p.Table("put", p.Outs, m.rows("put => => => ev:mapupd($0.cache, ~H, agg(~KEY,$2))")...)
	a := r.F("db.LevelDbStorageTx.Add")
	m2 := m.with("N", "next(range(?m))#2")
	a.eachStep("add-all", a.Outs, "next(range(_))#0", "not(next(range(_))#0)", m2.rows("kv => next(range(?m))#0 => => ev:mapupd($0.cache, sha256.Sum256(~N.K), or(agg(~N.K,~N.V),~N))")...)
	a.Each("add-other", a.Outs, func(o *eng.Out) string {
		for _, h := range a.Hits(o, "ev:mapupd(...)") {
			if _, ok := a.mb("_", h.E.Args[1]); ok && !h.E.Args[1].Any(func(t *Term) bool { return t.Op == "sel" && t.Aux == "cache" && a.m("has($1)", t) }) {
				return "the writes added are not those of the other transaction: " + short(h.E.Args[1])
			}
		}
		return ""
	})
	g := r.F("db.LevelDbStorageTx.Get")
	g.Table("read-own-writes", g.Outs, m.rows(
		"pending => has($0.cache,~H) => lookup($0.cache,~H).V; nil",
		"absent => not(has($0.cache,~H)); eq(~LGET#1, @errors.ErrNotFound) => nil; @db.ErrNotFound",
		"stored => not(has($0.cache,~H)) => ~LGET#0; ~LGET#1",
	)...)
	sg := r.F("db.LevelDbStorage.Get")
	sg.Table("get", sg.Outs, m.rows(
		"absent => eq(~LGET#1, @errors.ErrNotFound) => nil; @db.ErrNotFound",
		"stored => not(eq(~LGET#1, @errors.ErrNotFound)) => ~LGET#0; ~LGET#1",
	)...)
	// memory
	mc := r.F("db.MemoryStorageTx.Commit", "!load:none")
	mc.eachStep("commit-all", mc.Outs, "next(range($0.kv))#0", "not(next(range($0.kv))#0)",
		rows("kv => next(range($0.kv))#0 => => ev:mapupd($0.s.kv, sha256.Sum256(next(range($0.kv))#2.K), agg(next(range($0.kv))#2.K,next(range($0.kv))#2.V)) | ev:mapupd($0.s.kv, sha256.Sum256(next(range($0.kv))#2.K), next(range($0.kv))#2)")...)
	mc.Ret("commit-ok", mc.Outs, 0, "nil")
	mc.lockDisc("commit-lock", mc.Outs, "$0.s.mutex", nil, []string{"ev:mapupd($0.s.kv,...)"})
	for _, n := range []string{"db.MemoryStorageTx.Put", "db.MemoryStorageTx.Add", "db.MemoryStorageTx.Close", "db.MemoryStorageTx.Get", "db.MemoryStorage.NewTx"} {
		f := r.F(n)
		f.NoCall("nothing-before-commit", f.Outs, "ev:mapupd($0.s.kv,...)", "ev:mapupd($0.kv.s,...)", "ev:mapdel(...)")
	}
	mp := r.F("db.MemoryStorageTx.Put")
	mp.Table("put", mp.Outs, m.rows("put => => => ev:mapupd($0.kv, ~MH, agg(~MKEY,$2))")...)
	ma := r.F("db.MemoryStorageTx.Add")
	ma.eachStep("add-all", ma.Outs, "next(range(_))#0", "not(next(range(_))#0)", m2.rows("kv => next(range(?m))#0 => => ev:mapupd($0.kv, sha256.Sum256(~N.K), or(agg(~N.K,~N.V),~N))")...)
	mg := r.F("db.MemoryStorageTx.Get", "!load:none")
	mg.Table("read-own-writes", mg.Outs, m.rows(
		"pending => has($0.kv,~MH) => lookup($0.kv,~MH).V; nil",
		"stored => not(has($0.kv,~MH)); has($0.s.kv,~MH) => lookup($0.s.kv,~MH).V; nil",
		"absent => not(has($0.kv,~MH)); not(has($0.s.kv,~MH)) => nil; @db.ErrNotFound",
	)...)
	mg.lockDisc("get-lock", mg.Outs, "$0.s.mutex", []string{"ev:load($0.s.kv,...)"}, nil)
	ms := r.F("db.MemoryStorage.Get", "!load:none")
	ms.Table("get", ms.Outs, m.rows(
		"stored => has($0.kv,~MH) => lookup($0.kv,~MH).V; nil",
		"absent => not(has($0.kv,~MH)) => nil; @db.ErrNotFound",
	)...)
	ms.lockDisc("get-lock", ms.Outs, "$0.mutex", []string{"ev:load($0.kv,...)"}, nil)
	// the transaction starts empty and belongs to the storage
	for n, sel := range map[string]string{"db.LevelDbStorage.NewTx": "cache", "db.MemoryStorage.NewTx": "kv"} {
		f := r.F(n)
		f.NonEmpty("new-tx", f.Succ)
		f.Each("new-tx", f.Succ, func(o *eng.Out) string {
			t := o.Res[0]
			ptr := "LevelDbStorage"
			if sel == "kv" {
				ptr = "s"
			}
			if !f.m("$0", f.sel(t, ptr)) {
				return "the transaction belongs to " + short(f.sel(t, ptr))
			}
			if c := f.sel(t, sel); !f.m("or(mempty(), makemap(), zero())", c) && c.Op != "mempty" && c.Op != "makemap" && c.Op != "alloc" {
				return "the transaction does not start empty: " + short(c)
			}
			return ""
		})
	}
	// prefixes
	w := r.F("db.LevelDbStorage.WithPrefix")
	w.Each("prefix", w.Outs, func(o *eng.Out) string {
		t := o.Res[0]
		if !w.m("$0.ldb", w.sel(t, "ldb")) || !w.m("cat($0.prefix,$1)", w.sel(t, "prefix")) {
			return "the prefixed storage is " + short(t)
		}
		return ""
	})
	w.NonEmpty("prefix", w.Outs)
	w2 := r.F("db.MemoryStorage.WithPrefix")
	w2.Each("prefix", w2.Outs, func(o *eng.Out) string {
		t := o.Res[0]
		if !w2.m("$0.kv", w2.sel(t, "kv")) || !w2.m("$0.mutex", w2.sel(t, "mutex")) || !w2.m("cat($0.prefix,$1)", w2.sel(t, "prefix")) {
			return "the prefixed storage is " + short(t)
		}
		return ""
	})
	w2.NonEmpty("prefix", w2.Outs)
	// what a closed transaction held is gone
	for n, fl := range map[string]string{"db.LevelDbStorageTx.Close": "cache", "db.MemoryStorageTx.Close": "kv"} {
		f := r.F(n)
		f.NonEmpty("close-drops", f.Outs)
		f.Each("close-drops", f.Outs, func(o *eng.Out) string {
			if v := f.lastStore(o, "at($0."+fl+")"); v == nil || !(f.m("0", f.X.In.Len(v)) || f.X.NilState(o.St, v) == 1) {
				return "the writes of a closed transaction are kept and a later commit stores them"
			}
			return ""
		})
	}
	cl := r.F("db.LevelDbStorage.Close")
	cl.Each("close", cl.Outs, func(o *eng.Out) string {
		if e := "eq(leveldb.DB.Close($0.ldb),nil)"; o.Kind == "return" && !cl.Holds(o, e) || o.Kind == "panic" && cl.Holds(o, e) {
			return "closing fails although it succeeded, or the other way round" + cl.pathDesc(o)
		}
		return ""
	})
	// iteration
	it := r.F("db.LevelDbStorage.Iterate")
	m3 := mac{"I": "leveldb.Snapshot.NewIterator(leveldb.DB.GetSnapshot($0.ldb)#0,util.BytesPrefix($0.prefix),_)"}
	m3["CALL"] = "dyn($1,sub(iterator.Iterator.Key(~I),len($0.prefix),_),iterator.Iterator.Value(~I))"
	it.Table("iterate", it.Outs, m3.rows(
		"no snapshot => not(eq(leveldb.DB.GetSnapshot($0.ldb)#1,nil)) => leveldb.DB.GetSnapshot($0.ldb)#1",
		"exhausted => not(iterator.Iterator.Next(~I)) => iterator.Iterator.Error(~I)",
		"stopped => eq(~CALL#1,nil); not(~CALL#0) => or(iterator.Iterator.Error(~I),nil)",
		"callback failed => not(eq(~CALL#1,nil)) => ~CALL#1",
	)...)
	it.Each("iterate-all", it.Outs, func(o *eng.Out) string {
		for _, l := range it.loops(o) {
			for _, s := range l.Steps {
				if !it.has(s.St, m3.x("~CALL#0")) || !it.has(s.St, m3.x("eq(~CALL#1,nil)")) {
					return "an entry is passed over without handing it to the callback" + stepDesc(s)
				}
			}
		}
		return ""
	})
	mi := r.F("db.MemoryStorage.Iterate", "!load:none")
	mi.lockDisc("iterate-lock", mi.Outs, "$0.mutex", []string{"ev:load($0.kv,...)"}, nil)
	mi.Each("iterate", mi.Outs, func(o *eng.Out) string {
		if !mi.has(o.St, "not(next(range($0.kv))#0)") {
			return "some keys are not looked at"
		}
		var list *Carried
		for _, l := range mi.loops(o) {
			for _, s := range l.Steps {
				if mi.has(s.St, "next(range($0.kv))#0") {
					var cs []*Carried
					for loc := range l.MemInit {
						if c := mi.carriedLoc(l, loc); c != nil && c.Cur.Op == "loopmem" {
							cs = append(cs, c)
						}
					}
					for i, p := range l.Phis {
						cs = append(cs, &Carried{l, l.Init[i], p, i, nil})
					}
					for _, c := range cs {
						if mi.has(s.St, "eq(sub(next(range($0.kv))#2.K,0,len($0.prefix)),$0.prefix)") && mi.mB("cat(?l,elem1(agg(sub(next(range($0.kv))#2.K,len($0.prefix),_),next(range($0.kv))#2.V)))", c.Next(s), eng.Bind{"l": c.Cur}) {
							list = c
						}
					}
				}
			}
			if list != nil && list.Loop == l {
				for _, s := range l.Steps {
					in := mi.has(s.St, "eq(sub(next(range($0.kv))#2.K,0,len($0.prefix)),$0.prefix)")
					out := mi.has(s.St, "not(eq(sub(next(range($0.kv))#2.K,0,len($0.prefix)),$0.prefix)) | lt(len(next(range($0.kv))#2.K),len($0.prefix)) | not(bytes.HasPrefix(next(range($0.kv))#2.K,$0.prefix))")
					if !(in && list.Next(s) != list.Cur || out && list.Next(s) == list.Cur) {
						return "keys with and without the prefix are not told apart" + stepDesc(s)
					}
				}
			}
		}
		if list == nil {
			return "the keys with the prefix are not collected with the prefix removed"
		}
		sorted := false
		for _, h := range mi.Flat(o) {
			if h.E.Kind == "call" && (h.E.Name == "sort.SliceStable" || h.E.Name == "sort.Slice") && len(h.E.CB) == 1 {
				c := h.E.CB[0]
				sorted = len(c.Res) == 1
				// a comparison of bytes is of the first with the second
				if sorted {
					var cmp *Term
					c.Res[0].Any(func(t *Term) bool {
						if t.Op == "cmp3" {
							cmp = t
						}
						return false
					})
					if cmp != nil {
						b, ok := mi.mb("cmp3(?l[?a].K,?l[?b].K)", cmp)
						less := mi.X.In.Lt(cmp, mi.X.In.Int(0))
						if ok && strings.HasSuffix(b["a"].String(), ":1") && strings.HasSuffix(b["b"].String(), ":0") {
							less = mi.X.In.Lt(mi.X.In.Int(0), cmp)
						} else if !ok || !strings.HasSuffix(b["a"].String(), ":0") || !strings.HasSuffix(b["b"].String(), ":1") {
							return "the keys are ordered by " + short(c.Res[0])
						}
						if c.Res[0] != less {
							return "the keys are ordered by " + short(c.Res[0])
						}
					} else if c.Res[0].Any(func(t *Term) bool { return t.Op == "len" || t.Op == "const" }) {
						return "the keys are ordered by " + short(c.Res[0])
					}
				}
			}
			if h.E.Kind == "call" && h.E.Name == "slices.SortFunc" {
				sorted = true
			}
		}
		if !sorted {
			return "the keys are not visited in order"
		}
		return ""
	})
	mi.Each("iterate-stop", mi.Outs, func(o *eng.Out) string {
		for _, l := range mi.loops(o) {
			for _, s := range l.Steps {
				for _, e := range s.Events {
					if e.Name == "dyn" && (!mi.has(s.St, "dyn($1,_,_)#0") || !mi.has(s.St, "eq(dyn($1,_,_)#1,nil)")) {
						return "the iteration goes on although the callback stopped it" + stepDesc(s)
					}
				}
			}
		}
		return ""
	})
	it.NotAfter("iterate-open", it.Outs, "iterator.Iterator.Release(_)", "iterator.Iterator.Next(_)")
	it.NotAfter("iterate-open", it.Outs, "leveldb.Snapshot.Release(_)", "iterator.Iterator.Next(_)")
	mi.Each("iterate-result", mi.Outs, func(o *eng.Out) string {
		switch {
		case mi.X.NilState(o.St, o.Res[0]) != 1:
			if !mi.m("dyn($1,_,_)#1", o.Res[0]) {
				return "the result is " + short(o.Res[0])
			}
		case mi.has(o.St, "not(dyn($1,_,_)#0)"):
		default:
			for _, l := range mi.loops(o) {
				for _, s := range l.Steps {
					for _, e := range s.Events {
						if e.Name != "dyn" || len(e.Args) != 3 {
							continue
						}
						b, ok := mi.mb("?l[?i].K", e.Args[1])
						if ok && mi.X.Decide(o.St, mi.X.In.Le(mi.X.In.Len(b["l"]), b["i"])) == 1 {
							return ""
						}
					}
				}
			}
			return "the iteration ends without error before the last key" + mi.pathDesc(o)
		}
		return ""
	})
	for _, n := range []string{"db.LevelDbStorage.List", "db.MemoryStorage.List"} {
		f := r.F(n)
		f.Each("list", f.Outs, func(o *eng.Out) string { return f.listCB(o) })
		f.NonEmpty("list", f.Outs)
	}
	// what an iteration hands out is only valid during the callback
	cbs := r.iterationCallbacks()
	for cb, pos := range cbs {
		for _, p := range cb.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				d := r.retains(p, 0, map[ssa.Value]bool{})
				r.Ob("callback-copies", r.P.Name(cb)+" "+p.Name(), d == "", pos, "the memory handed to the callback is kept without copying it: "+d)
			}
		}
	}
}

// listCB: the listing appends every pair it is handed and stops exactly at the limit.
func (f *F) listCB(o *eng.Out) string {
	for _, l := range f.loops(o) {
		for loc := range l.MemInit {
			c := f.carriedLoc(l, loc)
			if c == nil {
				continue
			}
			collects := false
			for _, s := range l.Steps {
				b, ok := f.X.Match(eng.P("cat(?l,elem1(agg(sub(?k,len($0.prefix),_),?v)))"), c.Next(s), eng.Bind{"l": c.Cur})
				if ok && !f.mB("or(iterator.Iterator.Key(?it),next(_)#2.K)", b["k"], eng.Bind{}) {
					return "the keys listed are " + short(b["k"])
				}
				if ok && b["k"].Op == "call" && !f.mB("iterator.Iterator.Value(?it)", b["v"], eng.Bind{"it": b["k"].Args[0]}) {
					return "the value listed with a key is " + short(b["v"])
				}
				if !ok {
					b, ok = f.X.Match(eng.P("cat(?l,elem1(agg(?m[?i].K,?m[?i].V)))"), c.Next(s), eng.Bind{"l": c.Cur})
				}
				if k := b["k"]; ok && k != nil && k.Any(func(t *Term) bool { return t.Op == "next" }) {
					continue // the collection of the keys with the prefix
				}
				if !ok && !collects {
					continue
				}
				if !ok {
					return "a pair is not listed" + stepDesc(s)
				}
				collects = true
				if !f.holdsAll(s.St, "not(eq(add(len(?l),1),$1))", eng.Bind{"l": c.Cur}) {
					return "the listing goes on without looking at the limit" + stepDesc(s)
				}
				// results: the list so far, or with the last element
				switch {
				case o.Res[0] == c.Cur:
				case o.Res[0] != c.Next(s):
					return "the listing returns " + short(o.Res[0])
				case f.X.NilState(o.St, o.Res[1]) == 1 && !f.holdsAll(o.St, "eq(add(len(?l),1),$1)", eng.Bind{"l": c.Cur}):
					return "the listing stops early" + f.pathDesc(o)
				}
			}
			if collects {
				return ""
			}
		}
	}
	if len(f.loops(o)) > 0 {
		return "the pairs are not collected"
	}
	return ""
}

func c08(r *R) {
	r.sharedAppends("shared-append", "db.Storage", "db.S", "db.L")
	// a stored number
	set, get := r.F("db.StorageValue.Set"), r.F("db.StorageValue.Get")
	if !set.ok() || !get.ok() {
		return
	}
	set.Table("value-set", set.Outs, rows("set => => => db.Tx.Put($1,$0.dbKey,or(le($2),be($2)))")...)
	get.Table("value-get", get.Outs, rows(
		"missing => not(eq(db.Tx.Get($1,$0.dbKey)#1,nil)) => _; db.Tx.Get($1,$0.dbKey)#1",
		"found => eq(db.Tx.Get($1,$0.dbKey)#1,nil) => or(unle(sub(?v,0,4)),unbe(sub(?v,0,4)),unle(db.Tx.Get($1,$0.dbKey)#0),unbe(db.Tx.Get($1,$0.dbKey)#0)); nil",
	)...)
	order := func(f *F, ops ...string) string {
		for _, o := range f.Outs {
			var ts []*Term
			ts = append(ts, o.Res...)
			for _, h := range f.Flat(o) {
				ts = append(ts, h.E.Args...)
			}
			for _, t := range ts {
				for _, op := range ops {
					if t.Any(func(u *Term) bool { return u.Op == op && len(u.Args) == 1 }) {
						return op
					}
				}
			}
		}
		return "?"
	}
	w, rd := order(set, "le", "be"), order(get, "unle", "unbe")
	r.Ob("value-codec", "db.StorageValue", "un"+w == rd, set.pos(set.Fn.Pos()), "the value is written as "+w+" and read as "+rd)

	// a stored list: the entry, its place and the new length
	m := mac{
		"LEN":  "or(unle(sub(~LG#0,0,4)),unbe(sub(~LG#0,0,4)),db.StorageValue.Get($0.length,$1)#0)",
		"LG":   "db.Tx.Get($1,$0.length.dbKey)",
		"IDX":  "or(le(~LEN),be(~LEN))",
		"NEW":  "or(le(add(unle(sub(~LG#0,0,4)),1)),be(add(unbe(sub(~LG#0,0,4)),1)))",
		"JSON": "json.Marshal($3)#0",
	}
	a := r.F("db.StorageList.Append", "-db.StorageValue.Get", "-db.StorageValue.Set")
	puts := []string{
		"db.Tx.Put($1,cat($0.dbPrefixList,$2),~JSON)",
		"db.Tx.Put($1,cat($0.dbPrefixListByIdx,?i),$2)",
		"db.Tx.Put($1,$0.length.dbKey,?n)",
	}
	a.NonEmpty("append", a.Succ)
	a.Each("append", a.Succ, func(o *eng.Out) string {
		b := eng.Bind{}
		for _, p := range puts {
			hs := a.HitsB(o, m.x(p), b)
			if len(hs) != 1 {
				return "appending does not do " + p + " once"
			}
			for k, v := range hs[0].B {
				b[k] = v
			}
		}
		if n := len(a.Hits(o, "db.Tx.Put(...)")); n != 3 {
			return "appending writes something else too"
		}
		// the place is the length read, the length written is one more
		i, n := b["i"], b["n"]
		if n.Op != w || len(n.Args) != 1 {
			return "the new length is written as " + short(n)
		}
		l := n.Args[0]
		if l.Op == "trunc" { // four thousand million entries later
			l = l.Args[0]
		}
		l = a.X.In.AddC(l, -1)
		if !a.m(m.x("or(unle(sub(~LG#0,0,4)),unbe(sub(~LG#0,0,4)),unle(~LG#0),unbe(~LG#0))"), l) {
			return "the new length is " + short(n.Args[0])
		}
		if i != a.X.In.NumBytes(w, int64(n.N), l) {
			return "the place of the entry is " + short(i) + ", the length " + short(l)
		}
		for _, p := range []string{"eq(~LG#1,nil)", "eq(json.Marshal($3)#1,nil)"} {
			if !a.has(o.St, m.x(p)) {
				return "a failure is ignored: " + p
			}
		}
		return ""
	})
	a.NoCall("append-nothing-on-failure", a.Fail, "db.Tx.Put(...)")
	in := r.F("db.StorageList.Init")
	in.Table("init", in.Outs, rows("empty => => => db.Tx.Put($1,$0.length.dbKey,_)")...)
	in.Each("init", in.Outs, func(o *eng.Out) string {
		for _, h := range in.Hits(o, "db.Tx.Put($1,$0.length.dbKey,?v)") {
			v := h.B["v"]
			if v.Op != "zero" && !(len(v.Args) == 1 && in.m("0", v.Args[0])) && !in.m("cat(elem1(0),elem1(0),elem1(0),elem1(0))", v) {
				return "a new list has length " + short(v)
			}
		}
		return ""
	})
	g := r.F("db.StorageList.Get")
	JG := "db.Tx.Get($1,cat($0.dbPrefixList,$2))"
	g.Table("get", g.Outs, rows(
		"missing => not(eq("+JG+"#1,nil)) => "+JG+"#1",
		"parsed => eq("+JG+"#1,nil) => json.Unmarshal("+JG+"#0,$3)",
	)...)
	gi := r.F("db.StorageList.GetByIdx", "-db.StorageList.Get")
	mi := mac{"K": "db.Tx.Get($1,cat($0.dbPrefixListByIdx,or(" + w + "($2))))", "J": "db.Tx.Get($1,cat($0.dbPrefixList,~K#0))"}
	gi.Table("get-by-index", gi.Outs, mi.rows(
		"missing => not(eq(~K#1,nil)) => _; ~K#1",
		"no entry => eq(~K#1,nil); not(eq(~J#1,nil)) => _; ~J#1",
		"found => eq(~K#1,nil); eq(~J#1,nil) => ~K#0; json.Unmarshal(~J#0,$3)",
	)...)
	l := r.F("db.StorageList.Length", "-db.StorageValue.Get")
	l.Table("length", l.Outs, rows(
		"missing => not(eq(db.Tx.Get($1,$0.length.dbKey)#1,nil)) => _; db.Tx.Get($1,$0.length.dbKey)#1",
		"found => eq(db.Tx.Get($1,$0.length.dbKey)#1,nil) => or(un"+w+"(_)); nil",
	)...)
	// the three kinds of keys do not collide
	n := r.F("db.NewStorageList", "-db.NewStorageValue")
	n.Each("disjoint-keys", n.Outs, func(o *eng.Out) string {
		t := o.Res[0]
		var ks []string
		for _, k := range []*Term{n.sel(n.sel(t, "length"), "dbKey"), n.sel(t, "dbPrefixList"), n.sel(t, "dbPrefixListByIdx")} {
			b, ok := n.mb("cat($0,?s)", k)
			if !ok {
				return "the keys of the list do not start with its prefix: " + short(k)
			}
			s, err := strconv.Unquote(b["s"].Aux)
			if err != nil || s == "" {
				return "the key is " + short(k)
			}
			ks = append(ks, s)
		}
		for i, a := range ks {
			for j, b := range ks {
				if i != j && strings.HasPrefix(a, b) {
					return "the keys " + a + " and " + b + " can collide"
				}
			}
		}
		return ""
	})
	n.NonEmpty("disjoint-keys", n.Outs)
	// json values
	s := r.F("db.StoreJSON")
	s.Table("store-json", s.Outs, rows(
		"stored => eq(json.Marshal($2)#1,nil) => nil => db.Tx.Put($0,$1,json.Marshal($2)#0)",
		"unmarshalable => not(eq(json.Marshal($2)#1,nil)) => json.Marshal($2)#1 => => db.Tx.Put(...)",
	)...)
	ld := r.F("db.LoadJSON")
	ld.Table("load-json", ld.Outs, rows(
		"missing => not(eq(db.Storage.Get($0,$1)#1,nil)) => db.Storage.Get($0,$1)#1",
		"parsed => eq(db.Storage.Get($0,$1)#1,nil) => json.Unmarshal(db.Storage.Get($0,$1)#0,$2)",
	)...)
}
