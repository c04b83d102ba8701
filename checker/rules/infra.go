// Package rules states the properties as rules over the summaries computed by eng.
package rules

import (
	_ "embed"
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

//go:embed baseline.txt
var baselineText string

func init() { eng.Baseline = baselineText }

// knownFuncs are the functions of the module at the analysed base.  A call from another
// package to one of its exported functions is kept as a primitive (it has rules of its own);
// anything not in the list (a helper extracted later) is always looked into.
var knownFuncs = func() map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Split(baselineText, "\n") {
		if f := strings.Fields(l); len(f) == 4 && f[0] == "F" {
			m[f[1]+"."+f[2]] = true
		}
	}
	return m
}()

type Check struct {
	ID    string
	Title string
	Run   func(r *R)
}

var Checks []*Check

func register(id, title string, run func(r *R)) {
	Checks = append(Checks, &Check{id, title, run})
}

func Find(id string) *Check {
	for _, c := range Checks {
		if c.ID == id {
			return c
		}
	}
	return nil
}

// Ob is one discharged or failed obligation: a rule applied to one construct.
type Ob struct {
	Rule, Construct, Pos, Detail string
	OK                           bool
}

type R struct {
	P     *eng.Program
	ID    string
	Obs   []*Ob
	byKey map[string]*Ob
	Fns   map[string]int // function -> path classes
	cache map[string]*F
	Notes []string
}

func NewR(p *eng.Program, id string) *R {
	return &R{P: p, ID: id, byKey: map[string]*Ob{}, Fns: map[string]int{}, cache: map[string]*F{}}
}

// Ob records an obligation; several paths of the same construct share one key.
func (r *R) Ob(rule, construct string, ok bool, pos string, detail string) bool {
	k := rule + "|" + construct
	o := r.byKey[k]
	if o == nil {
		o = &Ob{Rule: rule, Construct: construct, Pos: pos, OK: true}
		r.byKey[k] = o
		r.Obs = append(r.Obs, o)
	}
	if !ok && o.OK {
		o.OK, o.Pos, o.Detail = false, pos, detail
	}
	return ok
}

func (r *R) Violations() []*Ob {
	var v []*Ob
	for _, o := range r.Obs {
		if !o.OK {
			v = append(v, o)
		}
	}
	return v
}

// F is the summary of one function.
type F struct {
	r          *R
	Name       string
	Fn         *ssa.Function
	X          *eng.Exec
	Outs       []*eng.Out
	Succ, Fail []*eng.Out // split on the error result
	Err        error
}

// Default readers: interface methods that observe state without changing it.
var readers = map[string]bool{
	"db.Storage.Get": true, "db.Tx.Get": true, "db.Storage.Info": true, "db.Storage.Iterate": true, "db.Storage.List": true,
	"db.LevelDbStorage.Get": true, "db.MemoryStorage.Get": true,
	"idenpubonchain.IdenPubOnChainer.GetState": true, "idenpubonchain.IdenPubOnChainer.GetStateByBlock": true, "idenpubonchain.IdenPubOnChainer.GetStateByTime": true,
	"idenpuboffchain.IdenPubOffChainReader.GetPublicData": true, "idenpubonchain.IdenPubOnChainer.TxConfirmBlocks": true,
	"claims.Claimer.Metadata": true, "claims.Claim.Metadata": true,
	"issuer.Issuer.ID": true,
}

// sameOpaque: exported primitives kept uninterpreted inside their own package as well.
var sameOpaque = map[string]bool{
	"merkletree.HashElems": true, "merkletree.HashElemsKey": true, "merkletree.NewHashFromBigInt": true,
}

// inlined: comparisons are what they compare, numbers are the bytes they are written in, wherever they are called.
var inlined = map[string]bool{"merkletree.Hash.Equals": true, "core.ID.Equal": true, "core.ID.Equals": true,
	"merkletree.Entry.HiHv": true,
	"common.Uint32ToBytes": true, "common.BytesToUint32": true, "common.EthBytesToUint32": true, "common.EthBytesToUint64": true}

func opaqueDefault(p *eng.Program, root *ssa.Function, extra map[string]int) func(fn *ssa.Function, name string) bool {
	rp := root.Pkg
	return func(fn *ssa.Function, name string) bool {
		if v, ok := extra[name]; ok {
			return v > 0
		}
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			return false
		}
		if !knownFuncs[name] || inlined[name] {
			return false
		}
		if fn.Pkg != rp {
			return true
		}
		return sameOpaque[name]
	}
}

// F summarises function name. opts: "pkg.Fn" keep opaque; "-pkg.Fn" inline; "!bounds"; "!load:f1,f2"; "!nounroll".
func (r *R) F(name string, opts ...string) *F {
	key := name + " " + strings.Join(opts, " ")
	if f, ok := r.cache[key]; ok {
		return f
	}
	fn := r.P.Func(name)
	f := &F{r: r, Name: name, Fn: fn}
	r.cache[key] = f
	if fn == nil {
		f.Err = fmt.Errorf("function not found")
		r.Ob("anchor", name, false, "?", "the function this rule is about is not in the program")
		return f
	}
	extra := map[string]int{}
	allKnown := false // every function that exists in the analysed base is a primitive
	cfg := eng.Config{Reader: func(n string) bool { return readers[n] }}
	for _, o := range opts {
		switch {
		case o == "!consts":
			cfg.Consts = true
		case o == "!known":
			allKnown = true
		case o == "!bounds":
			cfg.Bounds = true
		case o == "!nounroll":
			cfg.NoUnroll = true
		case strings.HasPrefix(o, "!load:"):
			fs := map[string]bool{}
			for _, s := range strings.Split(o[6:], ",") {
				fs[s] = true
			}
			cfg.WatchLoad = func(loc *eng.Term) bool { return loc.Op == "fa" && fs[loc.Aux] }
		case strings.HasPrefix(o, "-"):
			extra[o[1:]] = -1
		default:
			extra[o] = 1
		}
	}
	cfg.Opaque = opaqueDefault(r.P, fn, extra)
	if allKnown {
		cfg.Opaque = func(fn *ssa.Function, name string) bool { return fn.Parent() == nil && knownFuncs[name] }
	}
	f.X = eng.NewExec(r.P, cfg)
	f.Outs, f.Err = f.X.Run(fn)
	if f.Err != nil {
		r.Ob("analysis", name, false, r.P.Pos(fn.Pos()), "not analysable: "+f.Err.Error())
		return f
	}
	r.Fns[name] = len(f.Outs)
	res := fn.Signature.Results()
	if n := res.Len(); n > 0 && res.At(n-1).Type().String() == "error" {
		f.Succ, f.Fail = f.X.SplitErr(f.Outs)
	} else {
		for _, o := range f.Outs {
			if o.Kind == "return" {
				f.Succ = append(f.Succ, o)
			}
		}
	}
	return f
}

func (f *F) pos(p token.Pos) string {
	if !p.IsValid() && f.Fn != nil {
		p = f.Fn.Pos()
	}
	return f.r.P.Pos(p)
}

func (f *F) ok() bool { return f.Err == nil }

// Each applies pred to every path class; a non-empty string is a failure.
func (f *F) Each(rule string, outs []*eng.Out, pred func(o *eng.Out) string) bool {
	if !f.ok() {
		return false
	}
	all, bad := true, 0
	f.r.Ob(rule, f.Name, true, f.pos(token.NoPos), "")
	for _, o := range outs {
		if d := pred(o); d != "" {
			all = false
			f.r.Ob(rule, f.Name, false, f.pos(o.Pos), d)
			if bad++; bad == 4 {
				break // enough to report
			}
		}
	}
	return all
}

// NonEmpty requires at least one path class of the kind (so that rules are not vacuous).
func (f *F) NonEmpty(rule string, outs []*eng.Out) bool {
	if !f.ok() {
		return false
	}
	return f.r.Ob(rule+"/exists", f.Name, len(outs) > 0, f.pos(token.NoPos), "no path of "+f.Name+" ends this way")
}

// Must: on every path in outs, each fact pattern is established (alternatives separated by " | ").
func (f *F) Must(rule string, outs []*eng.Out, pats ...string) bool {
	if !f.NonEmpty(rule, outs) {
		return false
	}
	return f.Each(rule, outs, func(o *eng.Out) string {
		for _, p := range pats {
			if !f.Holds(o, p) {
				return "a path reaches this return without establishing " + p + f.pathDesc(o)
			}
		}
		return ""
	})
}

func (f *F) Holds(o *eng.Out, p string) bool {
	for _, alt := range strings.Split(p, " | ") {
		if f.X.Holds(o.St, strings.TrimSpace(alt), eng.Bind{}) {
			return true
		}
	}
	return false
}

func (f *F) pathDesc(o *eng.Out) string {
	var s []string
	for _, c := range o.St.Facts {
		t := c.String()
		if len(t) > 160 {
			t = t[:160] + "~"
		}
		s = append(s, t)
	}
	if len(s) > 14 {
		s = append(s[:14], "...")
	}
	return " [path: " + strings.Join(s, "; ") + "]"
}

// Hit is one event matching a call pattern.
type Hit struct {
	E    *eng.Event
	St   *eng.State
	I    int // position in the flattened event order
	B    eng.Bind
	Step *eng.Step
	CB   bool // inside a closure handed to an opaque callee
}

// Flat lists the events of o in order, descending into loop iterations and callbacks.
func (f *F) Flat(o *eng.Out) []Hit {
	var hs []Hit
	var rec func(evs []*eng.Event, st *eng.State, step *eng.Step, cb bool)
	rec = func(evs []*eng.Event, st *eng.State, step *eng.Step, cb bool) {
		for _, e := range evs {
			hs = append(hs, Hit{E: e, St: st, I: len(hs), Step: step, CB: cb})
			if e.Kind == "loop" {
				for _, s := range e.Loop.Steps {
					rec(s.Events, s.St, s, cb)
				}
				continue
			}
			for _, c := range e.CB {
				rec(c.St.Events, c.St, step, true)
			}
		}
	}
	rec(o.St.Events, o.St, nil, false)
	return hs
}

func (f *F) evTerm(e *eng.Event) *eng.Term {
	switch e.Kind {
	case "call", "append":
		return e.Res
	}
	return f.X.In.Mk("ev", e.Kind, e.Args...)
}

// Hits finds the events matching pat: a call pattern "pkg.Fn(a,b)", or "ev:store(loc,val)" etc.
func (f *F) Hits(o *eng.Out, pat string) []Hit { return f.HitsB(o, pat, eng.Bind{}) }

func (f *F) HitsB(o *eng.Out, pat string, b eng.Bind) []Hit {
	var hs []Hit
	kind := ""
	p := pat
	if strings.HasPrefix(pat, "ev:") {
		i := strings.IndexByte(pat, '(')
		kind = pat[3:i]
		p = "ev" + pat[i:]
	}
	pt := eng.P(p)
	for _, h := range f.Flat(o) {
		if kind != "" {
			if h.E.Kind != kind {
				continue
			}
			t := f.X.In.Mk("ev", kind, h.E.Args...)
			if nb, ok := f.X.Match(pt, t, b); ok {
				h.B = nb
				hs = append(hs, h)
			}
			continue
		}
		if h.E.Kind != "call" || h.E.Res == nil {
			continue
		}
		if nb, ok := f.X.Match(pt, h.E.Res, b); ok {
			h.B = nb
			hs = append(hs, h)
		}
	}
	return hs
}

// MustCall: every path performs a call matching pat (alternatives " | ").
func (f *F) MustCall(rule string, outs []*eng.Out, pats ...string) bool {
	if !f.NonEmpty(rule, outs) {
		return false
	}
	return f.Each(rule, outs, func(o *eng.Out) string {
		for _, p := range pats {
			found := false
			for _, alt := range strings.Split(p, " | ") {
				if len(f.Hits(o, strings.TrimSpace(alt))) > 0 {
					found = true
				}
			}
			if !found {
				return "a path reaches this return without " + p + f.pathDesc(o)
			}
		}
		return ""
	})
}

// NoCall: no path performs an event matching pat.
func (f *F) NoCall(rule string, outs []*eng.Out, pats ...string) bool {
	return f.Each(rule, outs, func(o *eng.Out) string {
		for _, p := range pats {
			if h := f.Hits(o, p); len(h) > 0 {
				return fmt.Sprintf("%s at %s happens on a path where it must not%s", p, f.pos(h[0].E.Pos), f.pathDesc(o))
			}
		}
		return ""
	})
}

// Guard: whenever an event matches pat, the given facts (over pat's variables) were already established.
func (f *F) Guard(rule string, outs []*eng.Out, pat string, facts ...string) bool {
	return f.Each(rule, outs, func(o *eng.Out) string {
		for _, h := range f.Hits(o, pat) {
			for _, fp := range facts {
				ok := false
				for _, alt := range strings.Split(fp, " | ") {
					if _, y := f.X.FindFactN(h.St, h.E.NF, strings.TrimSpace(alt), h.B); y {
						ok = true
						break
					}
				}
				if !ok {
					return fmt.Sprintf("%s at %s is reached without %s%s", pat, f.pos(h.E.Pos), fp, f.pathDesc(o))
				}
			}
		}
		return ""
	})
}

// Exists: some path contains an event matching pat (so that Guard/Before are not vacuous).
func (f *F) Exists(rule string, outs []*eng.Out, pat string) bool {
	if !f.ok() {
		return false
	}
	for _, o := range outs {
		if len(f.Hits(o, pat)) > 0 {
			return f.r.Ob(rule+"/exists", f.Name+" "+pat, true, f.pos(token.NoPos), "")
		}
	}
	return f.r.Ob(rule+"/exists", f.Name+" "+pat, false, f.pos(token.NoPos), "no path of "+f.Name+" performs "+pat)
}

// Before: every event matching b is preceded by one matching a (with b's variables).
func (f *F) Before(rule string, outs []*eng.Out, a, b string) bool {
	return f.Each(rule, outs, func(o *eng.Out) string {
		for _, h := range f.Hits(o, b) {
			ok := false
			for _, alt := range strings.Split(a, " | ") {
				for _, g := range f.HitsB(o, strings.TrimSpace(alt), h.B) {
					if g.I < h.I {
						ok = true
					}
				}
			}
			if !ok {
				return fmt.Sprintf("%s at %s is not preceded by %s%s", b, f.pos(h.E.Pos), a, f.pathDesc(o))
			}
		}
		return ""
	})
}

// NotAfter: no event matching b happens after one matching a.
func (f *F) NotAfter(rule string, outs []*eng.Out, a, b string) bool {
	return f.Each(rule, outs, func(o *eng.Out) string {
		as := f.Hits(o, a)
		if len(as) == 0 {
			return ""
		}
		for _, h := range f.Hits(o, b) {
			if h.I > as[0].I {
				return fmt.Sprintf("%s at %s happens after %s%s", b, f.pos(h.E.Pos), a, f.pathDesc(o))
			}
		}
		return ""
	})
}

// Ret: result i matches one of the patterns on every path.
func (f *F) Ret(rule string, outs []*eng.Out, i int, pats ...string) bool {
	if !f.NonEmpty(rule, outs) {
		return false
	}
	return f.Each(rule, outs, func(o *eng.Out) string {
		if i >= len(o.Res) {
			return "no such result"
		}
		for _, p := range pats {
			if _, ok := f.X.Match(eng.P(p), o.Res[i], eng.Bind{}); ok {
				return ""
			}
			if _, ok := f.X.Match(eng.P(p), f.result(o, i), eng.Bind{}); ok {
				return ""
			}
		}
		s := o.Res[i].String()
		if len(s) > 400 {
			s = s[:400] + "~"
		}
		return fmt.Sprintf("result %d is %s, expected %s%s", i, s, strings.Join(pats, " or "), f.pathDesc(o))
	})
}

// result i of o.  Where a callee's failure is passed on without its value, that value: to a
// caller it is the same.
func (f *F) result(o *eng.Out, i int) *eng.Term {
	n := len(o.Res) - 1
	if i >= n || !f.fallible() || !f.nothing(o.Res[i]) || f.X.NilState(o.St, o.Res[n]) != -1 {
		return o.Res[i]
	}
	e := eng.StripIface(o.Res[n])
	if e.Op != "ext" || e.Aux != fmt.Sprint(n) {
		return o.Res[i]
	}
	return f.X.In.Mk("ext", fmt.Sprint(i), e.Args[0])
}

// OneOf: on every path at least one of the fact patterns holds.
func (f *F) OneOf(rule string, outs []*eng.Out, pats ...string) bool {
	return f.Each(rule, outs, func(o *eng.Out) string {
		for _, p := range pats {
			if f.Holds(o, p) {
				return ""
			}
		}
		return "none of the permitted reasons holds: " + strings.Join(pats, " / ") + f.pathDesc(o)
	})
}

// Panics lists path classes that end in an explicit panic.
func (f *F) Panics() []*eng.Out {
	var r []*eng.Out
	for _, o := range f.Outs {
		if o.Kind == "panic" {
			r = append(r, o)
		}
	}
	return r
}

// NoPanic: no path ends in an explicit panic.
func (f *F) NoPanic(rule string) bool {
	return f.Each(rule, f.Outs, func(o *eng.Out) string {
		if o.Kind == "panic" {
			return "a path panics" + f.pathDesc(o)
		}
		return ""
	})
}

// SplitBool refines on boolean result i.
func (f *F) SplitBool(i int) (yes, no []*eng.Out) {
	if !f.ok() {
		return
	}
	return f.X.SplitBool(f.Outs, i)
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
