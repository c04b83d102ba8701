package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	// Opaque says which functions of the module are kept as uninterpreted primitives.
	Opaque func(fn *ssa.Function, name string) bool
	// WatchLoad says which non-local field loads are recorded as events.
	WatchLoad func(loc *Term) bool
	Bounds    bool // record index/slice bounds obligations
	MaxOuts   int
	Pure      func(name string) bool
	Reader    func(name string) bool
	// NoHavoc: opaque callees that do not write through pointer arguments.
	NoHavoc  func(name string) bool
	NoUnroll bool
	Consts   bool // package variables that are only initialised, with constants, are their values
}

type Exec struct {
	consts    map[string]*Term
	tabs      map[string]*Term
	memo      map[memoKey]*memoVal // terms of bound patterns
	Spent     int                  // steps of the current search
	Fuel      int                  // and how many it may take
	Tired     int                  // searches given up
	ifEff     *Effects
	In        *Interner
	P         *Program
	Cfg       Config
	steps     int
	loopN     int
	stack     []*ssa.Function
	noUnroll  map[*ssa.BasicBlock]bool
	Truncated string
	Inlined   map[*ssa.Function]bool
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
}

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// Out is one path class of a function: how it ends, under which facts, with which effects.
type Out struct {
	St   *State
	Kind string // return | panic | diverge
	Res  []*Term
	Raw  []*Term // the results before the memory they point to was read
	Pos  token.Pos
}

type deferred struct {
	call  *ssa.CallCommon
	fn    *Term
	args  []*Term
	instr *ssa.Defer
}

type frame struct {
	fn     *ssa.Function
	params []*Term
	free   []*Term
	depth  int
}

type item struct {
	blk, pred *ssa.BasicBlock
	idx       int
	st        *State
	env       map[ssa.Value]*Term
	defers    []deferred
	unroll    map[*ssa.BasicBlock]int
}

func (it *item) fork() *item {
	n := &item{blk: it.blk, pred: it.pred, idx: it.idx, st: it.st.clone(), env: make(map[ssa.Value]*Term, len(it.env)),
		defers: it.defers[:len(it.defers):len(it.defers)], unroll: make(map[*ssa.BasicBlock]int, len(it.unroll))}
	for k, v := range it.env {
		n.env[k] = v
	}
	for k, v := range it.unroll {
		n.unroll[k] = v
	}
	return n
}

type loopCtx struct {
	loop  *natLoop
	outer *loopCtx
	flag  *flagLoop
}

type regionOut struct {
	kind string // return panic back exit diverge
	out  *Out
	it   *item
	phis map[*ssa.Phi]*Term
}

type limitErr string

func NewExec(p *Program, cfg Config) *Exec {
	if cfg.MaxOuts == 0 {
		cfg.MaxOuts = 20000
	}
	return &Exec{In: NewInterner(), P: p, Cfg: cfg, noUnroll: map[*ssa.BasicBlock]bool{}, Inlined: map[*ssa.Function]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}}
}

// constGlobal is the constant value of a package variable, or nil.
func (x *Exec) constGlobal(loc *Term) *Term {
	if !x.Cfg.Consts || !x.P.onceGlobals[loc.Aux] {
		return nil
	}
	if x.consts == nil {
		x.consts = map[string]*Term{}
	}
	if v, ok := x.consts[loc.Aux]; ok {
		return v
	}
	x.consts[loc.Aux] = nil
	name := loc.Aux[:strings.LastIndexByte(loc.Aux, '.')+1] + "init"
	fn := x.P.Func(name)
	if fn == nil {
		return nil
	}
	cfg := x.Cfg
	cfg.Consts = true
	op := cfg.Opaque
	cfg.Opaque = func(f *ssa.Function, n string) bool {
		return f.Name() == "init" || f.Pkg != fn.Pkg || op != nil && op(f, n)
	}
	y := &Exec{In: x.In, P: x.P, Cfg: cfg, noUnroll: map[*ssa.BasicBlock]bool{}, Inlined: map[*ssa.Function]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}, consts: x.consts}
	outs, err := y.Run(fn)
	if err != nil {
		return nil
	}
	for _, o := range outs {
		for l := range o.St.store {
			r := l
			for r.Op == "fa" || r.Op == "ia" {
				r = r.Args[0]
			}
			if r.Op != "global" || !x.P.onceGlobals[r.Aux] || x.consts[r.Aux] != nil {
				continue
			}
			v := y.read(o.St, r)
			if !v.Any(func(t *Term) bool {
				switch t.Op {
				case "const", "int", "str", "agg", "cat", "elem1", "zero", "sub", "bytes", "true", "false", "nil":
					return false
				}
				return !t.IsInt && len(t.Args) == 0 && t.Op == "gval" || t.Op == "call" || t.Op == "alloc" || t.Op == "ext" || t.Op == "out"
			}) {
				x.consts[r.Aux] = v
			}
		}
	}
	return x.consts[loc.Aux]
}

type restart struct{ h *ssa.BasicBlock }

// Run summarises fn with symbolic parameters $0, $1, ...
func (x *Exec) Run(fn *ssa.Function) (outs []*Out, err error) {
	return x.RunPre(fn, nil)
}

// RunPre is Run with a hook that may constrain the initial state.
func (x *Exec) RunPre(fn *ssa.Function, pre func(x *Exec, st *State, params []*Term)) (outs []*Out, err error) {
	for try := 0; try < 8; try++ {
		outs, err = x.tryRun(fn, pre)
		if r, ok := err.(*restartErr); ok {
			x.noUnroll[r.h] = true
			continue
		}
		return
	}
	return
}

type restartErr struct{ h *ssa.BasicBlock }

func (r *restartErr) Error() string { return "restart" }

func (x *Exec) tryRun(fn *ssa.Function, pre func(x *Exec, st *State, params []*Term)) (outs []*Out, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case limitErr:
				err = fmt.Errorf("analysis limit: %s", string(r))
			case restart:
				err = &restartErr{r.h}
			default:
				panic(r)
			}
		}
	}()
	x.steps = 0
	x.loopN = 0
	x.stack = nil
	if fn == nil || len(fn.Blocks) == 0 {
		return nil, fmt.Errorf("no body")
	}
	st := newState()
	var ps []*Term
	for i, p := range fn.Params {
		ps = append(ps, x.In.mk("param", fmt.Sprint(i), 0, p.Type()))
	}
	if pre != nil {
		pre(x, st, ps)
	}
	var fv []*Term
	for i, f := range fn.FreeVars {
		fv = append(fv, x.In.mk("freevar", fmt.Sprint(i), 0, f.Type()))
	}
	outs = x.callFn(fn, ps, fv, st)
	for _, o := range outs {
		o.Raw = append([]*Term{}, o.Res...)
		for i, r := range o.Res {
			o.Res[i] = x.canon(o.St, r)
		}
	}
	return outs, nil
}

func (x *Exec) callFn(fn *ssa.Function, params, free []*Term, st *State) []*Out {
	x.Inlined[fn] = true
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &frame{fn: fn, params: params, free: free}
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		env[p] = params[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			env[f] = free[i]
		} else {
			env[f] = x.In.mk("freevar", f.Name(), 0, f.Type())
		}
	}
	it := &item{blk: fn.Blocks[0], st: st, env: env, unroll: map[*ssa.BasicBlock]int{}}
	var outs []*Out
	for _, r := range x.region(fr, nil, []*item{it}) {
		if r.out != nil {
			outs = append(outs, r.out)
		}
	}
	return outs
}

func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if l, ok := x.loops[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	x.loops[fn] = res
	return res
}

// region runs items until they return, panic, go back to ctx's header or leave ctx's loop.
func (x *Exec) region(fr *frame, ctx *loopCtx, work []*item) []regionOut {
	var res []regionOut
	loops := x.loopsOf(fr.fn)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.idx == 0 {
			// arrival at a block
			if ctx != nil {
				if it.blk == ctx.loop.header && it.pred != nil && ctx.loop.blocks[it.pred] {
					if ctx.flag != nil {
						res = append(res, x.thread(ctx.flag, it)...)
						continue
					}
					res = append(res, regionOut{kind: "back", it: it, phis: x.phiVals(it)})
					continue
				}
				if !ctx.loop.blocks[it.blk] {
					res = append(res, regionOut{kind: "exit", it: it})
					continue
				}
			}
			if l := loops[it.blk]; l != nil && (ctx == nil || ctx.loop != l) {
				if x.flagAt(it, l) != nil || !x.unrollable(fr, it, l) {
					rs := x.summarise(fr, ctx, it, l)
					for _, r := range rs {
						switch r.kind {
						case "exit":
							work = append(work, r.it)
						default:
							res = append(res, r)
						}
					}
					continue
				}
				it.unroll[it.blk]++
			}
			x.enterBlock(it)
		}
		nx, outs := x.runBlock(fr, it)
		work = append(work, nx...)
		res = append(res, outs...)
		if len(res)+len(work) > x.Cfg.MaxOuts {
			panic(limitErr("too many paths in " + fr.fn.String()))
		}
	}
	return res
}

func (x *Exec) phiVals(it *item) map[*ssa.Phi]*Term {
	m := map[*ssa.Phi]*Term{}
	pi := predIndex(it.blk, it.pred)
	for _, ins := range it.blk.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		m[p] = x.val(it, p.Edges[pi])
	}
	return m
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return -1
}

func (x *Exec) enterBlock(it *item) {
	if it.pred == nil {
		return
	}
	vals := x.phiVals(it)
	for p, v := range vals {
		it.env[p] = v
	}
}

// flagLoop: a loop whose header does nothing but look at one of its own variables,
// which the iteration sets to say whether there is another one.
type flagLoop struct {
	phi  *ssa.Phi
	cmp  ssa.Value // the condition, phi itself or a comparison of it
	edge int       // the edge of the header that stays in the loop
}

func flagOf(l *natLoop) *flagLoop {
	var rest []ssa.Instruction
	for _, ins := range l.header.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			rest = append(rest, ins)
		}
	}
	iff, ok := rest[len(rest)-1].(*ssa.If)
	if !ok || len(rest) > 2 || l.blocks[l.header.Succs[0]] == l.blocks[l.header.Succs[1]] {
		return nil
	}
	f := &flagLoop{cmp: iff.Cond}
	if l.blocks[l.header.Succs[1]] {
		f.edge = 1
	}
	v := iff.Cond
	if len(rest) == 2 {
		if ssa.Value(nil) == v || rest[0] != v.(ssa.Instruction) {
			return nil
		}
		switch c := rest[0].(type) {
		case *ssa.UnOp:
			if c.Op != token.NOT {
				return nil
			}
			v = c.X
		case *ssa.BinOp:
			k, ok := c.Y.(*ssa.Const)
			if !ok || c.Op != token.EQL && c.Op != token.NEQ || !k.IsNil() {
				return nil
			}
			v = c.X
		default:
			return nil
		}
	}
	p, ok := v.(*ssa.Phi)
	if !ok || p.Block() != l.header {
		return nil
	}
	f.phi = p
	return f
}

// cond: the condition of the header when its variable has value v.
func (x *Exec) flagCond(f *flagLoop, v *Term) *Term {
	c := v
	switch i := f.cmp.(type) {
	case *ssa.UnOp:
		c = x.In.Not(v)
	case *ssa.BinOp:
		c = x.eqT(v, x.In.Nil())
		if i.Op == token.NEQ {
			c = x.In.Not(c)
		}
	}
	if f.edge == 1 {
		c = x.In.Not(c)
	}
	return c
}

// flagAt: the loop is one whose header looks at a flag, and there is a first iteration.
func (x *Exec) flagAt(it *item, l *natLoop) *flagLoop {
	f := flagOf(l)
	if f == nil || predIndex(it.blk, it.pred) < 0 || x.Decide(it.st, x.flagCond(f, x.phiVals(it)[f.phi])) != 1 {
		return nil
	}
	return f
}

// thread: the end of an iteration that decides whether there is another one.
func (x *Exec) thread(f *flagLoop, it *item) (res []regionOut) {
	vals := x.phiVals(it)
	c := x.flagCond(f, vals[f.phi])
	d := x.Decide(it.st, c)
	if d != -1 {
		b := it
		if d == 0 {
			b = it.fork()
			x.assume(b.st, c)
		}
		vs := map[*ssa.Phi]*Term{}
		for p, v := range vals {
			vs[p] = v
		}
		if f.cmp == ssa.Value(f.phi) {
			vs[f.phi] = x.In.Bool(f.edge == 0)
		} else if _, ok := f.cmp.(*ssa.UnOp); ok {
			vs[f.phi] = x.In.Bool(f.edge == 1)
		}
		res = append(res, regionOut{kind: "back", it: b, phis: vs})
	}
	if d != 1 {
		e := it
		if d == 0 {
			e = it.fork()
			x.assume(e.st, x.In.Not(c))
		}
		for p, v := range vals {
			e.env[p] = v
		}
		e.env[f.cmp] = x.In.Bool(f.edge == 1)
		if f.cmp == ssa.Value(f.phi) {
			e.env[f.phi] = x.In.Bool(f.edge == 1)
		}
		res = append(res, regionOut{kind: "exit", it: x.goTo(e, 1-f.edge)})
	}
	return
}

// unrollable: does the header's branch condition fold to a constant for this arrival?
func (x *Exec) unrollable(fr *frame, it *item, l *natLoop) bool {
	if x.Cfg.NoUnroll || x.noUnroll[l.header] {
		return false
	}
	n := len(l.header.Instrs)
	iff, ok := l.header.Instrs[n-1].(*ssa.If)
	if !ok {
		return false
	}
	if it.unroll[it.blk] > 300 {
		return false
	}
	for _, ins := range l.header.Instrs {
		switch c := ins.(type) {
		case *ssa.Call:
			if b, isb := c.Call.Value.(*ssa.Builtin); !isb || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		case *ssa.Next, *ssa.Select:
			return false
		}
	}
	sc := it.fork()
	x.enterBlock(sc)
	for _, ins := range l.header.Instrs[:n-1] {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if c, ok := ins.(*ssa.Call); ok {
			var as []*Term
			for _, a := range c.Call.Args {
				as = append(as, x.val(sc, a))
			}
			sc.env[c] = x.builtin(fr, sc.st, c.Call.Value.(*ssa.Builtin), &c.Call, as, c)[0]
			continue
		}
		if !x.simple(fr, sc, ins) {
			return false
		}
	}
	c := x.val(sc, iff.Cond)
	return c.IsConst()
}

func (x *Exec) summarise(fr *frame, ctx *loopCtx, it *item, l *natLoop) []regionOut {
	in := x.In
	x.loopN++
	id := x.loopN
	iter := in.mk("iter", "", id, types.Typ[types.Int])
	init := x.phiVals(it)
	var phis []*ssa.Phi
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	closed := map[*ssa.Phi]*Term{} // closed form at start of iteration iter
	// rest[p]: p is what is left of a sequence from position rest[p] on
	rest := map[*ssa.Phi]*Term{}
	unitOf := map[*ssa.Phi]int64{} // counted in units of so many elements
	mods := map[*Term]*Term{}      // location -> value at start of the generic iteration
	bad := map[interface{}]bool{}
	inner := &loopCtx{loop: l, outer: ctx, flag: x.flagAt(it, l)}
	startN := x.loopN
	peel := map[*ssa.Phi]*Term{} // what a call gave that is made before the loop and again at the end of every iteration
	for pass := 0; ; pass++ {
		if pass > 7 {
			panic(limitErr("loop did not stabilise in " + fr.fn.String()))
		}
		x.loopN = startN
		g := it.fork()
		again := x.peeled(g.st, phis, peel)
		lp := &Loop{ID: id, Iter: iter, Fn: fr.fn, Pos: blockPos(l.header)}
		for i, p := range phis {
			v := closed[p]
			if v == nil {
				v = in.mk("loopvar", "."+fmt.Sprint(i), id, p.Type())
			}
			if again[p] != nil {
				v = again[p]
			}
			g.env[p] = v
			lp.Phis = append(lp.Phis, v)
			lp.Init = append(lp.Init, x.canon(it.st, init[p]))
			lp.Names = append(lp.Names, p.Comment)
		}
		for _, p := range phis {
			if k := rest[p]; k != nil {
				lp.Phis = append(lp.Phis, k)
				lp.Init = append(lp.Init, in.Int(0))
				lp.Names = append(lp.Names, p.Comment+" from")
			}
		}
		locs := make([]*Term, 0, len(mods))
		for loc := range mods {
			locs = append(locs, loc)
		}
		sort.Slice(locs, func(i, j int) bool { return locs[i].ID < locs[j].ID })
		lp.MemInit = map[*Term]*Term{}
		for _, loc := range locs {
			lp.MemInit[loc] = x.canon(it.st, x.read(it.st, loc))
			x.write(g.st, loc, mods[loc])
		}
		if inner.flag != nil {
			x.assume(g.st, x.flagCond(inner.flag, g.env[inner.flag.phi])) // as at the end of every iteration before
		}
		x.emit(g.st, &Event{Kind: "loop", Name: "loop", Fn: fr.fn, Pos: lp.Pos, Loop: lp})
		baseFacts, baseEvents := len(g.st.Facts), len(g.st.Events)
		x.callAgain(it.st, g.st, peel)
		ref := g.st.clone()
		// the header itself: run as inside ctx inner
		g.pred = nil
		g.idx = 0
		sub := x.regionStart(fr, inner, g)
		// collect changes
		changed := false
		var backs []regionOut
		for _, r := range sub {
			if r.kind == "back" {
				backs = append(backs, r)
			}
		}
		if inner.flag == nil && pass == 0 && len(backs) > 0 {
			for _, p := range phis {
				if c := peelCall(in, it.st, init[p], backs, p, id); c != nil {
					peel[p] = init[p]
					changed = true
				}
			}
		} else {
			for p := range peel {
				if peelCall(in, it.st, init[p], backs, p, id) == nil {
					delete(peel, p)
					bad[p] = true
					changed = true
				}
			}
		}
		newMods := map[*Term]bool{}
		for _, b := range backs {
			for loc, v := range b.it.st.store {
				rt := rootOf(loc)
				if rt.Op == "alloc" && rt.N > it.st.nalloc {
					continue // allocated inside the iteration
				}
				old, ok := ref.store[loc]
				if ok && old == v {
					continue
				}
				if !ok && v == x.whole(ref, loc) {
					continue
				}
				l0 := loc
				for x.inIterLoc(l0, iter, id) {
					l0 = l0.Args[0]
				}
				newMods[l0] = true
			}
			for loc := range ref.store {
				if _, ok := b.it.st.store[loc]; !ok {
					newMods[loc] = true
				}
			}
		}
		for loc := range newMods {
			if _, ok := mods[loc]; !ok {
				// skip if a parent is already a mod and we only refine it
				mods[loc] = in.mk("loopmem", "", id, deref(loc.T), loc)
				changed = true
			}
		}
		// closed forms
		for _, p := range phis {
			if bad[p] || peel[p] != nil {
				continue
			}
			v0 := in.mk("loopvar", "."+fmt.Sprint(phiIndex(phis, p)), id, p.Type())
			if closed[p] == nil {
				// step = self + c ?
				var c *Term
				ok := len(backs) > 0 && isIntType(p.Type())
				for _, b := range backs {
					d := in.Sub(b.phis[p], v0)
					if !d.IsInt || (c != nil && c != d) {
						ok = false
						break
					}
					c = d
				}
				if ok {
					closed[p] = in.Add(init[p], in.MulT(c, iter))
					changed = true
					continue
				}
				// read again in every iteration, the same value
				same := len(backs) > 0 && init[p] != nil && pass > 0
				for _, b := range backs {
					same = same && x.canon(b.it.st, b.phis[p]) == x.canon(it.st, init[p])
				}
				if same && !containsLoopState(x.canon(it.st, init[p]), id) {
					closed[p] = x.canon(it.st, init[p])
					changed = true
					continue
				}
				if underSliceOrString(p.Type()) && len(backs) > 0 {
					// step = self ++ piece ?
					var piece *Term
					ok := true
					for _, b := range backs {
						v := x.canon(b.it.st, b.phis[p])
						if v.Op == "cat" && len(v.Args) > 1 && v.Args[0] == v0 {
							q := in.Cat(v.T, v.Args[1:]...)
							if q.Op != "cat" && q.Op != "elem1" {
								q = in.mk("cat", "", 0, v.T, v.Args[1:]...)
							}
							if q.Contains(v0) || (piece != nil && piece != q) {
								ok = false
								break
							}
							piece = q
						} else {
							ok = false
							break
						}
					}
					if ok && !containsLoopState(piece, id) {
						if len(piece.Args) == 1 && piece.Op == "cat" {
							piece = piece.Args[0]
						}
						from := x.canon(it.st, init[p])
						if from.Op == "zero" && strings.HasPrefix(from.Aux, "[0]") {
							from = in.Nil() // no elements either way
						}
						closed[p] = in.mk("catn", "", id, p.Type(), from, piece, iter)
						changed = true
						continue
					}
				}
				if underSliceOrString(p.Type()) && len(backs) > 0 && pass > 0 {
					// what is left of the sequence it starts with?
					from := x.canon(it.st, init[p])
					ok, moves := from != in.Nil() && !containsLoopState(from, id), false
					unit := int64(0) // it always moves by this much
					for _, b := range backs {
						switch v := x.canon(b.it.st, b.phis[p]); {
						case v == v0:
						case v.Op == "sub" && v.Args[0] == v0 && v.Args[2] == in.Len(v0) && !containsLoopState(v.Args[1], id):
							if a := v.Args[1]; a.IsInt && a.I > 0 && (!moves || unit == a.I) {
								unit = a.I
							} else {
								unit = 1
							}
							moves = true
						default:
							ok = false
						}
					}
					if ok && moves {
						k := in.mk("loopvar", ".r"+fmt.Sprint(phiIndex(phis, p)), id, types.Typ[types.Int])
						k.NonNeg = true
						rest[p], unitOf[p] = k, unit
						closed[p] = in.SubSeq(from, in.MulT(in.Int(unit), k), in.Len(from), from.T)
						changed = true
						continue
					}
				}
				if pass > 0 {
					bad[p] = true
				}
			} else if k := rest[p]; k != nil {
				for _, b := range backs {
					if restAt(in, closed[p], x.canon(b.it.st, b.phis[p]), k, unitOf[p]) == nil {
						bad[p] = true
						delete(closed, p)
						delete(rest, p)
						changed = true
						break
					}
				}
			} else {
				next := in.Subst(closed[p], iter, in.AddC(iter, 1))
				if closed[p].Op != "catn" {
					for _, b := range backs {
						if b.phis[p] != next && x.canon(b.it.st, b.phis[p]) != next {
							bad[p] = true
							delete(closed, p)
							changed = true
							break
						}
					}
				}
			}
		}
		for _, p := range phis {
			v := in.mk("loopvar", "."+fmt.Sprint(phiIndex(phis, p)), id, p.Type())
			if closed[p] != nil || peel[p] != nil || v.NonNeg || !isIntType(p.Type()) || !init[p].IsInt || init[p].I < 0 || len(backs) == 0 {
				continue
			}
			ok := true
			for _, b := range backs {
				if d := in.Sub(b.phis[p], v); !d.IsInt || d.I < 0 {
					ok = false
				}
			}
			if ok {
				v.NonNeg = true
				changed = true
			}
		}
		for loc, cur := range mods {
			if bad[loc] || cur.Op != "loopmem" {
				continue
			}
			if changed && pass == 0 {
				continue
			}
			initv := x.read(it.st, loc)
			// all back edges write self[a+iter] = v
			var start, tmpl *Term
			ok := len(backs) > 0
			var vals []*Term
			var deltas [][]*Term
			for _, b := range backs {
				v := x.read(b.it.st, loc)
				if v == cur {
					vals = append(vals, nil)
				} else if v.Op == "upd" && v.Args[0] == cur {
					s := in.Sub(v.Args[1], iter)
					if s.Contains(iter) || containsLoopState(s, id) || (start != nil && s != start) {
						ok = false
						break
					}
					start = s
					vals = append(vals, x.canon(b.it.st, v.Args[2]))
				} else {
					ok = false
					break
				}
				deltas = append(deltas, b.it.st.Facts[baseFacts:])
			}
			if ok && start != nil {
				var et types.Type
				if sl, is := underSlice(cur.T); is {
					et = sl.Elem()
				} else if _, e, is := arrayLen(cur.T); is {
					et = e
				}
				for i := range vals {
					if vals[i] == nil {
						vals[i] = in.Idx(initv, in.Add(start, iter), et)
					}
				}
				tmpl = mergeVals(in, vals, deltas)
			}
			if tmpl != nil && !tmpl.Contains(cur) && !containsLoopState(tmpl, id) {
				mods[loc] = in.mk("fill", "", id, cur.T, initv, start, tmpl, iter)
				changed = true
				continue
			}
			// integer counters kept in memory: self + c
			if ok2, c := memStep(x, backs, loc, cur); ok2 {
				mods[loc] = in.Add(initv, in.MulT(c, iter))
				changed = true
				continue
			}
			bad[loc] = true
		}
		if changed {
			continue
		}
		// stable
		for _, b := range backs {
			for p := range peel { // what it calls in the end is what the next iteration begins with
				b.it.st.Events = withoutCall(b.it.st.Events, resultOf(b.phis[p]), baseEvents)
			}
			s := &Step{Facts: b.it.st.Facts[baseFacts:], Events: b.it.st.Events[baseEvents:], St: b.it.st, Mem: map[*Term]*Term{}}
			for _, p := range phis {
				s.Next = append(s.Next, x.canon(b.it.st, b.phis[p]))
			}
			for _, p := range phis {
				if rest[p] != nil {
					s.Next = append(s.Next, restAt(in, closed[p], x.canon(b.it.st, b.phis[p]), rest[p], unitOf[p]))
				}
			}
			for loc := range mods {
				s.Mem[loc] = x.canon(b.it.st, x.read(b.it.st, loc))
			}
			lp.Steps = append(lp.Steps, s)
		}
		caps := x.loopCaps(it.st, iter, id, lp)
		var out []regionOut
		for _, r := range sub {
			if r.kind != "back" {
				st := stateOf(r)
				if x.beyond(st, iter, caps) {
					continue
				}
				for _, n := range caps {
					if x.Decide(st, in.Le(n, iter)) == 1 {
						st.known[in.Eq(iter, n)] = true
						if len(st.counts) == 0 || st.counts[len(st.counts)-1][0] != iter {
							st.counts = append(st.counts, [2]*Term{iter, n})
						}
					}
				}
				// events of the generic (last) iteration
				for i := baseEvents; i < len(st.Events); i++ {
					if st.Events[i].InLoop == nil {
						e := *st.Events[i]
						e.InLoop = lp
						st.Events[i] = &e
					}
				}
				out = append(out, r)
			}
		}
		return out
	}
}

// resultOf: the call that t is a result of.
func resultOf(t *Term) *Term {
	if t = StripIface(t); t.Op == "ext" {
		t = t.Args[0]
	}
	if t.Op == "call" && t.N > 0 {
		return t
	}
	return nil
}

// peelCall: variable p holds what a call gave: the one made last before the loop, and the same call
// made as the last thing in every iteration.
func peelCall(in *Interner, st *State, init *Term, backs []regionOut, p *ssa.Phi, id int) *Term {
	if init == nil {
		return nil
	}
	c := resultOf(init)
	if c == nil || !lastCall(st.Events, c) || containsLoopState(c, id) {
		return nil
	}
	for _, b := range backs {
		v := StripIface(b.phis[p])
		d := resultOf(v)
		if d == nil || d == c || d.Aux != c.Aux || len(d.Args) != len(c.Args) || v.Op != StripIface(init).Op || v.Op == "ext" && v.Aux != StripIface(init).Aux || !lastCall(b.it.st.Events, d) {
			return nil
		}
		for i := range d.Args {
			if d.Args[i] != c.Args[i] {
				return nil
			}
		}
	}
	return c
}

// lastCall: nothing is done after call c.
func lastCall(evs []*Event, c *Term) bool {
	for i := len(evs) - 1; i >= 0; i-- {
		switch e := evs[i]; {
		case e.Kind == "call" && e.Res == c:
			return true
		case e.Kind != "load" && e.Kind != "bound":
			return false
		}
	}
	return false
}

func withoutCall(evs []*Event, c *Term, from int) []*Event {
	for i := len(evs) - 1; i >= from && c != nil; i-- {
		if evs[i].Kind == "call" && evs[i].Res == c {
			return append(append([]*Event{}, evs[:i]...), evs[i+1:]...)
		}
	}
	return evs
}

// peeled: the calls made before the loop and at the end of every iteration are one call at the
// beginning of every iteration.
func (x *Exec) peeled(st *State, phis []*ssa.Phi, peel map[*ssa.Phi]*Term) map[*ssa.Phi]*Term {
	if len(peel) == 0 {
		return nil
	}
	again := map[*ssa.Phi]*Term{}
	calls := map[*Term]*Term{}
	for _, p := range phis {
		v := peel[p]
		if v == nil {
			continue
		}
		c := resultOf(v)
		if calls[c] == nil {
			k := c.Aux + "(" + termIDs(c.Args) + ")"
			st.occ[k]++
			calls[c] = x.In.mk("call", c.Aux, st.occ[k], c.T, c.Args...)
			calls[c].Fn = c.Fn
			st.Events = withoutCall(st.Events, c, 0)
		}
		again[p] = x.In.Subst(v, c, calls[c])
	}
	return again
}

// callAgain: the event of the call made before the loop is one of the iteration.
func (x *Exec) callAgain(from, st *State, peel map[*ssa.Phi]*Term) {
	done := map[*Term]bool{}
	var evs []*Event
	for _, v := range peel {
		c := resultOf(v)
		if done[c] {
			continue
		}
		done[c] = true
		for _, e := range from.Events {
			if e.Kind == "call" && e.Res == c {
				n := *e
				k := c.Aux + "(" + termIDs(c.Args) + ")"
				n.Res = x.In.mk("call", c.Aux, st.occ[k], c.T, c.Args...)
				evs = append(evs, &n)
			}
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].Pos < evs[j].Pos })
	for _, e := range evs {
		x.emit(st, e)
	}
}

// loopCaps: the terms n with iter <= n at the head of every iteration, because every iteration
// that goes on has iter < n and n does not change.
func (x *Exec) loopCaps(st *State, iter *Term, id int, lp *Loop) (r []*Term) {
	in := x.In
	if len(lp.Steps) == 0 {
		return nil
	}
	for _, f := range lp.Steps[0].Facts {
		if f.Op != "le0" {
			continue
		}
		l := toLin(f.Args[0])
		if l.m[iter] != 1 {
			continue
		}
		n := in.Sub(iter, in.AddC(f.Args[0], -1))
		if n.Contains(iter) || containsLoopState(n, id) || x.Decide(st, in.Le(in.Int(0), n)) != 1 {
			continue
		}
		all := true
		for _, s := range lp.Steps {
			all = all && x.Decide(s.St, f) == 1
		}
		if all {
			r = append(r, n)
		}
	}
	return r
}

// Count: how many iterations loop lp made when it was left in state st, or nil.
func (x *Exec) Count(st *State, lp *Loop) *Term {
	for _, n := range x.loopCaps(st, lp.Iter, lp.ID, lp) {
		if x.Decide(st, x.In.Le(n, lp.Iter)) == 1 {
			return n
		}
	}
	return nil
}

// beyond: st is only reached with iter above one of its caps, that is never.
func (x *Exec) beyond(st *State, iter *Term, caps []*Term) bool {
	in := x.In
	for _, n := range caps {
		if x.Decide(st, in.Lt(n, iter)) == 1 || x.Decide(st, in.Le(n, iter)) == 1 && x.Decide(st, in.Eq(iter, n)) == -1 {
			return true
		}
	}
	return false
}

func stateOf(r regionOut) *State {
	if r.it != nil {
		return r.it.st
	}
	return r.out.St
}

func memStep(x *Exec, backs []regionOut, loc, cur *Term) (bool, *Term) {
	if cur.T == nil || !isIntType(cur.T) || len(backs) == 0 {
		return false, nil
	}
	var c *Term
	for _, b := range backs {
		d := x.In.Sub(x.read(b.it.st, loc), cur)
		if !d.IsInt || (c != nil && c != d) {
			return false, nil
		}
		c = d
	}
	return true, c
}

// mergeVals joins the per-path values of one cell into a single conditional value.
func mergeVals(in *Interner, vals []*Term, deltas [][]*Term) *Term {
	same := true
	for _, v := range vals {
		if v != vals[0] {
			same = false
		}
	}
	if same {
		return vals[0]
	}
	if len(vals) == 2 {
		for _, f := range deltas[0] {
			nf := in.Not(f)
			for _, g := range deltas[1] {
				if g == nf {
					return in.Ite(f, vals[0], vals[1])
				}
			}
		}
	}
	return nil
}

func containsLoopState(t *Term, id int) bool {
	return t.Any(func(y *Term) bool { return (y.Op == "loopvar" || y.Op == "loopmem") && y.N == id })
}

func (x *Exec) inIterLoc(loc, iter *Term, id int) bool {
	return (loc.Op == "ia" || loc.Op == "fa") && loc.Any(func(y *Term) bool {
		return y == iter || (y.Op == "loopvar" || y.Op == "loopmem") && y.N == id
	})
}

// restAt: where v starts in the sequence that cur is what is left of, in units; k is where cur starts.
func restAt(in *Interner, cur, v, k *Term, unit int64) *Term {
	if cur.Op != "sub" || v.Op != "sub" || v.Args[0] != cur.Args[0] || v.Args[2] != cur.Args[2] {
		return nil
	}
	d := in.Sub(v.Args[1], cur.Args[1])
	if unit == 1 {
		return in.Add(k, d)
	}
	if !d.IsInt || d.I%unit != 0 {
		return nil
	}
	return in.AddC(k, d.I/unit)
}

func phiIndex(ps []*ssa.Phi, p *ssa.Phi) int {
	for i, q := range ps {
		if p == q {
			return i
		}
	}
	return -1
}

func underSliceOrString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

// regionStart runs the loop header for the generic iteration without re-evaluating phis.
func (x *Exec) regionStart(fr *frame, ctx *loopCtx, g *item) []regionOut {
	nx, outs := x.runBlock(fr, g)
	return append(outs, x.region(fr, ctx, nx)...)
}

func (x *Exec) val(it *item, v ssa.Value) *Term {
	in := x.In
	switch v := v.(type) {
	case *ssa.Const:
		return x.constTerm(v)
	case *ssa.Global:
		return in.mk("global", gname(v.Pkg.Pkg.Name()+"."+v.Name()), 0, v.Type())
	case *ssa.Function:
		t := in.mk("func", x.P.Name(v), 0, v.Type())
		t.Fn = v
		return t
	case *ssa.Builtin:
		return in.mk("builtin", v.Name(), 0, nil)
	}
	if t, ok := it.env[v]; ok {
		return t
	}
	return in.mk("undef", v.Name(), 0, v.Type())
}

func (x *Exec) constTerm(c *ssa.Const) *Term {
	in := x.In
	if c.Value == nil {
		return in.Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return in.Bool(constant.BoolVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			if b, isb := c.Type().Underlying().(*types.Basic); isb && b.Info()&types.IsInteger == 0 {
				return in.mk("const", c.Value.ExactString()+".0", 0, c.Type())
			}
			return in.Int(i)
		}
		return in.mk("const", c.Value.ExactString(), 0, c.Type())
	case constant.String:
		return in.Str(constant.StringVal(c.Value))
	}
	return in.mk("const", c.Value.ExactString(), 0, c.Type())
}

// runBlock executes instructions from it.idx; returns successor items and terminal results.
func (x *Exec) runBlock(fr *frame, it *item) ([]*item, []regionOut) {
	x.steps++
	if x.steps > 400000 {
		panic(limitErr("too many steps at " + fr.fn.String()))
	}
	for i := it.idx; i < len(it.blk.Instrs); i++ {
		ins := it.blk.Instrs[i]
		if p := nilUse(ins); p != nil && x.isNilPtr(it.st, x.val(it, p)) {
			x.emit(it.st, &Event{Kind: "panic", Name: "nil", Args: []*Term{x.In.Nil()}, Fn: fr.fn, Pos: ins.Pos()})
			return nil, []regionOut{{kind: "panic", out: &Out{St: it.st, Kind: "panic", Pos: ins.Pos()}}}
		}
		for _, q := range x.needed(ins) {
			if v := StripIface(x.val(it, q)); x.unsure(it.st, v) {
				x.emit(it.st, &Event{Kind: "unsure", Args: []*Term{v}, Fn: fr.fn, Pos: ins.Pos()})
			}
		}
		if l, ok := ins.(*ssa.Lookup); ok {
			if is := x.lookupEach(fr, it, l, i); is != nil {
				return is, nil
			}
		}
		switch ins := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.val(it, ins.Cond)
			switch x.Decide(it.st, c) {
			case 1:
				return []*item{x.goTo(it, 0)}, nil
			case -1:
				return []*item{x.goTo(it, 1)}, nil
			}
			if it.unroll[it.blk] > 0 || len(it.unroll) > 0 {
				// fork inside an unrolled loop: bound it
				for h, n := range it.unroll {
					if n > 1 && n > 64 && x.loopsOf(fr.fn)[h] != nil {
						panic(restart{h})
					}
				}
			}
			if is := x.quotient(it, c); is != nil {
				return is, nil
			}
			o := it.fork()
			t := x.goTo(it, 0)
			x.assume(t.st, c)
			f := x.goTo(o, 1)
			x.assume(f.st, x.In.Not(c))
			return []*item{f, t}, nil
		case *ssa.Jump:
			return []*item{x.goTo(it, 0)}, nil
		case *ssa.Return:
			var rs []*Term
			for _, r := range ins.Results {
				rs = append(rs, x.val(it, r))
			}
			return nil, []regionOut{{kind: "return", out: &Out{St: it.st, Kind: "return", Res: rs, Pos: ins.Pos()}}}
		case *ssa.Panic:
			x.emit(it.st, &Event{Kind: "panic", Name: "panic", Args: []*Term{x.canon(it.st, x.val(it, ins.X))}, Fn: fr.fn, Pos: ins.Pos()})
			return nil, []regionOut{{kind: "panic", out: &Out{St: it.st, Kind: "panic", Pos: ins.Pos()}}}
		case *ssa.Call:
			outs := x.doCall(fr, it.st, it, ins.Common(), ins, false)
			if len(outs) == 1 && outs[0].Kind == "return" {
				it.st = outs[0].St
				x.bind(it, ins, outs[0].Res)
				continue
			}
			var nx []*item
			var ro []regionOut
			for _, o := range outs {
				if o.Kind != "return" {
					ro = append(ro, regionOut{kind: o.Kind, out: o})
					continue
				}
				n := it.forkEnv(o.St)
				x.bind(n, ins, o.Res)
				n.idx = i + 1
				nx = append(nx, n)
			}
			if i+1 == 0 {
				panic("x")
			}
			return nx, ro
		case *ssa.Defer:
			var args []*Term
			for _, a := range ins.Call.Args {
				args = append(args, x.val(it, a))
			}
			var f *Term
			if _, lit := ins.Call.Value.(*ssa.MakeClosure); lit || ins.Call.IsInvoke() || ins.Call.StaticCallee() == nil {
				f = x.val(it, ins.Call.Value)
			}
			it.defers = append(it.defers[:len(it.defers):len(it.defers)], deferred{&ins.Call, f, args, ins})
		case *ssa.RunDefers:
			if len(it.defers) == 0 {
				continue
			}
			sts := []*Out{{St: it.st, Kind: "return"}}
			for k := len(it.defers) - 1; k >= 0; k-- {
				d := it.defers[k]
				var nxt []*Out
				for _, s := range sts {
					if s.Kind != "return" {
						nxt = append(nxt, s)
						continue
					}
					for _, o := range x.invoke(fr, s.St, d.call, d.fn, d.args, d.instr, nil, true) {
						nxt = append(nxt, o)
					}
				}
				sts = nxt
			}
			it.defers = nil
			var nx []*item
			var ro []regionOut
			for _, o := range sts {
				if o.Kind != "return" {
					ro = append(ro, regionOut{kind: o.Kind, out: o})
					continue
				}
				n := it.forkEnv(o.St)
				n.defers = nil
				n.idx = i + 1
				nx = append(nx, n)
			}
			return nx, ro
		default:
			if !x.simple(fr, it, ins) {
				x.complex(fr, it, ins)
			}
		}
	}
	return nil, []regionOut{{kind: "diverge", out: &Out{St: it.st, Kind: "diverge"}}}
}

func (it *item) forkEnv(st *State) *item {
	n := &item{blk: it.blk, pred: it.pred, idx: it.idx, st: st, env: make(map[ssa.Value]*Term, len(it.env)),
		defers: it.defers[:len(it.defers):len(it.defers)], unroll: make(map[*ssa.BasicBlock]int, len(it.unroll))}
	for k, v := range it.env {
		n.env[k] = v
	}
	for k, v := range it.unroll {
		n.unroll[k] = v
	}
	return n
}

func (x *Exec) bind(it *item, v ssa.Value, res []*Term) {
	switch len(res) {
	case 0:
	case 1:
		it.env[v] = res[0]
	default:
		it.env[v] = x.In.mk("tuple", "", 0, v.Type(), res...)
	}
}

func (x *Exec) goTo(it *item, k int) *item {
	it.pred = it.blk
	it.blk = it.blk.Succs[k]
	it.idx = 0
	return it
}

// complex handles instructions with effects other than calls.
func (x *Exec) complex(fr *frame, it *item, ins ssa.Instruction) {
	in := x.In
	st := it.st
	switch ins := ins.(type) {
	case *ssa.Store:
		loc := StripIface(x.val(it, ins.Addr))
		v := x.val(it, ins.Val)
		x.store(fr, st, loc, v, ins.Pos())
	case *ssa.MapUpdate:
		m, k, v := x.val(it, ins.Map), x.val(it, ins.Key), x.val(it, ins.Value)
		x.mapUpdate(fr, st, m, k, v, ins.Pos())
	case *ssa.Go:
		args := x.callArgs(it, ins.Common())
		x.emit(st, &Event{Kind: "go", Name: x.calleeName(it, ins.Common()), Args: x.canonAll(st, args), Raw: args, Fn: fr.fn, Pos: ins.Pos()})
		st.epoch++
	case *ssa.Send:
		x.emit(st, &Event{Kind: "send", Name: "send", Args: []*Term{x.canon(st, x.val(it, ins.Chan)), x.canon(st, x.val(it, ins.X))}, Fn: fr.fn, Pos: ins.Pos()})
	case *ssa.Select:
		st.occ["select"]++
		it.env[ins] = in.mk("select", "", st.occ["select"], ins.Type())
		x.emit(st, &Event{Kind: "select", Name: "select", Fn: fr.fn, Pos: ins.Pos()})
	case *ssa.Next:
		st.occ["next"]++
		var id int
		it.env[ins] = in.mk("next", "", st.occ["next"]*1000+id, ins.Type(), x.val(it, ins.Iter))
	case *ssa.DebugRef:
	default:
		if v, ok := ins.(ssa.Value); ok {
			st.occ["unk"]++
			it.env[v] = in.mk("unk", fmt.Sprintf("%T", ins), st.occ["unk"], v.Type())
		}
	}
}

func (x *Exec) store(fr *frame, st *State, loc, v *Term, pos token.Pos) {
	if !isLocal(loc) {
		x.emit(st, &Event{Kind: "store", Name: "store", Args: []*Term{x.locTerm(st, loc), x.canon(st, v)}, Raw: []*Term{loc, v}, Fn: fr.fn, Pos: pos})
	}
	x.write(st, loc, v)
}

// locTerm renders a location with canonical index/base values.
func (x *Exec) locTerm(st *State, loc *Term) *Term { return loc }

func (x *Exec) mapUpdate(fr *frame, st *State, m, k, v *Term, pos token.Pos) {
	ck := x.canon(st, k)
	cur, ok := st.store[m]
	if !ok {
		cur = x.mapInit(m)
	}
	if !isLocal(m) {
		x.emit(st, &Event{Kind: "mapupd", Name: "mapupd", Args: []*Term{m, ck, x.canon(st, v)}, Raw: []*Term{m, k, v}, Fn: fr.fn, Pos: pos})
	} else if v != nil {
		x.emit(st, &Event{Kind: "lmapupd", Name: "lmapupd", Args: []*Term{m, ck, x.canon(st, v)}, Raw: []*Term{m, k, v}, Fn: fr.fn, Pos: pos})
	}
	if v == nil {
		return
	}
	st.store[m] = x.In.mk("mput", "", 0, nil, cur, ck, v)
}

// lookupEach: looking for any key in a map all of whose keys are given, one case for each.
func (x *Exec) lookupEach(fr *frame, it *item, ins *ssa.Lookup, at int) []*item {
	in := x.In
	if _, ok := ins.X.Type().Underlying().(*types.Map); !ok {
		return nil
	}
	m, k := x.val(it, ins.X), x.canon(it.st, x.val(it, ins.Index))
	cur, ok := it.st.store[m]
	if !ok {
		cur = x.mapInit(m)
	}
	fixed := func(t *Term) bool { return t.IsConst() || t.Op == "gval" || t.IsInt }
	if fixed(k) {
		return nil
	}
	seen := map[*Term]bool{}
	var conds, vals []*Term
	for ; cur.Op == "mput"; cur = cur.Args[0] {
		if !fixed(cur.Args[1]) || len(conds) > 32 {
			return nil
		}
		if !seen[cur.Args[1]] {
			seen[cur.Args[1]] = true
			conds, vals = append(conds, x.eqT(k, cur.Args[1])), append(vals, cur.Args[2])
		}
	}
	if cur.Op != "mempty" || len(conds) == 0 {
		return nil
	}
	vt := ins.X.Type().Underlying().(*types.Map).Elem()
	var is []*item
	add := func(n *item, v *Term, found bool) {
		n.idx = at + 1
		if n.env[ins] = v; ins.CommaOk {
			n.env[ins] = in.mk("tuple", "", 0, ins.Type(), v, in.Bool(found))
		}
		is = append(is, n)
	}
	rest := it
	for i, c := range conds {
		d := x.Decide(rest.st, c)
		if d < 0 {
			continue
		}
		if d > 0 {
			add(rest, vals[i], true)
			return is
		}
		n := rest.fork()
		x.assume(n.st, c)
		add(n, vals[i], true)
		x.assume(rest.st, in.Not(c))
	}
	add(rest, in.Zero(vt), false)
	return is
}

func (x *Exec) mapInit(m *Term) *Term {
	if m.Op == "gval" && x.P.tables[m.Aux] != nil {
		if v := x.tableTerm(m.Aux); v != nil {
			return v
		}
	}
	if m.Op == "alloc" {
		return x.In.mk("mempty", "", 0, nil)
	}
	return m
}

func (x *Exec) mapDelete(fr *frame, st *State, m, k *Term, pos token.Pos) {
	ck := x.canon(st, k)
	cur, ok := st.store[m]
	if !ok {
		cur = x.mapInit(m)
	}
	if !isLocal(m) {
		x.emit(st, &Event{Kind: "mapdel", Name: "mapdel", Args: []*Term{m, ck}, Raw: []*Term{m, k}, Fn: fr.fn, Pos: pos})
	} else {
		x.emit(st, &Event{Kind: "lmapdel", Name: "lmapdel", Args: []*Term{m, ck}, Raw: []*Term{m, k}, Fn: fr.fn, Pos: pos})
	}
	st.store[m] = x.In.mk("mdel", "", 0, nil, cur, ck)
}

func (x *Exec) mapLookup(st *State, m, k *Term, vt types.Type) (v, ok *Term) {
	in := x.In
	k = x.canon(st, k)
	cur, has := st.store[m]
	if !has {
		cur = x.mapInit(m)
	}
	for {
		switch cur.Op {
		case "mput":
			if cur.Args[1] == k {
				return cur.Args[2], in.Bool(true)
			}
			if e := in.Eq(cur.Args[1], k); e.IsFalse() {
				cur = cur.Args[0]
				continue
			}
		case "mdel":
			if cur.Args[1] == k {
				return in.Zero(vt), in.Bool(false)
			}
			if e := in.Eq(cur.Args[1], k); e.IsFalse() {
				cur = cur.Args[0]
				continue
			}
		case "mempty":
			return in.Zero(vt), in.Bool(false)
		}
		break
	}
	if k.Op == "ext" && k.Aux == "1" && k.Args[0].Op == "next" && k.Args[0].Args[0].Op == "range" && cur.Op != "mput" && cur.Op != "mdel" {
		if r := k.Args[0].Args[0].Args[0]; r == cur || r == m || r == x.canon(st, m) {
			return in.mk("ext", "2", 0, vt, k.Args[0]), in.Bool(true) // the key the loop is at
		}
	}
	return in.mk("lookup", "", 0, vt, cur, k), in.mk("has", "", 0, types.Typ[types.Bool], cur, k)
}

func (x *Exec) canonAll(st *State, ts []*Term) []*Term {
	r := make([]*Term, len(ts))
	for i, t := range ts {
		r[i] = x.canon(st, t)
	}
	return r
}

// simple handles pure instructions; it reports false for anything with an effect.
func (x *Exec) simple(fr *frame, it *item, ins ssa.Instruction) bool {
	in := x.In
	st := it.st
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.newAlloc(st, "var", ins.Type())
		it.env[ins] = t
	case *ssa.MakeSlice:
		n := x.val(it, ins.Len)
		var t types.Type = ins.Type()
		var a *Term
		if n.IsInt && n.I <= 4096 {
			t = types.NewArray(ins.Type().Underlying().(*types.Slice).Elem(), n.I)
			a = x.newAlloc(st, "make"+n.Aux, types.NewPointer(t))
			st.store[a] = in.Zero(t)
		} else {
			a = x.newAlloc(st, "make", types.NewPointer(t))
			st.store[a] = in.mk("make", "", 0, t, n)
		}
		it.env[ins] = in.mk("sref", "", 0, ins.Type(), a, in.Int(0), n)
	case *ssa.MakeMap:
		it.env[ins] = x.newAlloc(st, "map", ins.Type())
	case *ssa.MakeChan:
		it.env[ins] = x.newAlloc(st, "chan", ins.Type())
	case *ssa.MakeInterface:
		v := x.val(it, ins.X)
		t := in.mk("iface", typeName(ins.X.Type()), 0, ins.X.Type(), v)
		it.env[ins] = t
	case *ssa.MakeClosure:
		fn := ins.Fn.(*ssa.Function)
		var b []*Term
		for _, v := range ins.Bindings {
			b = append(b, x.val(it, v))
		}
		t := in.mk("closure", x.P.Name(fn), 0, ins.Type(), b...)
		t.Fn = fn
		it.env[ins] = t
	case *ssa.ChangeType:
		it.env[ins] = x.val(it, ins.X)
	case *ssa.ChangeInterface:
		it.env[ins] = x.val(it, ins.X)
	case *ssa.MultiConvert:
		it.env[ins] = x.val(it, ins.X)
	case *ssa.SliceToArrayPointer:
		it.env[ins] = x.val(it, ins.X)
	case *ssa.Convert:
		it.env[ins] = x.convert(st, x.val(it, ins.X), ins.X.Type(), ins.Type())
	case *ssa.UnOp:
		v := x.val(it, ins.X)
		switch ins.Op {
		case token.MUL:
			loc := StripIface(v)
			if x.Cfg.WatchLoad != nil && !isLocal(loc) && x.Cfg.WatchLoad(loc) {
				x.emit(st, &Event{Kind: "load", Name: "load", Args: []*Term{loc}, Raw: []*Term{loc}, Fn: fr.fn, Pos: ins.Pos()})
			}
			it.env[ins] = x.read(st, loc)
		case token.NOT:
			it.env[ins] = in.Not(v)
		case token.SUB:
			if isIntType(ins.Type()) {
				it.env[ins] = in.fromLin(toLin(v).scale(-1), ins.Type())
			} else {
				it.env[ins] = in.mk("neg", "", 0, ins.Type(), v)
			}
		case token.XOR:
			it.env[ins] = in.mk("bitnot", "", 0, ins.Type(), v)
		case token.ARROW:
			st.occ["recv"]++
			it.env[ins] = in.mk("recv", "", st.occ["recv"], ins.Type(), x.canon(st, v))
		}
	case *ssa.BinOp:
		it.env[ins] = x.binop(st, ins.Op, x.val(it, ins.X), x.val(it, ins.Y), ins.X.Type(), ins.Type())
	case *ssa.FieldAddr:
		s := structOf(deref(ins.X.Type()))
		it.env[ins] = x.fieldAddr(x.val(it, ins.X), s, ins.Field)
	case *ssa.Field:
		s := structOf(ins.X.Type())
		it.env[ins] = in.Sel(x.val(it, ins.X), fname(s.Field(ins.Field)), s.Field(ins.Field).Type())
	case *ssa.IndexAddr:
		base, i := x.val(it, ins.X), x.val(it, ins.Index)
		x.bound(fr, it, base, i, i, ins.Pos(), "index")
		it.env[ins] = x.indexAddr(base, i, deref(ins.Type()))
	case *ssa.Index:
		base, i := x.val(it, ins.X), x.val(it, ins.Index)
		x.bound(fr, it, base, i, i, ins.Pos(), "index")
		it.env[ins] = in.Idx(x.canon(st, base), i, ins.Type())
	case *ssa.Lookup:
		m, k := x.val(it, ins.X), x.val(it, ins.Index)
		if b, ok := ins.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x.bound(fr, it, m, k, k, ins.Pos(), "index")
			it.env[ins] = in.Idx(x.canon(st, m), k, ins.Type())
			break
		}
		vt := ins.X.Type().Underlying().(*types.Map).Elem()
		v, ok := x.mapLookup(st, m, k, vt)
		if x.Cfg.WatchLoad != nil && !isLocal(m) {
			x.emit(st, &Event{Kind: "load", Name: "lookup", Args: []*Term{m, x.canon(st, k)}, Raw: []*Term{m, k}, Fn: fr.fn, Pos: ins.Pos()})
		}
		if ins.CommaOk {
			it.env[ins] = in.mk("tuple", "", 0, ins.Type(), v, ok)
		} else {
			it.env[ins] = v
		}
	case *ssa.Slice:
		it.env[ins] = x.sliceOp(fr, it, ins)
	case *ssa.Extract:
		t := x.val(it, ins.Tuple)
		it.env[ins] = x.extract(t, ins.Index, ins.Type())
	case *ssa.TypeAssert:
		v := x.val(it, ins.X)
		it.env[ins] = x.typeAssert(v, ins)
	case *ssa.Range:
		m := x.val(it, ins.X)
		cm := x.canon(st, m)
		if v, ok := st.store[m]; ok {
			cm = v
		}
		it.env[ins] = in.mk("range", "", 0, ins.Type(), cm)
		if x.Cfg.WatchLoad != nil && !isLocal(m) {
			x.emit(st, &Event{Kind: "load", Name: "range", Args: []*Term{m}, Raw: []*Term{m}, Fn: fr.fn, Pos: ins.Pos()})
		}
	default:
		return false
	}
	return true
}

func (x *Exec) extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == "tuple" && i < len(t.Args) {
		return t.Args[i]
	}
	return x.In.mk("ext", fmt.Sprint(i), 0, typ, t)
}

func (x *Exec) typeAssert(v *Term, ins *ssa.TypeAssert) *Term {
	in := x.In
	if v.Op == "iface" {
		ok := false
		known := true
		if types.IsInterface(ins.AssertedType) {
			ok = types.Implements(v.T, ins.AssertedType.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(v.T, ins.AssertedType)
		}
		if known {
			if ins.CommaOk {
				r := v.Args[0]
				if types.IsInterface(ins.AssertedType) {
					r = v
				}
				if !ok {
					r = in.Zero(ins.AssertedType)
				}
				return in.mk("tuple", "", 0, ins.Type(), r, in.Bool(ok))
			}
			if ok {
				if types.IsInterface(ins.AssertedType) {
					return v
				}
				return v.Args[0]
			}
		}
	}
	tn := typeName(ins.AssertedType)
	r := in.mk("tassert", tn, 0, ins.AssertedType, v)
	if ins.CommaOk {
		return in.mk("tuple", "", 0, ins.Type(), r, in.mk("is", tn, 0, types.Typ[types.Bool], v))
	}
	return r
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	in := x.In
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if v.IsInt {
				w := intWidth(tb)
				u := v.I
				if w < 64 {
					if tb.Info()&types.IsUnsigned != 0 {
						u &= (1 << uint(w)) - 1
					} else {
						u = int64(u<<uint(64-w)) >> uint(64-w)
					}
				}
				return in.Int(u)
			}
			if intWidth(tb) < intWidth(fb) {
				if v.Op == "lin" && tb.Info()&types.IsUnsigned != 0 && atMost(v) < 1<<uint(intWidth(tb)) && x.Decide(st, in.Le(in.Int(0), v)) == 1 {
					return v // nothing is cut off
				}
				return in.mk("trunc", tb.Name(), 0, to, v)
			}
			return v
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			return in.mk("conv", "string", 0, to, v)
		}
		if fb.Kind() != tb.Kind() && (fb.Info()&types.IsFloat != 0 || tb.Info()&types.IsFloat != 0) {
			return in.mk("conv", tb.Name(), 0, to, v)
		}
		return v
	}
	// string <-> []byte: same sequence value (a copy)
	if ok1 || ok2 {
		return x.canon(st, v)
	}
	return v
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, opt, rt types.Type) *Term {
	in := x.In
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		pa, pb := StripIface(a), StripIface(b)
		if _, isptr := opt.Underlying().(*types.Pointer); isptr && !pa.IsNil() && !pb.IsNil() {
			if pa == pb {
				r = in.Bool(true)
			} else if pa.Op == "alloc" || pb.Op == "alloc" {
				r = in.mk("ptreq", "", 0, rt, pa, pb)
			} else {
				if pa.ID > pb.ID {
					pa, pb = pb, pa
				}
				r = in.mk("ptreq", "", 0, rt, pa, pb)
			}
		} else if pa.IsNil() || pb.IsNil() {
			o := a
			if pa.IsNil() {
				o = b
			}
			if x.nonNil(st, o) {
				r = in.Bool(false)
			} else {
				r = in.Eq(o, in.Nil())
			}
		} else {
			if a.IsTrue() || b.IsTrue() {
				if a.IsTrue() {
					r = b
				} else {
					r = a
				}
			} else if a.IsFalse() || b.IsFalse() {
				if a.IsFalse() {
					r = in.Not(b)
				} else {
					r = in.Not(a)
				}
			} else {
				ca, cb := x.canon(st, a), x.canon(st, b)
				r = x.eqT(ca, cb)
			}
		}
		if op == token.NEQ {
			return in.Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isIntType(opt) {
			switch op {
			case token.LSS:
				return in.Lt(a, b)
			case token.LEQ:
				return in.Le(a, b)
			case token.GTR:
				return in.Lt(b, a)
			default:
				return in.Le(b, a)
			}
		}
		switch op {
		case token.LSS:
			return in.mk("lt", "", 0, rt, a, b)
		case token.GTR:
			return in.mk("lt", "", 0, rt, b, a)
		case token.LEQ:
			return in.Not(in.mk("lt", "", 0, rt, b, a))
		default:
			return in.Not(in.mk("lt", "", 0, rt, a, b))
		}
	case token.ADD:
		if isIntType(rt) {
			return x.narrow(st, in.Add(a, b), rt, a, b, 1)
		}
		if bt, ok := rt.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return in.Cat(rt, x.canon(st, a), x.canon(st, b))
		}
	case token.SUB:
		if isIntType(rt) {
			return x.narrow(st, in.Sub(a, b), rt, a, b, -1)
		}
	case token.MUL:
		if isIntType(rt) {
			return x.narrow(st, in.MulT(a, b), rt, a, b, 0)
		}
	case token.SHL:
		if isIntType(rt) && b.IsInt && b.I >= 0 && b.I < 31 && intWidth(rt.Underlying().(*types.Basic)) >= 32 && !isMaskLike(a) {
			return in.MulT(in.Int(1<<uint(b.I)), a)
		}
	}
	if a.IsInt && b.IsInt {
		var r int64
		ok := true
		switch op {
		case token.QUO:
			if b.I == 0 {
				ok = false
			} else {
				r = a.I / b.I
			}
		case token.REM:
			if b.I == 0 {
				ok = false
			} else {
				r = a.I % b.I
			}
		case token.AND:
			r = a.I & b.I
		case token.OR:
			r = a.I | b.I
		case token.XOR:
			r = a.I ^ b.I
		case token.SHL:
			r = a.I << uint(b.I)
		case token.SHR:
			r = a.I >> uint(b.I)
		case token.AND_NOT:
			r = a.I &^ b.I
		default:
			ok = false
		}
		if ok {
			if bt, isb := rt.Underlying().(*types.Basic); isb {
				return x.convert(st, in.Int(r), types.Typ[types.Int64], bt)
			}
			return in.Int(r)
		}
	}
	if bt, ok := rt.Underlying().(*types.Basic); ok && op == token.SHR && b.IsInt && b.I >= 0 && bt.Info()&types.IsUnsigned != 0 && a.Op == "bin" && len(a.Args) == 2 && a.Args[1].IsInt && a.Args[1].I >= 0 {
		switch k := a.Args[1]; a.Aux {
		case ">>":
			if sum := k.I + b.I; sum < int64(intWidth(bt)) {
				return x.binop(st, op, a.Args[0], in.Int(sum), opt, rt)
			}
			return in.Int(0)
		case "&":
			if b.I < 63 {
				return x.binop(st, token.AND, x.binop(st, op, a.Args[0], b, opt, rt), in.Int(k.I>>uint(b.I)), opt, rt)
			}
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR:
		if a.ID > b.ID {
			a, b = b, a
		}
		if a.IsInt {
			a, b = b, a
		}
	}
	return in.mk("bin", op.String(), 0, rt, a, b)
}

// narrow is the result t of an operation of type rt: one on fewer than 64 bits wraps around
// unless t is known to fit.  t is a plus (sign 1) or minus (-1) b.
// atMost: a sum is not above this, by the types of what is summed up.
func atMost(t *Term) int64 {
	l := toLin(t)
	sum := l.c
	for u, c := range l.m {
		if c < 0 && unsignedTerm(u) {
			continue
		}
		w := 0
		if u.T != nil {
			if b, ok := u.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				w = intWidth(b)
			}
		}
		if c < 0 || c > 1<<16 || w == 0 || w > 32 {
			return math.MaxInt64
		}
		sum += c * (int64(1)<<uint(w) - 1)
	}
	return sum
}

func unsignedTerm(t *Term) bool {
	if t.T == nil {
		return false
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (x *Exec) narrow(st *State, t *Term, rt types.Type, a, b *Term, sign int64) *Term {
	bt, ok := rt.Underlying().(*types.Basic)
	if !ok || intWidth(bt) >= 64 {
		return t
	}
	if t.IsInt {
		return x.convert(st, t, types.Typ[types.Int64], bt)
	}
	in, w := x.In, uint(intWidth(bt))
	// a number made one more and one less again is the number
	if sign != 0 && b.IsInt && a.Op == "trunc" && a.Aux == bt.Name() {
		if u := in.Add(a.Args[0], in.Int(sign*b.I)); u.T != nil && !u.IsInt && u.Op != "lin" && types.Identical(u.T.Underlying(), bt) {
			return u
		}
	}
	lo, hi := int64(0), int64(1)<<w-1
	if bt.Info()&types.IsUnsigned == 0 {
		lo, hi = -(int64(1) << (w - 1)), int64(1)<<(w-1)-1
	}
	if x.Decide(st, in.Le(t, in.Int(hi))) == 1 && x.Decide(st, in.Le(in.Int(lo), t)) == 1 {
		return t
	}
	// a is in range already: one more or less fits unless it is at the end
	if sign != 0 && (b.IsInt || sign > 0 && a.IsInt) {
		if a.IsInt {
			a, b = b, a
		}
		c := sign * b.I
		switch {
		case c > 0 && (x.Decide(st, in.Le(a, in.Int(hi-c))) == 1 || c == 1 && x.Decide(st, in.Eq(a, in.Int(hi))) == -1):
			return t
		case c < 0 && (x.Decide(st, in.Le(in.Int(lo-c), a)) == 1 || c == -1 && x.Decide(st, in.Eq(a, in.Int(lo))) == -1):
			return t
		}
	}
	return in.mk("trunc", bt.Name(), 0, rt, t)
}

func isMaskLike(t *Term) bool { return false }

// eqT: equality of canonical values; sequences of known equal shape compare as wholes.
func (x *Exec) eqT(a, b *Term) *Term {
	if a.Op == "call" && a.Aux == "bytesOf" && b.Op == "call" && b.Aux == "bytesOf" {
		return x.In.Eq(a.Args[0], b.Args[0])
	}
	return x.In.Eq(a, b)
}

func (x *Exec) bound(fr *frame, it *item, base, lo, hi *Term, pos token.Pos, kind string) {
	if !x.Cfg.Bounds {
		return
	}
	in := x.In
	st := it.st
	b := StripIface(base)
	var l *Term
	if b.Op == "sref" {
		l = in.Len(b)
	} else if n, _, ok := arrayLen(b.T); ok {
		l = in.Int(n)
	} else {
		l = in.Len(x.canon(st, b))
	}
	var c1, c2 *Term
	if kind == "index" {
		c1 = in.Le(in.Int(0), lo)
		c2 = in.Lt(lo, l)
	} else {
		c1 = in.Le(in.Int(0), lo)
		c2 = in.Le(hi, l)
		c3 := in.Le(lo, hi)
		if x.Decide(st, c3) != 1 {
			x.emit(st, &Event{Kind: "bound", Name: kind, Args: []*Term{c3, b, lo}, Fn: fr.fn, Pos: pos})
		}
	}
	for _, c := range []*Term{c1, c2} {
		if x.Decide(st, c) != 1 {
			x.emit(st, &Event{Kind: "bound", Name: kind, Args: []*Term{c, b, lo}, Fn: fr.fn, Pos: pos})
		} else {
			st.occ["boundok"]++
		}
	}
}

func (x *Exec) sliceOp(fr *frame, it *item, ins *ssa.Slice) *Term {
	in := x.In
	st := it.st
	v := StripIface(x.val(it, ins.X))
	lo := in.Int(0)
	if ins.Low != nil {
		lo = x.val(it, ins.Low)
	}
	var hi *Term
	xt := ins.X.Type().Underlying()
	if p, ok := xt.(*types.Pointer); ok {
		n := p.Elem().Underlying().(*types.Array).Len()
		hi = in.Int(n)
		if ins.High != nil {
			hi = x.val(it, ins.High)
			x.bound(fr, it, v, lo, hi, ins.Pos(), "slice")
		} else if ins.Low != nil {
			x.bound(fr, it, v, lo, hi, ins.Pos(), "slice")
		}
		return in.mk("sref", "", 0, ins.Type(), v, lo, hi)
	}
	var l *Term
	if v.Op == "sref" {
		l = in.Len(v)
	} else {
		l = in.Len(x.canon(st, v))
	}
	hi = l
	if ins.High != nil {
		hi = x.val(it, ins.High)
	}
	if ins.Low != nil || ins.High != nil {
		x.bound(fr, it, v, lo, hi, ins.Pos(), "slice")
	}
	if v.Op == "sref" {
		return in.mk("sref", "", 0, ins.Type(), v.Args[0], in.Add(v.Args[1], lo), in.Add(v.Args[1], hi))
	}
	if lo.IsInt && lo.I == 0 && hi == l {
		return v
	}
	return in.SubSeq(x.contentIfWritten(st, v), lo, hi, ins.Type())
}

func (x *Exec) contentIfWritten(st *State, v *Term) *Term {
	return v
}

func (x *Exec) callArgs(it *item, c *ssa.CallCommon) []*Term {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, x.val(it, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, x.val(it, a))
	}
	return args
}

func (x *Exec) calleeName(it *item, c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return x.P.ifaceName(c)
	}
	if f := c.StaticCallee(); f != nil {
		return x.P.Name(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	t := x.val(it, c.Value)
	if t.Fn != nil {
		return x.P.Name(t.Fn)
	}
	return "dyn"
}

func (x *Exec) inStack(fn *ssa.Function) bool {
	for _, f := range x.stack {
		if f == fn {
			return true
		}
	}
	return false
}

var _ = strings.Contains

// nilUse: the pointer or map that ins cannot do without.
func nilUse(ins ssa.Instruction) ssa.Value {
	switch ins := ins.(type) {
	case *ssa.FieldAddr:
		return ins.X
	case *ssa.UnOp:
		if ins.Op == token.MUL {
			return ins.X
		}
	case *ssa.Store:
		return ins.Addr
	case *ssa.MapUpdate:
		return ins.Map
	}
	return nil
}

// isNilPtr: v is known to be nil here.
func (x *Exec) isNilPtr(st *State, v *Term) bool {
	v = StripIface(v)
	switch v.Op {
	case "lookup":
		if x.Decide(st, x.In.mk("has", "", 0, types.Typ[types.Bool], v.Args...)) == -1 {
			return true
		}
		return x.NilState(st, v) == 1
	case "param", "ext", "call", "sel":
		return x.NilState(st, v) == 1
	}
	return v.IsNil()
}

// needed: the pointers, maps and interfaces that ins uses, and the interfaces it hands to a
// function of the module.
func (x *Exec) needed(ins ssa.Instruction) (vs []ssa.Value) {
	c, ok := ins.(ssa.CallInstruction)
	if !ok {
		if v := nilUse(ins); v != nil {
			vs = append(vs, v)
		}
		return
	}
	if c.Common().IsInvoke() {
		vs = append(vs, c.Common().Value)
	}
	if fn := c.Common().StaticCallee(); fn == nil || fn.Pkg == nil || !strings.Contains(fn.Pkg.Pkg.Path(), "iden3") {
		return
	}
	if fn := c.Common().StaticCallee(); len(fn.Blocks) > 0 && x.Cfg.Opaque != nil && !x.Cfg.Opaque(fn, x.P.Name(fn)) {
		return // what it does with its arguments is seen
	}
	for _, a := range c.Common().Args {
		if _, ok := a.Type().Underlying().(*types.Interface); ok {
			if _, ok := a.(*ssa.MakeInterface); !ok {
				vs = append(vs, a)
			}
		}
	}
	return
}

// unsure: v comes with an error of a call that may have failed.
func (x *Exec) unsure(st *State, v *Term) bool {
	if v.Op != "ext" || v.Args[0].T == nil {
		return false
	}
	tp, ok := v.Args[0].T.(*types.Tuple)
	if !ok || tp.Len() < 2 {
		return false
	}
	n := tp.Len() - 1
	if e := tp.At(n).Type(); e.String() != "error" || v.Aux == fmt.Sprint(n) {
		return false
	}
	return x.NilState(st, v) != -1 && x.NilState(st, x.In.Mk("ext", fmt.Sprint(n), v.Args[0])) != 1
}

// quotient: the three ways a number divided by a constant compares with a quotient.
func (x *Exec) quotient(it *item, c *Term) []*item {
	in := x.In
	e, yes, no := c, 0, 1
	if c.Op == "not" {
		e, yes, no = c.Args[0], 1, 0
	}
	if e.Op != "eq" || !e.Args[1].IsInt || e.Args[1].I <= 0 {
		return nil
	}
	q, k := e.Args[0], e.Args[1].I
	if q.Op != "bin" || q.Aux != "/" || !q.Args[1].IsInt || q.Args[1].I <= 0 || k > 1<<30 || q.Args[1].I > 1<<30 {
		return nil
	}
	n, d := q.Args[0], q.Args[1].I
	below, above := in.Lt(n, in.Int(k*d)), in.Le(in.Int((k+1)*d), n)
	var out []*item
	fork := func(edge int, cs ...*Term) {
		for _, c := range cs {
			if x.Decide(it.st, c) == -1 {
				return
			}
		}
		o := x.goTo(it.fork(), edge)
		for _, c := range cs {
			x.assume(o.st, c)
		}
		out = append(out, o)
	}
	fork(no, below)
	fork(no, above)
	fork(yes, in.Not(below), in.Not(above))
	return out
}
