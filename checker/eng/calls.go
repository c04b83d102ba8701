package eng

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) doCall(fr *frame, st *State, it *item, c *ssa.CallCommon, ins ssa.CallInstruction, deferred bool) []*Out {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, x.val(it, a))
	}
	var f *Term
	if c.IsInvoke() || c.StaticCallee() == nil {
		f = x.val(it, c.Value)
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		f = x.val(it, mc)
	}
	return x.invoke(fr, st, c, f, args, ins, it, deferred)
}

// invoke resolves and applies one call. args excludes the receiver of interface calls (fval).
func (x *Exec) invoke(fr *frame, st *State, c *ssa.CallCommon, fval *Term, args []*Term, ins ssa.CallInstruction, it *item, deferred bool) []*Out {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return []*Out{{St: st, Kind: "return", Res: x.builtin(fr, st, b, c, args, ins)}}
	}
	sig := c.Signature()
	if c.IsInvoke() {
		recv := fval
		if recv.Op == "iface" && recv.T != nil {
			if m := x.P.Prog.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name()); m != nil {
				return x.apply(fr, st, m, append([]*Term{recv.Args[0]}, args...), nil, sig, ins, deferred)
			}
		}
		name := x.P.ifaceName(c)
		x.ifEff = x.P.ifaceEffects(c)
		return x.opaque(fr, st, name, nil, append([]*Term{recv}, args...), sig, ins, deferred)
	}
	if f := c.StaticCallee(); f != nil {
		var free []*Term
		if fval != nil && fval.Op == "closure" {
			free = fval.Args
		}
		return x.apply(fr, st, f, args, free, sig, ins, deferred)
	}
	if fval != nil && fval.Fn != nil {
		return x.apply(fr, st, fval.Fn, args, fval.Args, sig, ins, deferred)
	}
	return x.opaque(fr, st, "dyn", nil, append([]*Term{fval}, args...), sig, ins, deferred)
}

func (x *Exec) apply(fr *frame, st *State, fn *ssa.Function, args, free []*Term, sig *types.Signature, ins ssa.CallInstruction, deferred bool) []*Out {
	name := x.P.Name(fn)
	if r, ok := x.model(fr, st, name, fn, args, ins, deferred); ok {
		return []*Out{{St: st, Kind: "return", Res: r}}
	}
	inl := len(fn.Blocks) > 0 && !x.inStack(fn) && len(x.stack) < 40
	if inl && x.Cfg.Opaque != nil && x.Cfg.Opaque(fn, name) {
		inl = false
	}
	if inl {
		return x.callFn(fn, args, free, st)
	}
	return x.opaque(fr, st, name, fn, args, sig, ins, deferred)
}

// purePkgs: functions of these packages neither have effects nor depend on mutable state.
var purePkgs = map[string]bool{
	"bytes": true, "strings": true, "hex": true, "base64": true, "errors": true, "strconv": true,
	"math": true, "sort": true, "filepath": true, "path": true, "unicode": true, "utf8": true,
}

var pureFuncs = map[string]bool{
	"fmt.Errorf": true, "fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"time.Unix": true, "time.Duration.String": true, "json.Marshal": true, "json.MarshalIndent": true,
	"crypto.Keccak256": true, "crypto.Keccak256Hash": true, "sha256.Sum256": true, "sha256.New": false,
	"types.HexToAddress": true, "common.HexToAddress": true, "common.BytesToAddress": true, "common.HexToHash": true,
	"common.BytesToHash": true, "crypto.PubkeyToAddress": true, "crypto.SigToPub": true, "crypto.Ecrecover": true,
	"crypto.VerifySignature": true, "crypto.CompressPubkey": true, "crypto.DecompressPubkey": true, "crypto.UnmarshalPubkey": true, "crypto.FromECDSAPub": true,
}

var skipNames = map[string]bool{}

func isLogName(name string) bool {
	return strings.HasPrefix(name, "logrus.") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "color.")
}

func (x *Exec) isPure(name string) bool {
	if v, ok := pureFuncs[name]; ok {
		return v
	}
	if x.Cfg.Pure != nil && x.Cfg.Pure(name) {
		return true
	}
	if i := strings.IndexByte(name, '.'); i > 0 {
		p := name[:i]
		if p == "bytes" || p == "strings" {
			// Buffer/Builder/Reader methods are stateful
			rest := name[i+1:]
			if strings.HasPrefix(rest, "Buffer.") || strings.HasPrefix(rest, "Builder.") || strings.HasPrefix(rest, "Reader.") || strings.HasPrefix(rest, "NewBuffer") || strings.HasPrefix(rest, "NewReader") {
				return false
			}
		}
		if p == "sort" {
			return strings.HasPrefix(name, "sort.Search")
		}
		if purePkgs[p] {
			return true
		}
	}
	if strings.HasPrefix(name, "time.Time.") || strings.HasPrefix(name, "time.Duration.") || strings.HasPrefix(name, "time.Month") {
		return true
	}
	return false
}

// opaque records an uninterpreted call.
func (x *Exec) opaque(fr *frame, st *State, name string, fn *ssa.Function, args []*Term, sig *types.Signature, ins ssa.CallInstruction, deferred bool) []*Out {
	in := x.In
	pure := x.isPure(name) || pureOverride[name]
	reader := !pure && x.Cfg.Reader != nil && x.Cfg.Reader(name)
	eff := x.ifEff
	x.ifEff = nil
	if fn != nil && len(fn.Blocks) > 0 {
		eff = x.P.Effects(fn)
		if !pure && !eff.Impure && len(eff.Mut) == 0 {
			if eff.Handle {
				reader = true
			} else {
				pure = true
			}
		}
	} else if !pure && x.P.extPure(name) {
		pure = true
	}
	cargs := x.canonAll(st, args)
	n := 0
	log := isLogName(name)
	lock := strings.HasPrefix(name, "sync.")
	switch {
	case pure || log:
	case reader:
		n = st.epoch + 1
	case lock:
		n = 0
	default:
		k := name + "(" + termIDs(cargs) + ")"
		st.occ[k]++
		n = st.occ[k]
	}
	var rt types.Type = sig.Results()
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	// closures handed to the callee run an unknown number of times
	var cbs []*Out
	if !log {
		for _, a := range args {
			a = StripIface(a)
			if (a.Op == "closure" || a.Op == "func") && a.Fn != nil && len(a.Fn.Blocks) > 0 && !x.inStack(a.Fn) {
				cbs = append(cbs, x.callback(st, a)...)
			}
		}
	}
	res := in.mk("call", name, n, rt, cargs...)
	res.Fn = fn
	if !log {
		e := &Event{Kind: "call", Name: name, Args: cargs, Raw: args, Res: res, Fn: fr.fn, Callee: fn, Deferred: deferred, CB: cbs}
		if ins != nil {
			e.Pos = ins.Pos()
		}
		x.emit(st, e)
	}
	if !pure && !reader && !log && !lock {
		st.epoch++
	}
	if m := extMut(name); pure && m != nil && (fn == nil || len(fn.Blocks) == 0) {
		x.havocArgs(st, args, res, &Effects{Mut: m})
	}
	if !pure && !reader && !log && !lock && name != "runtime.SetFinalizer" && !(x.Cfg.NoHavoc != nil && x.Cfg.NoHavoc(name)) {
		if strings.HasPrefix(name, "heap.") { // the elements are moved, not changed
			eff = &Effects{Mut: map[int]bool{0: true}}
		}
		x.havocArgs(st, args, res, eff)
	}
	var rs []*Term
	switch sig.Results().Len() {
	case 0:
	case 1:
		rs = []*Term{res}
	default:
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, in.mk("ext", fmt.Sprint(i), 0, sig.Results().At(i).Type(), res))
		}
	}
	return []*Out{{St: st, Kind: "return", Res: rs}}
}

func termIDs(ts []*Term) string {
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "%d,", t.ID)
	}
	return sb.String()
}

func (x *Exec) havocArgs(st *State, args []*Term, res *Term, eff *Effects) {
	in := x.In
	for i, a := range args {
		if eff != nil && !eff.Mut[i] && StripIface(a).Op != "closure" {
			continue
		}
		a0 := StripIface(a)
		if res.Aux == "dyn" && unchanging[typeName(a0.T)] {
			continue
		}
		switch a0.Op {
		case "alloc", "fa", "ia":
			if !isLocal(a0) && !strings.HasPrefix(res.Aux, "heap.") {
				continue
			}
			if a0.Op == "alloc" && a0.Aux == "chan" {
				continue
			}
			x.write(st, a0, in.mk("out", fmt.Sprint(i), 0, deref(a0.T), res))
		case "sref":
			if !isLocal(a0.Args[0]) {
				continue
			}
			obj := a0.Args[0]
			lo, hi := a0.Args[1], a0.Args[2]
			n := in.Sub(hi, lo)
			out := in.mk("out", fmt.Sprint(i), 0, nil, res)
			if l, et, ok := arrayLen(obj.T); ok && lo.IsInt && lo.I == 0 && hi.IsInt && hi.I == l {
				x.write(st, obj, in.mk("out", fmt.Sprint(i), 0, types.NewArray(et, l), res))
			} else if whole := x.read(st, obj); lo.IsInt && lo.I == 0 && hi == in.Len(whole) {
				x.write(st, obj, in.mk("sub", "", 0, deref(obj.T), out, lo, n))
			} else {
				x.write(st, obj, in.mk("copyinto", "", 0, deref(obj.T), whole, lo, in.mk("sub", "", 0, nil, out, in.Int(0), n)))
			}
		case "closure":
			for _, b := range a0.Args {
				if isLocal(b) && b.Op == "alloc" {
					// captured variables may be rewritten by the callback
					if x.closureWrites(a0.Fn, b, a0) {
						o := in.mk("cbout", "", b.N, deref(b.T), res)
						if ev := st.Events; len(ev) > 0 && ev[len(ev)-1].Res == res {
							ev[len(ev)-1].CBOut = append(ev[len(ev)-1].CBOut, o)
						}
						x.write(st, b, o)
					}
				}
			}
		}
	}
}

// unchanging: objects that are not changed once they are made.
var unchanging = map[string]bool{"*merkletree.Node": true}

func (x *Exec) closureWrites(fn *ssa.Function, b, cl *Term) bool {
	idx := -1
	for i, a := range cl.Args {
		if a == b {
			idx = i
		}
	}
	if idx < 0 || idx >= len(fn.FreeVars) {
		return true
	}
	return addrWritten(fn.FreeVars[idx])
}

// addrWritten: something other than a load is done with the address v or a part of it.
func addrWritten(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			// load: a loaded slice/pointer could be written through, but not the variable itself
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if addrWritten(r) {
				return true
			}
		case *ssa.IndexAddr:
			if r.X != v || addrWritten(r) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// callback analyses a closure once with unknown arguments.
func (x *Exec) callback(st *State, cl *Term) []*Out {
	s := st.clone()
	base := len(s.Events)
	var ps []*Term
	for i, p := range cl.Fn.Params {
		ps = append(ps, x.In.mk("cbparam", fmt.Sprint(i), 0, p.Type()))
	}
	s.Events = nil
	// not only the first call: what earlier calls left in the captured variables
	for _, b := range cl.Args {
		if isLocal(b) && b.Op == "alloc" && x.closureWrites(cl.Fn, b, cl) {
			x.write(s, b, x.In.mk("cbin", "", b.N, deref(b.T)))
		}
	}
	outs := x.callFn(cl.Fn, ps, cl.Args, s)
	_ = base
	for _, o := range outs {
		for i, r := range o.Res {
			o.Res[i] = x.canon(o.St, r)
		}
	}
	return outs
}

func (x *Exec) builtin(fr *frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, ins ssa.CallInstruction) []*Term {
	in := x.In
	switch b.Name() {
	case "len", "cap":
		a := StripIface(args[0])
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			cur := a
			if v, ok := st.store[a]; ok {
				cur = v
			}
			return []*Term{in.mk("maplen", "", 0, types.Typ[types.Int], cur)}
		}
		if n, _, ok := arrayLen(c.Args[0].Type()); ok {
			return []*Term{in.Int(n)}
		}
		if b.Name() == "cap" {
			return []*Term{in.mk("cap", "", 0, types.Typ[types.Int], x.canon(st, a))}
		}
		if a.Op == "sref" {
			return []*Term{in.Len(a)}
		}
		return []*Term{x.counted(st, in.Len(x.canon(st, a)))}
	case "append":
		a := args[0]
		if len(args) == 1 {
			return []*Term{a}
		}
		ca, cb := x.canon(st, a), x.canonShallow(st, args[1])
		r := in.Cat(c.Args[0].Type(), x.canonShallow(st, a), cb)
		e := &Event{Kind: "append", Name: "append", Args: []*Term{ca, x.canon(st, args[1])}, Raw: []*Term{a, args[1]}, Res: r, Fn: fr.fn}
		if ins != nil {
			e.Pos = ins.Pos()
		}
		x.emit(st, e)
		return []*Term{r}
	case "copy":
		dst, src := StripIface(args[0]), args[1]
		cs := x.canon(st, src)
		n := in.Len(cs)
		dl := in.Len(dst)
		if dst.Op != "sref" {
			dl = in.Len(x.canon(st, dst))
		}
		x.copyTo(fr, st, dst, dl, cs, n, ins)
		if d := in.Sub(dl, n); d.IsInt {
			if d.I >= 0 {
				return []*Term{n}
			}
			return []*Term{dl}
		}
		switch {
		case x.Decide(st, in.Le(dl, n)) == 1:
			return []*Term{dl}
		case x.Decide(st, in.Le(n, dl)) == 1:
			return []*Term{n}
		}
		return []*Term{in.mk("min", "", 0, types.Typ[types.Int], dl, n)}
	case "delete":
		x.mapDelete(fr, st, args[0], args[1], ins.Pos())
		return nil
	case "panic":
		return nil
	case "recover":
		return []*Term{in.mk("recover", "", 0, nil)}
	case "close":
		x.emit(st, &Event{Kind: "close", Name: "close", Args: x.canonAll(st, args), Fn: fr.fn, Pos: ins.Pos()})
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return []*Term{args[0]}
	}
	return []*Term{in.mk("call", b.Name(), 0, nil, x.canonAll(st, args)...)}
}

// canonShallow gives the content of a sequence without chasing pointers inside its elements.
func (x *Exec) canonShallow(st *State, t *Term) *Term {
	t = StripIface(t)
	switch t.Op {
	case "sref":
		return x.In.SubSeq(x.read(st, t.Args[0]), t.Args[1], t.Args[2], t.T)
	}
	if v, ok := st.store[t]; ok {
		return v
	}
	return t
}

func (x *Exec) copyTo(fr *frame, st *State, dst, dl, src, n *Term, ins ssa.CallInstruction) {
	in := x.In
	n, dl = x.counted(st, n), x.counted(st, dl)
	obj, lo := dst, in.Int(0)
	if dst.Op == "sref" {
		obj, lo = dst.Args[0], dst.Args[1]
	} else if dst.Op == "sub" {
		obj, lo = dst.Args[0], dst.Args[1]
	}
	if !isLocal(obj) {
		e := &Event{Kind: "store", Name: "copy", Args: []*Term{obj, src}, Raw: []*Term{obj, src}, Fn: fr.fn}
		if ins != nil {
			e.Pos = ins.Pos()
		}
		x.emit(st, e)
	}
	// length actually copied
	cnt := n
	d := in.Sub(dl, n)
	if d.IsInt && d.I < 0 {
		cnt = dl
		src = in.SubSeq(src, in.Int(0), dl, nil)
	} else if !d.IsInt {
		switch {
		case x.Decide(st, in.Le(dl, n)) == 1:
			cnt = dl
			src = in.SubSeq(src, in.Int(0), dl, nil)
		case x.Decide(st, in.Le(n, dl)) == 1:
		case dl.IsInt && dst.Op == "sref":
			// source of unknown length into a fixed array: keep it as the value "fit to dl"
			cnt = dl
			src = in.mk("fit", "", 0, nil, src, dl)
			src.T = types.NewArray(types.Typ[types.Uint8], dl.I)
		default:
			// not known which of the two ends first: not the whole source
			src = in.mk("fit", "", 0, nil, src, dl)
			cnt = in.Len(src)
		}
	}
	if cnt.IsInt && cnt.I == 0 {
		return
	}
	if al, et, ok := arrayLen(obj.T); ok && lo.IsInt && cnt.IsInt && al <= 1024 && lo.I+cnt.I <= al {
		if lo.I == 0 && cnt.I == al {
			x.write(st, obj, src)
			return
		}
		for i := int64(0); i < cnt.I; i++ {
			x.write(st, x.indexAddr(obj, in.Int(lo.I+i), et), in.Idx(src, in.Int(i), et))
		}
		return
	}
	prev := x.read(st, obj)
	if lo.IsInt && lo.I == 0 && cnt == in.Len(prev) {
		x.write(st, obj, src)
		return
	}
	x.write(st, obj, in.pieces(in.mk("copyinto", "", 0, prev.T, prev, lo, src)))
}

// pieces: a sequence made and then filled piece by piece, from the first to the last.
func (in *Interner) pieces(v *Term) *Term {
	end := in.Len(v)
	var ps []*Term
	u := v
	for ; u.Op == "copyinto" || u.Op == "upd"; u = u.Args[0] {
		at, p := u.Args[1], u.Args[2]
		if u.Op == "upd" {
			p = in.Elem1(p)
		}
		if in.Add(at, in.Len(p)) != end {
			return v
		}
		ps = append([]*Term{p}, ps...)
		end = at
	}
	if u.Op != "make" || !end.IsInt || end.I != 0 {
		return v
	}
	return in.Cat(v.T, ps...)
}

// model interprets a few library functions exactly.
func (x *Exec) model(fr *frame, st *State, name string, fn *ssa.Function, args []*Term, ins ssa.CallInstruction, deferred bool) ([]*Term, bool) {
	in := x.In
	c := func(i int) *Term { return x.canon(st, args[i]) }
	boolT := types.Typ[types.Bool]
	call := func(n string, as ...*Term) *Term {
		t := in.mk("call", n, 0, nil, as...)
		if fn != nil && fn.Signature.Results().Len() == 1 {
			t.T = fn.Signature.Results().At(0).Type()
		}
		return t
	}
	switch name {
	case "common.Uint64ToEthBytes": // that it does this is a rule of its own
		return []*Term{in.numBytes("be", 8, c(0))}, true
	case "common.Uint32ToEthBytes":
		return []*Term{in.numBytes("be", 4, c(0))}, true
	case "bytes.Equal":
		return []*Term{x.eqT(c(0), c(1))}, true
	case "bytes.Compare", "strings.Compare":
		a, b := c(0), c(1)
		return []*Term{in.mk("cmp3", "", 0, types.Typ[types.Int], a, b)}, true
	case "json.Unmarshal": // of what was marshalled from a value of the same type
		if m := c(0); m.Op == "ext" && m.Aux == "0" && m.Args[0].Op == "call" && m.Args[0].Aux == "json.Marshal" {
			if dst := StripIface(args[1]); isLocal(dst) {
				v := m.Args[0].Args[0]
				if t := deref(dst.T); v.T != nil && t != nil && types.Identical(v.T, t) && jsonWhole(t) {
					x.write(st, dst, v)
					return []*Term{in.Nil()}, true
				}
			}
		}
	case "hex.Decode": // of what was encoded, into a buffer of that size
		if h, ok := isHex(c(1)); ok {
			dst := StripIface(args[0])
			dl := in.Len(dst)
			if dst.Op != "sref" {
				dl = in.Len(x.canon(st, dst))
			}
			if n := in.Len(h); dl == n {
				x.copyTo(fr, st, dst, dl, h, n, ins)
				return []*Term{n, in.Nil()}, true
			}
		}
	case "hex.DecodeString": // of what was encoded
		if h, ok := isHex(c(0)); ok {
			return []*Term{h, in.Nil()}, true
		}
	case "fmt.Sprintf":
		if t := x.sprintf(st, c(0), c(1), args[1]); t != nil {
			return []*Term{t}, true
		}
	case "strings.HasPrefix", "bytes.HasPrefix":
		if p, ok := constStr(c(1)); ok {
			h, all := headStr(c(0))
			switch {
			case strings.HasPrefix(h, p):
				return []*Term{in.Bool(true)}, true
			case all || !strings.HasPrefix(p, h) || neverHex(c(0), p):
				return []*Term{in.Bool(false)}, true
			}
		}
	case "strings.TrimPrefix", "bytes.TrimPrefix":
		if p, ok := constStr(c(1)); ok {
			h, all := headStr(c(0))
			switch {
			case strings.HasPrefix(h, p):
				return []*Term{in.SubSeq(c(0), in.Int(int64(len(p))), in.Len(c(0)), c(0).T)}, true
			case all || !strings.HasPrefix(p, h) || neverHex(c(0), p):
				return []*Term{c(0)}, true
			}
		}
		a, b := c(0), c(1)
		switch x.Decide(st, call(strings.Replace(name, "Trim", "Has", 1), a, b)) {
		case 1:
			return []*Term{in.SubSeq(a, in.Len(b), in.Len(a), a.T)}, true
		case -1:
			return []*Term{a}, true
		}
	case "time.Time.Before":
		return []*Term{in.Lt(c(0), c(1))}, true
	case "time.Time.After":
		return []*Term{in.Lt(c(1), c(0))}, true
	case "time.Time.Equal":
		return []*Term{in.Eq(c(0), c(1))}, true
	case "time.Time.Sub":
		return []*Term{in.Sub(c(0), c(1))}, true
	case "time.Time.Add":
		return []*Term{in.Add(c(0), c(1))}, true
	case "time.Time.UTC", "time.Time.Local":
		return []*Term{c(0)}, true
	case "time.Since":
		st.occ["time.Now"]++
		return []*Term{in.Sub(in.mk("call", "time.Now", st.occ["time.Now"], nil), c(0))}, true
	case "time.Until":
		st.occ["time.Now"]++
		return []*Term{in.Sub(c(0), in.mk("call", "time.Now", st.occ["time.Now"], nil))}, true
	case "time.Now":
		st.occ["time.Now"]++
		t := in.mk("call", "time.Now", st.occ["time.Now"], nil)
		if fn != nil {
			t.T = fn.Signature.Results().At(0).Type()
		}
		return []*Term{t}, true
	case "binary.littleEndian.Uint16", "binary.littleEndian.Uint32", "binary.littleEndian.Uint64", "binary.bigEndian.Uint16", "binary.bigEndian.Uint32", "binary.bigEndian.Uint64":
		w := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		end := "le"
		if strings.Contains(name, "big") {
			end = "be"
		}
		v := c(1)
		if l := in.Len(v); !(l.IsInt && l.I == w) {
			v = in.SubSeq(v, in.Int(0), in.Int(w), nil)
		}
		if v.Op == end && int64(v.N) == w {
			return []*Term{v.Args[0]}, true
		}
		if x.Cfg.Bounds && ins != nil {
			l := in.Len(c(1))
			if ob := in.Le(in.Int(w), l); x.Decide(st, ob) != 1 {
				x.emit(st, &Event{Kind: "bound", Name: "slice", Args: []*Term{ob, c(1), in.Int(w)}, Fn: fr.fn, Pos: ins.Pos()})
			}
		}
		var rt types.Type
		if fn != nil {
			rt = fn.Signature.Results().At(0).Type()
		}
		return []*Term{in.mk("un"+end, "", int(w), rt, v)}, true
	case "binary.littleEndian.PutUint16", "binary.littleEndian.PutUint32", "binary.littleEndian.PutUint64", "binary.bigEndian.PutUint16", "binary.bigEndian.PutUint32", "binary.bigEndian.PutUint64":
		w := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		end := "le"
		if strings.Contains(name, "big") {
			end = "be"
		}
		src := in.numBytes(end, w, args[2])
		dst := StripIface(args[1])
		// write w bytes at the start of dst
		if dst.Op == "sref" {
			d2 := in.mk("sref", "", 0, dst.T, dst.Args[0], dst.Args[1], in.AddC(dst.Args[1], w))
			x.copyTo(fr, st, d2, in.Int(w), src, in.Int(w), ins)
		} else {
			x.copyTo(fr, st, dst, in.Int(w), src, in.Int(w), ins)
		}
		return nil, true
	case "binary.littleEndian.AppendUint16", "binary.littleEndian.AppendUint32", "binary.littleEndian.AppendUint64", "binary.bigEndian.AppendUint16", "binary.bigEndian.AppendUint32", "binary.bigEndian.AppendUint64":
		w := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		op := "le"
		if strings.Contains(name, "big") {
			op = "be"
		}
		src := in.numBytes(op, w, args[2])
		r := in.Cat(nil, c(1), src)
		x.emit(st, &Event{Kind: "append", Name: "append", Args: []*Term{c(1), src}, Raw: []*Term{args[1], src}, Res: r, Fn: fr.fn, Pos: ins.Pos()})
		return []*Term{r}, true
	case "bytes.Join":
		a := c(0)
		if a.Op == "cat" && c(1).Op == "cat" && len(c(1).Args) == 0 || len(args) > 1 && (c(1).IsNil() || c(1).Aux == `""`) {
			if a.Op == "cat" {
				var ps []*Term
				for _, e := range a.Args {
					if e.Op != "elem1" {
						return nil, false
					}
					ps = append(ps, e.Args[0])
				}
				return []*Term{in.Cat(nil, ps...)}, true
			}
		}
		return nil, false
	case "bytes.Clone", "slices.Clone":
		return []*Term{c(0)}, true
	case "slices.Equal":
		return []*Term{x.eqT(c(0), c(1))}, true
	case "errors.Is":
		return []*Term{in.Eq(args[0], args[1])}, true
	case "big.NewInt":
		a := x.newAlloc(st, "big", nil)
		if fn != nil {
			a.T = fn.Signature.Results().At(0).Type()
		}
		x.write(st, a, call("big.fromInt", args[0]))
		return []*Term{a}, true
	}
	if strings.HasPrefix(name, "big.Int.") && fn != nil {
		m := name[len("big.Int."):]
		res := fn.Signature.Results()
		as := x.canonAll(st, args)
		if res.Len() >= 1 && typeName(res.At(0).Type()) == "*big.Int" {
			recv := StripIface(args[0])
			var v *Term
			if m == "Set" {
				v = as[1]
			} else {
				v = in.mk("call", "big."+m, 0, deref(res.At(0).Type()), as[1:]...)
			}
			if isLocal(recv) {
				x.write(st, recv, v)
				rs := []*Term{recv}
				for i := 1; i < res.Len(); i++ {
					rs = append(rs, in.mk("ext", fmt.Sprint(i), 0, res.At(i).Type(), v))
				}
				return rs, true
			}
			x.emit(st, &Event{Kind: "store", Name: "big." + m, Args: []*Term{recv, v}, Raw: []*Term{recv, v}, Fn: fr.fn, Pos: ins.Pos()})
			x.write(st, recv, v)
			rs := []*Term{recv}
			for i := 1; i < res.Len(); i++ {
				rs = append(rs, in.mk("ext", fmt.Sprint(i), 0, res.At(i).Type(), v))
			}
			return rs, true
		}
		if res.Len() == 1 {
			v := in.mk("call", "big."+m, 0, res.At(0).Type(), as...)
			return []*Term{v}, true
		}
	}
	if strings.HasPrefix(name, "bytes.Buffer.") && len(args) > 0 && isLocal(StripIface(args[0])) {
		recv := StripIface(args[0])
		cur := x.read(st, recv)
		content := func() *Term {
			switch cur.Op {
			case "zero":
				return in.Cat(nil)
			case "bbuf":
				return cur.Args[0]
			}
			return in.mk("bbytes", "", 0, nil, cur)
		}
		add := func(v *Term) {
			x.write(st, recv, in.mk("bbuf", "", 0, deref(recv.T), in.Cat(nil, content(), v)))
		}
		switch name {
		case "bytes.Buffer.Write", "bytes.Buffer.WriteString":
			add(c(1))
			return []*Term{in.Len(c(1)), in.Nil()}, true
		case "bytes.Buffer.WriteByte":
			add(in.mk("elem1", "", 0, nil, c(1)))
			return []*Term{in.Nil()}, true
		case "bytes.Buffer.Bytes", "bytes.Buffer.String":
			return []*Term{content()}, true
		case "bytes.Buffer.Len":
			return []*Term{in.Len(content())}, true
		case "bytes.Buffer.Grow":
			return nil, true
		}
	}
	_ = boolT
	return nil, false
}

func constStr(t *Term) (string, bool) {
	t = StripIface(t)
	if t.Op == "const" && len(t.Aux) > 1 && t.Aux[0] == '"' {
		s, err := strconv.Unquote(t.Aux)
		return s, err == nil
	}
	return "", false
}

// headStr is the constant text t starts with; all: t is nothing else.
func headStr(t *Term) (string, bool) {
	t = StripIface(t)
	if s, ok := constStr(t); ok {
		return s, true
	}
	if t.Op == "cat" {
		s, _ := constStr(t.Args[0])
		return s, false
	}
	return "", false
}

// sprintf: the concatenation a format of only %v and %s stands for.
func (x *Exec) sprintf(st *State, format, args, rawArgs *Term) *Term {
	f, ok := constStr(format)
	if !ok {
		return nil
	}
	var as []*Term
	args = StripIface(args)
	switch {
	case args.Op == "elem1":
		as = []*Term{args.Args[0]}
	case args.Op == "cat":
		for _, a := range args.Args {
			if a.Op != "elem1" {
				return nil
			}
			as = append(as, a.Args[0])
		}
	case args.IsNil():
	default:
		return nil
	}
	in := x.In
	str := types.Typ[types.String]
	var parts []*Term
	lit, nth := "", 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) || f[i] != 'v' && f[i] != 's' || len(as) == 0 {
			return nil
		}
		parts = append(parts, in.Str(lit))
		lit = ""
		a := StripIface(as[0])
		dyn := as[0]
		if r := StripIface(rawArgs); r.Op == "sref" {
			dyn = in.Idx(x.read(st, r.Args[0]), in.Int(int64(nth)), nil)
		}
		nth++
		as = as[1:]
		if dyn.Op == "iface" && dyn.T != nil {
			if n := namedT(dyn.T); n != nil && n.Obj().Pkg() != nil {
				if ms := types.NewMethodSet(dyn.T).Lookup(n.Obj().Pkg(), "String"); ms != nil {
					m := x.P.Prog.MethodValue(ms)
					if m == nil || !x.P.InModule(m) {
						goto plain
					}
					if x.Cfg.Opaque != nil && !x.Cfg.Opaque(m, x.P.Name(m)) && len(m.Blocks) > 0 && !x.inStack(m) {
						s := st.clone()
						n := len(s.Events)
						if outs := x.callFn(m, []*Term{a}, nil, s); len(outs) == 1 && outs[0].Kind == "return" && len(outs[0].Res) == 1 && len(outs[0].St.Facts) == len(st.Facts) {
							pure := true
							for _, e := range outs[0].St.Events[n:] {
								pure = pure && e.Kind == "call"
							}
							if pure {
								parts = append(parts, outs[0].Res[0])
								continue
							}
						}
					}
					parts = append(parts, in.mk("call", x.P.Name(m), 0, str, a))
					continue
				}
			}
		}
		goto plain
	plain:
		if b, ok := a.T.(*types.Basic); ok && b.Kind() == types.String {
			parts = append(parts, a)
		} else {
			parts = append(parts, in.mk("call", "fmt.Sprint", 0, str, in.mk("elem1", "", 0, nil, a)))
		}
	}
	if len(as) > 0 {
		return nil
	}
	parts = append(parts, in.Str(lit))
	return in.Cat(str, parts...)
}

func namedT(t types.Type) *types.Named {
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// isHex: t is the hexadecimal text of the returned bytes.
func isHex(t *Term) (*Term, bool) {
	if t.Op == "call" && t.Aux == "hex.EncodeToString" {
		return t.Args[0], true
	}
	return nil, false
}

// neverHex: t is hexadecimal text and p has another character.
func neverHex(t *Term, p string) bool {
	_, ok := isHex(StripIface(t))
	return ok && strings.Trim(p, "0123456789abcdef") != ""
}

// jsonWhole: JSON carries every field of a value of type t.
func jsonWhole(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			if !u.Field(i).Exported() || tag == "-" || strings.Contains(tag, "omitempty") {
				return false
			}
		}
		return true
	}
	return false
}

// numBytes: the w bytes of the number v, low ("le") or high ("be") byte first.
// NumBytes is the number v in w bytes, "le" or "be".
func (in *Interner) NumBytes(op string, w int64, v *Term) *Term { return in.numBytes(op, w, v) }

func (in *Interner) numBytes(op string, w int64, v *Term) *Term {
	if v.IsInt {
		b := make([]byte, w)
		for i := range b {
			k := i
			if op == "be" {
				k = int(w) - 1 - i
			}
			b[i] = byte(v.I >> uint(8*min(k, 7)))
		}
		return in.Str(string(b))
	}
	if v.Op == "un"+op && int64(v.N) == w {
		return v.Args[0]
	}
	t := in.mk(op, "", int(w), nil, v)
	t.T = types.NewArray(types.Typ[types.Uint8], w)
	return t
}
