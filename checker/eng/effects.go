package eng

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects is a flow-insensitive summary of a module function.
type Effects struct {
	Mut    map[int]bool // parameters whose pointee may be written
	Impure bool         // calls something with effects, writes globals, takes time, randomness
	Handle bool         // depends on state behind a handle parameter
}

var extPurePrefix = []string{
	"poseidon.", "big.", "hex.", "base64.", "strconv.", "strings.", "bytes.", "errors.", "math.", "unicode.", "utf8.", "fmt.Errorf", "fmt.Sprint",
	"babyjub.PublicKey.", "babyjub.PublicKeyComp.", "babyjub.Signature.", "babyjub.PrivateKey.Public", "babyjub.PrivateKey.Scalar", "babyjub.Point.", "babyjub.NewPoint", "babyjub.PointFromSignAndY", "babyjub.PackPoint", "babyjub.UnpackPoint",
	"sha256.Sum256", "crypto.Keccak256", "common.Address.", "common.Hash.", "common.HexTo", "common.BytesTo", "common.FromHex", "common.ToHex", "hexutil.", "utils.BigInt", "utils.Hex", "utils.CheckBigInt", "utils.SetBigInt", "utils.NewIntFromString", "utils.SwapEndianness",
	"binary.littleEndian.Uint", "binary.bigEndian.Uint", "base58.", "filepath.", "path.", "sort.Search", "time.Unix", "time.Time.", "time.Duration.", "reflect.DeepEqual", "json.Marshal", "types.BytesTo", "cryptoUtils.", "utils.", "sync.", "blake2b.Sum", "slices.Equal", "slices.Contains", "slices.Index", "cmp.",
	"witnesscalc.NewBigInt", "scrypt.Key", "verifier.Verify", "secretbox.Seal", "secretbox.Open",
}

func (p *Program) extPure(name string) bool {
	for _, q := range extPurePrefix {
		if strings.HasPrefix(name, q) {
			if strings.HasPrefix(name, "bytes.Buffer") || strings.HasPrefix(name, "bytes.NewBuffer") || strings.HasPrefix(name, "bytes.Reader") || strings.HasPrefix(name, "bytes.NewReader") || strings.HasPrefix(name, "strings.NewReader") || strings.HasPrefix(name, "strings.Builder") {
				return false
			}
			return true
		}
	}
	return isLogName(name)
}

// extMut: arguments written by an otherwise deterministic function outside the module.
func extMut(name string) map[int]bool {
	switch name {
	case "hex.Decode", "hex.Encode":
		return map[int]bool{0: true}
	case "utils.SetBigIntFromLEBytes", "secretbox.Seal", "secretbox.Open":
		return map[int]bool{0: true}
	case "base64.Encoding.Decode", "base64.Encoding.Encode":
		return map[int]bool{1: true}
	}
	i := strings.LastIndexByte(name, '.')
	m := name[i+1:]
	if strings.Count(name, ".") < 2 || strings.HasPrefix(name, "big.Int.") || strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "time.") {
		return nil
	}
	if strings.HasPrefix(m, "Unmarshal") || m == "Scan" || m == "SetBytes" || m == "SetString" {
		return map[int]bool{0: true}
	}
	return nil
}

// pureOverride: functions that only fill a cache of a value derived from immutable content.
var pureOverride = map[string]bool{
	"merkletree.Node.Key": true, "merkletree.Entry.HIndex": true, "merkletree.Entry.HValue": true, "merkletree.Entry.HiHv": true,
	"claims.Claim.Entry": true, "claims.Claimer.Entry": true, "merkletree.Entrier.Entry": true,
}

func (p *Program) Effects(fn *ssa.Function) *Effects {
	if p.eff == nil {
		p.eff = map[*ssa.Function]*Effects{}
	}
	if e, ok := p.eff[fn]; ok {
		return e
	}
	e := &Effects{Mut: map[int]bool{}}
	p.eff[fn] = e
	name := p.Name(fn)
	for _, q := range fn.Params {
		if isHandle(q.Type()) {
			e.Handle = true
		}
	}
	if pureOverride[name] {
		return e
	}
	// origin: which parameters a pointer value may point into
	origin := map[ssa.Value]map[int]bool{}
	for i, q := range fn.Params {
		origin[q] = map[int]bool{i: true}
	}
	// captured variables are counted from -1 down
	for i, q := range fn.FreeVars {
		origin[q] = map[int]bool{-1 - i: true}
	}
	local := map[ssa.Value]bool{}
	changed := true
	addAll := func(v ssa.Value, s map[int]bool) {
		if len(s) == 0 {
			return
		}
		m := origin[v]
		if m == nil {
			m = map[int]bool{}
			origin[v] = m
		}
		for k := range s {
			if !m[k] {
				m[k] = true
				changed = true
			}
		}
	}
	_ = local
	for changed {
		changed = false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if w, ok := ins.(*ssa.Store); ok {
					// a variable kept in memory because a closure captures it
					if a, ok := w.Addr.(*ssa.Alloc); ok && isRef(deref(a.Type())) {
						addAll(a, origin[w.Val])
					}
					continue
				}
				v, ok := ins.(ssa.Value)
				if !ok {
					continue
				}
				switch i := ins.(type) {
				case *ssa.FieldAddr:
					addAll(v, origin[i.X])
				case *ssa.IndexAddr:
					addAll(v, origin[i.X])
				case *ssa.Slice:
					addAll(v, origin[i.X])
				case *ssa.Phi:
					for _, x := range i.Edges {
						addAll(v, origin[x])
					}
				case *ssa.UnOp:
					if isRef(i.Type()) {
						addAll(v, origin[i.X])
					}
				case *ssa.ChangeType:
					addAll(v, origin[i.X])
				case *ssa.MakeInterface:
					if isRef(i.X.Type()) {
						addAll(v, origin[i.X])
					}
				case *ssa.Convert:
					if isRef(i.Type()) && isRef(i.X.Type()) {
						addAll(v, origin[i.X])
					}
				case *ssa.TypeAssert:
					addAll(v, origin[i.X])
				case *ssa.Extract:
					addAll(v, origin[i.Tuple])
				case *ssa.Field:
					if isRef(i.Type()) {
						addAll(v, origin[i.X])
					}
				}
			}
		}
	}
	mutate := func(v ssa.Value) {
		for k := range origin[v] {
			e.Mut[k] = true
		}
		if _, ok := v.(*ssa.Global); ok {
			e.Impure = true
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				switch a := i.Addr.(type) {
				case *ssa.Alloc:
					if isRef(deref(a.Type())) {
						continue // the variable itself
					}
				case *ssa.FreeVar:
					continue
				}
				mutate(i.Addr)
			case *ssa.MakeClosure:
				if f, ok := i.Fn.(*ssa.Function); ok {
					for k := range p.Effects(f).Mut {
						if k < 0 && -1-k < len(i.Bindings) {
							mutate(i.Bindings[-1-k])
						}
					}
				}
			case *ssa.MapUpdate:
				mutate(i.Map)
			case *ssa.Send, *ssa.Go, *ssa.Select, *ssa.Panic:
				e.Impure = true
			case ssa.CallInstruction:
				c := i.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "delete":
						mutate(c.Args[0])
					}
					continue
				}
				if c.IsInvoke() {
					n := p.ifaceName(c)
					if !pureOverride[n] && c.Method.Name() != "Error" && c.Method.Name() != "String" {
						e.Impure = true
						if sub := p.ifaceEffects(c); sub == nil && isHandle(c.Value.Type()) {
							mutate(c.Value)
							for _, a := range c.Args {
								if strings.HasPrefix(c.Method.Name(), "Read") && isRef(a.Type()) {
									mutate(a)
								}
							}
						}
					}
					continue
				}
				f := c.StaticCallee()
				if f == nil {
					e.Impure = true
					continue
				}
				n := p.Name(f)
				if len(f.Blocks) == 0 {
					if strings.HasPrefix(n, "binary.") && strings.Contains(n, "Put") {
						mutate(c.Args[1])
						continue
					}
					if strings.HasPrefix(n, "big.Int.") && f.Signature.Results().Len() > 0 && typeName(f.Signature.Results().At(0).Type()) == "*big.Int" {
						mutate(c.Args[0])
						continue
					}
					if m := extMut(n); m != nil && p.extPure(n) {
						for k := range m {
							if k < len(c.Args) {
								mutate(c.Args[k])
							}
						}
						continue
					}
					if !p.extPure(n) {
						e.Impure = true
						for _, a := range c.Args {
							if isRef(a.Type()) {
								mutate(a)
							}
						}
					}
					continue
				}
				sub := p.Effects(f)
				if sub.Impure {
					e.Impure = true
				}
				for k := range sub.Mut {
					if k >= 0 && k < len(c.Args) {
						mutate(c.Args[k])
					}
				}
			}
		}
	}
	if len(e.Mut) > 0 {
		// writing through a parameter is an effect for purity purposes only when visible
	}
	return e
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// isHandle: a pointer to (or interface over) something with identity and mutable state.
func isHandle(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return u.NumMethods() > 0 && typeName(t) != "error" && !strings.HasPrefix(typeName(t), "claims.") && !strings.HasPrefix(typeName(t), "merkletree.Entr")
	case *types.Chan, *types.Map:
		return true
	case *types.Pointer:
		s := structOf(u.Elem())
		if s == nil {
			return false
		}
		return handleStruct(s, 0)
	}
	return false
}

func handleStruct(s *types.Struct, d int) bool {
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if strings.HasPrefix(typeName(ft), "sync.") || strings.HasPrefix(typeName(ft), "*sync.") {
			return true
		}
		switch u := ft.Underlying().(type) {
		case *types.Interface:
			if u.NumMethods() > 0 && !strings.HasPrefix(typeName(ft), "claims.") {
				return true
			}
		case *types.Chan, *types.Signature:
			return true
		case *types.Map:
			return true
		case *types.Struct:
			if d < 3 && handleStruct(u, d+1) && !strings.HasPrefix(typeName(ft), "time.") {
				return true
			}
		case *types.Pointer:
			if e := structOf(u.Elem()); e != nil && d < 2 && strings.Contains(typeName(ft), "MerkleTree") {
				return true
			}
		}
	}
	return false
}

// ifaceEffects: which arguments of an interface call the implementations in the module may
// write to (nil: the interface has no implementation in the module, or is not the module's).
func (p *Program) ifaceEffects(c *ssa.CallCommon) *Effects {
	if c.Method.Pkg() == nil || !strings.HasPrefix(c.Method.Pkg().Path(), p.Mod) {
		return nil
	}
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if e, ok := p.ifEff[c.Method]; ok {
		return e
	}
	var e *Effects
	for _, t := range p.concrete() {
		if !types.Implements(t, it) {
			continue
		}
		m := p.Prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
		if m == nil || len(m.Blocks) == 0 {
			continue
		}
		if e == nil {
			e = &Effects{Mut: map[int]bool{}, Impure: true}
		}
		for k := range p.Effects(m).Mut {
			e.Mut[k] = true
		}
	}
	if p.ifEff == nil {
		p.ifEff = map[*types.Func]*Effects{}
	}
	p.ifEff[c.Method] = e
	return e
}

// concrete lists the named types of the module and the pointers to them.
func (p *Program) concrete() []types.Type {
	if p.concr != nil {
		return p.concr
	}
	for _, pk := range p.Prog.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), p.Mod) {
			continue
		}
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			p.concr = append(p.concr, t.Type(), types.NewPointer(t.Type()))
		}
	}
	return p.concr
}
