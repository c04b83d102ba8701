package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Dir         string
	Prog        *ssa.Program
	Fset        *token.FileSet
	Pkgs        []*packages.Package
	SSA         map[string]*ssa.Package // by import path
	Mod         string
	byName      map[string]*ssa.Function
	Funcs       []*ssa.Function // all functions with bodies of the module (incl. closures)
	errGlobals  map[string]bool
	zeroGlobals map[string]bool
	startsZero  map[string]bool
	onceGlobals map[string]bool // never written after initialisation
	globalLen   map[string]int  // byte slices set once from a constant string
	Tests       bool
	WitnessErr  string
	ifEff       map[*types.Func]*Effects
	concr       []types.Type
	eff         map[*ssa.Function]*Effects
	nonNilRes   map[*ssa.Function]bool
	tables      map[string]*table
	alias       map[*ssa.Function]string
}

// Witness holds small functions added (in memory) to the analysed packages: each composes
// functions of the package, for example writing and reading back, so that the composition can
// be summarised like any other function.  Keys are paths relative to the repository.
var Witness = map[string]string{}

// Load type-checks and builds SSA for every non-test package of the module in dir.
func Load(dir string) (*Program, error) {
	p, err := loadWith(dir, Witness)
	if err != nil || p.WitnessErr == "" {
		return p, err
	}
	// unexported names the witnesses use may have been renamed: use the new ones
	w := map[string]string{}
	changed := false
	for rel, src := range Witness {
		w[rel] = src
		for now, old := range p.renames() {
			if filepath.Join(dir, filepath.Dir(rel)) != now[0] {
				continue
			}
			re := regexp.MustCompile(`\b` + old + `\b`)
			if t := re.ReplaceAllString(w[rel], now[1]); t != w[rel] {
				w[rel], changed = t, true
			}
		}
	}
	if !changed {
		return p, nil
	}
	if q, err := loadWith(dir, w); err == nil && q.WitnessErr == "" {
		return q, nil
	}
	return p, nil
}

func loadWith(dir string, witness map[string]string) (*Program, error) {
	env := os.Environ()
	set := func(k, v string) { os.Setenv(k, v) }
	_ = env
	set("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOFLAGS", "-mod=mod")
	set("GO111MODULE", "on")
	set("CGO_ENABLED", "1")
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	if _, err := os.Stat("/root/go/pkg/mod"); err == nil {
		set("GOMODCACHE", "/root/go/pkg/mod")
	}
	set("GOCACHE", "/root/.cache/go-build")
	load := func(overlay map[string][]byte) ([]*packages.Package, []string, error) {
		cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Overlay: overlay}
		pkgs, err := packages.Load(cfg, "./...")
		var errs []string
		for _, p := range pkgs {
			for _, e := range p.Errors {
				errs = append(errs, p.PkgPath+": "+e.Error())
			}
		}
		return pkgs, errs, err
	}
	overlay := map[string][]byte{}
	for rel, src := range witness {
		overlay[filepath.Join(dir, rel)] = []byte(src)
	}
	pkgs, errs, err := load(overlay)
	witnessErr := ""
	if len(errs) > 0 && len(overlay) > 0 && err == nil {
		// the witnesses do not fit this program any more: analyse it without them
		witnessErr = strings.Join(errs, "; ")
		pkgs, errs, err = load(nil)
	}
	if err != nil {
		return nil, err
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Prog: prog, Pkgs: pkgs, SSA: map[string]*ssa.Package{}, byName: map[string]*ssa.Function{},
		WitnessErr: witnessErr, errGlobals: map[string]bool{}, zeroGlobals: map[string]bool{}, startsZero: map[string]bool{}, onceGlobals: map[string]bool{}, globalLen: map[string]int{}}
	if len(pkgs) > 0 {
		p.Fset = pkgs[0].Fset
		if pkgs[0].Module != nil {
			p.Mod = pkgs[0].Module.Path
		}
	}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.SSA[sp.Pkg.Path()] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 || fn.Synthetic != "" && fn.Name() != "init" {
			if !(len(fn.Blocks) > 0 && fn.Pkg != nil && p.InModule(fn)) {
				continue
			}
		}
		if !p.InModule(fn) {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	p.applyBaseline()
	for _, fn := range p.Funcs {
		p.byName[p.Name(fn)] = fn
	}
	p.scanGlobals()
	return p, nil
}

func (p *Program) InModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), p.Mod)
}

// ambiguous package names inside the module are prefixed by their parent directory.
func (p *Program) pkgName(pk *types.Package) string {
	path := pk.Path()
	if p.Mod != "" && strings.HasPrefix(path, p.Mod) {
		base := filepath.Base(path)
		if base == "local" || base == "mock" {
			return filepath.Base(filepath.Dir(path)) + "/" + base
		}
	}
	return pk.Name()
}

// Name is the short stable name of a function: pkg.Func, pkg.Type.Method.
func (p *Program) Name(fn *ssa.Function) string {
	if a, ok := p.alias[fn]; ok {
		return a
	}
	if fn.Parent() != nil {
		return p.Name(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if d := deref(t); d != nil {
			t = d
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if n.Obj().Pkg() == nil {
				return tname(n.Obj()) + "." + fn.Name()
			}
			return p.pkgName(n.Obj().Pkg()) + "." + tname(n.Obj()) + "." + fn.Name()
		}
		return typeName(t) + "." + fn.Name()
	}
	if fn.Pkg != nil {
		n := p.pkgName(fn.Pkg.Pkg) + "." + fn.Name()
		if m, ok := renamed[n]; ok && fn.Pkg.Pkg.Path() == "io/ioutil" {
			return m
		}
		return n
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.pkgName(o.Pkg()) + "." + fn.Name()
	}
	return fn.String()
}

func (p *Program) ifaceName(c *ssa.CallCommon) string {
	t := c.Value.Type()
	m := c.Method.Name()
	// name the interface that declares the method, so that embedding does not matter
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name() + "." + m
		}
		return p.pkgName(n.Obj().Pkg()) + "." + tname(n.Obj()) + "." + m
	}
	return "iface." + m
}

// Func finds a function by its short name.
// Type is the named type "pkg.Name" of the module.
func (p *Program) Type(name string) types.Type {
	i := strings.LastIndex(name, ".")
	for _, sp := range p.SSA {
		if sp.Pkg.Name() != name[:i] {
			continue
		}
		if m, ok := sp.Members[name[i+1:]].(*ssa.Type); ok {
			return m.Type()
		}
	}
	return nil
}

func (p *Program) Func(name string) *ssa.Function { return p.byName[name] }

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) scanGlobals() {
	stores := map[*ssa.Global]int{}
	initErr := map[*ssa.Global]bool{}
	lens := map[*ssa.Global]int{}
	assigned := map[*ssa.Global]bool{}
	inits := map[*ssa.Global]bool{} // initialised part by part
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if g.Pkg != nil && typeName(deref(g.Type())) == "error" && p.SSA[g.Pkg.Pkg.Path()] == nil {
						p.errGlobals[gname(g.Pkg.Pkg.Name()+"."+g.Name())] = true
					}
					switch i := ins.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if i.Addr == g && fn.Name() != "init" {
							stores[g] += 2
						}
						if i.Addr == g {
							stores[g]++
							if !zeroValue(i.Val) {
								assigned[g] = true
							}
							if c, ok := i.Val.(*ssa.Convert); ok && fn.Name() == "init" {
								if k, ok := c.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
									lens[g] = len(constant.StringVal(k.Value))
								}
							}
							if call, ok := i.Val.(*ssa.Call); ok && fn.Name() == "init" {
								if f := call.Call.StaticCallee(); f != nil {
									n := p.Name(f)
									if n == "errors.New" || n == "fmt.Errorf" {
										initErr[g] = true
									}
								}
							}
						} else {
							stores[g] += 2
						}
					case *ssa.Slice, *ssa.FieldAddr, *ssa.IndexAddr:
						// read-only use is assumed unless something is stored through it
						if v, ok := ins.(ssa.Value); ok {
							for _, r := range *v.Referrers() {
								if s, ok := r.(*ssa.Store); ok && s.Addr == v {
									if fn.Name() == "init" {
										if !zeroValue(s.Val) {
											inits[g] = true
										}
										continue
									}
									stores[g] += 2
									assigned[g] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for _, sp := range p.SSA {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			n := gname(g.Pkg.Pkg.Name() + "." + g.Name())
			if stores[g] < 2 {
				p.onceGlobals[n] = true
			}
			if !assigned[g] && !inits[g] {
				p.startsZero[n] = true
			}
			if stores[g] == 0 && !inits[g] {
				switch deref(g.Type()).Underlying().(type) {
				case *types.Array, *types.Struct:
					p.zeroGlobals[n] = true
				}
			}
			if l, ok := lens[g]; ok && stores[g] == 1 {
				p.globalLen[n] = l
			}
			if stores[g] == 1 && initErr[g] {
				p.errGlobals[n] = true
			}
		}
	}
	p.scanTables()
	// errors of other packages follow the same convention
	for _, n := range []string{"io.EOF", "errors.ErrNotFound", "leveldb.ErrNotFound", "ethereum.NotFound", "os.ErrNotExist"} {
		p.errGlobals[n] = true
	}
}

// zeroValue: v is a zero constant, or a composite literal made of zeros only.
func zeroValue(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil || v.Value.Kind() == constant.Int && constant.Sign(v.Value) == 0
	case *ssa.UnOp:
		a, ok := v.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.IndexAddr:
				for _, s := range *r.Referrers() {
					if s, ok := s.(*ssa.Store); !ok || !zeroValue(s.Val) {
						return false
					}
				}
			case *ssa.Store:
				if r.Addr != a || !zeroValue(r.Val) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return false
}

// ZeroGlobal: the package variable starts as the zero value and is not assigned.
func (p *Program) ZeroGlobal(n string) bool { return p.startsZero[n] }

// renamed: functions of io/ioutil and what they are called now.
var renamed = map[string]string{"ioutil.ReadFile": "os.ReadFile", "ioutil.WriteFile": "os.WriteFile", "ioutil.ReadAll": "io.ReadAll", "ioutil.TempDir": "os.MkdirTemp", "ioutil.TempFile": "os.CreateTemp"}
