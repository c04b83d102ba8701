// refac lists rewrites of a Go module that keep its behaviour, one JSON object per line, for
// reviewing that the checks stay quiet on them. A development tool: it decides nothing.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Repl string `json:"repl"`
	Op   string `json:"op"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

type imp map[string]*types.Package

func (m imp) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if q := m[p]; q != nil {
		return q, nil
	}
	return nil, fmt.Errorf("no %s", p)
}

func main() {
	dir := os.Args[1]
	skip := os.Args[2:]
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes |
		packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedModule}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	bad := 0
	for _, p := range pkgs {
		im := imp{}
		for k, d := range p.Imports {
			im[k] = d.Types
		}
		for fi, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			rel, _ := filepath.Rel(dir, name)
			no := strings.HasSuffix(rel, "_test.go")
			for _, s := range skip {
				no = no || strings.HasPrefix(rel, s)
			}
			if no {
				continue
			}
			src, _ := os.ReadFile(name)
			w := &gen{p: p, f: f, src: src}
			w.run()
			for _, m := range w.out {
				m.File = rel
				if err := check(p, fi, name, src, m, im); err == nil {
					enc.Encode(m)
				} else {
					bad++
					if os.Getenv("REFAC_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, rel, m.Line, m.Op, err)
					}
				}
			}
		}
	}
	fmt.Fprintln(os.Stderr, "rejected", bad)
}

func check(p *packages.Package, fi int, name string, src []byte, m mut, im imp) error {
	var b bytes.Buffer
	b.Write(src[:m.Off])
	b.WriteString(m.Repl)
	b.Write(src[m.End:])
	f, err := parser.ParseFile(p.Fset, name, b.Bytes(), 0)
	if err != nil {
		return err
	}
	files := append([]*ast.File{}, p.Syntax...)
	files[fi] = f
	c := types.Config{Importer: im}
	_, err = c.Check(p.PkgPath, p.Fset, files, nil)
	return err
}

type gen struct {
	p   *packages.Package
	f   *ast.File
	src []byte
	out []mut
	fd  *ast.FuncDecl
	cur string
	n   int
}

func (g *gen) off(x token.Pos) int       { return g.p.Fset.Position(x).Offset }
func (g *gen) text(n ast.Node) string    { return g.rng(n.Pos(), n.End()) }
func (g *gen) rng(a, b token.Pos) string { return string(g.src[g.off(a):g.off(b)]) }
func (g *gen) add(op string, a, b token.Pos, repl string) {
	g.out = append(g.out, mut{Off: g.off(a), End: g.off(b), Repl: repl, Op: op, Line: g.p.Fset.Position(a).Line, Func: g.cur})
}
func (g *gen) typ(t types.Type) string {
	ok := true
	s := types.TypeString(t, func(q *types.Package) string {
		if q == g.p.Types {
			return ""
		}
		for _, i := range g.f.Imports {
			if strings.Trim(i.Path.Value, `"`) == q.Path() {
				if i.Name != nil {
					return i.Name.Name
				}
				return q.Name()
			}
		}
		ok = false
		return q.Name()
	})
	if !ok {
		return ""
	}
	return s
}

func (g *gen) run() {
	for _, d := range g.f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		g.fd = fd
		g.cur = fd.Name.Name
		if fd.Recv != nil && len(fd.Recv.List) > 0 {
			g.cur = strings.TrimPrefix(g.text(fd.Recv.List[0].Type), "*") + "." + g.cur
		}
		g.wrap()
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				g.list(x.List)
			case *ast.CaseClause:
				g.list(x.Body)
			case *ast.IfStmt:
				g.ifs(x)
			case *ast.BinaryExpr:
				fl := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}
				if o, ok := fl[x.Op]; ok {
					g.add("flip", x.Pos(), x.End(), g.text(x.Y)+" "+o+" "+g.text(x.X))
				}
				ng := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<"}
				if o, ok := ng[x.Op]; ok {
					g.add("notnot", x.Pos(), x.End(), "!("+g.text(x.X)+" "+o+" "+g.text(x.Y)+")")
				}
				if x.Op == token.LAND {
					g.add("demorgan", x.Pos(), x.End(), "!(!("+g.text(x.X)+") || !("+g.text(x.Y)+"))")
				}
				if x.Op == token.LOR {
					g.add("demorgan", x.Pos(), x.End(), "!(!("+g.text(x.X)+") && !("+g.text(x.Y)+"))")
				}
			case *ast.RangeStmt:
				g.rangeLoop(x)
			case *ast.ForStmt:
				if x.Cond != nil {
					g.add("forbreak", x.Cond.Pos(), x.Body.Lbrace+1, "; "+textOr(g, x.Post)+" {\nif !("+g.text(x.Cond)+") { break }\n")
				}
			case *ast.SwitchStmt:
				g.sw(x)
			case *ast.FuncLit:
			}
			return true
		})
	}
}

func textOr(g *gen, s ast.Stmt) string {
	if s == nil {
		return ""
	}
	return g.text(s)
}

// wrap: the body moves to a helper.
func (g *gen) wrap() {
	fd := g.fd
	var args []string
	for _, f := range fd.Type.Params.List {
		if len(f.Names) == 0 {
			return
		}
		for _, n := range f.Names {
			if n.Name == "_" {
				return
			}
			a := n.Name
			if _, ok := f.Type.(*ast.Ellipsis); ok {
				a += "..."
			}
			args = append(args, a)
		}
	}
	call := fd.Name.Name + "Impl(" + strings.Join(args, ", ") + ")"
	recv := ""
	if fd.Recv != nil {
		if len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_" {
			return
		}
		call = fd.Recv.List[0].Names[0].Name + "." + call
		recv = g.text(fd.Recv) + " "
	}
	if fd.Type.Results != nil {
		call = "return " + call
	}
	sig := g.rng(fd.Name.End(), fd.Type.End())
	g.add("wrap", fd.Body.Pos(), fd.Body.End(), "{\n"+call+"\n}\n\nfunc "+recv+fd.Name.Name+"Impl"+sig+" "+g.text(fd.Body)+"\n")
}

func term(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.CONTINUE || x.Tok == token.BREAK
	}
	return false
}

func (g *gen) ifs(x *ast.IfStmt) {
	c := g.text(x.Cond)
	body := g.text(x.Body)
	init := ""
	if x.Init != nil {
		init = g.text(x.Init) + "; "
	}
	if x.Else != nil {
		els := g.text(x.Else)
		if _, ok := x.Else.(*ast.IfStmt); ok {
			els = "{\n" + els + "\n}"
		}
		g.add("invert", x.Pos(), x.End(), "if "+init+"!("+c+") "+els+" else "+body)
	} else {
		g.add("invert", x.Pos(), x.End(), "if "+init+"!("+c+") {\n} else "+body)
	}
	if x.Init == nil {
		g.add("switch", x.Pos(), x.End(), func() string {
			s := "switch {\ncase " + c + ":\n" + body[1:len(body)-1]
			if x.Else != nil {
				e := g.text(x.Else)
				s += "\ndefault:\n" + e
			}
			return s + "\n}"
		}())
	} else if x.Init != nil {
		g.add("hoist", x.Pos(), x.End(), "{\n"+g.text(x.Init)+"\nif "+g.rng(x.Cond.Pos(), x.End())+"\n}")
	}
	if b, ok := x.Cond.(*ast.BinaryExpr); ok {
		l, r := g.text(b.X), g.text(b.Y)
		if b.Op == token.LAND && x.Else == nil {
			g.add("nest", x.Pos(), x.End(), "if "+init+l+" {\nif "+r+" "+body+"\n}")
		}
		if b.Op == token.LOR && x.Else == nil && term(x.Body) {
			if x.Init == nil {
				g.add("split", x.Pos(), x.End(), "if "+l+" "+body+"\nif "+r+" "+body)
			}
			g.add("elseif", x.Pos(), x.End(), "if "+init+l+" "+body+" else if "+r+" "+body)
		}
	}
}

func (g *gen) sw(x *ast.SwitchStmt) {
	// tagged or tagless switch as a chain of ifs
	if x.Init != nil {
		return
	}
	s := "{\n"
	tag := ""
	if x.Tag != nil {
		s += "tag0 := " + g.text(x.Tag) + "\n"
		tag = "tag0 == "
	}
	var def string
	first := true
	brk := false
	ast.Inspect(x.Body, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BranchStmt:
			brk = brk || b.Tok != token.CONTINUE
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
			return false
		}
		return true
	})
	if brk {
		return
	}
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		body := "\n"
		if len(cc.Body) > 0 {
			body = g.rng(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End()) + "\n"
		}
		if cc.List == nil {
			def = body
			continue
		}
		var cs []string
		for _, e := range cc.List {
			cs = append(cs, tag+"("+g.text(e)+")")
		}
		if !first {
			s += " else "
		}
		first = false
		s += "if " + strings.Join(cs, " || ") + " {\n" + body + "}"
	}
	if def != "" && !first {
		s += " else {\n" + def + "}"
	}
	g.add("unswitch", x.Pos(), x.End(), s+"\n}")
}

func (g *gen) rangeLoop(x *ast.RangeStmt) {
	t := g.p.TypesInfo.TypeOf(x.X)
	switch t.Underlying().(type) {
	case *types.Slice, *types.Array:
	case *types.Pointer:
	default:
		return
	}
	if x.Tok != token.DEFINE {
		return
	}
	k, v := "i0", ""
	if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
		k = id.Name
	}
	if x.Value != nil {
		if id := x.Value.(*ast.Ident); id.Name != "_" {
			v = id.Name
		}
	}
	s := "xs0 := " + g.text(x.X) + "\nfor " + k + " := 0; " + k + " < len(xs0); " + k + "++ {\n"
	if v != "" {
		s += v + " := xs0[" + k + "]\n"
	}
	s += g.rng(x.Body.Lbrace+1, x.Body.End())
	g.add("index", x.Pos(), x.End(), "{\n"+s+"\n}")
	s = k + " := 0\nfor _, v0 := range " + g.text(x.X) + " {\n_ = v0\n"
	if v != "" {
		s += v + " := v0\n"
	}
	cont := false
	ast.Inspect(x.Body, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.CONTINUE {
			cont = true
		}
		return true
	})
	if !cont {
		s += g.rng(x.Body.Lbrace+1, x.Body.Rbrace) + "\n" + k + "++\n}"
		g.add("counter", x.Pos(), x.End(), "{\n"+s+"\n}")
	}
}

func isCall(e ast.Expr) bool { _, ok := e.(*ast.CallExpr); return ok }

// pure: evaluating e calls nothing but conversions and len, new and make, and reads only locals.
func (g *gen) pure(e ast.Expr) bool {
	info := g.p.TypesInfo
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if tv := info.Types[x.Fun]; tv.IsType() {
				return true
			}
			if id, is := x.Fun.(*ast.Ident); is && info.Types[x.Fun].IsBuiltin() && (id.Name == "len" || id.Name == "new" || id.Name == "make") {
				return true
			}
			ok = false
		case *ast.FuncLit, *ast.SelectorExpr, *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.TypeAssertExpr:
			if se, is := x.(*ast.SelectorExpr); is {
				if _, isPkg := info.Uses[se.Sel].(*types.TypeName); isPkg {
					return false
				}
				if _, isConst := info.Uses[se.Sel].(*types.Const); isConst {
					return false
				}
			}
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (g *gen) uses(n ast.Node, objs map[types.Object]bool) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && (objs[g.p.TypesInfo.Uses[id]] || objs[g.p.TypesInfo.Defs[id]]) {
			r = true
		}
		return !r
	})
	return r
}

// assigns: n assigns one of objs or takes its address, or may (calls a closure).
func (g *gen) assigns(n ast.Node, objs map[types.Object]bool) bool {
	r := false
	is := func(e ast.Expr) bool { return g.uses(e, objs) }
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, e := range x.Lhs {
				r = r || is(e)
			}
		case *ast.IncDecStmt:
			r = r || is(x.X)
		case *ast.UnaryExpr:
			r = r || x.Op == token.AND && is(x.X)
		case *ast.RangeStmt:
			r = r || x.Key != nil && is(x.Key) || x.Value != nil && is(x.Value)
		}
		return !r
	})
	return r
}

func (g *gen) moves(l []ast.Stmt) {
	info := g.p.TypesInfo
	if len(l) > 0 {
		g.add("noop", l[0].Pos(), l[0].Pos(), "var unused0 int\n_ = unused0\n")
		if last := l[len(l)-1]; len(l) > 1 {
			g.add("noop", last.Pos(), last.Pos(), "if false {\n\tprintln(\"never\")\n}\n")
		}
	}
	for i, s := range l {
		defs, reads := map[types.Object]bool{}, map[types.Object]bool{}
		var rhs []ast.Expr
		switch x := s.(type) {
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				continue
			}
			rhs = x.Rhs
			fresh := true
			for _, e := range x.Lhs {
				id := e.(*ast.Ident)
				if info.Defs[id] == nil {
					fresh = false
					break
				}
				defs[info.Defs[id]] = true
			}
			if !fresh {
				continue
			}
		case *ast.DeclStmt:
			d, ok := x.Decl.(*ast.GenDecl)
			if !ok || d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				v := sp.(*ast.ValueSpec)
				rhs = append(rhs, v.Values...)
				for _, id := range v.Names {
					defs[info.Defs[id]] = true
				}
			}
		default:
			continue
		}
		ok := true
		for _, e := range rhs {
			ok = ok && g.pure(e)
			ast.Inspect(e, func(n ast.Node) bool {
				if id, is := n.(*ast.Ident); is && info.Uses[id] != nil {
					reads[info.Uses[id]] = true
				}
				return true
			})
		}
		if !ok {
			continue
		}
		for j := i + 1; j < len(l); j++ {
			if g.uses(l[j], defs) {
				if j > i+1 {
					g.add("move-down", s.Pos(), l[j].Pos(), g.rng(l[i+1].Pos(), l[j].Pos())+g.text(s)+"\n")
				}
				break
			}
			if g.assigns(l[j], reads) {
				break
			}
		}
		// as early as what it reads is there
		for j := i - 1; j >= 0; j-- {
			if g.assigns(l[j], reads) || g.uses(l[j], defs) || j == 0 {
				at := j + 1
				if !g.assigns(l[j], reads) && !g.uses(l[j], defs) {
					at = 0
				}
				if at < i {
					g.add("move-up", l[at].Pos(), s.End(), g.text(s)+"\n"+g.rng(l[at].Pos(), s.Pos()))
				}
				break
			}
		}
	}
	for i := 0; i+1 < len(l); i++ {
		a, ok := l[i].(*ast.AssignStmt)
		b, ok2 := l[i+1].(*ast.AssignStmt)
		if ok && ok2 && len(a.Lhs) == 1 && len(b.Lhs) == 1 && a.Tok == token.ASSIGN && b.Tok == token.ASSIGN && !hasCall(a.Rhs[0]) && !hasCall(b.Rhs[0]) {
			x, y := g.text(a.Lhs[0]), g.text(b.Lhs[0])
			if x != y && !strings.Contains(g.text(b), x) && !strings.Contains(g.text(a), y) {
				g.add("swap-assign", a.Pos(), b.End(), g.text(b)+"\n"+g.text(a))
			}
		}
		c, ok := l[i].(*ast.IfStmt)
		d, ok2 := l[i+1].(*ast.IfStmt)
		if ok && ok2 && c.Init == nil && d.Init == nil && c.Else == nil && d.Else == nil && term(c.Body) && g.text(c.Body) == g.text(d.Body) && !hasCall(c.Cond) && !hasCall(d.Cond) {
			g.add("swap-guard", c.Pos(), d.End(), g.text(d)+"\n"+g.text(c))
		}
	}
}

func hasCall(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool { r = r || isCallN(n); return !r })
	return r
}

func isCallN(n ast.Node) bool { _, ok := n.(*ast.CallExpr); return ok }

func (g *gen) list(l []ast.Stmt) {
	info := g.p.TypesInfo
	g.moves(l)
	for i, s := range l {
		// else after a terminating if
		if x, ok := s.(*ast.IfStmt); ok {
			if x.Else == nil && term(x.Body) && i+1 < len(l) {
				rest := g.rng(l[i+1].Pos(), l[len(l)-1].End())
				if _, ok := l[len(l)-1].(*ast.ReturnStmt); ok {
					g.add("else-rest", x.Pos(), l[len(l)-1].End(), g.text(x)+" else {\n"+rest+"\n}")
					in := ""
					if x.Init != nil {
						in = g.text(x.Init) + "\n"
					}
					if x.Init == nil {
						g.add("guard-invert", x.Pos(), l[len(l)-1].End(), in+"if !("+g.text(x.Cond)+") {\n"+rest+"\n}\n"+g.rng(x.Body.Lbrace+1, x.Body.Rbrace))
					}
				}
			}
			if x.Else != nil && term(x.Body) && x.Init == nil {
				if e, ok := x.Else.(*ast.BlockStmt); ok {
					g.add("no-else", x.Pos(), x.End(), "if "+g.text(x.Cond)+" "+g.text(x.Body)+"\n"+g.rng(e.Lbrace+1, e.Rbrace))
				}
			}
			if x.Init == nil {
				g.add("cond-temp", x.Pos(), x.End(), "cond0 := "+g.text(x.Cond)+"\nif cond0 "+g.rng(x.Body.Pos(), x.End()))
			}
		}
		if x, ok := s.(*ast.ReturnStmt); ok && len(x.Results) > 0 {
			var a, b []string
			ok := true
			for j, e := range x.Results {
				tv := info.Types[e]
				if tv.IsNil() || len(x.Results) == 1 && isTuple(tv.Type) {
					ok = ok && !isTuple(tv.Type)
					b = append(b, g.text(e))
					continue
				}
				v := fmt.Sprintf("res%d", j)
				b = append(b, v)
				a = append(a, v+" := "+g.text(e))
			}
			if ok && len(a) > 0 {
				g.add("ret-temp", x.Pos(), x.End(), strings.Join(a, "\n")+"\nreturn "+strings.Join(b, ", "))
			}
			if len(x.Results) == 1 && isTuple(info.TypeOf(x.Results[0])) {
				n := info.TypeOf(x.Results[0]).(*types.Tuple).Len()
				var vs []string
				for j := 0; j < n; j++ {
					vs = append(vs, fmt.Sprintf("res%d", j))
				}
				w := strings.Join(vs, ", ")
				g.add("ret-temp", x.Pos(), x.End(), w+" := "+g.text(x.Results[0])+"\nreturn "+w)
				if t := info.TypeOf(x.Results[0]).(*types.Tuple); t.At(n-1).Type().String() == "error" {
					g.zeroRet(x, vs, w)
				}
			}
			if n := len(x.Results); n > 0 && n == 1 && isCall(x.Results[0]) && info.TypeOf(x.Results[0]).String() == "error" {
				g.add("ret-if", x.Pos(), x.End(), "if err0 := "+g.text(x.Results[0])+"; err0 != nil {\nreturn err0\n}\nreturn nil")
			}
		}
		// nested call arguments to temporaries
		var call *ast.CallExpr
		switch x := s.(type) {
		case *ast.ExprStmt:
			call, _ = x.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(x.Rhs) == 1 {
				call, _ = x.Rhs[0].(*ast.CallExpr)
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				call, _ = x.Results[0].(*ast.CallExpr)
			}
		case *ast.IfStmt:
			if a, ok := x.Init.(*ast.AssignStmt); ok && len(a.Rhs) == 1 {
				call, _ = a.Rhs[0].(*ast.CallExpr)
			}
		}
		if call != nil && info.Types[call.Fun].IsValue() {
			g.args(s, call)
		}
		g.lits(s)
		if x, ok := s.(*ast.AssignStmt); ok && x.Tok == token.DEFINE && len(x.Lhs) == 1 {
			if id, ok := x.Lhs[0].(*ast.Ident); ok && info.Defs[id] != nil {
				if t := g.typ(info.Defs[id].Type()); t != "" {
					g.add("var-decl", x.Pos(), x.End(), "var "+id.Name+" "+t+"\n"+id.Name+" = "+g.text(x.Rhs[0]))
				}
			}
		}
	}
	for i := range l {
		for j := i + 1; j <= len(l) && j-i <= 5; j++ {
			g.extract(l, i, j)
		}
	}
}

func (g *gen) zeroRet(x *ast.ReturnStmt, vs []string, w string) {
	var z []string
	t := g.p.TypesInfo.TypeOf(x.Results[0]).(*types.Tuple)
	for j := 0; j < t.Len()-1; j++ {
		q := g.zero(t.At(j).Type())
		if q == "" {
			return
		}
		z = append(z, q)
	}
	e := vs[len(vs)-1]
	g.add("ret-if", x.Pos(), x.End(), w+" := "+g.text(x.Results[0])+"\nif "+e+" != nil {\nreturn "+strings.Join(append(z, e), ", ")+"\n}\nreturn "+strings.Join(append(vs[:len(vs)-1:len(vs)-1], "nil"), ", "))
}

func (g *gen) zero(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return "nil"
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return `""`
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsNumeric != 0:
			return "0"
		}
	case *types.Struct, *types.Array:
		if s := g.typ(t); s != "" {
			return s + "{}"
		}
	}
	return ""
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

func (g *gen) args(s ast.Stmt, call *ast.CallExpr) {
	info := g.p.TypesInfo
	var pre, as []string
	n := 0
	for j, a := range call.Args {
		tv := info.Types[a]
		if isTuple(tv.Type) || call.Ellipsis.IsValid() {
			return
		}
		if tv.Value != nil || tv.IsNil() || !tv.IsValue() {
			as = append(as, g.text(a))
			continue
		}
		if _, ok := a.(*ast.FuncLit); ok {
			as = append(as, g.text(a))
			continue
		}
		if _, ok := a.(*ast.Ident); ok {
			as = append(as, g.text(a))
			continue
		}
		v := fmt.Sprintf("arg%d", j)
		pre = append(pre, v+" := "+g.text(a))
		as = append(as, v)
		n++
	}
	if n == 0 {
		return
	}
	// conversions and builtins keep their place
	if id, ok := call.Fun.(*ast.Ident); ok && (id.Name == "make" || id.Name == "new") {
		return
	}
	c := g.text(call.Fun) + "(" + strings.Join(as, ", ") + ")"
	txt := g.rng(s.Pos(), call.Pos()) + c + g.rng(call.End(), s.End())
	g.add("args", s.Pos(), s.End(), strings.Join(pre, "\n")+"\n"+txt)
}

// lits: a struct literal with keys becomes an empty one and assignments.
func (g *gen) lits(s ast.Stmt) {
	info := g.p.TypesInfo
	var e ast.Expr
	switch x := s.(type) {
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 {
			e = x.Rhs[0]
		}
	case *ast.ReturnStmt:
		if len(x.Results) > 0 {
			e = x.Results[0]
		}
	}
	if e == nil {
		return
	}
	amp := ""
	pos, end := e.Pos(), e.End()
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		e = u.X
		amp = "&"
	}
	c, ok := e.(*ast.CompositeLit)
	if !ok || len(c.Elts) == 0 {
		return
	}
	if _, ok := info.TypeOf(c).Underlying().(*types.Struct); !ok {
		return
	}
	pre := "lit0 := " + amp + g.text(c.Type) + "{}\n"
	for _, el := range c.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			return
		}
		pre += "lit0." + g.text(kv.Key) + " = " + g.text(kv.Value) + "\n"
	}
	g.add("lit-assign", s.Pos(), s.End(), pre+g.rng(s.Pos(), pos)+"lit0"+g.rng(end, s.End()))
}

// extract: a run of statements becomes a function.
func (g *gen) extract(l []ast.Stmt, i, j int) {
	info := g.p.TypesInfo
	run := l[i:j]
	from, to := run[0].Pos(), run[len(run)-1].End()
	inside := func(p token.Pos) bool { return p >= from && p < to }
	if j == i+1 {
		switch run[0].(type) {
		case *ast.ReturnStmt, *ast.DeclStmt, *ast.BranchStmt:
			return
		}
	}
	if i == 0 && j == len(l) && len(l) == len(g.fd.Body.List) && l[0] == g.fd.Body.List[0] {
		return
	}
	bad := false
	var rets []*ast.ReturnStmt
	var walk func(n ast.Node, depth int, lit bool)
	walk = func(n ast.Node, depth int, lit bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.DeferStmt:
				bad = bad || !lit
			case *ast.GoStmt, *ast.LabeledStmt:
				bad = true
			case *ast.BranchStmt:
				bad = bad || depth == 0
			case *ast.ReturnStmt:
				if !lit {
					rets = append(rets, x)
				}
			case *ast.FuncLit:
				walk(x.Body, 0, true)
				return false
			case *ast.ForStmt:
				walk(x.Body, depth+1, lit)
				if x.Init != nil {
					walk(x.Init, depth, lit)
				}
				return false
			case *ast.RangeStmt:
				walk(x.Body, depth+1, lit)
				return false
			case *ast.SwitchStmt:
				walk(x.Body, depth, lit)
				return false
			}
			return true
		})
	}
	walk(&ast.BlockStmt{List: run}, 0, false)
	if bad {
		return
	}
	for _, n := range func() (r []ast.Node) {
		for _, f := range [](*ast.FieldList){g.fd.Type.Results} {
			if f != nil {
				for _, q := range f.List {
					if len(q.Names) > 0 {
						r = append(r, q)
					}
				}
			}
		}
		return
	}() {
		_ = n
		return // named results
	}
	// is the run inside a function literal?
	inLit := false
	var lit *ast.FuncLit
	ast.Inspect(g.fd.Body, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok && fl.Pos() < from && fl.End() >= to {
			inLit = true
			lit = fl
		}
		return true
	})
	var sig *types.Signature
	if inLit {
		sig = info.TypeOf(lit).(*types.Signature)
	} else {
		sig = info.Defs[g.fd.Name].Type().(*types.Signature)
	}
	// variables
	var ins, outs, news []*types.Var
	seen := map[*types.Var]bool{}
	assigned := map[*types.Var]bool{}
	addr := map[*types.Var]bool{}
	root := func(e ast.Expr) *types.Var {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				v, _ := info.ObjectOf(x).(*types.Var)
				return v
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				if t := info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Pointer); ok {
						return nil
					}
				}
				e = x.X
			case *ast.IndexExpr:
				if t := info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); !ok {
						return nil
					}
				}
				e = x.X
			default:
				return nil
			}
		}
	}
	mark := func(e ast.Expr) {
		if v := root(e); v != nil {
			assigned[v] = true
		}
	}
	scan := func(n ast.Node, in bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.AssignStmt:
				if inside(x.Pos()) {
					for _, e := range x.Lhs {
						mark(e)
					}
				}
			case *ast.IncDecStmt:
				if inside(x.Pos()) {
					mark(x.X)
				}
			case *ast.RangeStmt:
				if inside(x.Pos()) && x.Tok == token.ASSIGN {
					mark(x.Key)
					if x.Value != nil {
						mark(x.Value)
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if v := root(x.X); v != nil {
						addr[v] = true
					}
				}
			case *ast.SliceExpr:
				if t := info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						if v := root(x.X); v != nil {
							addr[v] = true
						}
					}
				}
			case *ast.SelectorExpr:
				if s := info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
					if _, ok := s.Obj().Type().(*types.Signature).Recv().Type().(*types.Pointer); ok {
						if _, ok := s.Recv().Underlying().(*types.Pointer); !ok {
							if v := root(x.X); v != nil {
								addr[v] = true
							}
						}
					}
				}
			case *ast.FuncLit:
				ast.Inspect(x.Body, func(q ast.Node) bool {
					if id, ok := q.(*ast.Ident); ok {
						if v, ok := info.Uses[id].(*types.Var); ok && !(v.Pos() >= x.Pos() && v.Pos() < x.End()) {
							addr[v] = true
						}
					}
					return true
				})
			}
			return true
		})
	}
	scan(g.fd, false)
	use := func(id *ast.Ident) {
		v, ok := info.ObjectOf(id).(*types.Var)
		if !ok || v.IsField() || v.Parent() == g.p.Types.Scope() || v.Pkg() != g.p.Types {
			return
		}
		if v.Pos() < g.fd.Pos() || v.Pos() >= g.fd.End() {
			return
		}
		if inside(id.Pos()) {
			if !inside(v.Pos()) && !seen[v] {
				seen[v] = true
				ins = append(ins, v)
				if assigned[v] {
					outs = append(outs, v)
				}
				if addr[v] && (assigned[v] || isVal(v.Type())) {
					bad = true
				}
			}
		} else if inside(v.Pos()) && !seen[v] {
			seen[v] = true
			outs = append(outs, v)
			news = append(news, v)
			if addr[v] && isVal(v.Type()) {
				// its address may be kept: only a fresh copy is returned, which is still the same value
				bad = true
			}
		}
	}
	ast.Inspect(g.fd, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			use(id)
		}
		return true
	})
	if bad {
		return
	}
	var ps, as []string
	for _, v := range ins {
		t := g.typ(v.Type())
		if t == "" || v.Name() == "_" {
			return
		}
		ps = append(ps, v.Name()+" "+t)
		as = append(as, v.Name())
	}
	var rs, os []string
	for _, v := range outs {
		t := g.typ(v.Type())
		if t == "" {
			return
		}
		rs = append(rs, t)
		os = append(os, v.Name())
	}
	body := g.rng(from, to)
	helper := fmt.Sprintf("extracted%d", g.n)
	g.n++
	call := helper + "(" + strings.Join(as, ", ") + ")"
	head := "\n\nfunc " + helper + "(" + strings.Join(ps, ", ") + ") "
	emit := func(op, at, fn string) {
		txt := g.rng(g.fd.Pos(), from) + at + g.rng(to, g.fd.End()) + head + fn
		if b, err := format.Source([]byte("package p\n" + txt)); err == nil {
			txt = strings.TrimPrefix(string(b), "package p\n")
		}
		g.add(op, g.fd.Pos(), g.fd.End(), txt)
		g.out[len(g.out)-1].Line = g.p.Fset.Position(from).Line
	}
	decl := ""
	for _, v := range news {
		decl += "var " + v.Name() + " " + g.typ(v.Type()) + "\n"
	}
	tuple := func(x []string) string {
		if len(x) == 0 {
			return ""
		}
		return "(" + strings.Join(x, ", ") + ")"
	}
	switch {
	case len(rets) == 0:
		at := call
		if len(os) > 0 {
			if len(news) == len(outs) {
				at = strings.Join(os, ", ") + " := " + call
			} else {
				at = decl + strings.Join(os, ", ") + " = " + call
			}
		}
		ret := ""
		if len(os) > 0 {
			ret = "\nreturn " + strings.Join(os, ", ")
		}
		emit("extract", at, tuple(rs)+" {\n"+body+ret+"\n}")
	case j == len(l) && isRet(run[len(run)-1]):
		// a tail: everything it returns is returned
		var qs []string
		for k := 0; k < sig.Results().Len(); k++ {
			t := g.typ(sig.Results().At(k).Type())
			if t == "" {
				return
			}
			qs = append(qs, t)
		}
		if len(qs) == 0 {
			return
		}
		emit("extract-tail", "return "+call, tuple(qs)+" {\n"+body+"\n}")
	default:
		// early error returns
		n := sig.Results().Len()
		if n == 0 || sig.Results().At(n-1).Type().String() != "error" {
			return
		}
		var zs []string
		for k := 0; k < n-1; k++ {
			z := g.zero(sig.Results().At(k).Type())
			if z == "" {
				return
			}
			zs = append(zs, z)
		}
		var oz []string
		for _, v := range outs {
			z := g.zero(v.Type())
			if z == "" {
				return
			}
			oz = append(oz, z)
		}
		for _, v := range outs {
			if !contains(news, v) {
				return
			}
		}
		b := []byte(body)
		base := g.off(from)
		for k := len(rets) - 1; k >= 0; k-- {
			x := rets[k]
			if len(x.Results) != n {
				return
			}
			for q := 0; q < n-1; q++ {
				tx := g.text(x.Results[q])
				if tx != "nil" && tx != "0" && tx != "false" && tx != `""` && !strings.HasSuffix(tx, "{}") {
					return
				}
			}
			if info.Types[x.Results[n-1]].IsNil() {
				return
			}
			rep := "return " + strings.Join(append(append([]string{}, oz...), g.text(x.Results[n-1])), ", ")
			b = append(b[:g.off(x.Pos())-base:g.off(x.Pos())-base], append([]byte(rep), b[g.off(x.End())-base:]...)...)
		}
		tail := "\nreturn " + strings.Join(append(append([]string{}, os...), "nil"), ", ")
		at := decl + strings.Join(append(append([]string{}, os...), "errX"), ", ") + " := " + call
		if len(news) > 0 {
			at = strings.Join(append(append([]string{}, os...), "errX"), ", ") + " := " + call
		}
		at += "\nif errX != nil {\nreturn " + strings.Join(append(append([]string{}, zs...), "errX"), ", ") + "\n}"
		emit("extract-err", at, tuple(append(append([]string{}, rs...), "error"))+" {\n"+string(b)+tail+"\n}")
	}
}

func contains(l []*types.Var, v *types.Var) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func isRet(s ast.Stmt) bool { _, ok := s.(*ast.ReturnStmt); return ok }

func isVal(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return true
}
