// mutate lists small changes of a Go module that still type-check, one JSON object per line.
// It is a development tool: it finds changes to review the checks with, and decides nothing.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Repl string `json:"repl"`
	Op   string `json:"op"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Was  string `json:"was"`
}

type imp map[string]*types.Package

func (m imp) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if q := m[p]; q != nil {
		return q, nil
	}
	return nil, fmt.Errorf("no %s", p)
}

func main() {
	dir := os.Args[1]
	skip := os.Args[2:]
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes |
		packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedModule}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, p := range pkgs {
		im := imp{}
		for k, d := range p.Imports {
			im[k] = d.Types
		}
		for fi, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			rel, _ := filepath.Rel(dir, name)
			bad := strings.HasSuffix(rel, "_test.go")
			for _, s := range skip {
				bad = bad || strings.HasPrefix(rel, s)
			}
			if bad {
				continue
			}
			src, _ := os.ReadFile(name)
			for _, m := range muts(p, f, src) {
				m.File = rel
				if check(p, fi, name, src, m, im) {
					enc.Encode(m)
				}
			}
		}
	}
}

func check(p *packages.Package, fi int, name string, src []byte, m mut, im imp) bool {
	var b bytes.Buffer
	b.Write(src[:m.Off])
	b.WriteString(m.Repl)
	b.Write(src[m.End:])
	f, err := parser.ParseFile(p.Fset, name, b.Bytes(), 0)
	if err != nil {
		return false
	}
	files := append([]*ast.File{}, p.Syntax...)
	files[fi] = f
	c := types.Config{Importer: im}
	_, err = c.Check(p.PkgPath, p.Fset, files, nil)
	return err == nil
}

func muts(p *packages.Package, f *ast.File, src []byte) (out []mut) {
	fset := p.Fset
	off := func(x token.Pos) int { return fset.Position(x).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	cur := ""
	add := func(op string, from, to token.Pos, repl string) {
		was := string(src[off(from):off(to)])
		if was == repl {
			return
		}
		out = append(out, mut{Off: off(from), End: off(to), Repl: repl, Op: op, Line: fset.Position(from).Line, Func: cur, Was: was})
	}
	info := p.TypesInfo
	var vars func(pos token.Pos, t types.Type) []string
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			if gd, ok := d.(*ast.GenDecl); ok {
				cur = "package"
				ast.Inspect(gd, func(n ast.Node) bool {
					if l, ok := n.(*ast.BasicLit); ok {
						lit(l, add)
					}
					if _, ok := n.(*ast.ImportSpec); ok {
						return false
					}
					if fl, ok := n.(*ast.Field); ok && fl.Tag != nil {
						return false
					}
					return true
				})
			}
			continue
		}
		cur = fd.Name.Name
		if fd.Recv != nil && len(fd.Recv.List) > 0 {
			cur = strings.TrimPrefix(text(fd.Recv.List[0].Type), "*") + "." + cur
		}
		sc := info.Scopes[fd.Type]
		vars = func(pos token.Pos, t types.Type) (r []string) {
			seen := map[string]bool{}
			for s := p.Types.Scope().Innermost(pos); s != nil && s != p.Types.Scope(); s = s.Parent() {
				for _, n := range s.Names() {
					o := s.Lookup(n)
					if v, ok := o.(*types.Var); ok && !seen[n] && o.Pos() < pos && types.Identical(v.Type(), t) {
						seen[n] = true
						r = append(r, n)
					}
				}
			}
			return
		}
		_ = sc
		depth := 0
		_ = depth
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List, text, off, add)
			case *ast.CaseClause:
				stmts(x.Body, text, off, add)
			case *ast.CommClause:
				stmts(x.Body, text, off, add)
			case *ast.IfStmt:
				add("negate", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				add("always", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
				add("never", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				if x.Else != nil {
					add("no-else", x.Body.End(), x.Else.End(), "")
				}
			case *ast.ForStmt:
				if x.Cond != nil {
					add("never", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				}
			case *ast.BinaryExpr:
				for _, r := range map[token.Token][]string{
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
				}[x.Op] {
					add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
				}
				add("left", x.Pos(), x.End(), text(x.X))
				add("right", x.Pos(), x.End(), text(x.Y))
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add("not", x.Pos(), x.End(), text(x.X))
				}
			case *ast.BasicLit:
				lit(x, add)
			case *ast.Ident:
				if x.Name == "true" {
					add("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					add("bool", x.Pos(), x.End(), "true")
				}
				if o, ok := info.Uses[x].(*types.Var); ok && !o.IsField() && o.Parent() != p.Types.Scope() {
					for _, v := range vars(x.Pos(), o.Type()) {
						if v != x.Name {
							add("var", x.Pos(), x.End(), v)
						}
					}
				} else if ok && !o.IsField() && o.Pkg() == p.Types {
					n := 0
					for _, g := range p.Types.Scope().Names() {
						if v, ok := p.Types.Scope().Lookup(g).(*types.Var); ok && g != x.Name && types.Identical(v.Type(), o.Type()) && n < 4 {
							n++
							add("global", x.Pos(), x.End(), g)
						}
					}
				} else if c, ok := info.Uses[x].(*types.Const); ok && c.Pkg() == p.Types {
					n := 0
					for _, g := range p.Types.Scope().Names() {
						if v, ok := p.Types.Scope().Lookup(g).(*types.Const); ok && g != x.Name && types.Identical(v.Type(), c.Type()) && n < 3 {
							n++
							add("const", x.Pos(), x.End(), g)
						}
					}
				}
			case *ast.SelectorExpr:
				s := info.Selections[x]
				if s == nil {
					break
				}
				if s.Kind() == types.FieldVal {
					t := s.Recv()
					if q, ok := t.Underlying().(*types.Pointer); ok {
						t = q.Elem()
					}
					if st, ok := t.Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							fl := st.Field(i)
							if fl.Name() != x.Sel.Name && types.Identical(fl.Type(), s.Type()) && (fl.Exported() || fl.Pkg() == p.Types) {
								add("field", x.Sel.Pos(), x.Sel.End(), fl.Name())
							}
						}
					}
				} else if s.Kind() == types.MethodVal {
					ms := types.NewMethodSet(s.Recv())
					n := 0
					for i := 0; i < ms.Len(); i++ {
						m := ms.At(i).Obj()
						if m.Name() != x.Sel.Name && types.Identical(m.Type().(*types.Signature).Results(), s.Obj().Type().(*types.Signature).Results()) &&
							types.Identical(m.Type().(*types.Signature).Params(), s.Obj().Type().(*types.Signature).Params()) && m.Exported() && n < 3 {
							n++
							add("method", x.Sel.Pos(), x.Sel.End(), m.Name())
						}
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					add("swap-args", a.Pos(), b.End(), text(b)+string(src[off(a.End()):off(b.Pos())])+text(a))
				}
				if id, ok := x.Fun.(*ast.Ident); ok {
					if fn, ok := info.Uses[id].(*types.Func); ok && fn.Pkg() == p.Types {
						n := 0
						for _, g := range p.Types.Scope().Names() {
							if v, ok := p.Types.Scope().Lookup(g).(*types.Func); ok && g != id.Name && types.Identical(v.Type(), fn.Type()) && n < 3 {
								n++
								add("func", id.Pos(), id.End(), g)
							}
						}
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add("slice", x.Low.Pos(), x.Low.End(), "")
				}
				if x.High != nil {
					add("slice", x.High.Pos(), x.High.End(), "")
				}
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					if tv, ok := info.Types[r]; ok {
						if i == len(x.Results)-1 && tv.Type != nil && tv.Type.String() == "error" {
							add("no-error", r.Pos(), r.End(), "nil")
						} else if tv.Type != nil && !tv.IsNil() {
							switch tv.Type.Underlying().(type) {
							case *types.Pointer, *types.Slice, *types.Map:
								add("ret-nil", r.Pos(), r.End(), "nil")
							}
							for _, v := range vars(r.Pos(), tv.Type) {
								if text(r) != v {
									add("ret-var", r.Pos(), r.End(), v)
								}
							}
						}
					}
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					add("branch", x.Pos(), x.End(), "continue")
				} else if x.Tok == token.CONTINUE && x.Label == nil {
					add("branch", x.Pos(), x.End(), "break")
				}
			case *ast.KeyValueExpr:
				if tv, ok := info.Types[x.Value]; ok && tv.Type != nil {
					for _, v := range vars(x.Pos(), tv.Type) {
						add("kv", x.Value.Pos(), x.Value.End(), v)
					}
				}
			case *ast.CompositeLit:
				for i := 0; i+1 < len(x.Elts); i++ {
					a, b := x.Elts[i], x.Elts[i+1]
					ka, ok1 := a.(*ast.KeyValueExpr)
					kb, ok2 := b.(*ast.KeyValueExpr)
					if ok1 && ok2 {
						add("swap-kv", ka.Value.Pos(), kb.Value.End(), text(kb.Value)+string(src[off(ka.Value.End()):off(kb.Value.Pos())])+text(ka.Value))
						add("drop-kv", ka.Pos(), kb.Pos(), "")
					} else {
						add("swap-elts", a.Pos(), b.End(), text(b)+string(src[off(a.End()):off(b.Pos())])+text(a))
					}
				}
			}
			return true
		})
	}
	return
}

func lit(l *ast.BasicLit, add func(op string, from, to token.Pos, repl string)) {
	switch l.Kind {
	case token.INT:
		if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
			add("int", l.Pos(), l.End(), fmt.Sprint(v+1))
			if v > 0 {
				add("int", l.Pos(), l.End(), fmt.Sprint(v-1))
			}
		}
	case token.STRING:
		if len(l.Value) > 2 {
			add("string", l.Pos(), l.End(), `"x"`)
		}
	}
}

func stmts(list []ast.Stmt, text func(ast.Node) string, off func(token.Pos) int, add func(op string, from, to token.Pos, repl string)) {
	for i, s := range list {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SendStmt:
			add("delete", s.Pos(), s.End(), "")
			if d, ok := s.(*ast.DeferStmt); ok {
				add("undefer", s.Pos(), d.Call.Pos(), "")
			}
			if is, ok := s.(*ast.IfStmt); ok && is.Init != nil {
				add("keep-init", s.Pos(), s.End(), text(is.Init))
			}
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN {
				add("delete", s.Pos(), s.End(), "")
				rhs := text(x.Rhs[0])
				_ = rhs
			} else if x.Tok != token.DEFINE {
				add("delete", s.Pos(), s.End(), "")
				add("plain-assign", x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "=")
			}
		case *ast.BranchStmt:
			add("delete", s.Pos(), s.End(), "")
		case *ast.ReturnStmt:
			if i > 0 {
				// nothing
			}
		}
		if i+1 < len(list) {
			n := list[i+1]
			switch n.(type) {
			case *ast.ReturnStmt:
			default:
				var b bytes.Buffer
				b.WriteString(text(n))
				b.WriteString("\n")
				b.WriteString(text(s))
				add("reorder", s.Pos(), n.End(), b.String())
			}
		}
	}
}

var _ = printer.Fprint
