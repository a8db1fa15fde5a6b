// automut writes single-edit mutants of the repository's source files (development aid: the
// survivors of the rules are read by hand). Output: DIR/<id>.json {"path": "content"}, DIR/<id>.txt.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

type ctx struct {
	fset *token.FileSet
	pkg  *packages.Package
	name string
	src  []byte
	fd   *ast.FuncDecl
	out  string
	n    *int
}

func (c *ctx) off(p token.Pos) int { return c.fset.Position(p).Offset }
func (c *ctx) txt(n ast.Node) string {
	return string(c.src[c.off(n.Pos()):c.off(n.End())])
}
func (c *ctx) fname() string {
	if c.fd.Recv != nil && len(c.fd.Recv.List) > 0 {
		t := strings.TrimPrefix(c.txt(c.fd.Recv.List[0].Type), "*")
		if i := strings.Index(t, "["); i >= 0 {
			t = t[:i]
		}
		return t + "." + c.fd.Name.Name
	}
	return c.fd.Name.Name
}

type ed struct {
	from, to int
	text     string
}

func (c *ctx) add(kind string, pos token.Pos, es ...ed) {
	s := string(c.src)
	for i := 0; i < len(es); i++ { // apply from the back
		k := -1
		for j := range es {
			if es[j].from >= 0 && (k < 0 || es[j].from > es[k].from) {
				k = j
			}
		}
		e := es[k]
		s = s[:e.from] + e.text + s[e.to:]
		es[k].from = -1
	}
	*c.n++
	line := c.fset.Position(pos).Line
	id := fmt.Sprintf("%s~%s~%s~%d~%d", filepath.Base(c.name), kind, c.fname(), line, *c.n)
	b, _ := json.Marshal(map[string]string{c.name: s})
	os.WriteFile(filepath.Join(c.out, id+".json"), b, 0o644)
}
func (c *ctx) repl(kind string, n ast.Node, text string) {
	c.add(kind, n.Pos(), ed{c.off(n.Pos()), c.off(n.End()), text})
}

func (c *ctx) islog(n ast.Node) bool {
	t := c.txt(n)
	return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "fmt.Print")
}

var flips = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
}

func (c *ctx) stmts(l []ast.Stmt) {
	for i, s := range l {
		switch x := s.(type) {
		case *ast.ExprStmt:
			if !c.islog(x) {
				c.repl("del", s, "")
			}
		case *ast.SendStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.DeferStmt, *ast.BranchStmt:
			c.repl("del", s, "")
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				// use zero values later: blank the uses
			} else {
				t := ""
				for _, r := range x.Rhs {
					_ = r
				}
				c.repl("del", s, t)
			}
		case *ast.IfStmt:
			c.repl("cond", x.Cond, "!("+c.txt(x.Cond)+")")
			c.repl("condT", x.Cond, "("+c.txt(x.Cond)+" || true)")
			c.repl("condF", x.Cond, "("+c.txt(x.Cond)+" && false)")
			if x.Else != nil {
				c.add("noelse", x.Pos(), ed{c.off(x.Body.End()), c.off(x.End()), ""})
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 0 && i < len(l) {
				c.repl("del", s, "")
			}
		}
		switch x := s.(type) {
		case *ast.DeferStmt:
			c.repl("undefer", s, c.txt(x.Call))
		case *ast.GoStmt:
			c.repl("ungo", s, c.txt(x.Call))
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE && x.Label == nil {
				c.repl("brk", s, "break")
			}
			if x.Tok == token.BREAK && x.Label == nil {
				c.repl("cont", s, "continue")
			}
		case *ast.ExprStmt:
			if _, ok := x.X.(*ast.CallExpr); ok && !c.islog(x) {
				c.repl("go", s, "go "+c.txt(x.X))
				c.repl("twice", s, c.txt(x.X)+"; "+c.txt(x.X))
			}
		case *ast.IncDecStmt:
			if x.Tok == token.INC {
				c.repl("incdec", s, c.txt(x.X)+"--")
			} else {
				c.repl("incdec", s, c.txt(x.X)+"++")
			}
		}
		if i+1 < len(l) && !c.islog(s) && !c.islog(l[i+1]) {
			a, b := s, l[i+1]
			if _, ok := b.(*ast.ReturnStmt); !ok {
				c.add("swap", s.Pos(), ed{c.off(a.Pos()), c.off(a.End()), c.txt(b)}, ed{c.off(b.Pos()), c.off(b.End()), c.txt(a)})
			}
		}
	}
}

func (c *ctx) visit(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.BlockStmt:
		c.stmts(x.List)
	case *ast.CaseClause:
		c.stmts(x.Body)
		if x.List != nil {
			c.add("nocase", x.Pos(), ed{c.off(x.Pos()), c.off(x.End()), ""})
		} else {
			c.add("nodefault", x.Pos(), ed{c.off(x.Pos()), c.off(x.End()), ""})
		}
	case *ast.CommClause:
		c.stmts(x.Body)
		c.add("nocomm", x.Pos(), ed{c.off(x.Pos()), c.off(x.End()), ""})
	case *ast.CallExpr:
		if c.islog(x) {
			return false
		}
		if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "make" || id.Name == "append" && false) {
			if len(x.Args) == 2 {
				c.repl("cap", x.Args[1], "0")
			}
		}
		for i := range x.Args {
			for j := i + 1; j < len(x.Args); j++ {
				ti, tj := c.pkg.TypesInfo.TypeOf(x.Args[i]), c.pkg.TypesInfo.TypeOf(x.Args[j])
				if ti != nil && tj != nil && types.Identical(ti, tj) {
					a, b := x.Args[i], x.Args[j]
					c.add("argswap", x.Pos(), ed{c.off(a.Pos()), c.off(a.End()), c.txt(b)}, ed{c.off(b.Pos()), c.off(b.End()), c.txt(a)})
				}
			}
		}
	case *ast.BinaryExpr:
		for _, t := range flips[x.Op] {
			o := c.off(x.OpPos)
			c.add("op", x.OpPos, ed{o, o + len(x.Op.String()), t})
		}
		if x.Op == token.LAND || x.Op == token.LOR {
			c.repl("left", x, c.txt(x.X))
			c.repl("right", x, c.txt(x.Y))
		}
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			c.repl("not", x, c.txt(x.X))
		}
	case *ast.ForStmt:
		if x.Cond != nil {
			c.repl("forF", x.Cond, "("+c.txt(x.Cond)+" && false)")
		}
	case *ast.BasicLit:
		if x.Kind == token.INT {
			c.repl("int", x, "("+x.Value+" + 1)")
			if x.Value == "1" {
				c.repl("int", x, "0")
			}
		}
	case *ast.Ident:
		if x.Name == "true" && c.pkg.TypesInfo.Uses[x] == types.Universe.Lookup("true") {
			c.repl("bool", x, "false")
		}
		if x.Name == "false" && c.pkg.TypesInfo.Uses[x] == types.Universe.Lookup("false") {
			c.repl("bool", x, "true")
		}
		if o, ok := c.pkg.TypesInfo.Uses[x].(*types.Const); ok && o.Pkg() == c.pkg.Types {
			// another constant of the same named type
			if nt, ok := o.Type().(*types.Named); ok {
				for _, nm := range c.pkg.Types.Scope().Names() {
					if p, ok := c.pkg.Types.Scope().Lookup(nm).(*types.Const); ok && p != o && p.Type() == nt {
						c.repl("const", x, nm)
					}
				}
			}
		}
		if v, ok := c.pkg.TypesInfo.Uses[x].(*types.Var); ok && !v.IsField() && v.Parent() != nil && v.Parent() != c.pkg.Types.Scope() {
			// another local variable of the same type
			sc := c.pkg.Types.Scope().Innermost(x.Pos())
			seen := 0
			for s := sc; s != nil && s != c.pkg.Types.Scope() && seen < 2; s = s.Parent() {
				for _, nm := range s.Names() {
					if w, ok := s.Lookup(nm).(*types.Var); ok && w != v && w.Pos() < x.Pos() && types.Identical(w.Type(), v.Type()) && seen < 2 && nm != "_" {
						seen++
						c.repl("var", x, nm)
					}
				}
			}
		}
	case *ast.SelectorExpr:
		if v, ok := c.pkg.TypesInfo.Uses[x.Sel].(*types.Var); ok && v.IsField() {
			// sibling field of the same type
			t := c.pkg.TypesInfo.TypeOf(x.X)
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if st, ok := t.Underlying().(*types.Struct); ok {
				k := 0
				for i := 0; i < st.NumFields() && k < 2; i++ {
					f := st.Field(i)
					if f.Name() != v.Name() && types.Identical(f.Type(), v.Type()) && (f.Exported() || f.Pkg() == c.pkg.Types) {
						c.repl("field", x.Sel, f.Name())
						k++
					}
				}
			}
		}
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			t := c.pkg.TypesInfo.TypeOf(r)
			if t == nil {
				continue
			}
			s := c.txt(r)
			z := ""
			switch u := t.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsNumeric != 0 && s != "0" {
					z = "0"
				}
				if u.Info()&types.IsString != 0 && s != `""` {
					z = `""`
				}
				if u.Info()&types.IsBoolean != 0 && s != "true" && s != "false" {
					z = "!(" + s + ")"
				}
			case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
				if s != "nil" {
					z = "nil"
				}
			}
			if z != "" {
				c.repl("ret", r, z)
			}
		}
	case *ast.CompositeLit:
		for _, e := range x.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				if _, ok := kv.Value.(*ast.FuncLit); ok {
					continue
				}
				end := c.off(kv.End())
				for end < len(c.src) && (c.src[end] == ' ' || c.src[end] == ',') {
					end++
					if c.src[end-1] == ',' {
						break
					}
				}
				c.add("nofield", kv.Pos(), ed{c.off(kv.Pos()), end, ""})
			}
		}
	}
	return true
}

func main() {
	out := flag.String("out", "/tmp/am", "")
	flag.Parse()
	os.MkdirAll(*out, 0o755)
	n := 0
	for _, m := range []string{"/repo/msk", "/repo/streams"} {
		ps, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: m, Tests: false}, "./...")
		if err != nil {
			panic(err)
		}
		for _, p := range ps {
			for _, f := range p.Syntax {
				name := p.Fset.Position(f.Pos()).Filename
				src, _ := os.ReadFile(name)
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
						c := &ctx{p.Fset, p, name, src, fd, *out, &n}
						ast.Inspect(fd.Body, c.visit)
					}
				}
			}
		}
	}
	fmt.Println(n)
}
