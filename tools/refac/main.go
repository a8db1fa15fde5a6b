// refac writes behaviour preserving variants of the repository's source files (development aid):
// one per function and kind of edit. Output: DIR/<id>.json {"path": "content"}.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
}

type site struct {
	kind  string
	fn    string
	file  string
	edits []edit
}

type ctx struct {
	fset  *token.FileSet
	pkg   *packages.Package
	file  *ast.File
	name  string
	src   []byte
	fd    *ast.FuncDecl
	sites []*site
	n     int
}

func (c *ctx) off(p token.Pos) int { return c.fset.Position(p).Offset }
func (c *ctx) txt(n ast.Node) string {
	return string(c.src[c.off(n.Pos()):c.off(n.End())])
}
func (c *ctx) fname() string {
	if c.fd.Recv != nil && len(c.fd.Recv.List) > 0 {
		t := c.txt(c.fd.Recv.List[0].Type)
		t = strings.TrimPrefix(t, "*")
		if i := strings.Index(t, "["); i >= 0 {
			t = t[:i]
		}
		return t + "." + c.fd.Name.Name
	}
	return c.fd.Name.Name
}
func (c *ctx) add(kind string, es ...edit) {
	c.sites = append(c.sites, &site{kind, c.fname(), c.name, es})
}
func (c *ctx) rep(n ast.Node, s string) edit {
	return edit{c.off(n.Pos()), c.off(n.End()), s}
}
func (c *ctx) ins(p token.Pos, s string) edit { return edit{c.off(p), c.off(p), s} }
func (c *ctx) tmp() string                    { c.n++; return fmt.Sprintf("rf%d", c.n) }

func pureExpr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pureExpr(x.X)
	case *ast.UnaryExpr:
		return x.Op != token.ARROW && pureExpr(x.X)
	case *ast.ParenExpr:
		return pureExpr(x.X)
	}
	return false
}

func noFlow(n ast.Node) bool {
	ok := true
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt, *ast.SelectStmt:
			ok = false
		case *ast.BranchStmt:
			ok = false
		case *ast.CallExpr:
			if id, k := x.Fun.(*ast.Ident); k && id.Name == "recover" {
				ok = false
			}
		}
		return true
	})
	return ok
}

func hasBreak(n ast.Node) bool { // an unlabelled break which would change its meaning
	b := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
			if m != n {
				return false
			}
		case *ast.BranchStmt:
			if x.Tok == token.BREAK && x.Label == nil || x.Tok == token.FALLTHROUGH {
				b = true
			}
		}
		return true
	})
	return b
}

func terminates(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return true
	case *ast.BlockStmt:
		return len(x.List) > 0 && terminates(x.List[len(x.List)-1])
	}
	return false
}

func (c *ctx) negate(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return c.txt(x.X)
		}
	case *ast.BinaryExpr:
		m := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<"}
		if op, ok := m[x.Op]; ok {
			return c.txt(x.X) + " " + op + " " + c.txt(x.Y)
		}
	case *ast.Ident, *ast.CallExpr, *ast.SelectorExpr:
		return "!" + c.txt(e)
	}
	return "!(" + c.txt(e) + ")"
}

func (c *ctx) q(p *types.Package) string {
	if p == c.pkg.Types {
		return ""
	}
	for _, im := range c.file.Imports {
		if strings.Trim(im.Path.Value, `"`) == p.Path() {
			if im.Name != nil {
				return im.Name.Name
			}
			return p.Name()
		}
	}
	return "NOIMPORT"
}

func (c *ctx) stmts(list []ast.Stmt, end token.Pos, inFunc bool) {
	for i, s := range list {
		last := i == len(list)-1
		switch x := s.(type) {
		case *ast.IfStmt:
			blk, isBlk := x.Else.(*ast.BlockStmt)
			if isBlk {
				c.add("invif", c.rep(x.Cond, c.negate(x.Cond)), c.rep(x.Body, c.txt(blk)), c.rep(blk, c.txt(x.Body)))
			}
			if x.Else == nil && !last && x.Init == nil && terminates(x.Body) {
				rest := string(c.src[c.off(list[i+1].Pos()):c.off(end)])
				usesLabel := false
				for _, r := range list[i+1:] {
					if _, ok := r.(*ast.LabeledStmt); ok {
						usesLabel = true
					}
				}
				if !usesLabel {
					c.add("notret", edit{c.off(x.Pos()), c.off(end), "if " + c.negate(x.Cond) + " {\n" + strings.TrimRight(rest, " \t\n") + "\n} else " + c.txt(x.Body) + "\n"})
				}
			}
			if x.Else == nil && x.Init == nil && terminates(x.Body) && !last {
				// if c { return } rest  ->  switch { case c: return }; rest
				if !hasBreak(x.Body) {
					c.add("ifsw", edit{c.off(x.Pos()), c.off(x.Body.End()), "switch {\ncase " + c.txt(x.Cond) + ":\n" + c.inner(x.Body) + "\n}"})
				}
			}
			t := c.tmp()
			if x.Init == nil {
				c.add("condvar", c.ins(x.Pos(), t+" := "+c.txt(x.Cond)+"\n"), c.rep(x.Cond, t))
			} else {
				c.add("condvar", edit{c.off(x.Pos()), c.off(x.Cond.End()), "{\n" + c.txt(x.Init) + "\n" + t + " := " + c.txt(x.Cond) + "\nif " + t}, c.ins(x.End(), "\n}"))
				c.add("initout", edit{c.off(x.Pos()), c.off(x.Cond.Pos()), "{\n" + c.txt(x.Init) + "\nif "}, c.ins(x.End(), "\n}"))
			}
			if b, ok := x.Cond.(*ast.BinaryExpr); ok && x.Else == nil {
				if b.Op == token.LAND {
					c.add("nestif", c.rep(x.Cond, c.txt(b.X)), c.ins(x.Body.Lbrace+1, "\nif "+c.txt(b.Y)+" {"), c.ins(x.Body.Rbrace, "}\n"))
				}
				if b.Op == token.LOR && terminates(x.Body) && x.Init == nil {
					c.add("splitor", c.rep(x.Cond, c.txt(b.X)), c.ins(x.End(), "\nif "+c.txt(b.Y)+" "+c.txt(x.Body)))
				}
			}
			// chains
			if _, chain := x.Else.(*ast.IfStmt); chain || isBlk {
				out, ok := "switch {\n", true
				var cur ast.Stmt = x
				for cur != nil && ok {
					switch y := cur.(type) {
					case *ast.IfStmt:
						if y.Init != nil && y != x || hasBreak(y.Body) {
							ok = false
							break
						}
						out += "case " + c.txt(y.Cond) + ":\n" + c.inner(y.Body) + "\n"
						cur = y.Else
					case *ast.BlockStmt:
						if hasBreak(y) {
							ok = false
						}
						out += "default:\n" + c.inner(y) + "\n"
						cur = nil
					}
				}
				if ok {
					pre := ""
					if x.Init != nil {
						out = strings.Replace(out, "switch {", "switch "+c.txt(x.Init)+"; {", 1)
					}
					c.add("ifchain", edit{c.off(x.Pos()), c.off(x.End()), pre + out + "}"})
				}
			}
		case *ast.SwitchStmt:
			if x.Init == nil && (x.Tag == nil || pureExpr(x.Tag)) {
				var cases []string
				def := ""
				hasDef := false
				ok := true
				for k, cl := range x.Body.List {
					cc := cl.(*ast.CaseClause)
					if hasBreak(cc) {
						ok = false
					}
					body := ""
					if len(cc.Body) > 0 {
						body = string(c.src[c.off(cc.Body[0].Pos()):c.off(cc.Body[len(cc.Body)-1].End())])
					}
					if cc.List == nil {
						if k != len(x.Body.List)-1 {
							ok = false
						}
						def, hasDef = body, true
						continue
					}
					var cs []string
					for _, e := range cc.List {
						if x.Tag != nil {
							cs = append(cs, c.txt(x.Tag)+" == "+c.txt(e))
						} else {
							cs = append(cs, "("+c.txt(e)+")")
						}
					}
					cases = append(cases, "if "+strings.Join(cs, " || ")+" {\n"+body+"\n}")
				}
				if ok && len(cases) > 0 {
					out := strings.Join(cases, " else ")
					if hasDef {
						out += " else {\n" + def + "\n}"
					}
					c.add("swif", c.rep(x, out))
				}
			}
		case *ast.ForStmt:
			if x.Cond != nil && x.Init == nil && x.Post == nil {
				c.add("forcond", c.rep(x.Cond, ""), c.ins(x.Body.Lbrace+1, "\nif "+c.negate(x.Cond)+" {\nbreak\n}"))
			}
			if x.Cond != nil && x.Init != nil && x.Post != nil {
				cont := false
				ast.Inspect(x.Body, func(m ast.Node) bool {
					if b, ok := m.(*ast.BranchStmt); ok && b.Tok == token.CONTINUE {
						cont = true
					}
					return true
				})
				if !cont && noAddrLoopVar(x) {
					c.add("forwhile", edit{c.off(x.Pos()), c.off(x.Body.Lbrace), "{\n" + c.txt(x.Init) + "\nfor " + c.txt(x.Cond) + " "}, c.ins(x.Body.Rbrace, "\n"+c.txt(x.Post)+"\n"), c.ins(x.End(), "\n}"))
				}
			}
		case *ast.RangeStmt:
			if t := c.pkg.TypesInfo.TypeOf(x.X); t != nil && pureExpr(x.X) && x.Tok == token.DEFINE {
				if _, ok := t.Underlying().(*types.Slice); ok {
					k := c.tmp()
					if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
						k = id.Name
					}
					v := ""
					if x.Value != nil {
						v = "\n" + c.txt(x.Value) + " := " + c.txt(x.X) + "[" + k + "]"
					}
					if !strings.Contains(c.txt(x.Body), c.txt(x.X)+" =") {
						c.add("rngidx", edit{c.off(x.Pos()), c.off(x.Body.Lbrace) + 1, "for " + k + " := 0; " + k + " < len(" + c.txt(x.X) + "); " + k + "++ {" + v})
					}
				}
				if _, ok := t.Underlying().(*types.Map); ok && x.Value != nil {
					// look the value up instead
					k := "_"
					if id, ok := x.Key.(*ast.Ident); ok {
						k = id.Name
					}
					if k == "_" {
						k = c.tmp()
					}
					c.add("rngmap", edit{c.off(x.Pos()), c.off(x.Body.Lbrace) + 1, "for " + k + " := range " + c.txt(x.X) + " {\n" + c.txt(x.Value) + " := " + c.txt(x.X) + "[" + k + "]"})
				}
			}
			if t := c.pkg.TypesInfo.TypeOf(x.X); t != nil && !pureExpr(x.X) {
				v := c.tmp()
				c.add("rngvar", c.ins(x.Pos(), v+" := "+c.txt(x.X)+"\n"), c.rep(x.X, v))
			}
		case *ast.DeferStmt:
			if len(x.Call.Args) == 0 {
				if _, lit := x.Call.Fun.(*ast.FuncLit); !lit {
					c.add("defern", c.rep(x.Call, "func() { "+c.txt(x.Call)+" }()"))
				}
			}
		case *ast.IncDecStmt:
			op := " += 1"
			if x.Tok == token.DEC {
				op = " -= 1"
			}
			c.add("incdec", c.rep(x, c.txt(x.X)+op))
		case *ast.AssignStmt:
			if len(x.Lhs) == 1 && pureExpr(x.Lhs[0]) {
				if op := strings.TrimSuffix(x.Tok.String(), "="); x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
					c.add("incdec", c.rep(x, c.txt(x.Lhs[0])+" = "+c.txt(x.Lhs[0])+" "+op+" ("+c.txt(x.Rhs[0])+")"))
				}
			}
			if len(x.Lhs) == 1 && x.Tok == token.ASSIGN && len(x.Rhs) == 1 {
				if id, ok := x.Rhs[0].(*ast.Ident); !ok || id.Name != "nil" {
					if _, lit := x.Rhs[0].(*ast.BasicLit); !lit && !untyped(c, x.Rhs[0]) && pureExpr(x.Lhs[0]) {
						if types.Identical(c.pkg.TypesInfo.TypeOf(x.Lhs[0]), c.pkg.TypesInfo.TypeOf(x.Rhs[0])) {
							v := c.tmp()
							c.add("rhsvar", c.ins(x.Pos(), v+" := "+c.txt(x.Rhs[0])+"\n"), c.rep(x.Rhs[0], v))
						}
					}
				}
			}
			if len(x.Lhs) == 2 && len(x.Rhs) == 2 && x.Tok == token.DEFINE {
				if pureExpr(x.Rhs[0]) && pureExpr(x.Rhs[1]) {
					c.add("splitas", c.rep(x, c.txt(x.Lhs[0])+" := "+c.txt(x.Rhs[0])+"\n"+c.txt(x.Lhs[1])+" := "+c.txt(x.Rhs[1])))
				}
			}
			if len(x.Rhs) == 1 {
				c.hoist(s, x.Rhs[0])
			}
		case *ast.ExprStmt:
			c.hoist(s, x.X)
		case *ast.SendStmt:
			if _, call := x.Value.(*ast.CallExpr); call || true {
				if pureExpr(x.Chan) && !untyped(c, x.Value) && types.Identical(c.pkg.TypesInfo.TypeOf(x.Value), c.pkg.TypesInfo.TypeOf(x.Chan).Underlying().(*types.Chan).Elem()) {
					v := c.tmp()
					c.add("rhsvar", c.ins(x.Pos(), v+" := "+c.txt(x.Value)+"\n"), c.rep(x.Value, v))
				}
			}
			v := c.tmp()
			if pureExpr(x.Chan) {
				c.add("chanvar", c.ins(x.Pos(), v+" := "+c.txt(x.Chan)+"\n"), c.rep(x.Chan, v))
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 && !untyped(c, x.Results[0]) {
				if _, tuple := c.pkg.TypesInfo.TypeOf(x.Results[0]).(*types.Tuple); !tuple {
					if _, id := x.Results[0].(*ast.Ident); !id {
						v := c.tmp()
						c.add("retvar", c.ins(x.Pos(), v+" := "+c.txt(x.Results[0])+"\n"), c.rep(x.Results[0], v))
					}
				}
				c.hoist(s, x.Results[0])
			}
		}
		// swap with the next statement
		if !last {
			if a, ok := s.(*ast.AssignStmt); ok {
				if b, ok := list[i+1].(*ast.AssignStmt); ok && c.indep(a, b) {
					c.add("swap", c.rep(a, c.txt(b)), c.rep(b, c.txt(a)))
				}
			}
		}
	}
	// extract runs of statements into a method
	c.extract(list)
}

func untyped(c *ctx, e ast.Expr) bool {
	tv, ok := c.pkg.TypesInfo.Types[e]
	if !ok || tv.Value != nil || tv.IsNil() {
		return true
	}
	return false
}

func noAddrLoopVar(x *ast.ForStmt) bool {
	ok := true
	ast.Inspect(x.Body, func(m ast.Node) bool {
		if _, f := m.(*ast.FuncLit); f {
			ok = false
		}
		return true
	})
	return ok
}

func (c *ctx) inner(b *ast.BlockStmt) string {
	return strings.TrimSpace(string(c.src[c.off(b.Lbrace)+1 : c.off(b.Rbrace)]))
}

// hoist: the receiver or the arguments of a call into local variables.
func (c *ctx) hoist(s ast.Stmt, e ast.Expr) {
	call, ok := e.(*ast.CallExpr)
	if !ok {
		return
	}
	if tv, ok := c.pkg.TypesInfo.Types[call.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
		return
	}
	if sel, ok := call.Fun.(*ast.SelectorExpr); ok {
		if inner, ok := sel.X.(*ast.SelectorExpr); ok && pureExpr(inner) {
			if t := c.pkg.TypesInfo.TypeOf(inner); t != nil {
				switch t.Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Map:
					v := c.tmp()
					c.add("recvar", c.ins(s.Pos(), v+" := "+c.txt(inner)+"\n"), c.rep(inner, v))
				}
			}
		}
	}
	if !pureExpr(call.Fun) {
		return
	}
	sig, _ := c.pkg.TypesInfo.TypeOf(call.Fun).Underlying().(*types.Signature)
	if sig == nil {
		return
	}
	for i, a := range call.Args {
		if untyped(c, a) {
			continue
		}
		if _, tuple := c.pkg.TypesInfo.TypeOf(a).(*types.Tuple); tuple {
			return
		}
		if _, lit := a.(*ast.FuncLit); lit {
			continue
		}
		if id, ok := a.(*ast.Ident); ok && id != nil {
			continue
		}
		pre := true
		for _, b := range call.Args[:i] {
			pre = pre && (pureExpr(b) || untyped(c, b))
		}
		if !pre || i >= sig.Params().Len() || sig.Variadic() && i >= sig.Params().Len()-1 {
			continue
		}
		v := c.tmp()
		c.add("argvar", c.ins(s.Pos(), v+" := "+c.txt(a)+"\n"), c.rep(a, v))
		break
	}
}

func (c *ctx) indep(a, b *ast.AssignStmt) bool {
	if len(a.Rhs) != 1 || len(b.Rhs) != 1 || len(a.Lhs) != 1 || len(b.Lhs) != 1 {
		return false
	}
	simple := func(e ast.Expr) bool {
		ok := true
		ast.Inspect(e, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.CallExpr:
				if id, k := x.Fun.(*ast.Ident); !k || id.Name != "make" && id.Name != "len" && id.Name != "cap" {
					ok = false
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					ok = false
				}
			case *ast.IndexExpr, *ast.StarExpr, *ast.FuncLit:
				ok = false
			}
			return true
		})
		return ok
	}
	if !simple(a.Rhs[0]) || !simple(b.Rhs[0]) || !pureExpr(a.Lhs[0]) || !pureExpr(b.Lhs[0]) {
		return false
	}
	al, bl := c.txt(a.Lhs[0]), c.txt(b.Lhs[0])
	if al == bl || strings.Contains(al, bl) || strings.Contains(bl, al) {
		return false
	}
	tail := func(s string) string { return s[strings.LastIndex(s, ".")+1:] }
	word := func(s, w string) bool {
		for i := 0; i+len(w) <= len(s); i++ {
			if s[i:i+len(w)] == w {
				return true
			}
		}
		return false
	}
	return !word(c.txt(b.Rhs[0]), tail(al)) && !word(c.txt(a.Rhs[0]), tail(bl)) && !word(c.txt(b.Lhs[0]), al) && !word(c.txt(a.Lhs[0]), bl)
}

// extract: statements moved into a method (or function) of their own.
func (c *ctx) extract(list []ast.Stmt) {
	if len(list) == 0 {
		return
	}
	for _, s := range list {
		switch x := s.(type) {
		case *ast.IfStmt:
			c.extractRun(x.Body.List, "exbody")
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				c.extractRun(b.List, "exbody")
			}
			c.extractRun([]ast.Stmt{s}, "exstmt")
		case *ast.ForStmt:
			c.extractRun(x.Body.List, "exbody")
			c.extractRun([]ast.Stmt{s}, "exstmt")
		case *ast.RangeStmt:
			c.extractRun(x.Body.List, "exbody")
			c.extractRun([]ast.Stmt{s}, "exstmt")
		case *ast.SwitchStmt:
			c.extractRun([]ast.Stmt{s}, "exstmt")
			for _, cl := range x.Body.List {
				c.extractRun(cl.(*ast.CaseClause).Body, "exbody")
			}
		}
	}
	for i := 0; i+1 < len(list); i++ {
		c.extractRun(list[i:i+2], "expair")
	}
	if len(list) > 3 {
		c.extractRun(list[len(list)/2:], "extail")
	}
}

func (c *ctx) extractRun(list []ast.Stmt, kind string) {
	if len(list) == 0 {
		return
	}
	from, to := list[0].Pos(), list[len(list)-1].End()
	info := c.pkg.TypesInfo
	// control flow must stay inside
	depthOK := true
	var walk func(n ast.Node, loop, sw bool)
	walk = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt:
				walk(x.Body, true, true)
				return false
			case *ast.RangeStmt:
				walk(x.Body, true, true)
				return false
			case *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
				walk(m, loop, true)
				return false
			case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
				depthOK = false
			case *ast.BranchStmt:
				if x.Label != nil || x.Tok == token.CONTINUE && !loop || x.Tok == token.BREAK && !sw || x.Tok == token.GOTO {
					depthOK = false
				}
			}
			return true
		})
	}
	for _, s := range list {
		walk(&ast.BlockStmt{List: []ast.Stmt{s}}, false, false)
	}
	if !depthOK {
		return
	}
	params := map[types.Object]string{}
	bad := false
	inside := func(o types.Object) bool { return o.Pos() >= from && o.Pos() < to }
	recv := ""
	var recvObj types.Object
	if c.fd.Recv != nil && len(c.fd.Recv.List[0].Names) > 0 {
		recvObj = info.Defs[c.fd.Recv.List[0].Names[0]]
		recv = c.fd.Recv.List[0].Names[0].Name
	} else if c.fd.Recv != nil || c.fd.Type.TypeParams != nil {
		return
	}
	seenAssign := map[types.Object]bool{}
	note := func(e ast.Expr) {
		for {
			sel, ok := e.(*ast.SelectorExpr)
			if !ok {
				break
			}
			if _, ptr := info.TypeOf(sel.X).Underlying().(*types.Pointer); ptr {
				break
			}
			e = sel.X
		}
		if id, ok := e.(*ast.Ident); ok {
			if o := info.Uses[id]; o != nil {
				seenAssign[o] = true
			}
		}
	}
	for _, s := range list {
		ast.Inspect(s, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					note(l)
				}
			case *ast.IncDecStmt:
				note(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					note(x.X)
				}
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					note(x.Key)
					if x.Value != nil {
						note(x.Value)
					}
				}
			case *ast.CallExpr:
				if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
					if id, ok := sel.X.(*ast.Ident); ok {
						if se := info.Selections[sel]; se != nil && se.Kind() == types.MethodVal {
							if sig := se.Obj().Type().(*types.Signature); sig.Recv() != nil {
								_, pr := sig.Recv().Type().(*types.Pointer)
								_, pv := info.TypeOf(id).Underlying().(*types.Pointer)
								if pr && !pv {
									note(id)
								}
							}
						}
					}
				}
			case *ast.Ident:
				o := info.Uses[x]
				v, ok := o.(*types.Var)
				if !ok || v.IsField() || o.Parent() == nil || o.Parent() == c.pkg.Types.Scope() || o.Pkg() != c.pkg.Types {
					return true
				}
				if inside(o) || o == recvObj {
					return true
				}
				params[o] = types.TypeString(o.Type(), c.q)
			}
			return true
		})
	}
	// defined inside and used after
	ast.Inspect(c.fd.Body, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok && id.Pos() >= to {
			if o := info.Uses[id]; o != nil && inside(o) {
				bad = true
			}
		}
		return true
	})
	for o := range seenAssign {
		if _, ok := params[o]; ok {
			bad = true
		}
	}
	if bad {
		return
	}
	var os []types.Object
	for o := range params {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].Pos() < os[j].Pos() })
	var ps, as []string
	for _, o := range os {
		if strings.Contains(params[o], "NOIMPORT") {
			return
		}
		ps = append(ps, o.Name()+" "+params[o])
		as = append(as, o.Name())
	}
	name := "rfHelper" + c.tmp()
	call, decl := name+"("+strings.Join(as, ", ")+")", "func "
	if recv != "" {
		call = recv + "." + call
		decl += "(" + c.txt(c.fd.Recv.List[0]) + ") "
	}
	body := string(c.src[c.off(from):c.off(to)])
	c.add(kind, edit{c.off(from), c.off(to), call}, edit{len(c.src), len(c.src), "\n\n" + decl + name + "(" + strings.Join(ps, ", ") + ") {\n" + body + "\n}\n"})
}

func (c *ctx) exprs() {
	ast.Inspect(c.fd.Body, func(m ast.Node) bool {
		if b, ok := m.(*ast.BinaryExpr); ok && pureExpr(b.X) && pureExpr(b.Y) {
			flip := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}
			if op, ok := flip[b.Op]; ok {
				c.add("flip", c.rep(b, c.txt(b.Y)+" "+op+" "+c.txt(b.X)))
			}
		}
		if cl, ok := m.(*ast.CompositeLit); ok && len(cl.Elts) > 1 {
			// reorder the first two pure fields
			a, ok1 := cl.Elts[0].(*ast.KeyValueExpr)
			b, ok2 := cl.Elts[1].(*ast.KeyValueExpr)
			if ok1 && ok2 && pureExpr(a.Value) && pureExpr(b.Value) {
				c.add("kvswap", c.rep(a, c.txt(b)), c.rep(b, c.txt(a)))
			}
		}
		if g, ok := m.(*ast.GoStmt); ok && pureExpr(g.Call.Fun) {
			pure := true
			for _, a := range g.Call.Args {
				pure = pure && pureExpr(a)
			}
			if len(g.Call.Args) == 0 {
				c.add("gofn", c.rep(g.Call, "func() { "+c.txt(g.Call)+" }()"))
			}
		}
		return true
	})
}

func (c *ctx) wrap() {
	fd := c.fd
	if fd.Type.TypeParams != nil || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Body == nil {
		return
	}
	recv := ""
	if fd.Recv != nil {
		if len(fd.Recv.List[0].Names) == 0 {
			return
		}
		recv = fd.Recv.List[0].Names[0].Name
		if recv == "_" {
			return
		}
	}
	var args []string
	for _, p := range fd.Type.Params.List {
		if len(p.Names) == 0 {
			return
		}
		for _, n := range p.Names {
			if n.Name == "_" {
				return
			}
			a := n.Name
			if _, v := p.Type.(*ast.Ellipsis); v {
				a += "..."
			}
			args = append(args, a)
		}
	}
	call := fd.Name.Name + "RfImpl(" + strings.Join(args, ", ") + ")"
	if recv != "" {
		call = recv + "." + call
	}
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
		call = "return " + call
	}
	head := string(c.src[c.off(fd.Pos()):c.off(fd.Body.Pos())])
	head2 := string(c.src[c.off(fd.Pos()):c.off(fd.Name.Pos())]) + fd.Name.Name + "RfImpl" + string(c.src[c.off(fd.Name.End()):c.off(fd.Body.Pos())])
	c.add("wrap", edit{c.off(fd.Pos()), c.off(fd.End()), head + "{\n" + call + "\n}\n\n" + head2 + c.txt(fd.Body)})
}

func apply(src []byte, es []edit) (string, bool) {
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	var b strings.Builder
	pos := 0
	for _, e := range es {
		if e.from < pos {
			return "", false
		}
		b.Write(src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(src[pos:])
	return b.String(), true
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	each := flag.Bool("each", false, "one variant per site")
	flag.Parse()
	fset := token.NewFileSet()
	total := 0
	for _, mod := range []string{"streams", "msk"} {
		pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: filepath.Join(*repo, mod), Fset: fset}, "./...")
		if err != nil {
			panic(err)
		}
		for _, pk := range pkgs {
			if strings.Contains(pk.PkgPath, "example") {
				continue
			}
			renames(fset, pk, *out, &total)
			for i, f := range pk.Syntax {
				name := pk.CompiledGoFiles[i]
				src, _ := os.ReadFile(name)
				c := &ctx{fset: fset, pkg: pk, file: f, name: name, src: src}
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Body == nil {
						continue
					}
					c.fd = fd
					c.wrap()
					c.exprs()
					ast.Inspect(fd.Body, func(m ast.Node) bool {
						switch x := m.(type) {
						case *ast.BlockStmt:
							c.stmts(x.List, x.Rbrace, false)
						case *ast.CaseClause:
							if len(x.Body) > 0 {
								c.stmts(x.Body, x.End(), false)
							}
						case *ast.CommClause:
							if len(x.Body) > 0 {
								c.stmts(x.Body, x.End(), false)
							}
						}
						return true
					})
				}
				groups := map[string][]*site{}
				var keys []string
				for j, s := range c.sites {
					k := s.kind + "~" + s.fn
					if *each || strings.HasPrefix(s.kind, "ex") || s.kind == "notret" {
						k += fmt.Sprintf("~%d", j)
					}
					if groups[k] == nil {
						keys = append(keys, k)
					}
					groups[k] = append(groups[k], s)
				}
				for _, k := range keys {
					var es []edit
					n := 0
					for _, s := range groups[k] {
						if _, ok := apply(src, append(append([]edit{}, es...), s.edits...)); ok {
							es = append(es, s.edits...)
							n++
						}
					}
					t, ok := apply(src, es)
					if !ok || n == 0 {
						continue
					}
					b, _ := json.Marshal(map[string]string{name: t})
					id := strings.NewReplacer("/", "_", "*", "").Replace(filepath.Base(name) + "~" + k)
					os.WriteFile(filepath.Join(*out, id+".json"), b, 0o644)
					total++
				}
			}
		}
	}
	fmt.Println(total)
}

// renames: every unexported function, method, field and type of the package gets another name.
func renames(fset *token.FileSet, pk *packages.Package, out string, total *int) {
	objs := map[types.Object][]*ast.Ident{}
	origin := func(o types.Object) types.Object {
		switch x := o.(type) {
		case *types.Var:
			return x.Origin()
		case *types.Func:
			return x.Origin()
		}
		return o
	}
	for id, o := range pk.TypesInfo.Defs {
		if o != nil {
			objs[origin(o)] = append(objs[origin(o)], id)
		}
	}
	for id, o := range pk.TypesInfo.Uses {
		objs[origin(o)] = append(objs[origin(o)], id)
	}
	for o, ids := range objs {
		if o.Pkg() != pk.Types || o.Exported() || o.Name() == "_" || o.Name() == "init" || o.Name() == "main" {
			continue
		}
		kind := ""
		switch x := o.(type) {
		case *types.Var:
			if x.IsField() {
				kind = "field"
				if x.Embedded() {
					continue
				}
			} else if x.Parent() == pk.Types.Scope() {
				kind = "var"
			}
		case *types.Func:
			kind = "func"
		case *types.TypeName:
			if x.Parent() == pk.Types.Scope() {
				kind = "type"
			}
		case *types.Const:
			if x.Parent() == pk.Types.Scope() {
				kind = "const"
			}
		}
		if kind == "" {
			continue
		}
		es := map[string][]edit{}
		for _, id := range ids {
			p := fset.Position(id.Pos())
			es[p.Filename] = append(es[p.Filename], edit{p.Offset, p.Offset + len(id.Name), o.Name() + "Rf"})
		}
		m := map[string]string{}
		for f, e := range es {
			src, _ := os.ReadFile(f)
			if t, ok := apply(src, e); ok {
				m[f] = t
			}
		}
		b, _ := json.Marshal(m)
		own := ""
		if kind == "field" || kind == "func" {
			own = fmt.Sprintf("~%d", fset.Position(o.Pos()).Line)
		}
		os.WriteFile(filepath.Join(out, fmt.Sprintf("rename-%s~%s~%s%s.json", kind, filepath.Base(fset.Position(o.Pos()).Filename), o.Name(), own)), b, 0o644)
		*total++
	}
}
