package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shape analysis of the doubly linked list: the functions are interpreted over
// abstract heaps in which only the elements around the touched ones are
// materialised, on demand and with all their possible aliasing; everything else
// is a summary which obeys the list invariant (x.next.prev == x, x.prev.next == x,
// membership recorded in the element, length counted). The resulting heap is
// compared with the one the operation is specified to produce.

type shNode struct {
	name   string
	root   bool
	member bool // of the list under analysis
	fresh  bool
	next   *shNode // initial links, nil = not materialised
	prev   *shNode
	zero   bool // links are nil (root of a list that was never initialised)
	val    string
}

type shHeap struct {
	cur map[string]interface{} // "node.field" -> value
}

type shVal struct {
	kind string // node nil list addr int val bool func unit
	n    *shNode
	f    string
	k    int64 // int: k, or length+k when sym
	sym  bool
	s    string
	b    bool
}

type shape struct {
	r      *R
	nodes  []*shNode
	root   *shNode
	choice []int
	width  []int
	pos    int
	cur    map[string]shVal
	len    shVal
	dec    map[string]bool
	steps  int
	where  []string
	fresh  int
	empty  int // 0 unknown 1 empty 2 not
}

type shStop struct{ msg string }

func (s *shape) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if s.pos == len(s.choice) {
		s.choice = append(s.choice, 0)
		s.width = append(s.width, n)
	}
	s.width[s.pos] = n
	c := s.choice[s.pos]
	s.pos++
	return c
}

func (s *shape) node(name string, member bool) *shNode {
	n := &shNode{name: name, member: member, val: "val(" + name + ")"}
	s.nodes = append(s.nodes, n)
	return n
}

// link materialises the initial neighbour of a member (or root) in a direction.
func (s *shape) link(n *shNode, next bool) *shNode {
	get := func(x *shNode, nx bool) *shNode {
		if nx {
			return x.next
		}
		return x.prev
	}
	if v := get(n, next); v != nil {
		return v
	}
	var cands []*shNode
	for _, c := range s.nodes {
		if !(c.member || c.root) || get(c, !next) != nil {
			continue
		}
		if c == n && !n.root {
			continue // a member is never its own neighbour: the root is in the circle
		}
		if c == n && n.root && s.members() > 0 {
			continue
		}
		if c == n && s.empty == 2 {
			continue
		}
		cands = append(cands, c)
	}
	allowFresh := s.empty != 1
	k := len(cands)
	if allowFresh {
		k++
	}
	if k == 0 {
		panic(shStop{"infeasible"})
	}
	c := s.choose(k)
	var o *shNode
	if c < len(cands) {
		o = cands[c]
	} else {
		s.fresh++
		o = s.node(fmt.Sprintf("m%d", s.fresh), true)
	}
	if next {
		n.next, o.prev = o, n
	} else {
		n.prev, o.next = o, n
	}
	// a closed circle must contain the root and every member
	seen := map[*shNode]bool{}
	x := n
	for x != nil && !seen[x] {
		seen[x] = true
		x = x.next
	}
	if x == n {
		if !seen[s.root] {
			panic(shStop{"infeasible"})
		}
		for _, m := range s.nodes {
			if m.member && !seen[m] {
				panic(shStop{"infeasible"})
			}
		}
	}
	return o
}

func (s *shape) members() int {
	k := 0
	for _, n := range s.nodes {
		if n.member {
			k++
		}
	}
	return k
}

func nodeV(n *shNode) shVal {
	if n == nil {
		return shVal{kind: "nil"}
	}
	return shVal{kind: "node", n: n}
}

func (s *shape) initial(n *shNode, f string) shVal {
	switch f {
	case "next", "prev":
		if n.zero || n.fresh {
			return shVal{kind: "nil"}
		}
		if n.root || n.member {
			return nodeV(s.link(n, f == "next"))
		}
		return shVal{kind: "val", s: n.name + "." + f} // foreign
	case "list":
		if n.member {
			return shVal{kind: "list"}
		}
		if n.fresh || n.root {
			return shVal{kind: "nil"}
		}
		if s.decide(n.name + " is in another list") {
			return shVal{kind: "val", s: "another list"}
		}
		return shVal{kind: "nil"}
	}
	if n.fresh {
		return shVal{kind: "val", s: "zero"}
	}
	return shVal{kind: "val", s: n.val}
}

func (s *shape) decide(q string) bool {
	if v, ok := s.dec[q]; ok {
		return v
	}
	v := s.choose(2) == 1
	s.dec[q] = v
	return v
}

func (s *shape) read(n *shNode, f string) shVal {
	if v, ok := s.cur[n.name+"."+f]; ok {
		return v
	}
	return s.initial(n, f)
}

func (v shVal) String() string {
	switch v.kind {
	case "node":
		return v.n.name
	case "nil":
		return "nil"
	case "list":
		return "the list"
	case "int":
		if v.sym {
			return fmt.Sprintf("length%+d", v.k)
		}
		return fmt.Sprint(v.k)
	case "bool":
		return fmt.Sprint(v.b)
	case "addr":
		return "&" + v.n.name + "." + v.f
	}
	return v.s
}

func (s *shape) same(a, b shVal) bool {
	if a.kind == "int" && b.kind == "int" {
		if a.sym == b.sym {
			return a.k == b.k
		}
		if b.sym {
			a, b = b, a
		}
		// length + a.k == b.k
		n := b.k - a.k
		if n < 0 {
			return false
		}
		if n == 0 {
			return s.isEmpty()
		}
		return !s.isEmpty() && s.decide(fmt.Sprintf("the length is %d", n))
	}
	return a.kind == b.kind && a.n == b.n && a.f == b.f && a.s == b.s && a.b == b.b
}

func (s *shape) isEmpty() bool {
	if s.root.zero {
		return true
	}
	if s.members() > 0 {
		return false
	}
	if s.empty == 0 {
		if s.root.next == s.root {
			return true
		}
		s.empty = 1 + s.choose(2)
	}
	return s.empty == 1
}

func (s *shape) exec(fn *ssa.Function, as []shVal, depth int) []shVal {
	if depth > 12 {
		panic(shStop{"the call depth is exceeded"})
	}
	env := map[ssa.Value]shVal{}
	for i, p := range fn.Params {
		env[p] = as[i]
	}
	ev := func(v ssa.Value) shVal {
		if c, ok := v.(*ssa.Const); ok {
			if c.IsNil() {
				return shVal{kind: "nil"}
			}
			if c.Value == nil {
				return shVal{kind: "val", s: "zero"}
			}
			if c.Value.Kind() == constant.Int {
				k, _ := constant.Int64Val(c.Value)
				return shVal{kind: "int", k: k}
			}
			if c.Value.Kind() == constant.Bool {
				return shVal{kind: "bool", b: constant.BoolVal(c.Value)}
			}
		}
		x, ok := env[v]
		if !ok {
			panic(shStop{"a value which the list analysis does not model is used: " + v.String()})
		}
		return x
	}
	field := func(fa *ssa.FieldAddr) string {
		v, _ := fieldVar(fa.X.Type(), fa.Field)
		return shown(v)
	}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		s.steps++
		if s.steps > 2000 {
			panic(shStop{"the operation does not terminate"})
		}
		vals := map[*ssa.Phi]shVal{}
		for _, i := range b.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				for k, p := range b.Preds {
					if p == prev {
						vals[ph] = ev(ph.Edges[k])
					}
				}
			}
		}
		for ph, v := range vals {
			env[ph] = v
		}
		var next *ssa.BasicBlock
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.FieldAddr:
				base := ev(x.X)
				f := field(x)
				switch {
				case base.kind == "list" && f == "root":
					env[x] = nodeV(s.root)
				case base.kind == "list":
					env[x] = shVal{kind: "addr", n: s.root, f: "#" + f}
				case base.kind == "node":
					env[x] = shVal{kind: "addr", n: base.n, f: f}
				default:
					panic(shStop{"a nil or unknown pointer is dereferenced: " + base.String() + "." + f})
				}
			case *ssa.UnOp:
				v := ev(x.X)
				switch {
				case x.Op == token.MUL && v.kind == "addr" && v.f == "#len":
					env[x] = s.len
				case x.Op == token.MUL && v.kind == "addr":
					env[x] = s.read(v.n, v.f)
				case x.Op == token.MUL && v.kind == "cell":
					env[x] = s.cur["cell."+v.s]
				case x.Op == token.NOT && v.kind == "bool":
					env[x] = shVal{kind: "bool", b: !v.b}
				default:
					panic(shStop{"an operation the list analysis does not model: " + x.String()})
				}
			case *ssa.Store:
				a, v := ev(x.Addr), ev(x.Val)
				switch {
				case a.kind == "addr" && a.f == "#len":
					s.len = v
				case a.kind == "addr":
					if a.n.root && a.f == "list" || strings.HasPrefix(a.f, "#") {
						panic(shStop{"an unexpected part of the list is changed"})
					}
					// fix the initial value before it is overwritten
					s.initial(a.n, a.f)
					s.cur[a.n.name+"."+a.f] = v
				default:
					panic(shStop{"a store the list analysis does not model: " + x.String()})
				}
				s.where = append(s.where, s.r.p.posStr(x.Pos())+"  "+a.String()+" = "+v.String())
			case *ssa.Alloc:
				if strings.Contains(x.Type().String(), "Element") {
					s.fresh++
					n := s.node(fmt.Sprintf("new%d", s.fresh), false)
					n.fresh = true
					env[x] = nodeV(n)
				} else if strings.Contains(x.Type().String(), "List") {
					env[x] = shVal{kind: "list"}
				} else {
					panic(shStop{"an allocation the list analysis does not model: " + x.String()})
				}
			case *ssa.BinOp:
				a, c := ev(x.X), ev(x.Y)
				switch x.Op {
				case token.EQL:
					env[x] = shVal{kind: "bool", b: s.same(a, c)}
				case token.NEQ:
					env[x] = shVal{kind: "bool", b: !s.same(a, c)}
				case token.ADD, token.SUB:
					k := c.k
					if x.Op == token.SUB {
						k = -k
					}
					if a.kind != "int" || c.kind != "int" || c.sym {
						panic(shStop{"an operation the list analysis does not model: " + x.String()})
					}
					a.k += k
					env[x] = a
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					// only against the empty length
					zero := func(v shVal) bool { return v.kind == "int" && !v.sym }
					if !(a.sym && a.k == 0 && zero(c)) {
						panic(shStop{"an operation the list analysis does not model: " + x.String()})
					}
					var b bool
					switch {
					case x.Op == token.LSS && c.k == 1 || x.Op == token.LEQ && c.k == 0:
						b = s.isEmpty()
					case x.Op == token.GTR && c.k == 0 || x.Op == token.GEQ && c.k == 1:
						b = !s.isEmpty()
					default:
						panic(shStop{"an operation the list analysis does not model: " + x.String()})
					}
					env[x] = shVal{kind: "bool", b: b}
				default:
					panic(shStop{"an operation the list analysis does not model: " + x.String()})
				}
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f == nil {
					panic(shStop{"an unknown function is called"})
				}
				if f.Origin() != nil {
					f = f.Origin()
				}
				if len(f.Blocks) == 0 || f.Pkg != fn.Pkg {
					panic(shStop{"an unknown function is called: " + f.Name()})
				}
				var as []shVal
				for _, a := range x.Call.Args {
					as = append(as, ev(a))
				}
				res := s.exec(f, as, depth+1)
				if len(res) == 1 {
					env[x] = res[0]
				}
			case *ssa.If:
				c := ev(x.Cond)
				next = b.Succs[0]
				if !c.b {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var out []shVal
				for _, v := range x.Results {
					out = append(out, ev(v))
				}
				return out
			default:
				panic(shStop{"an instruction the list analysis does not model: " + i.String()})
			}
		}
		prev, b = b, next
	}
}

// spec heap operations
type shSpec struct {
	s     *shape
	links map[string]*shNode
	list  map[*shNode]bool
	dlen  int64
	added *shNode
	dc    map[string]bool
}

func (p *shSpec) get(n *shNode, f string) *shNode {
	if v, ok := p.links[n.name+"."+f]; ok {
		return v
	}
	return p.s.link(n, f == "next")
}
func (p *shSpec) unlink(n *shNode) {
	a, b := p.get(n, "prev"), p.get(n, "next")
	p.links[a.name+".next"] = b
	p.links[b.name+".prev"] = a
}
func (p *shSpec) after(n, at *shNode) {
	b := p.get(at, "next")
	p.links[n.name+".prev"] = at
	p.links[n.name+".next"] = b
	p.links[at.name+".next"] = n
	p.links[b.name+".prev"] = n
}

var listNew = &shNode{name: "NEW"}

func init() {
	type op struct {
		name string
		args string // v value, e element, m mark
		spec func(p *shSpec, e, m *shNode) interface{}
	}
	add := func(p *shSpec, at *shNode) interface{} {
		p.added = listNew
		p.dlen = 1
		p.after(listNew, at)
		return listNew
	}
	move := func(p *shSpec, e *shNode, at func() *shNode) interface{} {
		if !e.member {
			return nil
		}
		p.unlink(e)
		p.after(e, at())
		return nil
	}
	ops := []op{
		{"PushFront", "v", func(p *shSpec, _, _ *shNode) interface{} { return add(p, p.s.root) }},
		{"PushBack", "v", func(p *shSpec, _, _ *shNode) interface{} { return add(p, p.get(p.s.root, "prev")) }},
		{"InsertBefore", "vm", func(p *shSpec, _, m *shNode) interface{} {
			if !m.member {
				return "nil"
			}
			return add(p, p.get(m, "prev"))
		}},
		{"InsertAfter", "vm", func(p *shSpec, _, m *shNode) interface{} {
			if !m.member {
				return "nil"
			}
			return add(p, m)
		}},
		{"Remove", "e", func(p *shSpec, e, _ *shNode) interface{} {
			if e.member {
				p.unlink(e)
				p.dc[e.name+".next"], p.dc[e.name+".prev"] = true, true
				p.list[e] = false
				p.dlen = -1
			}
			return "val:" + e.val
		}},
		{"MoveToFront", "e", func(p *shSpec, e, _ *shNode) interface{} {
			return move(p, e, func() *shNode { return p.s.root })
		}},
		{"MoveToBack", "e", func(p *shSpec, e, _ *shNode) interface{} {
			return move(p, e, func() *shNode { return p.get(p.s.root, "prev") })
		}},
		{"MoveBefore", "em", func(p *shSpec, e, m *shNode) interface{} {
			if e == m || !m.member {
				return nil
			}
			return move(p, e, func() *shNode { return p.get(m, "prev") })
		}},
		{"MoveAfter", "em", func(p *shSpec, e, m *shNode) interface{} {
			if e == m || !m.member {
				return nil
			}
			return move(p, e, func() *shNode { return m })
		}},
		{"Front", "", func(p *shSpec, _, _ *shNode) interface{} {
			if n := p.get(p.s.root, "next"); n != p.s.root {
				return n
			}
			return "nil"
		}},
		{"Back", "", func(p *shSpec, _, _ *shNode) interface{} {
			if n := p.get(p.s.root, "prev"); n != p.s.root {
				return n
			}
			return "nil"
		}},
		{"Len", "", func(p *shSpec, _, _ *shNode) interface{} { return "len" }},
		{"Next", "E", func(p *shSpec, e, _ *shNode) interface{} {
			if !e.member {
				return "any"
			}
			if n := p.get(e, "next"); n != p.s.root {
				return n
			}
			return "nil"
		}},
		{"Prev", "E", func(p *shSpec, e, _ *shNode) interface{} {
			if !e.member {
				return "any"
			}
			if n := p.get(e, "prev"); n != p.s.root {
				return n
			}
			return "nil"
		}},
	}
	rule("sak.list", "C31",
		"every list operation leaves links, membership and length consistent and touches only elements of its list",
		func(r *R) {
			for _, o := range ops {
				name := "sak.List." + o.name
				if o.args == "E" {
					name = "sak.Element." + o.name
				}
				fn := r.fn(name)
				r.funcs[name] = true
				r.roots[name] = true
				var choice []int
				cases := 0
				for {
					s := &shape{r: r, choice: choice, width: make([]int, len(choice)), cur: map[string]shVal{}, dec: map[string]bool{}, len: shVal{kind: "int", sym: true}}
					msg := r.listCase(s, fn, o.args, o.spec)
					if msg == "infeasible" {
						msg = ""
					} else {
						cases++
					}
					if msg != "" {
						r.fail(fn.Pos(), name, "breaks the list: "+msg, s.where)
						break
					}
					if cases > 20000 {
						r.fatal("too many shapes for %s", name)
					}
					// next choice vector
					choice = s.choice[:s.pos]
					for len(choice) > 0 && choice[len(choice)-1]+1 >= s.width[len(choice)-1] {
						choice = choice[:len(choice)-1]
					}
					if len(choice) == 0 {
						break
					}
					choice = append([]int{}, choice...)
					choice[len(choice)-1]++
				}
				r.insts += cases
				r.note("%s: %d shapes", name, cases)
			}
			// Init clears, NewList is initialised
			g := r.gs("sak.List.Init")
			for _, w := range [][2]string{{"$0.root.next", "$0.root"}, {"$0.root.prev", "$0.root"}, {"$0.len", "0"}} {
				w := w
				r.Times(g, "initialising "+w[0], func(n *Node) bool {
					return n.E.K == KStore && n.E.R.String() == w[0] && n.E.V.String() == w[1]
				}, 1, 1, nil, nil)
			}
			r.Ret("sak.List.Init", "the initialised list", "$0")
			r.Times(r.gs("sak.NewList"), "initialising a new list", store("sak.Element.next"), 1, 1, nil, nil)

			// copying a list takes the number of elements before it adds the first
			for f, d := range map[string][2]string{"PushBackList": {"$1.root.next", "Next"}, "PushFrontList": {"$1.root.prev", "Prev"}} {
				g := r.gs("sak.List." + f)
				first, dir := d[0], d[1]
				el := "mu(nil;call:sak.Element." + dir + "(@)) || mu(" + first + ";call:sak.Element." + dir + "(@))"
				links := 0
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					if n.E.K == KBranch && globs("mu($1.len;@-1)<1", n.E.X.String()) {
						s = s.set("more", fmt.Sprint(!n.E.Val))
						s = s.set("ins", "0")
					}
					if n.E.K == KBranch && n.E.X.String() == "$0.root.next==nil" && !n.E.Val || n.E.K == KStore && n.E.R.String() == "$0.root.next" && n.E.V.String() == "$0.root" {
						s = s.set("init", "1")
					}
					if n.E.K == KStore && n.E.Field == "sak.Element.Value" {
						links++
						if s.get("init") != "1" {
							return s, "elements are added to a list which may not be initialised"
						}
						if s.get("more") != "true" {
							return s, "an element is copied beyond the number of elements the other list had"
						}
						if s.get("ins") == "1" {
							return s, "an element is copied twice"
						}
						s = s.set("ins", "1")
						v := n.E.V
						if v.Op != "field" || !globs(el, v.A[0].String()) {
							return s, "something else than the next element is copied"
						}
					}
					if n.E.K == KStore && n.E.Field == "sak.Element.prev" && strings.HasPrefix(n.E.R.String(), "new:") {
						at := map[string]string{"PushBackList": "$0.root.prev", "PushFrontList": "$0.root"}[f]
						if n.E.V.String() != at {
							return s, "the copy is inserted at the wrong place"
						}
					}
					if n.E.K == KStore && n.E.Field == "sak.List.len" && n.E.V.String() != "0" && n.E.V.String() != "$0.len+1" {
						return s, "the length is not the number of elements"
					}
					if call("sak.Element."+dir)(n) && s.get("ins") != "1" {
						return s, "an element is skipped"
					}
					if n.E.K == KReturn && s.get("more") != "false" {
						return s, "copying stops before every element was copied"
					}
					return s, ""
				})
				r.need(links, 1, "copied elements in "+f)
			}
		})
}

func (r *R) listCase(s *shape, fn *ssa.Function, args string, spec func(p *shSpec, e, m *shNode) interface{}) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			st, ok := x.(shStop)
			if !ok {
				panic(x)
			}
			msg = st.msg
		}
	}()
	*listNew = shNode{name: "NEW"}
	s.root = s.node("root", false)
	s.root.root = true
	var e, m *shNode
	var as []shVal
	if args != "E" {
		as = append(as, shVal{kind: "list"})
	}
	for _, a := range args {
		switch a {
		case 'v':
			as = append(as, shVal{kind: "val", s: "v"})
		case 'e', 'E':
			e = s.node("e", s.choose(2) == 0)
			as = append(as, nodeV(e))
		case 'm':
			if e != nil && s.choose(2) == 1 {
				m = e
			} else {
				m = s.node("mark", s.choose(2) == 0)
			}
			as = append(as, nodeV(m))
		}
	}
	// a list that was never initialised has no members
	if s.members() == 0 && args != "E" && s.choose(2) == 1 {
		s.root.zero = true
		s.len = shVal{kind: "int"}
	}
	if args == "E" && !e.member {
		// an element of any list is covered by the member case
		s.dec["e is in another list"] = false
	}
	base := s.len
	p := &shSpec{s: s, links: map[string]*shNode{}, list: map[*shNode]bool{}, dc: map[string]bool{}}
	var want interface{}
	if s.root.zero {
		// behaves like the empty list
		p.links["root.next"], p.links["root.prev"] = s.root, s.root
		if o := fn.Name(); o == "Front" || o == "Back" {
			want = "nil"
		} else {
			want = spec(p, e, m)
		}
	} else {
		want = spec(p, e, m)
	}
	if args == "E" && !e.member {
		want = "nil"
	}
	res := s.exec(fn, as, 0)
	// result
	var added *shNode
	if p.added != nil {
		if len(res) != 1 || res[0].kind != "node" || !res[0].n.fresh {
			return "the new element is not returned"
		}
		added = res[0].n
	}
	switch w := want.(type) {
	case *shNode:
		if w != listNew && (len(res) != 1 || res[0].n != w) {
			return fmt.Sprintf("the result is %v instead of %s", res, w.name)
		}
	case string:
		switch {
		case w == "nil":
			if len(res) != 1 || res[0].kind != "nil" {
				return fmt.Sprintf("the result is %v instead of nil", res)
			}
		case w == "len":
			if len(res) != 1 || res[0] != base {
				return "the result is not the length"
			}
		case strings.HasPrefix(w, "val:"):
			if len(res) != 1 || res[0].s != w[4:] {
				return "the result is not the value of the element"
			}
		}
	}
	// heap
	name := func(n *shNode) *shNode {
		if n == listNew {
			return added
		}
		return n
	}
	for _, n := range append([]*shNode{}, s.nodes...) {
		if n.fresh && n != added {
			continue
		}
		for _, f := range []string{"next", "prev"} {
			key := n.name + "." + f
			if n == added {
				key = "NEW." + f
			}
			if p.dc[key] {
				continue
			}
			got, written := s.cur[n.name+"."+f]
			exp, specified := p.links[key]
			if s.root.zero && n.root && p.added == nil {
				// Either untouched or initialised
				continue
			}
			if !written && !specified {
				continue
			}
			var expV shVal
			if specified {
				expV = nodeV(name(exp))
			} else {
				expV = s.initial(n, f)
			}
			if !written {
				got = s.initial(n, f)
			}
			if got.kind != expV.kind || got.n != expV.n || got.s != expV.s {
				return fmt.Sprintf("%s.%s becomes %s instead of %s", n.name, f, got, expV)
			}
		}
		got, written := s.cur[n.name+".list"]
		exp := shVal{kind: "nil"}
		if v, ok := p.list[n]; ok {
			if v {
				exp = shVal{kind: "list"}
			}
		} else if n == added {
			exp = shVal{kind: "list"}
		} else {
			if !written {
				continue
			}
			exp = s.initial(n, "list")
		}
		if got.kind != exp.kind || got.s != exp.s {
			return fmt.Sprintf("the membership of %s becomes %s instead of %s", n.name, got, exp)
		}
		if n == added {
			if v := s.cur[n.name+".Value"]; v.s != "v" {
				return "the new element does not hold the value"
			}
		} else if v, ok := s.cur[n.name+".Value"]; ok && v.s != n.val {
			return "the value of an element changes"
		}
	}
	base.k += p.dlen
	if s.len != base {
		return fmt.Sprintf("the length becomes %s instead of %s", s.len, base)
	}
	return ""
}
