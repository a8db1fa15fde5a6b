package main

// Rule framework: a rule runs automata over exploded event graphs and reports
// the construct (file, function, path) which breaks it.

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Rule struct {
	ID    string
	Props string // space separated property ids
	Desc  string
	Run   func(r *R)
}

var rules []*Rule

func rule(id, props, desc string, run func(r *R)) {
	rules = append(rules, &Rule{ID: id, Props: addExtra(id, props), Desc: desc, Run: run})
}

type Violation struct {
	Rule  string
	Msg   string
	Where string
	Func  string
	Key   string
	Path  []string
}

type R struct {
	p     *Prog
	rule  *Rule
	viol  []Violation
	insts int      // obligations discharged or violated
	notes []string // what was analysed
	nodes int
	funcs map[string]bool
	roots map[string]bool
}

var graphCache = map[string]*Graph{}

type abort struct{ msg string }

// fatal: the rule cannot be evaluated (anchor missing, limit reached): reported as a violation.
func (r *R) fatal(format string, a ...interface{}) {
	panic(abort{fmt.Sprintf(format, a...)})
}

func (r *R) fn(name string) *ssa.Function {
	f := r.p.Funcs[name]
	if f == nil {
		r.fatal("anchor %s was not found in the analysed program", name)
	}
	return f
}

// G explores a root; tag distinguishes option sets in the cache.
func (r *R) G(root string, o Opts, tag string) *Graph {
	return r.GF(r.fn(root), o, tag)
}

func (r *R) GF(fn *ssa.Function, o Opts, tag string) *Graph {
	k := r.p.Name(fn) + "|" + tag
	g := graphCache[k]
	if g == nil {
		var err error
		g, err = r.p.Explore(fn, o)
		if err != nil {
			r.fatal("%v", err)
		}
		graphCache[k] = g
	}
	r.nodes += len(g.Nodes)
	r.roots[r.p.Name(fn)] = true
	for f := range g.Funcs {
		r.funcs[f] = true
	}
	return g
}

// g: default options, goroutines and callbacks forked.
func (r *R) g(root string) *Graph { return r.G(root, Opts{Fork: true}, "fork") }

// gs: sequential only.
func (r *R) gs(root string) *Graph { return r.G(root, Opts{}, "seq") }

// gn: without inlining the named functions.
func (r *R) gn(root string, fork bool, names ...string) *Graph {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	return r.G(root, Opts{Fork: fork, NoInline: func(n string) bool { return set[n] }}, fmt.Sprint("n", fork, names))
}

func (r *R) note(format string, a ...interface{}) {
	if len(r.notes) < 140 {
		r.notes = append(r.notes, fmt.Sprintf(format, a...))
	}
}

func (r *R) fail(pos token.Pos, fn, msg string, path []string) {
	v := Violation{Rule: r.rule.ID, Msg: msg, Where: r.p.posStr(pos), Func: fn, Path: path}
	v.Key = r.rule.ID + "|" + fn + "|" + msg
	for _, o := range r.viol {
		if o.Key == v.Key {
			return
		}
	}
	r.viol = append(r.viol, v)
}

func (r *R) failN(g *Graph, n *Node, msg string, path []string) {
	fn := ""
	if n.E.Fr != nil {
		fn = r.p.Name(n.E.Fr.fn)
	}
	r.fail(n.E.Pos, fn, msg+" ["+n.E.Desc(r.p)+"]", path)
}

// need fails when fewer than min instances were found.
func (r *R) need(n, min int, what string) {
	if n < min {
		r.fatal("only %d instance(s) of %s found, expected at least %d", n, what, min)
	}
}

// ---------------------------------------------------------------- patterns

// glob: * matches any text.
func glob(pat, s string) bool {
	if pat == "*" {
		return true
	}
	parts := strings.Split(pat, "*")
	if len(parts) == 1 {
		return pat == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for i := 1; i < len(parts)-1; i++ {
		j := strings.Index(s, parts[i])
		if j < 0 {
			return false
		}
		s = s[j+len(parts[i]):]
	}
	return strings.HasSuffix(s, parts[len(parts)-1])
}

func globs(pats, s string) bool {
	for _, p := range strings.Split(pats, " || ") {
		if glob(p, s) {
			return true
		}
	}
	return false
}

type Pred func(n *Node) bool

// call matches opaque or inlined calls by name and argument globs ("" or "*" = any).
func call(name string, as ...string) Pred {
	return func(n *Node) bool {
		if n.E.K != KCall && n.E.K != KEnter {
			return false
		}
		if !globs(name, n.E.Name) {
			return false
		}
		for i, a := range as {
			if a == "" || a == "*" {
				continue
			}
			if i >= len(n.E.A) || !globs(a, n.E.A[i].String()) {
				return false
			}
		}
		return true
	}
}

func leave(name string) Pred {
	return func(n *Node) bool { return n.E.K == KLeave && globs(name, n.E.Name) }
}

func dyn(field string) Pred {
	return func(n *Node) bool {
		return n.E.K == KDyn && (globs(field, n.E.Field) || globs(field, strings.TrimPrefix(n.E.Name, "dyn:")))
	}
}
func goEv(name string) Pred {
	return func(n *Node) bool { return n.E.K == KGo && globs(name, n.E.Name) }
}
// goDoes: a goroutine is started in which ev happens (the graph has to follow goroutines).
func goDoes(ev Pred) Pred {
	return func(n *Node) bool {
		if n.E.K != KGo {
			return false
		}
		seen := map[*Node]bool{}
		var in func(m *Node) bool
		in = func(m *Node) bool {
			if seen[m] {
				return false
			}
			seen[m] = true
			if ev(m) {
				return true
			}
			if m.E.K == KFEnd {
				return false
			}
			for _, s := range m.Succ {
				if in(s) {
					return true
				}
			}
			return false
		}
		for _, s := range n.Succ {
			if s.E.K == KFork && in(s) {
				return true
			}
		}
		return false
	}
}

func send(field string) Pred {
	return func(n *Node) bool { return n.E.K == KSend && globs(field, n.E.Field) }
}
func sendX(pat string) Pred {
	return func(n *Node) bool { return n.E.K == KSend && globs(pat, n.E.X.String()) }
}
func recv(field string) Pred {
	return func(n *Node) bool { return n.E.K == KRecv && globs(field, n.E.Field) }
}
func recvX(pat string) Pred {
	return func(n *Node) bool { return n.E.K == KRecv && globs(pat, n.E.X.String()) }
}
func closeEv(field string) Pred {
	return func(n *Node) bool { return n.E.K == KClose && globs(field, n.E.Field) }
}
func closeX(pat string) Pred {
	return func(n *Node) bool { return n.E.K == KClose && globs(pat, n.E.X.String()) }
}
func store(field string, val ...string) Pred {
	return func(n *Node) bool {
		return n.E.K == KStore && globs(field, n.E.Field) && (len(val) == 0 || globs(val[0], n.E.V.String()))
	}
}
func loadEv(field string) Pred {
	return func(n *Node) bool { return n.E.K == KLoad && globs(field, n.E.Field) }
}
func mapset(field string) Pred {
	return func(n *Node) bool { return n.E.K == KMapSet && globs(field, n.E.Field) }
}
func mapdel(field string) Pred {
	return func(n *Node) bool { return n.E.K == KMapDel && globs(field, n.E.Field) }
}
func branch(pat string, val bool) Pred {
	return func(n *Node) bool {
		if n.E.K != KBranch {
			return false
		}
		if h := hasForm(n.E.X); h != "" && n.E.Val != val && globs(pat, h) {
			return true
		}
		if n.E.Val != val {
			return false
		}
		for _, c := range conds(n.E.X) {
			if globs(pat, c) {
				return true
			}
		}
		return false
	}
}
func kind(k Kind) Pred { return func(n *Node) bool { return n.E.K == k } }

func or(ps ...Pred) Pred {
	return func(n *Node) bool {
		for _, p := range ps {
			if p(n) {
				return true
			}
		}
		return false
	}
}
func and(ps ...Pred) Pred {
	return func(n *Node) bool {
		for _, p := range ps {
			if !p(n) {
				return false
			}
		}
		return true
	}
}
func not(p Pred) Pred { return func(n *Node) bool { return !p(n) } }
func never(n *Node) bool {
	return false
}

var retRoot = kind(KReturn)

// inFn: the event happens in (an inlined instance of) the named function, at any depth.
func inFn(name string) Pred {
	return func(n *Node) bool {
		for f := n.E.Fr; f != nil; f = f.parent {
			if globs(name, f.fnName) {
				return true
			}
		}
		return false
	}
}

// ---------------------------------------------------------------- automaton states

type St string

func (s St) has(t string) bool {
	for _, x := range strings.Fields(string(s)) {
		if x == t {
			return true
		}
	}
	return false
}
func (s St) get(k string) string {
	for _, x := range strings.Fields(string(s)) {
		if strings.HasPrefix(x, k+"=") {
			return x[len(k)+1:]
		}
	}
	return ""
}
func (s St) add(t string) St {
	if s.has(t) {
		return s
	}
	f := append(strings.Fields(string(s)), t)
	sort.Strings(f)
	return St(strings.Join(f, " "))
}
func (s St) del(t string) St {
	var f []string
	for _, x := range strings.Fields(string(s)) {
		if x != t {
			f = append(f, x)
		}
	}
	return St(strings.Join(f, " "))
}
func (s St) set(k, v string) St {
	var f []string
	for _, x := range strings.Fields(string(s)) {
		if !strings.HasPrefix(x, k+"=") {
			f = append(f, x)
		}
	}
	if v != "" {
		f = append(f, k+"="+v)
	}
	sort.Strings(f)
	return St(strings.Join(f, " "))
}

const dead = St("\x00dead")

// Auto runs a typestate automaton over the graph. step returns the next state
// (dead prunes the path) and a message when the event breaks the rule.
func (r *R) Auto(g *Graph, init St, step func(s St, n *Node) (St, string)) int {
	type key struct {
		n *Node
		s St
	}
	type item struct {
		k   key
		par int
	}
	seen := map[key]bool{}
	var q []item
	push := func(n *Node, s St, par int) {
		k := key{n, s}
		if !seen[k] {
			seen[k] = true
			q = append(q, item{k, par})
		}
	}
	push(g.Start, init, -1)
	count := 0
	reported := 0
	for i := 0; i < len(q); i++ {
		it := q[i]
		count++
		ns, bad := step(it.k.s, it.k.n)
		if bad != "" {
			if reported < 6 {
				var path []string
				for j := i; j >= 0; j = q[j].par {
					e := q[j].k.n.E
					switch e.K {
					case KJoin, KLoad, KAlloc, KMapGet:
						continue
					}
					path = append(path, r.p.posStr(e.Pos)+"  "+e.Desc(r.p))
				}
				for a, b := 0, len(path)-1; a < b; a, b = a+1, b-1 {
					path[a], path[b] = path[b], path[a]
				}
				if len(path) > 120 {
					path = append(append(append([]string{}, path[:30]...), "..."), path[len(path)-80:]...)
				}
				before := len(r.viol)
				r.failN(g, it.k.n, bad, path)
				if len(r.viol) > before {
					reported++
				}
			}
			continue
		}
		if ns == dead {
			continue
		}
		for _, s := range it.k.n.Succ {
			push(s, ns, i)
		}
		if len(q) > 3000000 {
			r.fatal("automaton state limit")
		}
	}
	return count
}

// Count of reachable distinct constructs (by instruction) matching p.
func (g *Graph) Find(p Pred) []*Node {
	var out []*Node
	for _, n := range g.Nodes {
		if p(n) {
			out = append(out, n)
		}
	}
	return out
}

// sites: distinct instruction sites of the matched nodes.
func sites(ns []*Node) int {
	m := map[interface{}]bool{}
	for _, n := range ns {
		if n.E.Ins != nil {
			m[n.E.Ins] = true
		} else {
			m[n] = true
		}
	}
	return len(m)
}

// Precede: every B is preceded by an A (since the last reset).
func (r *R) Precede(g *Graph, what string, A, B Pred, reset Pred) {
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		if B(n) && s != "A" {
			return s, what
		}
		if reset != nil && reset(n) {
			s = ""
		}
		if A(n) {
			s = "A"
		}
		return s, ""
	})
	r.insts += len(g.Find(B))
}

// Follow: after every A, B happens before the end (root return, goroutine end) on every path;
// the bodies of goroutines started in between do not count.
func (r *R) Follow(g *Graph, what string, A, B Pred, end Pred) {
	if end == nil {
		end = or(kind(KReturn), kind(KFEnd))
	}
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		if n.E.K == KFork && s == "A" {
			return dead, ""
		}
		if B(n) {
			s = ""
		}
		if end(n) && s == "A" {
			return s, what
		}
		if A(n) {
			s = "A"
		}
		return s, ""
	})
	r.insts += len(g.Find(A))
}

// Never: no event matches.
func (r *R) Never(g *Graph, what string, p Pred) {
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		if p(n) {
			return s, what
		}
		return s, ""
	})
	r.insts++
}

// NotAfter: B never happens after A (unless reset in between).
func (r *R) NotAfter(g *Graph, what string, A, B, reset Pred) {
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		if reset != nil && reset(n) {
			s = ""
		}
		if B(n) && s == "A" {
			return s, what
		}
		if A(n) {
			s = "A"
		}
		return s, ""
	})
	r.insts += len(g.Find(A))
}

// Every: each event matching p satisfies ok.
func (r *R) Every(g *Graph, what string, p Pred, min int, ok func(n *Node) bool) {
	ns := g.Find(p)
	r.need(sites(ns), min, what)
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		if p(n) && !ok(n) {
			return s, what
		}
		return s, ""
	})
	r.insts += sites(ns)
}

// Once: event p happens exactly once between start and end (lo..hi occurrences).
func (r *R) Times(g *Graph, what string, p Pred, lo, hi int, start, end Pred) {
	if end == nil {
		end = retRoot
	}
	init := St("0")
	if start != nil {
		init = "-"
	}
	r.Auto(g, init, func(s St, n *Node) (St, string) {
		if n.E.K == KFork {
			return dead, ""
		}
		if start != nil && start(n) {
			s = "0"
		}
		if s == "-" {
			return s, ""
		}
		var c int
		fmt.Sscan(string(s), &c)
		if p(n) {
			c++
			if c > hi {
				return s, what + fmt.Sprintf(" (more than %d times)", hi)
			}
		}
		if end(n) {
			if c < lo {
				return s, what + fmt.Sprintf(" (%d times, expected at least %d)", c, lo)
			}
			if start != nil {
				return "-", ""
			}
			return dead, ""
		}
		return St(fmt.Sprint(c)), ""
	})
	r.insts++
}

// ---------------------------------------------------------------- guards

// Atom names a branch condition.
type Atom struct {
	Name string
	Keep bool // does not change while the function runs: stays known from one round to the next
	M    func(x *X) (match bool, neg bool)
}

// atKeep: a condition on something which does not change meanwhile.
func atKeep(name string, pats ...string) Atom {
	a := at(name, pats...)
	a.Keep = true
	return a
}

// at: atom by globs on the canonical condition; a leading ! means negated.
func at(name string, pats ...string) Atom {
	return Atom{Name: name, M: func(x *X) (bool, bool) {
		cs := conds(x)
		h := hasForm(x)
		for _, p := range pats {
			neg := strings.HasPrefix(p, "!")
			if h != "" && globs(strings.TrimPrefix(p, "!"), h) {
				return true, !neg
			}
			for _, s := range cs {
				if globs(strings.TrimPrefix(p, "!"), s) {
					return true, neg
				}
			}
		}
		return false, false
	}}
}

// conds renders a condition, an equation in both orders.
func conds(x *X) []string {
	s := x.String()
	if x.Op == "eq" && len(x.A) == 2 {
		if t := x.A[1].String() + "==" + x.A[0].String(); t != s {
			return []string{s, t}
		}
	}
	return []string{s}
}

// hasForm: m[k]==nil as a test of membership, which it is the opposite of, where nothing nil is
// kept in the map.
func hasForm(x *X) string {
	if x.Op != "eq" || len(x.A) != 2 {
		return ""
	}
	l, n := x.A[0], x.A[1]
	if l.isNil() {
		l, n = n, l
	}
	if !n.isNil() || l.Op != "lookup" {
		return ""
	}
	return "has(" + l.A[0].String() + "," + l.A[1].String() + ")"
}

type V map[string]bool // total assignment

const (
	dontcare = 0
	must     = 1
	mustnot  = 2
)

func b2m(b bool) int {
	if b {
		return must
	}
	return mustnot
}

// Guard checks that between start and end the event happens exactly under the
// specified condition: for every path, every completion of the atoms tested on
// it must agree with the specification.
func (r *R) Guard(g *Graph, what string, start, ev, end Pred, atoms []Atom, spec func(v V) int) {
	r.guard(g, what, start, ev, end, atoms, spec, false)
}

// Guard2 is Guard which follows goroutines started on the way to the end.
func (r *R) Guard2(g *Graph, what string, ev, end Pred, atoms []Atom, spec func(v V) int) {
	r.guard(g, what, nil, ev, end, atoms, spec, true)
}

func (r *R) guard(g *Graph, what string, start, ev, end Pred, atoms []Atom, spec func(v V) int, cross bool) {
	if end == nil {
		end = or(kind(KReturn), kind(KFEnd))
	}
	init := St("on")
	if start != nil {
		init = ""
	}
	tested := map[string]bool{}
	names := make([]string, len(atoms))
	for i, a := range atoms {
		names[i] = a.Name
	}
	completions := func(s St, f func(v V) bool) (V, bool) {
		var free []string
		v := V{}
		for _, n := range names {
			switch s.get(n) {
			case "1":
				v[n] = true
			case "0":
				v[n] = false
			default:
				free = append(free, n)
			}
		}
		for m := 0; m < 1<<len(free); m++ {
			for i, n := range free {
				v[n] = m>>i&1 == 1
			}
			if f(v) {
				return v, true
			}
		}
		return nil, false
	}
	fired := 0
	show := func(v V) string {
		var s []string
		for _, n := range names {
			s = append(s, fmt.Sprintf("%s=%v", n, v[n]))
		}
		return strings.Join(s, " ")
	}
	kept := func(s St, to St) St {
		for _, a := range atoms {
			if v := s.get(a.Name); a.Keep && v != "" {
				to = to.set(a.Name, v)
			}
		}
		return to
	}
	r.Auto(g, init, func(s St, n *Node) (St, string) {
		hit := start != nil && start(n)
		if hit && end(n) { // a node which ends one round and starts the next
			if s.has("on") && !s.has("fired") {
				if v, bad := completions(s, func(v V) bool { return spec(v) == must }); bad {
					return s, what + ": does not happen although it must (" + show(v) + ")"
				}
			}
			return kept(s, "on"), ""
		}
		if hit {
			s = kept(s, "on")
		}
		if !s.has("on") {
			if n.E.K == KBranch {
				for _, a := range atoms {
					if ok, neg := a.M(n.E.X); ok && a.Keep {
						tested[a.Name] = true
						s = s.set(a.Name, map[bool]string{true: "1", false: "0"}[n.E.Val != neg])
					}
				}
			}
			return s, ""
		}
		if n.E.K == KFork && !cross {
			return dead, ""
		}
		if n.E.K == KBranch {
			for _, a := range atoms {
				if ok, neg := a.M(n.E.X); ok {
					tested[a.Name] = true
					val := "0"
					if n.E.Val != neg {
						val = "1"
					}
					if old := s.get(a.Name); old != "" && old != val {
						// evaluated again with another outcome: keep the latest
					}
					s = s.set(a.Name, val)
				}
			}
		}
		if ev(n) {
			fired++
			if v, bad := completions(s, func(v V) bool { return spec(v) == mustnot }); bad {
				return s, what + ": happens although it must not (" + show(v) + ")"
			}
			s = s.add("fired")
		}
		if end(n) {
			if !s.has("fired") {
				if v, bad := completions(s, func(v V) bool { return spec(v) == must }); bad {
					return s, what + ": does not happen although it must (" + show(v) + ")"
				}
			}
			if start != nil {
				return kept(s, ""), ""
			}
			return dead, ""
		}
		return s, ""
	})
	r.need(fired, 1, what+" (event)")
	r.insts++
}

// ---------------------------------------------------------------- loops

// loopBranch recognises the branch which decides whether a loop continues.
// It returns the collection (the ranged value, "chain:<cursor>" for linked
// structures, "count:<bound>" for counted loops) and whether it continues.
func loopBranch(n *Node) (string, bool, bool) {
	if n.E.K != KBranch {
		return "", false, false
	}
	x := n.E.X
	switch x.Op {
	case "next", "iter":
		return x.A[0].String(), n.E.Val, true
	case "call":
		if strings.HasPrefix(x.S, "kgo.") && strings.HasSuffix(x.S, "Iter.Done") && len(x.A) == 1 {
			return x.A[0].String(), !n.E.Val, true
		}
	case "eq":
		for i := range x.A {
			if x.A[i].Op == "mu" {
				return "chain:" + x.A[i].String(), !n.E.Val, true
			}
		}
	case "lt":
		// len(c)-mu(0;@+1) < 1 : exhausted ; or mu-len(c) < 0 continues
		l, bound := x.A[0], x.A[1].String()
		full := func(m *X, ok bool, name string) string {
			if ok && m.String() == "mu(0;@+1)" {
				return name
			}
			return "part:" + name
		}
		if l.Op == "mu" { // mu(0;@+1) < const, or downwards to 0
			if len(l.A) == 2 && l.A[1].String() == "@-1" && bound == "0" {
				if i := l.A[0]; i.Op == "lin" && len(i.A) == 1 && coefs(i)[0] == 1 && i.Int != nil && i.Int.Int64() == -1 {
					if i.A[0].Op == "len" {
						return i.A[0].A[0].String(), !n.E.Val, true
					}
					return "count:" + i.A[0].String(), !n.E.Val, true
				}
			}
			return full(l, true, "count:"+bound), n.E.Val, true
		}
		if l.Op == "lin" && len(l.A) == 2 {
			var c *X
			mu := -1
			for i, t := range l.A {
				if t.Op == "mu" {
					mu = i
				} else {
					c = t
				}
			}
			if c != nil && mu >= 0 {
				name := "count:" + c.String()
				if c.Op == "len" {
					name = c.A[0].String()
				}
				zero := l.Int == nil || l.Int.Sign() == 0
				if coefs(l)[1-mu] > 0 { // len - mu < k
					if zero && bound == "2" && l.A[mu].String() == "mu(0;@+1)" { // one element less: the first or the last
						return "less1:" + name, !n.E.Val, true
					}
					return full(l.A[mu], zero && bound == "1", name), !n.E.Val, true
				}
				return full(l.A[mu], zero && bound == "0", name), n.E.Val, true
			}
		}
	}
	return "", false, false
}

// loopSite identifies one loop: the instruction deciding it, in one frame.
type loopSite struct {
	fr  *Frame
	ins ssa.Instruction
}

func siteOf(n *Node) loopSite { return loopSite{n.E.Fr, n.E.Ins} }

// inLoop: n happens in the body of the loop decided at l.
func (r *R) inLoop(l loopSite, n *Node) bool {
	ins := n.E.Ins
	if n.E.Fr == l.fr && ins != nil && ins == l.ins && (n.E.K == KEnter || n.E.K == KLeave) {
		return true // calling the callback of an iterator
	}
	for f := n.E.Fr; f != nil; f = f.parent {
		if f.site != nil && f.site == l.ins && f.parent == l.fr {
			return true // callback of an iterator
		}
		if f == l.fr && ins != nil {
			if _, ok := l.ins.(*ssa.If); !ok {
				return false
			}
			body := r.loopBody(l.ins)
			return body != nil && body[ins.Block().Index]
		}
		ins = f.site
	}
	return false
}

func (r *R) loopBody(ins ssa.Instruction) map[int]bool {
	inf := r.p.Info(ins.Parent())
	var best map[int]bool
	for _, b := range inf.loopOf {
		if b[ins.Block().Index] && (best == nil || len(b) < len(best)) {
			best = b
		}
	}
	return best
}

// Loop tracks one family of loops: those over a collection matching coll whose
// body contains an event matching ev.
type Loop struct {
	r     *R
	tok   string
	sites map[loopSite]bool
	ev    Pred
	lo    int
	hi    int
}

// Loop finds the loops over coll with ev in their body (at least min).
func (r *R) Loop(g *Graph, tok, coll string, ev Pred, lo, hi, min int) *Loop {
	l := &Loop{r: r, tok: tok, sites: map[loopSite]bool{}, ev: ev, lo: lo, hi: hi}
	cand := map[loopSite]bool{}
	for _, n := range g.Nodes {
		if c, _, ok := loopBranch(n); ok && n.E.Ins != nil && globs(coll, c) {
			cand[siteOf(n)] = true
		}
	}
	for _, n := range g.Nodes {
		if ev(n) {
			for c := range cand {
				if !l.sites[c] && r.inLoop(c, n) {
					l.sites[c] = true
				}
			}
		}
	}
	r.need(len(l.sites), min, "loop over "+coll+" with the expected effect in its body")
	return l
}

// step maintains tok=<count> while in the body; tok=done after exhaustion with
// every element handled; tok=skip / tok=left / tok=many when that is violated.
func (l *Loop) step(s St, n *Node) St {
	if len(l.sites) == 0 {
		return s
	}
	cur := s.get(l.tok)
	if _, cont, ok := loopBranch(n); ok && l.sites[siteOf(n)] {
		if cur == "skip" || cur == "many" {
			return s
		}
		if cur != "" && cur[0] >= '0' && cur[0] <= '9' {
			var k int
			fmt.Sscan(cur, &k)
			if k < l.lo {
				return s.set(l.tok, "skip")
			}
		}
		if cont {
			return s.set(l.tok, "0")
		}
		return s.set(l.tok, "done")
	}
	if cur != "" && cur[0] >= '0' && cur[0] <= '9' {
		if f := n.E.Fr; n.E.K == KLeave && f != nil && l.sites[loopSite{f.parent, f.site}] && f.kind == "iter" && len(n.E.A) == 1 && n.E.A[0].String() != "true" {
			return s.set(l.tok, "left") // the callback of an iterator ends the iteration
		}
		if l.ev(n) {
			var k int
			fmt.Sscan(cur, &k)
			k++
			if k > 9 {
				k = 9
			} else if k > l.hi {
				return s.set(l.tok, "many")
			}
			return s.set(l.tok, fmt.Sprint(k))
		}
		if n.E.Ins != nil && n.E.K != KJoin {
			in := false
			for c := range l.sites {
				if l.r.inLoop(c, n) {
					in = true
					break
				}
			}
			if !in {
				return s.set(l.tok, "left")
			}
		}
	}
	return s
}

func (s St) loopBad(tok string) string {
	switch s.get(tok) {
	case "skip":
		return "an element is skipped"
	case "many":
		return "it happens more than once for one element"
	case "left":
		return "the loop is left before every element was handled"
	}
	return ""
}

// ForEach: whenever a loop over a collection matching coll with ev in its body
// runs, every element triggers ev lo..hi times before the next element is
// taken, and the loop is only left when exhausted.
func (r *R) ForEach(g *Graph, what, coll string, ev Pred, lo, hi int) {
	l := r.forEach(g, what, coll, ev, lo, hi)
	if hi < 9 && lo > 0 {
		r.entered(g, what, coll, l)
	}
}

// ForEachIf: as ForEach, for a loop which need not be reached (after unless).
func (r *R) ForEachIf(g *Graph, what, coll string, ev Pred, lo, hi int, unless ...Pred) {
	l := r.forEach(g, what, coll, ev, lo, hi)
	if len(unless) > 0 {
		r.entered(g, what, coll, l, unless...)
	}
}

func (r *R) forEach(g *Graph, what, coll string, ev Pred, lo, hi int) *Loop {
	l := r.Loop(g, "L", coll, ev, lo, hi, 1)
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		if n.E.K == KFork && s != "" {
			return dead, ""
		}
		s = l.step(s, n)
		if m := s.loopBad("L"); m != "" {
			return s, what + ": " + m
		}
		return s, ""
	})
	r.insts++
	return l
}

// ForEachNested: the loops around ev: the innermost one has ev exactly once for
// every element, the ones around it reach the next inner one for every element.
func (r *R) ForEachNested(g *Graph, what string, ev Pred) {
	var evs []*Node
	at := map[loopSite]*Node{}
	for _, n := range g.Nodes {
		if ev(n) {
			evs = append(evs, n)
		}
	}
	for _, n := range g.Nodes {
		if _, _, ok := loopBranch(n); ok && n.E.Ins != nil {
			for _, e := range evs {
				if r.inLoop(siteOf(n), e) {
					at[siteOf(n)] = n
				}
			}
		}
	}
	r.need(len(at), 1, "loops around: "+what)
	for c := range at {
		// the loops directly inside of c
		inner := map[loopSite]bool{}
		for d, n := range at {
			if d == c || !r.inLoop(c, n) {
				continue
			}
			direct := true
			for x, m := range at {
				if x != c && x != d && r.inLoop(c, m) && r.inLoop(x, n) {
					direct = false
				}
			}
			inner[d] = direct
		}
		e, hi := ev, 1
		if len(inner) > 0 {
			e, hi = func(n *Node) bool {
				_, _, ok := loopBranch(n)
				return ok && inner[siteOf(n)]
			}, 9
		}
		l := &Loop{r: r, tok: "L", sites: map[loopSite]bool{c: true}, ev: e, lo: 1, hi: hi}
		r.Auto(g, "", func(s St, n *Node) (St, string) {
			if n.E.K == KFork && s != "" {
				return dead, ""
			}
			s = l.step(s, n)
			if m := s.loopBad("L"); m != "" {
				return s, what + ": " + m
			}
			return s, ""
		})
		r.insts++
	}
}

// entered: the loop is not bypassed: every path to a return of the root enters
// it, unless the collection is known to be empty.
func (r *R) entered(g *Graph, what, coll string, l *Loop, unless ...Pred) {
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		e := n.E
		if s != "" || e.K == KFork || or(unless...)(n) {
			return dead, ""
		}
		if c, _, ok := loopBranch(n); ok && (l.sites[siteOf(n)] || strings.Contains(coll, "(") && !globs(coll, c)) {
			return dead, "" // entered, or a loop around it
		}
		if e.K == KBranch {
			for _, c := range conds(e.X) {
				if x, ok := strings.CutSuffix(c, "<1"); ok && e.Val && strings.HasPrefix(x, "len(") && globs(coll, x[4:len(x)-1]) {
					return dead, ""
				}
				if x, ok := strings.CutSuffix(c, "==nil"); ok && e.Val && globs(coll, x) {
					return dead, ""
				}
			}
		}
		if e.K == KReturn && e.Fr.parent == nil {
			return s, what + ": the elements of " + coll + " are passed over"
		}
		return s, ""
	})
}

// Locks held: typestate of mutexes by canonical name of the mutex expression.
func lockOp(n *Node) (mutex string, acquire, shared, ok bool) {
	if n.E.K != KCall {
		return
	}
	switch n.E.Name {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		return n.E.A[0].String(), true, false, true
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
		return n.E.A[0].String(), false, false, true
	case "sync.RWMutex.RLock":
		return n.E.A[0].String(), true, true, true
	case "sync.RWMutex.RUnlock":
		return n.E.A[0].String(), false, true, true
	}
	return
}

// Held: every event matching p happens while a mutex matching one of the globs is held
// (excl: exclusively).
func (r *R) Held(g *Graph, what string, p Pred, mutex string, excl bool) {
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		if n.E.K == KFork {
			s = ""
		}
		if m, acq, sh, ok := lockOp(n); ok && globs(mutex, m) {
			t := "W"
			if sh {
				t = "R"
			}
			if acq {
				s = s.add(t)
			} else {
				s = s.del(t)
			}
		}
		if p(n) {
			if !s.has("W") && (excl || !s.has("R")) {
				return s, what
			}
		}
		return s, ""
	})
	r.insts += sites(g.Find(p))
}

// in: n happens in a loop of l.
func (l *Loop) in(n *Node) bool {
	for c := range l.sites {
		if l.r.inLoop(c, n) {
			return true
		}
	}
	return false
}
