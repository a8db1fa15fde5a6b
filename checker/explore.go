package main

// A path-sensitive, interprocedural dataflow analysis over virtually inlined
// SSA ("property simulation"): abstract states carry canonical values for the
// registers which are live, the fields of locally created objects and the
// branch conditions which are tested more than once. Two paths which reach a
// program point in the same abstract state are merged, so the result is a
// finite exploded control-flow graph whose nodes are events. No code is run
// and no solver is used.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind string

const (
	KStart  Kind = "start"
	KJoin   Kind = "join"
	KCall   Kind = "call" // opaque call (outside of the repository, interface, recursion)
	KDyn    Kind = "dyn"  // call of an unknown function value
	KEnter  Kind = "enter"
	KLeave  Kind = "leave"
	KSend   Kind = "send"
	KRecv   Kind = "recv"
	KSel    Kind = "select"
	KClose  Kind = "close"
	KStore  Kind = "store"
	KLoad   Kind = "load"
	KMapSet Kind = "mapset"
	KMapDel Kind = "mapdel"
	KMapGet Kind = "mapget"
	KGo     Kind = "go"
	KDefer  Kind = "defer"
	KBranch Kind = "branch"
	KReturn Kind = "return"
	KPanic  Kind = "panic"
	KFork   Kind = "fork"
	KFEnd   Kind = "forkend"
	KAlloc  Kind = "alloc"
)

type Alt struct {
	Send  bool
	Ch    *X
	Field string
}

type Event struct {
	K     Kind
	Name  string
	A     []*X // arguments, receiver first; composites resolved
	Raw   []*X
	X     *X // channel, base object, branch condition
	V     *X // value stored, sent, returned
	Val   bool
	Field string
	Alts  []Alt
	Block bool // blocking select / operation
	Pos   token.Pos
	Fr    *Frame
	R     *X
	Ins   ssa.Instruction
	Rec   bool
	Again bool // branch on a register whose value an earlier branch decided
}

type Node struct {
	ID    int
	E     *Event
	Succ  []*Node
	Facts map[*X]bool
}

type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	site   ssa.Instruction
	kind   string // root, call, defer, iter, once, fork
	looped bool
	fnName string
	depth  int
}

func (f *Frame) stack(p *Prog) string {
	var s []string
	for g := f; g != nil; g = g.parent {
		n := p.Name(g.fn)
		if g.site != nil {
			n += "@" + p.posStr(g.site.Pos())
		}
		s = append(s, n)
	}
	return strings.Join(s, " <- ")
}

type slot struct {
	fr *Frame
	v  ssa.Value
}

type dcall struct {
	ins *ssa.Defer
	fn  *X
	inv string // interface method
	rcv *X
	A   []*X
}

type State struct {
	fr     *Frame
	blk    *ssa.BasicBlock
	pc     int
	env    map[slot]*X
	mem    map[*X]*X
	facts  map[*X]bool
	defers map[*Frame][]dcall
	last   *Node
	iter   bool // resumed after a callback iteration
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[slot]*X, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.mem = make(map[*X]*X, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.facts = make(map[*X]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.defers = make(map[*Frame][]dcall, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = append([]dcall(nil), v...)
	}
	return &n
}

type Opts struct {
	NoInline   func(name string) bool
	Fork       bool // explore goroutine bodies and asynchronous callbacks from their creation point
	Max        int
	KeepConv   bool
	NoLoads    bool
	InlinePool bool
	InitFacts  func(ex *Explorer, st *State)
}

type Graph struct {
	P      *Prog
	Root   *ssa.Function
	Start  *Node
	Nodes  []*Node
	Frames int
	Ex     *Explorer
	Funcs  map[string]bool // functions inlined
}

type Explorer struct {
	p      *Prog
	in     *Interner
	o      Opts
	frames map[string]*Frame
	nfr    int
	nodes  []*Node
	memo   map[string]*Node
	work   []*State
	rel    map[string]map[string]bool // relevance key -> sites
	pass   int
	err    error
	slots  map[slot]int
	decs   map[*X]slot
	cur    *State
	funcs  map[string]bool
}

type limitErr struct{ s string }

// Explore builds the exploded graph of root.
func (p *Prog) Explore(root *ssa.Function, o Opts) (g *Graph, err error) {
	if o.Max == 0 {
		o.Max = 120000
	}
	rel := map[string]map[string]bool{}
	for pass := 1; pass <= 2; pass++ {
		ex := &Explorer{p: p, in: newInterner(), o: o, frames: map[string]*Frame{}, memo: map[string]*Node{}, rel: rel, pass: pass, slots: map[slot]int{}, decs: map[*X]slot{}, funcs: map[string]bool{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if l, ok := r.(limitErr); ok {
						err = fmt.Errorf("%s: %s", p.Name(root), l.s)
						return
					}
					panic(r)
				}
			}()
			st := &State{env: map[slot]*X{}, mem: map[*X]*X{}, facts: map[*X]bool{}, defers: map[*Frame][]dcall{}}
			fr := ex.frame(root, nil, nil, "root")
			st.fr = fr
			start := ex.node(&Event{K: KStart, Name: p.Name(root), Fr: fr, Pos: root.Pos()}, nil)
			st.last = start
			for i, prm := range root.Params {
				st.env[slot{fr, prm}] = ex.in.mk(X{Op: "param", S: fmt.Sprintf("$%d", i), T: prm.Type()})
			}
			for _, fv := range root.FreeVars {
				st.env[slot{fr, fv}] = ex.in.mk(X{Op: "free", S: "^" + fv.Name(), T: fv.Type()})
			}
			if o.InitFacts != nil {
				o.InitFacts(ex, st)
			}
			ex.funcs[p.Name(root)] = true
			ex.enterBlock(st, nil, root.Blocks[0])
			for len(ex.work) > 0 {
				s := ex.work[len(ex.work)-1]
				ex.work = ex.work[:len(ex.work)-1]
				ex.run(s)
			}
			g = &Graph{P: p, Root: root, Start: start, Nodes: ex.nodes, Frames: ex.nfr, Ex: ex, Funcs: ex.funcs}
		}()
		if err != nil {
			return nil, err
		}
	}
	return g, nil
}

func (ex *Explorer) frame(fn *ssa.Function, parent *Frame, site ssa.Instruction, kind string) *Frame {
	k := kind + "|"
	if parent != nil {
		k += fmt.Sprintf("%d|%d|", parent.id, ex.p.Info(parent.fn).index[site])
	}
	k += fmt.Sprintf("%p", fn)
	if f, ok := ex.frames[k]; ok {
		return f
	}
	ex.nfr++
	f := &Frame{id: ex.nfr, fn: fn, parent: parent, site: site, kind: kind, fnName: ex.p.Name(fn)}
	if parent != nil {
		f.depth = parent.depth + 1
		f.looped = parent.looped || kind == "iter" || ex.p.Info(parent.fn).inLoop[site.Block().Index]
	}
	ex.frames[k] = f
	return f
}

func (ex *Explorer) node(e *Event, last *Node) *Node {
	n := &Node{ID: len(ex.nodes), E: e}
	ex.nodes = append(ex.nodes, n)
	if len(ex.nodes) > ex.o.Max {
		panic(limitErr{fmt.Sprintf("more than %d abstract events", ex.o.Max)})
	}
	if last != nil {
		last.Succ = append(last.Succ, n)
	}
	return n
}

func (ex *Explorer) emit(st *State, e *Event) *Event {
	if e.Fr == nil {
		e.Fr = st.fr
	}
	n := ex.node(e, st.last)
	n.Facts = st.facts
	st.last = n
	return e
}

func (ex *Explorer) uid(fr *Frame, ins ssa.Instruction) string {
	return fmt.Sprintf("%d.%d", fr.id, ex.p.Info(fr.fn).index[ins])
}

// freshen: the instruction is executed again; values of earlier executions are aged.
func (ex *Explorer) freshen(st *State, uid string, keep slot) {
	if !st.fr.looped && !ex.p.Info(st.fr.fn).inLoop[st.blk.Index] {
		return
	}
	memo := map[*X]*X{}
	for k, v := range st.env {
		if k != keep && v.hasFresh(uid) {
			st.env[k] = ex.in.aged(v, uid, memo)
		}
	}
	for f := range st.facts {
		if f.hasFresh(uid) {
			ex.cowFacts(st)
			delete(st.facts, f)
		}
	}
	for k, v := range st.mem {
		if k.hasFresh(uid) {
			delete(st.mem, k)
			k = ex.in.aged(k, uid, memo)
			st.mem[k] = v
		}
		if v.hasFresh(uid) {
			st.mem[k] = ex.in.aged(v, uid, memo)
		}
	}
	for fr, ds := range st.defers {
		for i := range ds {
			for j, a := range ds[i].A {
				if a.hasFresh(uid) {
					ds[i].A[j] = ex.in.aged(a, uid, memo)
				}
			}
		}
		st.defers[fr] = ds
	}
}

// facts maps are shared with nodes; copy before writing
func (ex *Explorer) cowFacts(st *State) {
	n := make(map[*X]bool, len(st.facts)+1)
	for k, v := range st.facts {
		n[k] = v
	}
	st.facts = n
}

func (ex *Explorer) setFact(st *State, atom *X, val bool) {
	if ex.pass == 1 {
		return
	}
	if len(ex.rel[relKey(atom)]) < 2 {
		return
	}
	ex.cowFacts(st)
	st.facts[atom] = val
}

func relKey(atom *X) string {
	switch atom.Op {
	case "eq", "lt":
		return atom.A[0].String()
	}
	return atom.String()
}

// known looks an atom up in the facts (with eq/lt implication).
func known(facts map[*X]bool, atom *X) (bool, bool) {
	if v, ok := facts[atom]; ok {
		return v, true
	}
	if atom.Op == "lt" || atom.Op == "eq" {
		c := atom.A[1]
		for f, v := range facts {
			if (f.Op != "lt" && f.Op != "eq") || f.A[0] != atom.A[0] {
				continue
			}
			fc := f.A[1]
			if f.Op == "eq" && v && fc.Op == "const" && c.Op == "const" {
				if atom.Op == "eq" {
					return fc == c, true
				}
				if fc.isNum() && c.isNum() {
					return fc.Int.Cmp(c.Int) < 0, true
				}
			}
			if fc.Int == nil || c.Int == nil {
				continue
			}
			if f.Op == "lt" && v { // a < fc
				if atom.Op == "lt" && fc.Int.Cmp(c.Int) <= 0 {
					return true, true
				}
				if atom.Op == "eq" && c.Int.Cmp(fc.Int) >= 0 {
					return false, true
				}
			}
			if f.Op == "lt" && !v { // a >= fc
				if atom.Op == "lt" && c.Int.Cmp(fc.Int) <= 0 {
					return false, true
				}
				if atom.Op == "eq" && c.Int.Cmp(fc.Int) < 0 {
					return false, true
				}
			}
		}
	}
	return false, false
}

// ---------------------------------------------------------------- evaluation

func (ex *Explorer) constX(c *ssa.Const) *X {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return ex.in.mk(X{Op: "zero", S: "zero:" + typeName(c.Type()), T: c.Type()})
		}
		if tp, ok := types.Unalias(c.Type()).(*types.TypeParam); ok {
			return ex.in.mk(X{Op: "zero", S: "zero:" + tp.Obj().Name(), T: c.Type()})
		}
		return ex.in.nilX()
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return ex.in.boolean(constant.BoolVal(c.Value))
	case constant.Int:
		if v, ok := new(big.Int).SetString(c.Value.ExactString(), 10); ok {
			return ex.in.intConst(v)
		}
	case constant.String:
		return ex.in.mk(X{Op: "const", S: fmt.Sprintf("%q", constant.StringVal(c.Value)), UID: "str"})
	}
	if isIntType(c.Type()) {
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			if b, ok := new(big.Int).SetString(v.ExactString(), 10); ok {
				return ex.in.intConst(b)
			}
		}
	}
	return ex.in.mk(X{Op: "const", S: c.Value.ExactString()})
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok2 := types.Unalias(t).(*types.TypeParam); ok2 {
			_ = tp
			return false
		}
		return false
	}
	return b.Info()&types.IsInteger != 0
}

func fieldVar(t types.Type, i int) (*types.Var, string) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		if tp, isTP := types.Unalias(t).(*types.TypeParam); isTP {
			s, ok = tp.Constraint().Underlying().(*types.Struct)
		}
		if !ok {
			return nil, "?"
		}
	}
	v := s.Field(i).Origin()
	return v, typeName(t) + "." + shown(v)
}

func (ex *Explorer) field(base *X, t types.Type, i int) *X {
	v, n := fieldVar(t, i)
	if base.Op == "obj" {
		if f := base.F(shown(v)); f != nil {
			return f
		}
		base = base.A[0]
	}
	var ft types.Type
	if v != nil {
		ft = v.Type()
	}
	return ex.in.mk(X{Op: "field", S: n, A: []*X{base}, T: ft, Var: v})
}

func (ex *Explorer) eval(st *State, fr *Frame, v ssa.Value) *X {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constX(x)
	case *ssa.Global:
		return ex.in.mk(X{Op: "global", S: pkgShort(x.Pkg.Pkg) + shownGlobal(x), T: x.Type()})
	case *ssa.Function:
		return ex.in.mk(X{Op: "func", S: ex.p.Name(x), T: x.Type(), Fn: orig(x)})
	case *ssa.Builtin:
		return ex.in.mk(X{Op: "func", S: "builtin." + x.Name()})
	}
	if isBound(v) {
		if r, ok := st.env[slot{fr, v}]; ok {
			return r
		}
		return ex.symbolic(st, fr, v)
	}
	return ex.evalWith(v, func(w ssa.Value) *X { return ex.eval(st, fr, w) }, fr, st)
}

// symbolic: value of a register which has not been executed in this state
// (static rendering of loop steps).
func (ex *Explorer) symbolic(st *State, fr *Frame, v ssa.Value) *X {
	uid := ""
	if ins, ok := v.(ssa.Instruction); ok {
		uid = ex.uid(fr, ins)
	}
	return ex.in.mk(X{Op: "unk", S: v.Name(), UID: uid, T: v.Type()})
}

func (ex *Explorer) evalWith(v ssa.Value, ev func(ssa.Value) *X, fr *Frame, st *State) *X {
	in := ex.in
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return ex.field(ev(x.X), x.X.Type(), x.Field)
	case *ssa.Field:
		return ex.field(ev(x.X), x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return ex.indexX(ev(x.X), ev(x.Index))
	case *ssa.Index:
		return ex.indexX(ev(x.X), ev(x.Index))
	case *ssa.Convert:
		r := ev(x.X)
		if ex.o.KeepConv && types.TypeString(x.Type(), nil) != types.TypeString(x.X.Type(), nil) && r.Int == nil {
			return in.mk(X{Op: "conv", S: typeName(x.Type()), A: []*X{r}, T: x.Type()})
		}
		return r
	case *ssa.ChangeType:
		return ev(x.X)
	case *ssa.MultiConvert:
		return ev(x.X)
	case *ssa.ChangeInterface:
		return ev(x.X)
	case *ssa.MakeInterface:
		return ev(x.X)
	case *ssa.SliceToArrayPointer:
		return ev(x.X)
	case *ssa.Range:
		return ev(x.X)
	case *ssa.Extract:
		t := ev(x.Tuple)
		if t.Op == "tuple" {
			return t.A[x.Index]
		}
		return in.mk(X{Op: "res", S: fmt.Sprint(x.Index), A: []*X{t}, T: x.Type()})
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			return in.not(ev(x.X))
		case token.SUB:
			l := in.toLin(ev(x.X))
			return in.fromLin(linear{t: map[*X]int64{}, c: new(big.Int)}.add(l, -1))
		}
		return in.mk(X{Op: "un", S: x.Op.String(), A: []*X{ev(x.X)}, T: x.Type()})
	case *ssa.BinOp:
		return ex.binop(x.Op, ev(x.X), ev(x.Y), x.X.Type())
	}
	return ex.symbolic(st, fr, v)
}

func (ex *Explorer) binop(op token.Token, a, b *X, t types.Type) *X {
	in := ex.in
	isInt := isIntType(t)
	switch op {
	case token.EQL:
		return in.eq(a, b, isInt)
	case token.NEQ:
		return in.not(in.eq(a, b, isInt))
	case token.LSS:
		return in.lt(a, b, isInt)
	case token.GTR:
		return in.lt(b, a, isInt)
	case token.LEQ:
		return in.not(in.lt(b, a, isInt))
	case token.GEQ:
		return in.not(in.lt(a, b, isInt))
	}
	if isInt {
		la, lb := in.toLin(a), in.toLin(b)
		switch op {
		case token.ADD:
			return in.fromLin(la.add(lb, 1))
		case token.SUB:
			return in.fromLin(la.add(lb, -1))
		case token.MUL:
			if len(la.t) == 0 && la.c.IsInt64() {
				return in.fromLin(linear{t: map[*X]int64{}, c: new(big.Int)}.add(lb, la.c.Int64()))
			}
			if len(lb.t) == 0 && lb.c.IsInt64() {
				return in.fromLin(linear{t: map[*X]int64{}, c: new(big.Int)}.add(la, lb.c.Int64()))
			}
			if a.String() > b.String() {
				a, b = b, a
			}
		case token.AND, token.OR, token.XOR:
			if a.String() > b.String() {
				a, b = b, a
			}
		}
		if a.isNum() && b.isNum() {
			r := new(big.Int)
			switch op {
			case token.QUO:
				if b.Int.Sign() != 0 {
					return in.intConst(r.Quo(a.Int, b.Int))
				}
			case token.REM:
				if b.Int.Sign() != 0 {
					return in.intConst(r.Rem(a.Int, b.Int))
				}
			case token.SHL:
				if b.Int.IsInt64() && b.Int.Int64() < 512 {
					return in.intConst(r.Lsh(a.Int, uint(b.Int.Int64())))
				}
			case token.SHR:
				if b.Int.IsInt64() && b.Int.Int64() < 512 {
					return in.intConst(r.Rsh(a.Int, uint(b.Int.Int64())))
				}
			case token.AND:
				return in.intConst(r.And(a.Int, b.Int))
			case token.OR:
				return in.intConst(r.Or(a.Int, b.Int))
			case token.XOR:
				return in.intConst(r.Xor(a.Int, b.Int))
			}
		}
	}
	return in.mk(X{Op: "bin", S: op.String(), A: []*X{a, b}, T: t})
}

// indexX: element of a slice/array; loop indices which run over 0,1,2,... become elem().
func (ex *Explorer) indexX(b, i *X) *X {
	in := ex.in
	if i.Op == "mu" && i.UID != "" && len(i.A) == 2 && i.A[0].isNum() && i.A[0].Int.Sign() == 0 && i.A[1].String() == "@+1" {
		return in.mk(X{Op: "elem", A: []*X{b}, UID: i.UID})
	}
	if b.Op == "list" && i.isNum() && i.Int.IsInt64() && i.Int.Int64() < int64(len(b.A)) && i.Int.Sign() >= 0 {
		return b.A[i.Int.Int64()]
	}
	if b.Op == "slice" && i.isNum() { // x[lo:hi][i]
		if lo := b.A[1]; lo.Op == "const" && lo.S == "" && !lo.isNum() {
			return ex.indexX(b.A[0], i)
		} else if lo.isNum() {
			return ex.indexX(b.A[0], in.intConst(new(big.Int).Add(lo.Int, i.Int)))
		}
	}
	return in.mk(X{Op: "index", A: []*X{b, i}})
}

// ---------------------------------------------------------------- memory of local objects

func memRoot(a *X) *X {
	for a != nil {
		switch a.Op {
		case "field":
			a = a.A[0]
		case "index":
			if a.A[1].Int == nil {
				return nil
			}
			a = a.A[0]
		case "new":
			return a
		case "old":
			if a.A[0].Op == "new" {
				return a
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

func (ex *Explorer) load(st *State, addr *X) *X {
	v, ok := st.mem[addr]
	sub := ex.fieldCells(st, addr)
	if ok || len(sub) > 0 {
		if len(sub) > 0 {
			return ex.mkObj(st, addr, v, sub)
		}
		return v
	}
	if memRoot(addr) == nil {
		return addr
	}
	if addr.Op == "field" {
		if w := ex.wholeOf(st, addr.A[0]); w != nil {
			return ex.project(w, addr)
		}
		return addr
	}
	if addr.Op == "new" && addr.T != nil {
		if z := ex.zero(addr.T); z != nil {
			return z
		}
	}
	return addr
}

func (ex *Explorer) wholeOf(st *State, b *X) *X {
	if v, ok := st.mem[b]; ok {
		return v
	}
	if b.Op == "field" {
		if w := ex.wholeOf(st, b.A[0]); w != nil {
			return ex.project(w, b)
		}
	}
	return nil
}

// project selects the field of addr out of the value w of its base.
func (ex *Explorer) project(w, addr *X) *X {
	if w.Op == "obj" {
		if f := w.F(addr.S[strings.LastIndex(addr.S, ".")+1:]); f != nil {
			return f
		}
		w = w.A[0]
	}
	if w.Op == "zero" {
		if addr.T != nil {
			if z := ex.zero(addr.T); z != nil {
				return z
			}
		}
		return addr
	}
	return ex.in.mk(X{Op: "field", S: addr.S, A: []*X{w}, T: addr.T, Var: addr.Var})
}

func (ex *Explorer) zero(t types.Type) *X {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ex.in.boolean(false)
		case u.Info()&types.IsInteger != 0:
			return ex.in.num(0)
		case u.Info()&types.IsString != 0:
			return ex.in.mk(X{Op: "const", S: `""`, UID: "str"})
		case u.Kind() == types.UnsafePointer:
			return ex.in.nilX()
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		if _, tp := types.Unalias(t).(*types.TypeParam); tp {
			return ex.in.mk(X{Op: "zero", S: "zero:" + typeName(t)})
		}
		return ex.in.nilX()
	}
	return nil
}

func (ex *Explorer) fieldCells(st *State, addr *X) []*X {
	var out []*X
	for k := range st.mem {
		if k.Op == "field" && k.A[0] == addr {
			out = append(out, k)
		}
	}
	// nested cells: field(field(addr)) without an own cell for the middle
	for k := range st.mem {
		if k.Op == "field" && k.A[0].Op == "field" && k.A[0].A[0] == addr {
			m := k.A[0]
			dup := false
			for _, o := range out {
				if o == m {
					dup = true
				}
			}
			if !dup {
				out = append(out, m)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].S < out[j].S })
	return out
}

func (ex *Explorer) mkObj(st *State, addr, whole *X, cells []*X) *X {
	in := ex.in
	kv := map[string]*X{}
	name := ""
	base := addr
	if addr.Op == "new" || addr.Op == "old" {
		name = addr.bare().S
	}
	if whole != nil {
		if whole.Op == "obj" {
			base = whole.A[0]
			name = whole.S
			for _, k := range whole.A[1:] {
				kv[k.S] = k.A[0]
			}
		} else if whole.Op != "zero" {
			base = whole
		}
	}
	for _, c := range cells {
		n := c.S[strings.LastIndex(c.S, ".")+1:]
		kv[n] = ex.load(st, c)
		name = c.S[:strings.LastIndex(c.S, ".")]
	}
	var ns []string
	for n := range kv {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	A := []*X{base}
	for _, n := range ns {
		A = append(A, in.mk(X{Op: "kv", S: n, A: []*X{kv[n]}}))
	}
	return in.mk(X{Op: "obj", S: name, A: A, T: addr.T})
}

func hasPrefix(a, pre *X) bool {
	for a != nil {
		if a == pre {
			return true
		}
		if a.Op != "field" && a.Op != "index" {
			return false
		}
		a = a.A[0]
	}
	return false
}

func (ex *Explorer) store(st *State, addr, v *X, ins ssa.Instruction) {
	// facts about the same field are no longer valid
	if fn := addr.FieldName(); fn != "" || addr.Op == "index" || addr.Op == "elem" {
		ex.killField(st, addr)
	}
	if memRoot(addr) != nil {
		old := st.mem[addr]
		for k := range st.mem {
			if k != addr && hasPrefix(k, addr) {
				delete(st.mem, k)
			}
		}
		looped := st.fr.looped || ex.p.Info(st.fr.fn).inLoop[st.blk.Index]
		if looped && (old != nil && old != v && v.Contains(old) && old.Op != "const" && v.Op != "tuple" || v.depth() > 14 || (old != nil && old.isNum() && v.isNum() && old != v)) {
			u := ex.uid(st.fr, ins)
			v = ex.in.mk(X{Op: "acc", S: typeNameOf(v), UID: u, T: v.T})
		}
		st.mem[addr] = v
	}
	switch {
	case v.Op == "const" || v.isNil():
		if b, ok := v.isBool(); ok {
			ex.setFact(st, addr, b)
		} else if v.isNum() {
			ex.setFact(st, ex.in.mk(X{Op: "eq", A: []*X{addr, v}}), true)
		} else {
			ex.setFact(st, ex.in.mk(X{Op: "eq", A: []*X{addr, v}}), true)
		}
	case v.nonNil():
		ex.setFact(st, ex.in.mk(X{Op: "eq", A: []*X{addr, ex.in.nilX()}}), false)
	}
}

func typeNameOf(x *X) string {
	if x.T != nil {
		return typeName(x.T)
	}
	return ""
}

func (ex *Explorer) killField(st *State, addr *X) {
	name := addr.FieldName()
	var kill []*X
	for f := range st.facts {
		if f.Any(func(y *X) bool {
			return y == addr || (y.Op == "field" && name != "" && y.S == name) || (y.Op == "global" && y.S == name && name != "") || (addr.Op == "index" || addr.Op == "elem") && (y.Op == "index" || y.Op == "elem")
		}) {
			kill = append(kill, f)
		}
	}
	if len(kill) > 0 {
		ex.cowFacts(st)
		for _, k := range kill {
			delete(st.facts, k)
		}
	}
}

// resolve renders composites with the contents they have in this state.
func (ex *Explorer) resolve(st *State, x *X, d int) *X {
	if x == nil || d > 4 {
		return x
	}
	switch x.Op {
	case "new":
		w, has := st.mem[x]
		cells := ex.fieldCells(st, x)
		if len(cells) == 0 && !has {
			return x
		}
		if has && len(cells) == 0 && w.Op != "obj" {
			return ex.in.mk(X{Op: "ref", S: "", A: []*X{ex.resolve(st, w, d+1)}, T: x.T})
		}
		o := ex.mkObj(st, x, w, cells)
		return ex.resolveArgs(st, o, d)
	case "obj", "kv", "list", "append", "tuple", "old", "as", "struct", "slice", "spread":
		return ex.resolveArgs(st, x, d)
	}
	return x
}

func (ex *Explorer) resolveArgs(st *State, x *X, d int) *X {
	n := *x
	n.A = make([]*X, len(x.A))
	ch := false
	for i, a := range x.A {
		if x.Op == "obj" && i == 0 {
			n.A[0] = a
			continue
		}
		n.A[i] = ex.resolve(st, a, d+1)
		if n.A[i] != a {
			ch = true
		}
	}
	if !ch {
		return x
	}
	n.str, n.uids, n.id = "", nil, 0
	return ex.in.mk(n)
}
