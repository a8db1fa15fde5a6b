package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock analysis over the SSA form: for every function the sets of locks held at each instruction,
// path by path (a set of states per block), with summaries of the functions called.
//
// A lock is named by an access path relative to the outermost function: parameters $i, fields,
// pointers followed; captured variables are those of the enclosing function.

type lkHeld struct {
	path, key string
	mode      byte // W, R; w, r: released without being held here (held by the caller)
	pos       token.Pos
}

type lkState struct {
	held  []lkHeld // sorted by path
	needs string   // paths which the caller has to hold
	defs  []*ssa.Defer
	known map[string]bool
}

func (s *lkState) key() string {
	var b strings.Builder
	for _, h := range s.held {
		fmt.Fprintf(&b, "%s:%c;", h.path, h.mode)
	}
	b.WriteString("|" + s.needs + "|")
	for _, d := range s.defs {
		fmt.Fprintf(&b, "%p,", d)
	}
	var ks []string
	for k, v := range s.known {
		ks = append(ks, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(ks)
	b.WriteString("|" + strings.Join(ks, ","))
	return b.String()
}

func (s *lkState) clone() *lkState {
	n := &lkState{held: append([]lkHeld{}, s.held...), needs: s.needs, defs: append([]*ssa.Defer{}, s.defs...), known: map[string]bool{}}
	for k, v := range s.known {
		n.known[k] = v
	}
	return n
}

func (s *lkState) find(path string) int {
	for i, h := range s.held {
		if h.path == path {
			return i
		}
	}
	return -1
}

func (s *lkState) addHeld(h lkHeld) {
	s.held = append(s.held, h)
	sort.Slice(s.held, func(i, j int) bool { return s.held[i].path < s.held[j].path })
}

func (s *lkState) delHeld(i int) { s.held = append(s.held[:i:i], s.held[i+1:]...) }

// lkOut: one way a function returns.
type lkOut struct {
	held  []lkHeld
	needs string
	res   map[int]bool // results which are boolean constants
	pos   token.Pos
}

func (o *lkOut) delta() string {
	var p []string
	for _, h := range o.held {
		p = append(p, fmt.Sprintf("%c %s", h.mode, h.path))
	}
	return strings.Join(p, ", ")
}

type lkAcq struct {
	path, key string
	shared    bool
	via       string
}

type lkParamCall struct {
	param int
	held  []lkHeld
}

type lkFn struct {
	fn     *ssa.Function
	outs   []*lkOut
	acq    map[string]lkAcq // everything it may acquire, its callees included
	calls  []lkParamCall
	at     map[ssa.Instruction][]*lkState // states before the instruction
	run    map[ssa.Instruction][]*lkState // states when a deferred call runs
	direct bool                           // contains lock operations
	busy   bool
	states int
}

type lkEdge struct{ from, to string }

type lkAn struct {
	r        *R
	p        *Prog
	fns      map[*ssa.Function]*lkFn
	edges    map[lkEdge][]string
	edgePos  map[lkEdge]token.Pos
	edgeFn   map[lkEdge]string
	report   bool
	reported map[string]bool
	ops      int
	binding  map[*ssa.FreeVar]ssa.Value
	ifaces   map[string]bool
	ctx      map[*ssa.Function][]lkCtx
}

func (p *Prog) locks(r *R) *lkAn {
	a := &lkAn{r: r, p: p, fns: map[*ssa.Function]*lkFn{}, edges: map[lkEdge][]string{}, edgePos: map[lkEdge]token.Pos{}, edgeFn: map[lkEdge]string{}, reported: map[string]bool{}, binding: map[*ssa.FreeVar]ssa.Value{}}
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					for i, bv := range mc.Bindings {
						a.binding[f.FreeVars[i]] = bv
					}
				}
			}
		}
	}
	for _, fn := range p.All {
		a.fns[fn] = &lkFn{fn: fn}
	}
	a.acquires()
	for _, fn := range p.All {
		a.get(fn)
	}
	return a
}

func (a *lkAn) bad(pos token.Pos, fn *ssa.Function, msg string) {
	k := a.p.posStr(pos) + msg
	if a.reported[k] {
		return
	}
	a.reported[k] = true
	a.r.fail(pos, a.p.Name(fn), msg, nil)
}

func outer(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// path names the object a value stands for.
func (a *lkAn) path(v ssa.Value) string { return a.path0(v, 0) }

func (a *lkAn) path0(v ssa.Value, d int) string {
	if d > 40 {
		return "?deep"
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				if x.Parent().Parent() == nil {
					return fmt.Sprintf("$%d", i)
				}
				return fmt.Sprintf("%s$%d", a.p.Name(x.Parent()), i)
			}
		}
	case *ssa.FreeVar:
		if b := a.binding[x]; b != nil {
			return a.path0(b, d+1)
		}
		return "^" + x.Name() + "@" + a.p.Name(x.Parent())
	case *ssa.Global:
		return "global:" + x.Name()
	case *ssa.FieldAddr:
		_, n := fieldVar(x.X.Type(), x.Field)
		return a.path0(x.X, d+1) + "." + n[strings.LastIndex(n, ".")+1:]
	case *ssa.Field:
		_, n := fieldVar(x.X.Type(), x.Field)
		return a.path0(x.X, d+1) + "." + n[strings.LastIndex(n, ".")+1:]
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return a.path0(x.X, d+1)
		}
	case *ssa.IndexAddr:
		if c, ok := x.Index.(*ssa.Const); ok {
			return a.path0(x.X, d+1) + "[" + c.Value.String() + "]"
		}
		return a.path0(x.X, d+1) + "[" + x.Index.Name() + "]"
	case *ssa.ChangeType:
		return a.path0(x.X, d+1)
	case *ssa.MakeInterface:
		return a.path0(x.X, d+1)
	case *ssa.ChangeInterface:
		return a.path0(x.X, d+1)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return a.path0(x.X, d+1)
		}
	case *ssa.Alloc:
		if s := singleStore(x); s != nil {
			return a.path0(s, d+1)
		}
	case *ssa.Phi:
		first := ""
		for _, e := range x.Edges {
			if e == x {
				continue
			}
			if _, ok := e.(*ssa.Phi); ok {
				first = ""
				break
			}
			p := a.path0(e, d+1)
			if first == "" {
				first = p
			} else if first != p {
				first = ""
				break
			}
		}
		if first != "" {
			return first
		}
	}
	if in, ok := v.(ssa.Instruction); ok && in.Parent() != nil {
		return a.p.Name(in.Parent()) + ":" + v.Name()
	}
	return "?" + v.Name()
}

// singleStore: the value of a variable which is assigned once (its address may be captured, but
// nobody assigns it there).
func singleStore(al *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Addr != v {
					return false
				}
				n++
				val = x.Val
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr: // a copy of a struct whose fields are only read
				for _, w := range *x.Referrers() {
					switch w.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v && !visit(x.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !visit(al) || n != 1 {
		return nil
	}
	return val
}

func lockKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		_, n := fieldVar(x.X.Type(), x.Field)
		return n
	case *ssa.Field:
		_, n := fieldVar(x.X.Type(), x.Field)
		return n
	case *ssa.UnOp:
		return lockKey(x.X)
	case *ssa.Global:
		return "global " + x.Name()
	case *ssa.MakeInterface:
		return lockKey(x.X)
	case *ssa.Alloc:
		if s := singleStore(x); s != nil {
			return lockKey(s)
		}
	}
	return typeName(v.Type())
}

// lockCall: the operation of a call of a sync.Mutex, RWMutex or Locker method.
func lockCall(c *ssa.CallCommon) (recv ssa.Value, op string) {
	if c.IsInvoke() {
		if typeName(c.Value.Type()) == "sync.Locker" {
			return c.Value, c.Method.Name()
		}
		return nil, ""
	}
	f, ok := c.Value.(*ssa.Function)
	if !ok || f.Signature.Recv() == nil || len(c.Args) == 0 {
		return nil, ""
	}
	t := f.Signature.Recv().Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return nil, ""
	}
	if n.Obj().Name() != "Mutex" && n.Obj().Name() != "RWMutex" {
		return nil, ""
	}
	switch f.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
		return c.Args[0], f.Name()
	}
	return nil, ""
}

// callee: the function called, when it is known, and the values of its parameters.
func (a *lkAn) callee(c *ssa.CallCommon) (*ssa.Function, []ssa.Value) {
	if c.IsInvoke() {
		return nil, nil
	}
	v := c.Value
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Function:
			f := orig(x)
			if a.fns[f] == nil {
				return nil, nil
			}
			return f, c.Args
		case *ssa.MakeClosure:
			f := orig(x.Fn.(*ssa.Function))
			if a.fns[f] == nil {
				return nil, nil
			}
			return f, c.Args
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, nil
			}
			var al ssa.Value = x.X
			for {
				fv, ok := al.(*ssa.FreeVar)
				if !ok || a.binding[fv] == nil {
					break
				}
				al = a.binding[fv]
			}
			if b, ok := al.(*ssa.Alloc); ok {
				if s := singleStore(b); s != nil {
					v = s
					continue
				}
			}
			return nil, nil
		case *ssa.FreeVar:
			if b := a.binding[x]; b != nil {
				v = b
				continue
			}
			return nil, nil
		default:
			return nil, nil
		}
	}
	return nil, nil
}

// up translates a path of the callee into the caller ("" if it has no meaning there).
func (a *lkAn) up(path string, callee *ssa.Function, args []ssa.Value) string {
	if strings.HasPrefix(path, "*") {
		return path // all the locks of a field
	}
	if !strings.HasPrefix(path, "$") {
		if strings.HasPrefix(path, "global:") || callee.Parent() != nil && !strings.HasPrefix(path, a.p.Name(callee)+"$") {
			return path
		}
		if callee.Parent() == nil {
			return ""
		}
	}
	if callee.Parent() != nil {
		if strings.HasPrefix(path, "$") {
			return path // of the enclosing function
		}
		path = path[len(a.p.Name(callee)):]
		if !strings.HasPrefix(path, "$") {
			return ""
		}
	}
	e := 1
	for e < len(path) && path[e] >= '0' && path[e] <= '9' {
		e++
	}
	i := 0
	fmt.Sscanf(path[1:e], "%d", &i)
	if i >= len(args) {
		return ""
	}
	return a.path(args[i]) + path[e:]
}

// down translates a path of the caller into the callee.
func (a *lkAn) down(path string, callee *ssa.Function, args []ssa.Value) []string {
	var out []string
	if callee.Parent() != nil || strings.HasPrefix(path, "global:") {
		out = append(out, path)
	}
	for i, v := range args {
		ap := a.path(v)
		if path == ap || strings.HasPrefix(path, ap+".") || strings.HasPrefix(path, ap+"[") {
			pre := "$"
			if callee.Parent() != nil {
				pre = a.p.Name(callee) + "$"
			}
			out = append(out, fmt.Sprintf("%s%d%s", pre, i, path[len(ap):]))
		}
	}
	return out
}

// closures passed as arguments of a call.
func (a *lkAn) closureArgs(c *ssa.CallCommon) map[int]*ssa.Function {
	out := map[int]*ssa.Function{}
	for i, v := range c.Args {
		for {
			if ct, ok := v.(*ssa.ChangeType); ok {
				v = ct.X
				continue
			}
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
				continue
			}
			break
		}
		var f *ssa.Function
		switch x := v.(type) {
		case *ssa.Function:
			f = orig(x)
		case *ssa.MakeClosure:
			f = orig(x.Fn.(*ssa.Function))
		}
		if f != nil && a.fns[f] != nil {
			out[i] = f
		}
	}
	return out
}

// boundMethod: the method behind a method value.
func boundMethod(f *ssa.Function) *ssa.Function {
	if !strings.HasPrefix(f.Synthetic, "bound method wrapper") {
		return nil
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil {
					return orig(g)
				}
			}
		}
	}
	return nil
}

func syncExternal(c *ssa.CallCommon) bool {
	f, ok := c.Value.(*ssa.Function)
	if !ok {
		return false
	}
	f = orig(f)
	if f.Pkg == nil && f.Object() == nil {
		return false
	}
	var pk *types.Package
	if f.Object() != nil {
		pk = f.Object().Pkg()
	} else {
		pk = f.Pkg.Pkg
	}
	if pk == nil {
		return false
	}
	switch pk.Path() {
	case "sort", "slices", "maps", "strings", "bytes", "container/heap", "github.com/google/btree":
		return true
	case "sync":
		return f.Name() == "Do" || f.Name() == "Range"
	}
	return false
}

// acquires computes what every function may acquire (a fixpoint over the call graph).
func (a *lkAn) acquires() {
	acq := map[*ssa.Function]map[string]lkAcq{}
	for _, fn := range a.p.All {
		acq[fn] = map[string]lkAcq{}
	}
	ix := a.p.index()
	impl := map[ssa.Instruction][]*ssa.Function{}
	for f, cs := range ix.callers {
		for _, c := range cs {
			if c.Kind == "invoke" {
				impl[c.Ins] = append(impl[c.Ins], f)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range a.p.All {
			m := acq[fn]
			put := func(q lkAcq) {
				k := q.path + "#" + q.key
				if o, ok := m[k]; !ok || o.shared && !q.shared {
					m[k] = q
					changed = true
				}
			}
			merge := func(g *ssa.Function, args []ssa.Value, same bool) {
				for _, q := range acq[g] {
					np := ""
					if args != nil || same {
						np = a.up(q.path, g, args)
					}
					put(lkAcq{np, q.key, q.shared, a.p.Name(g)})
				}
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					var c *ssa.CallCommon
					switch x := ins.(type) {
					case *ssa.Call:
						c = &x.Call
					case *ssa.Defer:
						c = &x.Call
					default:
						continue
					}
					if rv, op := lockCall(c); rv != nil {
						if op == "Lock" || op == "RLock" {
							put(lkAcq{a.path(rv), lockKey(rv), op == "RLock", ""})
						}
						continue
					}
					if g, args := a.callee(c); g != nil {
						merge(g, args, true)
					}
					for _, g := range a.closureArgs(c) {
						h, _ := a.callee(c)
						if h != nil || syncExternal(c) {
							merge(g, nil, g.Parent() != nil)
						}
					}
					for _, g := range impl[ins] {
						if g.Parent() == nil && c.IsInvoke() {
							merge(g, append([]ssa.Value{c.Value}, c.Args...), true)
						}
					}
				}
			}
		}
	}
	for _, fn := range a.p.All {
		a.fns[fn].acq = acq[fn]
	}
}

// get analyses a function.
func (a *lkAn) get(fn *ssa.Function) *lkFn {
	l := a.fns[fn]
	if l == nil {
		return nil
	}
	if l.busy || l.at != nil {
		return l
	}
	l.busy = true
	a.analyse(l)
	l.busy = false
	return l
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// boolKey names a condition; equal names have equal values until one of its operands is computed again.
func boolKey(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			k, neg := boolKey(x.X)
			return k, !neg
		}
	case *ssa.BinOp:
		if x.Op == token.NEQ || x.Op == token.EQL {
			a, b := x.X, x.Y
			if _, ok := a.(*ssa.Const); ok {
				a, b = b, a
			}
			return a.Name() + "==" + b.Name(), x.Op == token.NEQ
		}
		return x.X.Name() + x.Op.String() + x.Y.Name(), false
	}
	return v.Name(), false
}

func (a *lkAn) analyse(l *lkFn) {
	fn := l.fn
	l.at = map[ssa.Instruction][]*lkState{}
	l.run = map[ssa.Instruction][]*lkState{}
	// conditions worth remembering: tested more than once, constant on some path, or results of
	// functions which lock on some of their paths
	uses := map[string]int{}
	cmps := map[*ssa.Phi][]string{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.If:
				k, _ := boolKey(x.Cond)
				uses[k]++
			case *ssa.Phi:
				if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
					uses[x.Name()] += 2
					for _, e := range x.Edges {
						k, _ := boolKey(e)
						uses[k] += 2
					}
				}
			case *ssa.Call:
				if rv, op := lockCall(&x.Call); rv != nil && strings.HasPrefix(op, "Try") {
					uses[x.Name()] += 2
				}
			}
		}
	}
	// a comparison of a phi: the same comparison of the values it may have
	var phiCmp func(x ssa.Value, suffix string, d int)
	phiCmp = func(x ssa.Value, suffix string, d int) {
		ph, ok := x.(*ssa.Phi)
		if !ok || d > 8 {
			return
		}
		uses[ph.Name()+suffix] += 2
		cmps[ph] = append(cmps[ph], suffix)
		for _, e := range ph.Edges {
			uses[e.Name()+suffix] += 2
			phiCmp(e, suffix, d+1)
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.If); ok {
				c := x.Cond
				if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
					c = u.X
				}
				if bo, ok := c.(*ssa.BinOp); ok {
					v := bo.X
					if _, ok := v.(*ssa.Const); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
						v = bo.Y
					}
					k, _ := boolKey(bo)
					if suf := strings.TrimPrefix(k, v.Name()); isConst(bo.X) != isConst(bo.Y) && suf != k {
						phiCmp(v, suf, 0)
					}
				}
			}
		}
	}
	loops := a.lockLoops(fn)
	type item struct {
		b    *ssa.BasicBlock
		s    *lkState
		from *ssa.BasicBlock
	}
	seen := map[string]bool{}
	var q []item
	push := func(b, from *ssa.BasicBlock, s *lkState) {
		s = s.clone()
		if lo := loops[b.Index]; lo != nil {
			a.loopHeader(l, lo, s, from)
		}
		// phis
		idx := -1
		for i, p := range b.Preds {
			if p == from {
				idx = i
			}
		}
		vals := map[string]int{}
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if idx < 0 {
				continue
			}
			e := ph.Edges[idx]
			for _, suf := range cmps[ph] {
				if c, ok := e.(*ssa.Const); ok {
					vals[ph.Name()+suf] = 0
					if strings.HasPrefix(suf, "==") {
						vals[ph.Name()+suf] = b2m("=="+c.Name() == suf) + 1
					}
				} else if v, ok := s.known[e.Name()+suf]; ok {
					vals[ph.Name()+suf] = b2m(v) + 1
				} else {
					vals[ph.Name()+suf] = 0
				}
			}
			if uses[ph.Name()] == 0 {
				continue
			}
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				vals[ph.Name()] = b2m(constant.BoolVal(c.Value)) + 1
			} else if k, neg := boolKey(e); true {
				if v, ok := s.known[k]; ok {
					vals[ph.Name()] = b2m(v != neg) + 1
				} else {
					vals[ph.Name()] = 0
				}
			}
		}
		for k, v := range vals {
			if v == 0 {
				delete(s.known, k)
			} else {
				s.known[k] = v == 2
			}
		}
		k := fmt.Sprintf("%d/%s", b.Index, s.key())
		if !seen[k] {
			seen[k] = true
			q = append(q, item{b, s, from})
		}
	}
	push(fn.Blocks[0], nil, &lkState{known: map[string]bool{}})
	for i := 0; i < len(q); i++ {
		l.states++
		if len(q) > 20000 {
			a.r.fatal("lock analysis: state limit in %s", a.p.Name(fn))
			return
		}
		it := q[i]
		states := []*lkState{it.s}
		for _, ins := range it.b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if _, isPhi := ins.(*ssa.Phi); !isPhi {
					for _, s := range states {
						forget(s, v.Name())
						if kv, ok := s.known["@"+v.Name()]; ok {
							delete(s.known, "@"+v.Name())
							s.known[v.Name()] = kv
						}
					}
				}
			}
			switch x := ins.(type) {
			case *ssa.If:
				k, neg := boolKey(x.Cond)
				for _, s := range states {
					for e := 0; e < 2; e++ {
						val := (e == 0) != neg
						if kv, ok := s.known[k]; ok && kv != val {
							continue
						}
						n := s.clone()
						if uses[k] > 1 {
							n.known[k] = val
						}
						push(it.b.Succs[e], it.b, n)
					}
				}
				continue
			case *ssa.Jump:
				for _, s := range states {
					push(it.b.Succs[0], it.b, s)
				}
				continue
			}
			var next []*lkState
			for _, s := range states {
				l.note(ins, s)
				next = append(next, a.step(l, ins, s, uses)...)
			}
			states = next
		}
	}
	// the ways it returns
	byRes := func() (string, bool) {
		ds := map[string]bool{}
		for _, o := range l.outs {
			ds[o.delta()] = true
		}
		if len(ds) <= 1 {
			return "", true
		}
		nres := fn.Signature.Results().Len()
	res:
		for i := 0; i < nres; i++ {
			m := map[bool]string{}
			for _, o := range l.outs {
				v, ok := o.res[i]
				if !ok {
					continue res
				}
				if d, ok := m[v]; ok && d != o.delta() {
					continue res
				}
				m[v] = o.delta()
			}
			return "", true
		}
		return "inconsistent", false
	}
	if len(l.outs) == 0 {
		return
	}
	root := a.isRoot(fn)
	_, ok := byRes()
	retFunc := false
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if _, f := fn.Signature.Results().At(i).Type().Underlying().(*types.Signature); f {
			retFunc = true
		}
	}
	for _, o := range l.outs {
		if root && o.needs != "" {
			a.bad(o.pos, fn, "unlocks "+o.needs+" which is not held")
		}
		if len(o.held) == 0 || !(root || !ok) || retFunc {
			continue
		}
		for _, h := range o.held {
			if h.mode == 'W' || h.mode == 'R' {
				a.bad(o.pos, fn, "returns with "+h.path+" held, which is locked at "+a.p.posStr(h.pos))
			} else if root || !ok {
				a.bad(o.pos, fn, "unlocks "+h.path+" which is not held")
			}
		}
	}
	if !ok || retFunc || root {
		// reported; the callers see a balanced function
		l.outs = []*lkOut{{}}
	}
}

func forget(s *lkState, name string) {
	for k := range s.known {
		if k == name {
			delete(s.known, k)
			continue
		}
		if i := strings.Index(k, name); i >= 0 {
			for _, part := range strings.FieldsFunc(k, func(r rune) bool { return strings.ContainsRune("=<>!", r) }) {
				if part == name {
					delete(s.known, k)
				}
			}
		}
	}
}

func (l *lkFn) note(ins ssa.Instruction, s *lkState) { l.noteAt(l.at, ins, s) }

func (l *lkFn) noteAt(at map[ssa.Instruction][]*lkState, ins ssa.Instruction, s *lkState) {
	for _, o := range at[ins] {
		if len(o.held) == len(s.held) {
			same := true
			for i := range o.held {
				if o.held[i].path != s.held[i].path || o.held[i].mode != s.held[i].mode {
					same = false
				}
			}
			if same {
				return
			}
		}
	}
	at[ins] = append(at[ins], s.clone())
}

// isRoot: called from outside of what is analysed (exported, a goroutine, a callback, an interface method).
func (a *lkAn) isRoot(fn *ssa.Function) bool {
	if fn.Object() != nil && fn.Object().Exported() || fn.Name() == "main" || strings.HasPrefix(fn.Name(), "init") {
		return true
	}
	cs := a.p.index().callers[fn]
	n := 0
	for _, c := range cs {
		switch c.Kind {
		case "go", "ref", "invoke":
			return true
		case "closure":
			for _, u := range *c.Ins.(*ssa.MakeClosure).Referrers() {
				switch x := u.(type) {
				case *ssa.Call:
					if x.Call.Value != c.Ins.(*ssa.MakeClosure) {
						return true
					}
					n++
				case *ssa.Defer:
					if x.Call.Value != c.Ins.(*ssa.MakeClosure) {
						return true
					}
					n++
				case *ssa.Store:
					al, ok := x.Addr.(*ssa.Alloc)
					if !ok || singleStore(al) == nil {
						return true
					}
					n++
				case *ssa.DebugRef:
				default:
					return true
				}
			}
		default:
			n++
		}
	}
	return n == 0
}

func (a *lkAn) step(l *lkFn, ins ssa.Instruction, s *lkState, uses map[string]int) []*lkState {
	fn := l.fn
	switch x := ins.(type) {
	case *ssa.Defer:
		s = s.clone()
		for _, d := range s.defs {
			if d == x {
				return []*lkState{s} // in a loop: once is enough
			}
		}
		s.defs = append(s.defs, x)
		return []*lkState{s}
	case *ssa.RunDefers:
		states := []*lkState{s}
		ds := s.defs
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*lkState
			for _, t := range states {
				l.noteAt(l.run, ds[i], t)
				next = append(next, a.call(l, ds[i], &ds[i].Call, t, "", uses)...)
			}
			states = next
		}
		for _, t := range states {
			t.defs = nil
		}
		return states
	case *ssa.Call:
		return a.call(l, x, &x.Call, s, x.Name(), uses)
	case *ssa.Return:
		o := &lkOut{held: s.held, needs: s.needs, res: map[int]bool{}, pos: x.Pos()}
		if !o.pos.IsValid() {
			o.pos = fn.Pos()
			for i := len(x.Block().Instrs) - 1; i >= 0; i-- {
				if p := x.Block().Instrs[i].Pos(); p.IsValid() {
					o.pos = p
					break
				}
			}
		}
		for i, v := range x.Results {
			if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				o.res[i] = constant.BoolVal(c.Value)
			} else if k, neg := boolKey(v); true {
				if kv, ok := s.known[k]; ok {
					o.res[i] = kv != neg
				}
			}
		}
		for _, e := range l.outs {
			if e.delta() == o.delta() && e.needs == o.needs && fmt.Sprint(e.res) == fmt.Sprint(o.res) {
				return nil
			}
		}
		l.outs = append(l.outs, o)
		return nil
	case *ssa.Panic:
		return nil
	}
	return []*lkState{s}
}

func (a *lkAn) lock(l *lkFn, pos token.Pos, s *lkState, path, key string, shared bool) {
	i := s.find(path)
	m := byte('W')
	if shared {
		m = 'R'
	}
	if i >= 0 {
		switch h := s.held[i]; h.mode {
		case 'w', 'r':
			if (h.mode == 'r') == shared {
				s.delHeld(i)
				return
			}
			s.delHeld(i)
		default:
			a.bad(pos, l.fn, "locks "+path+" which is held already, since "+a.p.posStr(h.pos))
			return
		}
	}
	for _, h := range s.held {
		a.edge(l.fn, h, key, path, pos)
	}
	s.addHeld(lkHeld{path, key, m, pos})
}

func (a *lkAn) edge(fn *ssa.Function, h lkHeld, key, path string, pos token.Pos) {
	if h.mode == 'w' || h.mode == 'r' {
		return
	}
	e := lkEdge{h.key, key}
	if _, ok := a.edgePos[e]; !ok {
		a.edgePos[e], a.edgeFn[e] = pos, a.p.Name(fn)
	}
	d := a.p.posStr(pos) + " " + a.p.Name(fn) + ": " + path + " while holding " + h.path
	for _, o := range a.edges[e] {
		if o == d {
			return
		}
	}
	a.edges[e] = append(a.edges[e], d)
}

func (a *lkAn) unlock(l *lkFn, pos token.Pos, s *lkState, path, key string, shared bool) {
	i := s.find(path)
	m := byte('W')
	if shared {
		m = 'R'
	}
	if i >= 0 {
		h := s.held[i]
		if h.mode == m {
			s.delHeld(i)
			return
		}
		if h.mode == 'W' || h.mode == 'R' {
			a.bad(pos, l.fn, fmt.Sprintf("unlocks %s with the wrong method (locked at %s)", path, a.p.posStr(h.pos)))
			s.delHeld(i)
			return
		}
		a.bad(pos, l.fn, "unlocks "+path+" twice")
		return
	}
	if strings.HasPrefix(path, "$") || strings.Contains(path, "^") || l.fn.Parent() != nil || strings.HasPrefix(path, "global:") {
		s.addHeld(lkHeld{path, key, m + 'a' - 'A', pos})
		if !strings.Contains(s.needs, path+" ") {
			s.needs += path + " "
		}
		return
	}
	if s.known["released "+key] {
		return
	}
	a.bad(pos, l.fn, "unlocks "+path+" which is not held")
}

func (a *lkAn) call(l *lkFn, ins ssa.Instruction, c *ssa.CallCommon, s *lkState, name string, uses map[string]int) []*lkState {
	s = s.clone()
	pos := ins.Pos()
	if rv, op := lockCall(c); rv != nil {
		l.direct = true
		a.ops++
		path, key := a.path(rv), lockKey(rv)
		switch op {
		case "Lock", "RLock":
			a.lock(l, pos, s, path, key, op == "RLock")
		case "Unlock", "RUnlock":
			a.unlock(l, pos, s, path, key, op == "RUnlock")
		case "TryLock", "TryRLock":
			t := s.clone()
			if t.find(path) < 0 {
				m := byte('W')
				if op == "TryRLock" {
					m = 'R'
				}
				t.addHeld(lkHeld{path, key, m, pos})
			}
			if name != "" {
				s.known[name], t.known[name] = false, true
			}
			return []*lkState{s, t}
		}
		return []*lkState{s}
	}
	g, args := a.callee(c)
	// calls of a parameter
	if g == nil && !c.IsInvoke() {
		v := c.Value
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		if al, ok := v.(*ssa.UnOp); ok {
			if b, ok := al.X.(*ssa.Alloc); ok {
				if sv := singleStore(b); sv != nil {
					v = sv
				}
			}
		}
		if p, ok := v.(*ssa.Parameter); ok {
			for i, q := range l.fn.Params {
				if q == p {
					l.calls = append(l.calls, lkParamCall{i, append([]lkHeld{}, s.held...)})
				}
			}
		}
	}
	// what it may acquire while locks are held here
	check := func(f *ssa.Function, args []ssa.Value, held []lkHeld, same bool) {
		for _, q := range a.fns[f].acq {
			np := ""
			if args != nil || same {
				np = a.up(q.path, f, args)
			}
			for _, h := range held {
				if h.mode == 'w' || h.mode == 'r' {
					continue
				}
				if np != "" && np == h.path {
					a.bad(pos, l.fn, fmt.Sprintf("calls %s, which locks %s: it is held already, since %s", a.p.Name(f), h.path, a.p.posStr(h.pos)))
				} else {
					a.edge(l.fn, h, q.key, np+" in "+a.p.Name(f), pos)
				}
			}
		}
	}
	var outs []*lkOut
	if g != nil {
		gl := a.get(g)
		needs := ""
		if !gl.busy {
			outs = gl.outs
			for _, o := range outs {
				needs += o.needs
			}
		}
		if needs == "" {
			check(g, args, s.held, true)
		}
	}
	if g != nil || syncExternal(c) {
		for i, f := range a.closureArgs(c) {
			a.get(f)
			held := append([]lkHeld{}, s.held...)
			if g != nil {
				for _, pc := range a.fns[g].calls {
					if pc.param == i {
						for _, h := range pc.held {
							if np := a.up(h.path, g, args); np != "" {
								held = append(held, lkHeld{np, h.key, h.mode, h.pos})
							}
						}
					}
				}
			}
			check(f, nil, held, f.Parent() != nil)
		}
	}
	if c.IsInvoke() {
		for f, cs := range a.p.index().callers {
			for _, k := range cs {
				if k.Ins == ins && f.Parent() == nil && a.fns[f] != nil {
					check(f, append([]ssa.Value{c.Value}, c.Args...), s.held, true)
				}
			}
		}
	}
	trivial := true
	for _, o := range outs {
		if len(o.held) > 0 || o.needs != "" {
			trivial = false
		}
	}
	if trivial {
		return []*lkState{s}
	}
	var next []*lkState
	seen := map[string]bool{}
	for _, o := range outs {
		t := s.clone()
		for _, n := range strings.Fields(o.needs) {
			np := a.up(n, g, args)
			if np != "" && t.find(np) < 0 && !strings.Contains(t.needs, np+" ") {
				if released(t, o, n) {
					continue
				}
				if strings.HasPrefix(np, "$") || strings.HasPrefix(np, "*") || l.fn.Parent() != nil {
					t.needs += np + " "
				} else {
					a.bad(pos, l.fn, "calls "+a.p.Name(g)+" which unlocks "+np+": it is not held")
				}
			}
		}
		for _, h := range o.held {
			np := a.up(h.path, g, args)
			if np == "" {
				if h.mode == 'W' || h.mode == 'R' {
					a.bad(h.pos, g, "returns with "+h.path+" held, which nobody else can release")
				}
				continue
			}
			switch h.mode {
			case 'w', 'r':
				if strings.Contains(t.needs, np+" ") && t.find(np) < 0 {
					t.addHeld(lkHeld{np, h.key, h.mode, h.pos})
				} else if t.find(np) >= 0 {
					a.unlock(l, pos, t, np, h.key, h.mode == 'r')
				}
			default:
				a.lock(l, pos, t, np, h.key, h.mode == 'R')
			}
		}
		if name != "" && len(o.res) > 0 {
			if g.Signature.Results().Len() == 1 {
				t.known[name] = o.res[0]
			} else if call, ok := ins.(*ssa.Call); ok {
				for _, u := range *call.Referrers() {
					if ex, ok := u.(*ssa.Extract); ok {
						if v, ok := o.res[ex.Index]; ok {
							t.known["@"+ex.Name()] = v
						}
					}
				}
			}
		}
		if k := t.key(); !seen[k] {
			seen[k] = true
			next = append(next, t)
		}
	}
	return next
}

// lkLoop: the lock operations of a loop on objects which change from one iteration to the next.
type lkLoop struct {
	body map[int]bool
	ops  []lkLoopOp
}

type lkLoopOp struct {
	key    string
	lock   bool
	shared bool
	pos    token.Pos
}

func (lo *lkLoop) has(key string, lock bool) *lkLoopOp {
	for i, o := range lo.ops {
		if o.key == key && o.lock == lock {
			return &lo.ops[i]
		}
	}
	return nil
}

func (a *lkAn) lockLoops(fn *ssa.Function) map[int]*lkLoop {
	out := map[int]*lkLoop{}
	for h, body := range a.p.Info(fn).loopOf {
		lo := &lkLoop{body: body}
		for _, b := range fn.Blocks {
			if !body[b.Index] {
				continue
			}
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok {
					if g, args := a.callee(&c.Call); g != nil && g != fn {
						if gl := a.get(g); !gl.busy {
							for _, o := range gl.outs {
								for _, h := range o.held {
									if np := a.up(h.path, g, args); np != "" && a.varies(np, fn, body) {
										lo.ops = append(lo.ops, lkLoopOp{h.key, h.mode == 'W' || h.mode == 'R', h.mode == 'R' || h.mode == 'r', c.Pos()})
									}
								}
							}
						}
					}
					if rv, op := lockCall(&c.Call); rv != nil && a.varies(a.path(rv), fn, body) {
						lo.ops = append(lo.ops, lkLoopOp{lockKey(rv), strings.HasSuffix(op, "Lock") && !strings.HasSuffix(op, "nlock"), strings.Contains(op, "RL") || strings.Contains(op, "RU"), c.Pos()})
					}
				}
			}
		}
		out[h] = lo
	}
	return out
}

// varies: the path depends on a value computed in the loop.
func (a *lkAn) varies(path string, fn *ssa.Function, body map[int]bool) bool {
	for _, b := range fn.Blocks {
		if !body[b.Index] {
			continue
		}
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Name() == "" {
				continue
			}
			full := a.p.Name(fn) + ":" + v.Name()
			if path == full || strings.HasPrefix(path, full+".") || strings.HasPrefix(path, full+"[") || strings.Contains(path, "["+v.Name()+"]") {
				return true
			}
		}
	}
	return false
}

// loopHeader: locks of several objects may be taken by one loop and released by another one.
func (a *lkAn) loopHeader(l *lkFn, lo *lkLoop, s *lkState, from *ssa.BasicBlock) {
	if from == nil || !lo.body[from.Index] {
		for _, op := range lo.ops {
			agg := "*" + op.key
			m := byte('W')
			if op.shared {
				m = 'R'
			}
			switch {
			case lo.has(op.key, !op.lock) != nil:
			case op.lock && s.find(agg) < 0:
				s.addHeld(lkHeld{agg, op.key, m, op.pos})
			case !op.lock:
				s.known["released "+op.key] = true
				if k := s.find(agg); k >= 0 {
					if s.held[k].mode != m {
						a.bad(op.pos, l.fn, "the locks "+op.key+" are unlocked with the wrong method")
					}
					s.delHeld(k)
				} else if !strings.Contains(s.needs, agg+" ") {
					s.addHeld(lkHeld{agg, op.key, m + 'a' - 'A', op.pos})
					s.needs += agg + " "
				}
			}
		}
	}
	for i := 0; i < len(s.held); i++ {
		h := s.held[i]
		if h.mode != 'W' && h.mode != 'R' {
			continue
		}
		if from != nil && lo.body[from.Index] {
			if a.varies(h.path, l.fn, lo.body) {
				if lo.has(h.key, false) != nil || lo.has(h.key, true) == nil {
					a.bad(h.pos, l.fn, "the loop goes on with "+h.path+" held")
				}
				s.delHeld(i)
				i = -1
			}
		}
	}
}

// lkSet: locks held (path -> mode).
type lkSet map[string]byte

func meet(x, y lkSet) lkSet {
	out := lkSet{}
	for k, m := range x {
		if n, ok := y[k]; ok {
			if n == 'R' {
				m = 'R'
			}
			out[k] = m
		}
	}
	return out
}

// heldAt: the locks held in all of the states, given those held when the function is entered.
func heldAt(states []*lkState, entry lkSet) lkSet {
	var out lkSet
	for _, s := range states {
		m := lkSet{}
		for k, v := range entry {
			m[k] = v
		}
		for _, h := range s.held {
			switch h.mode {
			case 'W', 'R':
				m[h.path] = h.mode
			default:
				delete(m, h.path)
			}
		}
		if out == nil {
			out = m
		} else {
			out = meet(out, m)
		}
	}
	return out
}

type lkCtx struct {
	fn     *ssa.Function // the caller; nil: unknown, nothing is held
	states []*lkState
	args   []ssa.Value
	more   []lkHeld // held by the function which calls its parameter, in terms of the caller
	clo    bool     // passed as an argument: its own parameters are unknown
}

// entries computes the locks held by all callers when a function is entered. Functions which
// nothing calls or refers to are left out.
func (a *lkAn) entries() map[*ssa.Function]lkSet {
	ctx := map[*ssa.Function][]lkCtx{}
	add := func(f *ssa.Function, c lkCtx) { ctx[f] = append(ctx[f], c) }
	for _, fn := range a.p.All {
		l := a.get(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var c *ssa.CallCommon
				st := l.at[ins]
				switch x := ins.(type) {
				case *ssa.Call:
					c = &x.Call
				case *ssa.Defer:
					c = &x.Call
					st = l.run[ins]
				case *ssa.Go:
					c = &x.Call
					if g, _ := a.callee(c); g != nil {
						add(g, lkCtx{})
					}
					for _, f := range a.closureArgs(c) {
						add(f, lkCtx{})
					}
					continue
				case *ssa.MakeClosure:
					f := orig(x.Fn.(*ssa.Function))
					if m := boundMethod(f); m != nil && a.fns[m] != nil {
						for _, u := range *x.Referrers() {
							if y, ok := u.(*ssa.Call); ok && (y.Call.Value == x || syncExternal(&y.Call)) {
								if len(l.at[y]) > 0 {
									add(m, lkCtx{fn: fn, states: l.at[y], args: x.Bindings})
								}
							} else if _, ok := u.(*ssa.DebugRef); !ok {
								add(m, lkCtx{})
							}
						}
						continue
					}
					for _, u := range *x.Referrers() {
						switch y := u.(type) {
						case *ssa.Call, *ssa.Defer, *ssa.Go, *ssa.DebugRef:
						case *ssa.Store:
							al, ok := y.Addr.(*ssa.Alloc)
							if !ok || singleStore(al) == nil {
								add(f, lkCtx{})
							}
						default:
							add(f, lkCtx{})
						}
					}
					continue
				default:
					for _, op := range ins.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok {
							add(orig(f), lkCtx{})
						}
					}
					continue
				}
				if len(st) == 0 {
					continue // never runs
				}
				g, args := a.callee(c)
				if g != nil {
					add(g, lkCtx{fn: fn, states: st, args: args})
				}
				if c.IsInvoke() {
					for f, cs := range a.p.index().callers {
						for _, k := range cs {
							if k.Ins == ins && f.Parent() == nil && a.fns[f] != nil {
								add(f, lkCtx{fn: fn, states: st, args: append([]ssa.Value{c.Value}, c.Args...)})
							}
						}
					}
				}
				for i, f := range a.closureArgs(c) {
					switch {
					case g != nil:
						found := false
						for _, pc := range a.fns[g].calls {
							if pc.param != i {
								continue
							}
							found = true
							var more []lkHeld
							for _, h := range pc.held {
								if np := a.up(h.path, g, args); np != "" {
									more = append(more, lkHeld{np, h.key, h.mode, h.pos})
								}
							}
							add(f, lkCtx{fn: fn, states: st, more: more, clo: true})
						}
						if !found {
							add(f, lkCtx{})
						}
					case syncExternal(c):
						add(f, lkCtx{fn: fn, states: st, clo: true})
					default:
						add(f, lkCtx{})
					}
				}
			}
		}
	}
	a.ctx = ctx
	entry := map[*ssa.Function]lkSet{}
	for _, fn := range a.p.All {
		if a.entryPoint(fn) {
			entry[fn] = lkSet{}
		}
	}
	for changed := true; changed; {
		changed = false
		for f, cs := range ctx {
			if a.fns[f] == nil {
				continue
			}
			var e lkSet
			for _, c := range cs {
				m := lkSet{}
				if c.fn != nil {
					ce, ok := entry[c.fn]
					if !ok {
						continue // not reached yet, or dead
					}
					held := heldAt(c.states, ce)
					for _, h := range c.more {
						if h.mode == 'W' || h.mode == 'R' {
							held[h.path] = h.mode
						}
					}
					for k, v := range held {
						if c.clo {
							if f.Parent() != nil || strings.HasPrefix(k, "global:") {
								m[k] = v
							}
							continue
						}
						for _, d := range a.down(k, f, c.args) {
							m[d] = v
						}
					}
				}
				if e == nil {
					e = m
				} else {
					e = meet(e, m)
				}
			}
			if e == nil {
				continue
			}
			if o, ok := entry[f]; ok {
				e = meet(o, e)
				if len(e) == len(o) {
					same := true
					for k := range o {
						same = same && o[k] == e[k]
					}
					if same {
						continue
					}
				}
			}
			entry[f] = e
			changed = true
		}
	}
	return entry
}

// entryPoint: called by the application or the runtime.
func (a *lkAn) entryPoint(fn *ssa.Function) bool {
	if fn.Name() == "main" || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		return true
	}
	if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	if rv := fn.Signature.Recv(); rv != nil {
		t := rv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
			// reached over an interface, or as a value; or not at all
			return !a.onlyCalled(fn)
		}
	}
	return true
}

// onlyCalled: a method of an unexported type whose values are never converted to an interface
// (with this method, or without methods).
func (a *lkAn) onlyCalled(fn *ssa.Function) bool {
	tname := func(t types.Type) string {
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		return typeName(t)
	}
	if a.ifaces == nil {
		a.ifaces = map[string]bool{}
		for _, f := range a.p.All {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					mi, ok := ins.(*ssa.MakeInterface)
					if !ok {
						continue
					}
					n := tname(mi.X.Type())
					it, _ := mi.Type().Underlying().(*types.Interface)
					if it == nil || it.NumMethods() == 0 {
						a.ifaces[n+".*"] = true
						continue
					}
					for i := 0; i < it.NumMethods(); i++ {
						a.ifaces[n+"."+it.Method(i).Name()] = true
					}
				}
			}
		}
	}
	n := tname(fn.Signature.Recv().Type())
	return !a.ifaces[n+".*"] && !a.ifaces[n+"."+fn.Name()]
}

// fresh: the object was allocated in this function, nobody else knows it yet.
func fresh(v ssa.Value) bool {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			v = x.X
		case *ssa.Alloc:
			s := singleStore(x)
			if s == nil {
				return true
			}
			v = s
		default:
			return false
		}
	}
	return false
}

// freshParam: a parameter for which all callers pass an object they have just allocated (a part
// of a constructor).
func (a *lkAn) freshParam(v ssa.Value, seen map[ssa.Value]bool) bool {
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if al, ok := u.X.(*ssa.Alloc); ok && singleStore(al) != nil {
				v = singleStore(al)
				continue
			}
		}
		break
	}
	p, ok := v.(*ssa.Parameter)
	if !ok || seen[v] || a.entryPoint(p.Parent()) || len(a.ctx[p.Parent()]) == 0 {
		return false
	}
	seen[v] = true
	i := 0
	for j, q := range p.Parent().Params {
		if q == p {
			i = j
		}
	}
	for _, c := range a.ctx[p.Parent()] {
		if c.fn == nil || c.clo || i >= len(c.args) || !fresh(c.args[i]) && !a.freshParam(c.args[i], seen) {
			return false
		}
	}
	return true
}

type lkAccess struct {
	fn    *ssa.Function
	ins   ssa.Instruction
	base  string
	write bool
	what  string
}

// accesses of a field: loads, stores and what is done with maps and slices loaded from it.
func (a *lkAn) accesses(field string) []lkAccess {
	var out []lkAccess
	for _, fn := range a.p.All {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					if f, ok := ins.(*ssa.Field); ok {
						if _, n := fieldVar(f.X.Type(), f.Field); n == field {
							out = append(out, lkAccess{fn, ins, a.path(f.X), false, "reads"})
						}
					}
					continue
				}
				if _, n := fieldVar(fa.X.Type(), fa.Field); n != field || fresh(fa.X) || a.freshParam(fa.X, map[ssa.Value]bool{}) {
					continue
				}
				base := a.path(fa.X)
				var uses func(v ssa.Value, addr bool, seen map[ssa.Value]bool)
				uses = func(v ssa.Value, addr bool, seen map[ssa.Value]bool) {
					if seen[v] || v.Referrers() == nil {
						return
					}
					seen[v] = true
					for _, u := range *v.Referrers() {
						put := func(w bool, what string) { out = append(out, lkAccess{u.Parent(), u, base, w, what}) }
						switch x := u.(type) {
						case *ssa.Store:
							if x.Addr == v {
								put(true, "assigns")
							}
						case *ssa.UnOp:
							if x.Op == token.MUL && addr {
								put(false, "reads")
								switch x.Type().Underlying().(type) {
								case *types.Map, *types.Slice:
									uses(x, false, seen)
								}
							}
						case *ssa.FieldAddr:
							if addr {
								uses(x, true, seen)
							}
						case *ssa.IndexAddr:
							if x.X == v {
								uses(x, true, seen)
							}
						case *ssa.Lookup:
							if x.X == v {
								put(false, "looks up")
							}
						case *ssa.MapUpdate:
							if x.Map == v {
								put(true, "updates")
							}
						case *ssa.Range:
							uses(x, false, seen)
						case *ssa.Next:
							put(false, "iterates over")
						case *ssa.Call:
							if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
								switch bi.Name() {
								case "delete", "clear":
									put(true, "deletes from")
								case "len", "cap", "copy", "append":
									put(bi.Name() == "copy" && len(x.Call.Args) > 0 && x.Call.Args[0] == v, bi.Name()+" of")
								}
							} else if addr {
								put(true, "passes the address of")
							} else {
								put(false, "passes")
							}
						case *ssa.Defer:
							if addr {
								put(true, "passes the address of")
							}
						}
					}
				}
				uses(fa, true, map[ssa.Value]bool{})
			}
		}
	}
	return out
}

// released: the path n, which the callee unlocks, is one of the locks a loop is releasing.
func released(t *lkState, o *lkOut, n string) bool {
	for _, h := range o.held {
		if h.path == n && t.known["released "+h.key] {
			return true
		}
	}
	return false
}
