package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var bigZero = new(big.Int)

// liveAfter: bound values which may still be used after instruction pc of blk.
func (ex *Explorer) liveAfter(fr *Frame, blk *ssa.BasicBlock, pc int) map[ssa.Value]bool {
	in := ex.p.Info(fr.fn)
	out := map[ssa.Value]bool{}
	for _, s := range blk.Succs {
		for x := range in.live[s.Index] {
			out[x] = true
		}
		for _, ins := range s.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range phi.Edges {
				if s.Preds[i] == blk {
					for x := range ex.depsOf(fr.fn, e) {
						out[x] = true
					}
				}
			}
		}
	}
	for i := len(blk.Instrs) - 1; i >= pc; i-- {
		ins := blk.Instrs[i]
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				for x := range ex.depsOf(fr.fn, *op) {
					out[x] = true
				}
			}
		}
	}
	return out
}

func (ex *Explorer) depsOf(fn *ssa.Function, v ssa.Value) map[ssa.Value]bool {
	in := ex.p.Info(fn)
	if d, ok := in.deps[v]; ok {
		return d
	}
	d := map[ssa.Value]bool{}
	if isBound(v) {
		d[v] = true
	} else if ins, ok := v.(ssa.Instruction); ok {
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				for x := range ex.depsOf(fn, *op) {
					d[x] = true
				}
			}
		}
	}
	in.deps[v] = d
	return d
}

func (ex *Explorer) prune(st *State, fr *Frame, live map[ssa.Value]bool) {
	onStack := map[*Frame]bool{}
	for f := st.fr; f != nil; f = f.parent {
		onStack[f] = true
	}
	for k := range st.env {
		if !onStack[k.fr] || (k.fr == fr && !live[k.v]) {
			delete(st.env, k)
		}
	}
	for f := range st.defers {
		if !onStack[f] || len(st.defers[f]) == 0 {
			delete(st.defers, f)
		}
	}
}

// gc drops memory and facts which cannot be mentioned again.
func (ex *Explorer) gc(st *State) {
	if len(st.mem) > 0 {
		reach := map[*X]bool{}
		var visit func(x *X)
		visit = func(x *X) {
			if reach[x] {
				return
			}
			reach[x] = true
			for _, a := range x.A {
				visit(a)
			}
		}
		for _, v := range st.env {
			visit(v)
		}
		for _, ds := range st.defers {
			for _, d := range ds {
				for _, a := range d.A {
					visit(a)
				}
				if d.fn != nil {
					visit(d.fn)
				}
				if d.rcv != nil {
					visit(d.rcv)
				}
			}
		}
		for ch := true; ch; {
			ch = false
			for k, v := range st.mem {
				if r := memRoot(k); r != nil && reach[r] && !reach[v] {
					visit(v)
					ch = true
				}
			}
		}
		for k := range st.mem {
			if r := memRoot(k); r == nil || !reach[r] {
				delete(st.mem, k)
			}
		}
	}
	if len(st.facts) > 0 {
		uids := map[string]bool{}
		for _, v := range st.env {
			for _, u := range v.uids {
				uids[u] = true
			}
		}
		for _, v := range st.mem {
			for _, u := range v.uids {
				uids[u] = true
			}
		}
		var kill []*X
		for f := range st.facts {
			for _, u := range f.uids {
				if !uids[u] && u != "bool" && u != "str" {
					kill = append(kill, f)
					break
				}
			}
		}
		if len(kill) > 0 {
			ex.cowFacts(st)
			for _, k := range kill {
				delete(st.facts, k)
			}
		}
	}
}

func (ex *Explorer) slotID(s slot) int {
	if id, ok := ex.slots[s]; ok {
		return id
	}
	id := len(ex.slots) + 1
	ex.slots[s] = id
	return id
}

func (ex *Explorer) key(st *State, tag string) string {
	var parts []string
	for k, v := range st.env {
		parts = append(parts, fmt.Sprintf("e%d=%d", ex.slotID(k), v.id))
	}
	for k, v := range st.mem {
		parts = append(parts, fmt.Sprintf("m%d=%d", k.id, v.id))
	}
	for k, v := range st.facts {
		parts = append(parts, fmt.Sprintf("f%d=%v", k.id, v))
	}
	for f, ds := range st.defers {
		s := fmt.Sprintf("d%d=", f.id)
		for _, d := range ds {
			s += fmt.Sprintf("%p(", d.ins)
			for _, a := range d.A {
				s += fmt.Sprintf("%d,", a.id)
			}
			s += ")"
		}
		parts = append(parts, s)
	}
	sort.Strings(parts)
	return fmt.Sprintf("%s|%d|%d|%d|", tag, st.fr.id, st.blk.Index, st.pc) + strings.Join(parts, ";")
}

// join merges st with an equal state; false if it was already explored.
func (ex *Explorer) join(st *State, tag string) bool {
	ex.cur = st
	ex.gc(st)
	k := ex.key(st, tag)
	if n, ok := ex.memo[k]; ok {
		st.last.Succ = append(st.last.Succ, n)
		return false
	}
	n := ex.node(&Event{K: KJoin, Fr: st.fr, Name: tag}, st.last)
	n.Facts = st.facts
	ex.memo[k] = n
	st.last = n
	return true
}

func (ex *Explorer) enterBlock(st *State, from, to *ssa.BasicBlock) {
	ex.cur = st
	fr := st.fr
	info := ex.p.Info(fr.fn)
	if from != nil {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		back := info.back[[2]int{from.Index, to.Index}]
		type bind struct {
			s  slot
			v  *X
			mu bool
		}
		var binds []bind
		var muUIDs []string
		few := ex.fewTrips(st, fr, to, pi, back)
		for _, ins := range to.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			s := slot{fr, phi}
			if info.mu[phi] && !few {
				uid := ex.uid(fr, phi)
				muUIDs = append(muUIDs, uid)
				if back {
					continue
				}
				binds = append(binds, bind{s, ex.muX(st, fr, phi, pi, uid), true})
				continue
			}
			binds = append(binds, bind{s, ex.eval(st, fr, phi.Edges[pi]), false})
		}
		// values of the previous iteration are aged
		for _, u := range muUIDs {
			for i, b := range binds {
				if !b.mu && b.v.hasFresh(u) {
					binds[i].v = ex.in.aged(b.v, u, map[*X]*X{})
				}
			}
		}
		for _, b := range binds {
			st.env[b.s] = b.v
		}
		for _, u := range muUIDs {
			keep := slot{}
			for _, ins := range to.Instrs {
				if phi, ok := ins.(*ssa.Phi); ok && ex.uid(fr, phi) == u {
					keep = slot{fr, phi}
				}
			}
			st.blk = to
			ex.freshen(st, u, keep)
		}
	}
	st.blk = to
	st.pc = 0
	for st.pc < len(to.Instrs) {
		if _, ok := to.Instrs[st.pc].(*ssa.Phi); !ok {
			break
		}
		st.pc++
	}
	ex.prune(st, fr, info.live[to.Index])
	type carry struct {
		x   *X
		val bool
	}
	var carried []carry
	if from != nil && ex.pass > 1 {
		for _, ins := range to.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if info.nuses[phi] == 0 {
				continue
			}
			for i, p := range to.Preds {
				if p != from {
					continue
				}
				w, pol := regOf(phi.Edges[i])
				if val, ok := st.facts[ex.decX(slot{fr, w})]; ok {
					carried = append(carried, carry{ex.decX(slot{fr, phi}), val == pol})
				}
				break
			}
		}
	}
	ex.undecide(st, fr, from, to)
	if from == nil {
		ex.passArgs(st, fr)
	}
	for _, c := range carried {
		ex.cowFacts(st)
		st.facts[c.x] = c.val
	}
	if ex.join(st, "") {
		ex.work = append(ex.work, st)
	}
}

// fewTrips: the loop at to counts from a constant to a constant at most one
// step away, and is unrolled.
func (ex *Explorer) fewTrips(st *State, fr *Frame, to *ssa.BasicBlock, pi int, back bool) bool {
	info := ex.p.Info(fr.fn)
	iff, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	phi, off := (*ssa.Phi)(nil), int64(0)
	switch x := cmp.X.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		if p, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
				phi, off = p, c.Int64()
			}
		}
	}
	if phi == nil || phi.Block() != to || !info.mu[phi] {
		return false
	}
	if back {
		old := st.env[slot{fr, phi}]
		return old != nil && old.Op == "const"
	}
	lim, ok := int64(0), false
	if v := lenOf(cmp.Y); v != nil && cmp.Y.(*ssa.Call).Block() == to {
		// evaluated in the loop header
		l := ex.eval(st, fr, v)
		if l.Op != "list" || strings.Contains(l.String(), "...") {
			return false
		}
		lim = int64(len(l.A))
	} else if lim, ok = constInt(ex.eval(st, fr, cmp.Y)); !ok {
		return false
	}
	beg, ok := constInt(ex.eval(st, fr, phi.Edges[pi]))
	if !ok || lim-(beg+off) > 1 {
		return false
	}
	for i, e := range phi.Edges {
		if i == pi {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) {
			return false
		}
		if c, ok := b.Y.(*ssa.Const); !ok || c.Value == nil || c.Int64() < 1 {
			return false
		}
	}
	return true
}

func constInt(x *X) (int64, bool) {
	if x == nil || x.Op != "const" || x.UID == "str" {
		return 0, false
	}
	n, err := strconv.ParseInt(x.S, 10, 64)
	return n, err == nil
}

// muX renders an inductive loop variable.
func (ex *Explorer) muX(st *State, fr *Frame, phi *ssa.Phi, entry int, uid string) *X {
	in := ex.in
	info := ex.p.Info(fr.fn)
	init := ex.eval(st, fr, phi.Edges[entry])
	self := in.mk(X{Op: "self", UID: uid})
	var steps []*X
	memo := map[ssa.Value]*X{}
	var ev func(v ssa.Value) *X
	depth := 0
	ev = func(v ssa.Value) *X {
		if v == ssa.Value(phi) {
			return self
		}
		if r, ok := memo[v]; ok {
			if r == nil {
				return ex.symbolic(st, fr, v)
			}
			return r
		}
		memo[v] = nil
		depth++
		defer func() { depth-- }()
		var r *X
		switch y := v.(type) {
		case *ssa.Phi:
			// a merge inside of the loop: all alternatives
			var alts []*X
			for _, e := range y.Edges {
				a := ev(e)
				dup := false
				for _, o := range alts {
					dup = dup || o == a
				}
				if !dup {
					alts = append(alts, a)
				}
			}
			sort.Slice(alts, func(i, j int) bool { return alts[i].String() < alts[j].String() })
			if len(alts) == 1 {
				r = alts[0]
			} else {
				r = in.mk(X{Op: "alt", A: alts})
			}
		case *ssa.UnOp:
			if y.Op == token.MUL {
				r = ev(y.X)
			} else if y.Op == token.ARROW {
				r = in.mk(X{Op: "recv", A: []*X{ev(y.X)}})
			}
		case *ssa.Call:
			name, as := "dyn", []*X{}
			if y.Call.IsInvoke() {
				name = objName(y.Call.Method)
				as = append(as, ev(y.Call.Value))
			} else if sf := y.Call.StaticCallee(); sf != nil {
				name = ex.p.Name(sf)
			} else if b, ok := y.Call.Value.(*ssa.Builtin); ok {
				name = b.Name()
			}
			for _, a := range y.Call.Args {
				as = append(as, ev(a))
			}
			_, bi := y.Call.Value.(*ssa.Builtin)
			if name == "append" {
				r = in.mk(X{Op: "append", A: as})
			} else if bi && (name == "len" || name == "cap") {
				r = in.mk(X{Op: name, A: []*X{as[0].bare()}, T: types.Typ[types.Int]})
			} else {
				r = in.mk(X{Op: "call", S: name, A: as})
			}
		case *ssa.Next:
			rng, uid := ev(y.Iter), ex.uid(fr, y)
			r = in.mk(X{Op: "tuple", A: []*X{
				in.mk(X{Op: "next", A: []*X{rng}, UID: uid}),
				in.mk(X{Op: "key", A: []*X{rng}, UID: uid}),
				in.mk(X{Op: "elem", A: []*X{rng}, UID: uid})}})
		case *ssa.Slice:
			r = in.mk(X{Op: "slice", A: []*X{ev(y.X), in.opt(y.Low, ev), in.opt(y.High, ev)}})
		case *ssa.Lookup:
			r = in.mk(X{Op: "lookup", A: []*X{ev(y.X), ev(y.Index)}})
		case *ssa.TypeAssert:
			r = ev(y.X)
		default:
			if isBound(v) {
				if e, ok := st.env[slot{fr, v}]; ok {
					r = e
				} else {
					r = ex.symbolic(st, fr, v)
				}
			} else if _, ok := v.(ssa.Instruction); ok {
				r = ex.evalWith(v, ev, fr, st)
			} else {
				r = ex.eval(st, fr, v)
			}
		}
		if r == nil {
			r = ex.symbolic(st, fr, v)
		}
		memo[v] = r
		return r
	}
	for i, e := range phi.Edges {
		if info.back[[2]int{phi.Block().Preds[i].Index, phi.Block().Index}] {
			s := ev(e)
			dup := false
			for _, o := range steps {
				dup = dup || o == s
			}
			if !dup {
				steps = append(steps, s)
			}
		}
	}
	sort.Slice(steps, func(i, j int) bool { return steps[i].String() < steps[j].String() })
	// integer induction: factor the constant part of the start value out
	if len(steps) == 1 && isIntType(phi.Type()) {
		l := in.toLin(steps[0])
		if len(l.t) == 1 && l.t[self] == 1 && l.c.Sign() != 0 {
			li := in.toLin(init)
			c := new(big.Int).Set(li.c)
			li.c = new(big.Int)
			base := in.fromLin(li)
			m := in.mk(X{Op: "mu", UID: uid, A: []*X{base, steps[0]}, T: phi.Type()})
			ml := in.toLin(m)
			ml.c = c
			return in.fromLin(ml)
		}
	}
	return in.mk(X{Op: "mu", UID: uid, A: append([]*X{init}, steps...), T: phi.Type()})
}

func (in *Interner) opt(v ssa.Value, ev func(ssa.Value) *X) *X {
	if v == nil {
		return in.mk(X{Op: "const", S: ""})
	}
	return ev(v)
}

// ---------------------------------------------------------------- execution of instructions

func (ex *Explorer) run(st *State) {
	ex.cur = st
	for {
		if st.pc >= len(st.blk.Instrs) {
			return
		}
		if !ex.step(st) {
			return
		}
	}
}

func (ex *Explorer) bind(st *State, v ssa.Value, x *X) { st.env[slot{st.fr, v}] = x }

// step executes one instruction; false when the state was handed over.
func (ex *Explorer) step(st *State) bool {
	fr := st.fr
	ins := st.blk.Instrs[st.pc]
	in := ex.in
	ev := func(v ssa.Value) *X { return ex.eval(st, fr, v) }
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		uid := ex.uid(fr, x)
		ex.freshen(st, uid, slot{})
		et := x.Type().Underlying().(*types.Pointer).Elem()
		n := in.mk(X{Op: "new", S: typeName(et), UID: uid, T: et})
		for k := range st.mem {
			if hasPrefix(k, n) {
				delete(st.mem, k)
			}
		}
		ex.bind(st, x, n)
		if x.Heap {
			ex.emit(st, &Event{K: KAlloc, Name: typeName(et), X: n, Pos: x.Pos(), Ins: ins})
		}
	case *ssa.MakeChan:
		uid := ex.uid(fr, x)
		ex.freshen(st, uid, slot{})
		r := in.mk(X{Op: "make", S: typeName(x.Type()), A: []*X{ev(x.Size)}, UID: uid, T: x.Type()})
		ex.bind(st, x, r)
		ex.emit(st, &Event{K: KAlloc, Name: typeName(x.Type()), X: r, Pos: x.Pos(), Ins: ins})
	case *ssa.MakeMap:
		uid := ex.uid(fr, x)
		ex.freshen(st, uid, slot{})
		r := in.mk(X{Op: "make", S: typeName(x.Type()), UID: uid, T: x.Type()})
		ex.bind(st, x, r)
		ex.emit(st, &Event{K: KAlloc, Name: typeName(x.Type()), X: r, Pos: x.Pos(), Ins: ins})
	case *ssa.MakeSlice:
		uid := ex.uid(fr, x)
		ex.freshen(st, uid, slot{})
		r := in.mk(X{Op: "make", S: typeName(x.Type()), A: []*X{ev(x.Len), ev(x.Cap)}, UID: uid, T: x.Type()})
		ex.bind(st, x, r)
		ex.emit(st, &Event{K: KAlloc, Name: typeName(x.Type()), X: r, Pos: x.Pos(), Ins: ins})
	case *ssa.MakeClosure:
		var bs []*X
		for _, b := range x.Bindings {
			bs = append(bs, ev(b))
		}
		fn := orig(x.Fn.(*ssa.Function))
		ex.bind(st, x, in.mk(X{Op: "closure", S: ex.p.Name(fn), A: bs, T: x.Type(), Fn: fn}))
	case *ssa.Slice:
		b := ev(x.X)
		if b.Op == "new" && strings.HasPrefix(b.S, "[]") && x.Low == nil && x.High == nil {
			// varargs or slice literal: collect the elements
			if at, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if arr, ok := at.Elem().Underlying().(*types.Array); ok && arr.Len() < 64 {
					var items []*X
					for i := int64(0); i < arr.Len(); i++ {
						a := in.mk(X{Op: "index", A: []*X{b, in.num(i)}})
						v := ex.load(st, a)
						if v == a {
							if w, has := st.mem[b]; has && w.Op == "list" && int(i) < len(w.A) {
								v = w.A[i]
							}
						}
						items = append(items, v)
					}
					ex.bind(st, x, in.mk(X{Op: "list", A: items, T: x.Type()}))
					break
				}
			}
		}
		if x.Low == nil && x.High == nil && x.Max == nil {
			ex.bind(st, x, b)
			break
		}
		ex.bind(st, x, in.mk(X{Op: "slice", A: []*X{b, in.opt(x.Low, ev), in.opt(x.High, ev)}, T: x.Type()}))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			addr := ev(x.X)
			if !ex.o.NoLoads && (addr.Op == "field" || addr.Op == "global") {
				ex.emit(st, &Event{K: KLoad, Field: addr.FieldName(), X: addr, Pos: x.Pos(), Ins: ins})
			}
			ex.bind(st, x, ex.load(st, addr))
			if localBool(x.X) {
				ex.passes(st, fr, x.X, fr, x)
			}
		} else if x.Op == token.ARROW {
			ch := ev(x.X)
			uid := ex.uid(fr, x)
			ex.freshen(st, uid, slot{})
			r := in.mk(X{Op: "recv", A: []*X{ch}, UID: uid, T: x.Type()})
			ex.emit(st, &Event{K: KRecv, X: ch, Field: ch.FieldName(), R: r, Pos: x.Pos(), Ins: ins, Block: true, Alts: []Alt{{Ch: ch, Field: ch.FieldName()}}})
			if x.CommaOk {
				ex.bind(st, x, in.mk(X{Op: "tuple", A: []*X{r, in.mk(X{Op: "recvok", A: []*X{ch}, UID: uid})}}))
			} else {
				ex.bind(st, x, r)
			}
		}
	case *ssa.Field:
		ex.bind(st, x, ex.field(ev(x.X), x.X.Type(), x.Field))
	case *ssa.Lookup:
		m, k := ev(x.X), ev(x.Index)
		if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
			ex.emit(st, &Event{K: KMapGet, X: m, V: k, Field: m.FieldName(), Pos: x.Pos(), Ins: ins})
			r := in.mk(X{Op: "lookup", A: []*X{m, k}, T: x.Type()})
			if k.Op == "key" && k.A[0] == m && !updatesMap(x.Block(), x.X.Type()) {
				r = in.mk(X{Op: "elem", A: []*X{m}, UID: k.UID})
			}
			if x.CommaOk {
				ex.bind(st, x, in.mk(X{Op: "tuple", A: []*X{r, in.mk(X{Op: "has", A: []*X{m, k}})}}))
			} else {
				ex.bind(st, x, r)
			}
		} else {
			ex.bind(st, x, ex.indexX(m, k))
		}
	case *ssa.Next:
		rng := ev(x.Iter)
		uid := ex.uid(fr, x)
		ex.freshen(st, uid, slot{})
		ex.bind(st, x, in.mk(X{Op: "tuple", A: []*X{
			in.mk(X{Op: "next", A: []*X{rng}, UID: uid}),
			in.mk(X{Op: "key", A: []*X{rng}, UID: uid}),
			in.mk(X{Op: "elem", A: []*X{rng}, UID: uid})}}))
	case *ssa.TypeAssert:
		v := ev(x.X)
		r := v
		if x.CommaOk {
			isT := in.mk(X{Op: "isT", S: typeName(x.AssertedType), A: []*X{v}})
			if v.isNil() {
				isT = in.boolean(false)
			}
			if v.Op == "new" && v.T != nil && types.IsInterface(x.AssertedType) == false {
				isT = in.boolean(typeName(v.T) == typeName(x.AssertedType))
			}
			ex.bind(st, x, in.mk(X{Op: "tuple", A: []*X{r, isT}}))
		} else {
			ex.bind(st, x, r)
		}
	case *ssa.Store:
		addr, v := ev(x.Addr), ev(x.Val)
		if !(addr.Op == "new") && !(addr.Op == "index" && addr.A[0].Op == "new" && strings.HasPrefix(addr.A[0].S, "[]")) {
			f := addr.FieldName()
			base := addr
			if addr.Op == "field" {
				base = addr.A[0]
			}
			ex.emit(st, &Event{K: KStore, Field: f, X: base, V: ex.resolve(st, v, 0), R: addr, Pos: x.Pos(), Ins: ins})
		}
		ex.store(st, addr, v, ins)
		if localBool(x.Addr) && ex.pass > 1 {
			ex.cowFacts(st)
			delete(st.facts, ex.decX(slot{fr, x.Addr}))
			ex.passes(st, fr, x.Val, fr, x.Addr)
		}
	case *ssa.MapUpdate:
		m, k, v := ev(x.Map), ev(x.Key), ev(x.Value)
		ex.emit(st, &Event{K: KMapSet, X: m, A: []*X{k, ex.resolve(st, v, 0)}, V: ex.resolve(st, v, 0), Field: m.FieldName(), Pos: x.Pos(), Ins: ins})
		ex.killMap(st, m)
		ex.setFact(st, in.mk(X{Op: "has", A: []*X{m, k}}), true)
	case *ssa.Send:
		ch := ev(x.Chan)
		v := ex.resolve(st, ev(x.X), 0)
		ex.emit(st, &Event{K: KSend, X: ch, V: v, Field: ch.FieldName(), Pos: x.Pos(), Ins: ins, Block: true, Alts: []Alt{{Send: true, Ch: ch, Field: ch.FieldName()}}})
	case *ssa.Select:
		return ex.doSelect(st, x)
	case *ssa.Go:
		return ex.doGo(st, x)
	case *ssa.Defer:
		d := dcall{ins: x}
		c := &x.Call
		if c.IsInvoke() {
			d.inv = objName(c.Method)
			d.rcv = ev(c.Value)
		} else {
			d.fn = ev(c.Value)
		}
		for _, a := range c.Args {
			d.A = append(d.A, ev(a))
		}
		if c.IsInvoke() && isLogger(d.inv) {
			break
		}
		st.defers[fr] = append(append([]dcall(nil), st.defers[fr]...), d)
		name := d.inv
		if d.fn != nil {
			name = d.fn.S
		}
		if info := ex.p.Info(fr.fn); info.inLoop[st.blk.Index] && len(st.defers[fr]) > 8 {
			st.defers[fr] = st.defers[fr][:8] // deferred in a loop
		}
		ex.emit(st, &Event{K: KDefer, Name: name, A: d.A, Pos: x.Pos(), Ins: ins})
	case *ssa.RunDefers:
		ds := st.defers[fr]
		if len(ds) == 0 {
			delete(st.defers, fr)
			break
		}
		d := ds[len(ds)-1]
		st.defers[fr] = append([]dcall(nil), ds[:len(ds)-1]...)
		return ex.call(st, d.ins, &d.ins.Call, d.fn, d.rcv, d.A, "defer", nil)
	case *ssa.Call:
		var fnX, rcv *X
		var as []*X
		if x.Call.IsInvoke() {
			rcv = ev(x.Call.Value)
		} else {
			fnX = ev(x.Call.Value)
		}
		for _, a := range x.Call.Args {
			as = append(as, ev(a))
		}
		return ex.call(st, x, &x.Call, fnX, rcv, as, "call", x)
	case *ssa.Return:
		var rs []*X
		for _, r := range x.Results {
			rs = append(rs, ev(r))
		}
		ex.ret(st, rs, x.Pos(), ins)
		return false
	case *ssa.Panic:
		ex.emit(st, &Event{K: KPanic, V: ex.resolve(st, ev(x.X), 0), Pos: x.Pos(), Ins: ins})
		return false
	case *ssa.Jump:
		ex.enterBlock(st, st.blk, st.blk.Succs[0])
		return false
	case *ssa.If:
		ex.branch(st, ev(x.Cond), x)
		return false
	}
	st.pc++
	return true
}

// wrapLen marks lengths of the map computed before its mutation as outdated.
func (ex *Explorer) wrapLen(x *X, hit func(*X) bool, memo map[*X]*X) *X {
	if r, ok := memo[x]; ok {
		return r
	}
	r := x
	if (x.Op == "len" || x.Op == "has") && hit(x.A[0]) {
		r = ex.in.mk(X{Op: "old", A: []*X{x}, T: x.T})
	} else if x.Op != "old" && len(x.A) > 0 && x.Any(func(y *X) bool { return (y.Op == "len" || y.Op == "has") && hit(y.A[0]) }) {
		n := *x
		n.A = make([]*X, len(x.A))
		for i, a := range x.A {
			n.A[i] = ex.wrapLen(a, hit, memo)
		}
		n.str, n.uids, n.id = "", nil, 0
		r = ex.in.mk(n)
	}
	memo[x] = r
	return r
}

func (ex *Explorer) killMap(st *State, m *X) {
	name := m.FieldName()
	hit := func(y *X) bool { return y == m || name != "" && y.FieldName() == name }
	memo := map[*X]*X{}
	for k, v := range st.env {
		if n := ex.wrapLen(v, hit, memo); n != v {
			st.env[k] = n
		}
	}
	for k, v := range st.mem {
		if n := ex.wrapLen(v, hit, memo); n != v {
			st.mem[k] = n
		}
	}
	var kill []*X
	aged := map[*X]bool{} // what was known about membership computed before stays known
	for x, o := range memo {
		if x.Op == "has" && o.Op == "old" {
			if _, ok := st.facts[o]; ok {
				kill = append(kill, o)
			}
			if v, ok := st.facts[x]; ok {
				aged[o] = v
			}
		}
	}
	for f := range st.facts {
		if f.Op == "old" {
			continue
		}
		if f.Any(func(y *X) bool {
			return (y.Op == "has" || y.Op == "lookup" || y.Op == "len") && (y.A[0] == m || name != "" && y.A[0].FieldName() == name)
		}) {
			kill = append(kill, f)
			if f.Op == "has" {
				aged[ex.wrapLen(f, hit, memo)] = st.facts[f]
			}
		}
	}
	if len(kill)+len(aged) > 0 {
		ex.cowFacts(st)
		for _, k := range kill {
			delete(st.facts, k)
		}
		for k, v := range aged {
			st.facts[k] = v
		}
	}
}

func (ex *Explorer) branch(st *State, cond *X, x *ssa.If) {
	pol := true
	for cond.Op == "not" {
		cond = cond.A[0]
		pol = !pol
	}
	t, f := st.blk.Succs[0], st.blk.Succs[1]
	if !pol {
		t, f = f, t
	}
	if b, ok := cond.isBool(); ok {
		if !b {
			t = f
		}
		ex.enterBlock(st, st.blk, t)
		return
	}
	if ex.pass == 1 {
		k := relKey(cond)
		if ex.rel[k] == nil {
			ex.rel[k] = map[string]bool{}
		}
		ex.rel[k][ex.uid(st.fr, x)] = true
	}
	dec := ex.decidedX(st, x)
	if v, ok := st.facts[dec.x]; ok {
		to, val := t, (v == dec.pol) == pol
		if !val {
			to = f
		}
		ex.emit(st, &Event{K: KBranch, X: cond, Val: val, Again: true, Pos: x.Cond.Pos(), Ins: x})
		ex.enterBlock(st, st.blk, to)
		return
	}
	if v, ok := known(st.facts, cond); ok {
		to := t
		if !v {
			to = f
		}
		ex.emit(st, &Event{K: KBranch, X: cond, Val: v, Pos: x.Cond.Pos(), Ins: x})
		ex.decide(st, dec, v == pol)
		ex.enterBlock(st, st.blk, to)
		return
	}
	blk := st.blk
	s2 := st.clone()
	ex.emit(st, &Event{K: KBranch, X: cond, Val: true, Pos: x.Cond.Pos(), Ins: x})
	ex.setFact(st, cond, true)
	ex.decide(st, dec, pol)
	ex.enterBlock(st, blk, t)
	ex.emit(s2, &Event{K: KBranch, X: cond, Val: false, Pos: x.Cond.Pos(), Ins: x})
	ex.setFact(s2, cond, false)
	ex.decide(s2, dec, !pol)
	ex.enterBlock(s2, blk, f)
}

// decided: a register which several branches test. x is the fact which holds its value, pol is
// false when the branch tests its negation.
type decided struct {
	x   *X
	s   slot
	pol bool
}

func (ex *Explorer) decidedX(st *State, iff *ssa.If) *decided {
	v, pol := regOf(iff.Cond)
	return &decided{ex.decX(slot{st.fr, v}), slot{st.fr, v}, pol}
}

func (ex *Explorer) decX(s slot) *X {
	d := ex.in.mk(X{Op: "dec", S: fmt.Sprint(ex.slotID(s))})
	ex.decs[d] = s
	return d
}

// passes: what is known about register w, in frame from, is known about v of frame to, which gets
// its value.
func (ex *Explorer) passes(st *State, from *Frame, w ssa.Value, to *Frame, v ssa.Value) {
	if ex.pass == 1 || ex.p.Info(to.fn).nuses[v] == 0 {
		return
	}
	w, pol := regOf(w)
	if _, ok := w.(*ssa.Const); ok {
		return
	}
	if val, ok := st.facts[ex.decX(slot{from, w})]; ok {
		ex.cowFacts(st)
		st.facts[ex.decX(slot{to, v})] = val == pol
	}
}

// decide: the condition under the negations of the expression, with polarity pol relative to the
// branch, held (true) or not.
func (ex *Explorer) decide(st *State, d *decided, val bool) {
	if ex.pass == 1 || ex.p.Info(d.s.fr.fn).nuses[d.s.v] < 2 {
		return
	}
	ex.cowFacts(st)
	st.facts[d.x] = val == d.pol
}

// undecide forgets the registers which are computed again or not tested any more.
func (ex *Explorer) undecide(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	if len(ex.decs) == 0 {
		return
	}
	var kill []*X
	for f := range st.facts {
		if f.Op != "dec" {
			continue
		}
		s := ex.decs[f]
		on := false
		for g := st.fr; g != nil; g = g.parent {
			on = on || g == s.fr
		}
		if !on || s.fr == fr && (from == nil || !ex.p.Info(fr.fn).testedFrom(s.v, to)) {
			kill = append(kill, f)
		}
	}
	if len(kill) > 0 {
		ex.cowFacts(st)
		for _, k := range kill {
			delete(st.facts, k)
		}
	}
}

// regOf strips the negations of a condition.
func regOf(v ssa.Value) (ssa.Value, bool) {
	pol := true
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return v, pol
		}
		v, pol = u.X, !pol
	}
}

// testedFrom: a branch on v can be reached from the start of b without computing v again.
func (in *FnInfo) testedFrom(v ssa.Value, b *ssa.BasicBlock) bool {
	ins, _ := v.(ssa.Instruction)
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if seen[b] || ins != nil && ins.Block() == b {
			return false
		}
		seen[b] = true
		if in.tests[v][b] {
			return true
		}
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(b)
}

func (ex *Explorer) doSelect(st *State, x *ssa.Select) bool {
	fr := st.fr
	in := ex.in
	uid := ex.uid(fr, x)
	ex.freshen(st, uid, slot{})
	var alts []Alt
	var chs []*X
	for _, s := range x.States {
		ch := ex.eval(st, fr, s.Chan)
		chs = append(chs, ch)
		alts = append(alts, Alt{Send: s.Dir == types.SendOnly, Ch: ch, Field: ch.FieldName()})
	}
	sel := ex.node(&Event{K: KSel, Fr: fr, Alts: alts, Block: x.Blocking, Pos: x.Pos(), Ins: x}, st.last)
	sel.Facts = st.facts
	n := len(x.States)
	for i := -1; i < n; i++ {
		if i < 0 && x.Blocking {
			continue
		}
		s := st.clone()
		s.last = sel
		ex.cur = s
		tup := []*X{in.num(int64(i)), in.mk(X{Op: "recvok", UID: uid, A: []*X{in.num(int64(i))}})}
		ri := 0
		for j, ss := range x.States {
			if ss.Dir == types.RecvOnly {
				r := in.mk(X{Op: "recv", A: []*X{chs[j]}, UID: fmt.Sprintf("%s.%d", uid, ri), T: ss.Chan.Type().Underlying().(*types.Chan).Elem()})
				ri++
				tup = append(tup, r)
				if i == j {
					tup[1] = in.mk(X{Op: "recvok", A: []*X{chs[j]}, UID: uid})
					ex.emit(s, &Event{K: KRecv, X: chs[j], Field: alts[j].Field, R: r, Alts: alts, Block: x.Blocking, Pos: ss.Pos, Ins: x})
				}
			} else if i == j {
				ex.emit(s, &Event{K: KSend, X: chs[j], V: ex.resolve(s, ex.eval(s, fr, ss.Send), 0), Field: alts[j].Field, Alts: alts, Block: x.Blocking, Pos: ss.Pos, Ins: x})
			}
		}
		if i < 0 {
			ex.emit(s, &Event{K: KSel, Name: "default", Alts: alts, Pos: x.Pos(), Ins: x})
		}
		ex.bind(s, x, in.mk(X{Op: "tuple", A: tup}))
		s.pc++
		ex.work = append(ex.work, s)
	}
	return false
}

func (ex *Explorer) doGo(st *State, x *ssa.Go) bool {
	var fnX, rcv *X
	var as []*X
	if x.Call.IsInvoke() {
		rcv = ex.eval(st, st.fr, x.Call.Value)
	} else {
		fnX = ex.eval(st, st.fr, x.Call.Value)
	}
	for _, a := range x.Call.Args {
		as = append(as, ex.eval(st, st.fr, a))
	}
	name := ""
	if fnX != nil {
		name = fnX.S
		if fnX.Op != "func" && fnX.Op != "closure" {
			name = fnX.String()
		}
	} else {
		name = objName(x.Call.Method)
	}
	all := as
	if rcv != nil {
		all = append([]*X{rcv}, as...)
	}
	if n, f, a := ex.unwrapGo(st, x, fnX, as); n != "" {
		name, fnX, all, as = n, f, a, a
	}
	ex.emit(st, &Event{K: KGo, Name: name, X: fnX, A: ex.resolveAll(st, all), Raw: all, Pos: x.Pos(), Ins: x})
	if ex.o.Fork {
		ex.fork(st, x, fnX, as, "go")
	}
	uid := ex.uid(st.fr, x)
	for _, a := range append([]*X{fnX}, as...) {
		if a != nil {
			ex.havocShared(st, a, uid)
		}
	}
	st.pc++
	return true
}

// unwrapGo: go func() { f(x) }() starts f when nothing else happens in the literal and what it
// captures does not change.
func (ex *Explorer) unwrapGo(st *State, site *ssa.Go, fnX *X, as []*X) (string, *X, []*X) {
	fn, bind := ex.target(fnX)
	c, _ := ex.p.goWrapper(fn)
	if c == nil {
		return "", nil, nil
	}
	nf := ex.frame(fn, st.fr, site, "gowrap")
	s := st.clone()
	ex.bindParams(s, nf, fn, bind, as)
	for _, ins := range fn.Blocks[0].Instrs {
		switch y := ins.(type) {
		case *ssa.UnOp:
			s.env[slot{nf, y}] = ex.load(s, ex.eval(s, nf, y.X))
		case *ssa.FieldAddr:
			s.env[slot{nf, y}] = ex.eval(s, nf, y)
		}
	}
	var args []*X
	for _, a := range c.Call.Args {
		args = append(args, ex.eval(s, nf, a))
	}
	f := ex.eval(s, nf, c.Call.Value)
	return f.S, f, args
}

// goWrapper: the only call of a function literal which is started with go and does nothing else.
func (p *Prog) goWrapper(fn *ssa.Function) (*ssa.Call, *ssa.Go) {
	if fn == nil || fn.Parent() == nil || len(fn.Blocks) != 1 || !p.inRepo(fn) || fn.Recover != nil {
		return nil, nil
	}
	var c *ssa.Call
	for _, ins := range fn.Blocks[0].Instrs {
		switch y := ins.(type) {
		case *ssa.Call:
			if c != nil || y.Call.StaticCallee() == nil || !p.inRepo(y.Call.StaticCallee()) {
				return nil, nil
			}
			if _, ok := y.Call.Value.(*ssa.Function); !ok {
				return nil, nil
			}
			c = y
		case *ssa.UnOp:
			if c != nil || y.Op != token.MUL {
				return nil, nil
			}
			switch a := y.X.(type) {
			case *ssa.FreeVar:
				if !storedOnce(a) {
					return nil, nil
				}
			case *ssa.FieldAddr:
			default:
				return nil, nil
			}
		case *ssa.FieldAddr:
		case *ssa.Return:
			if len(y.Results) > 0 {
				return nil, nil
			}
		case *ssa.DebugRef:
		default:
			return nil, nil
		}
	}
	if c == nil {
		return nil, nil
	}
	var g *ssa.Go
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.Go); ok {
				v := x.Call.Value
				if mc, ok := v.(*ssa.MakeClosure); ok {
					v = mc.Fn
				}
				if v == fn {
					if g != nil {
						return nil, nil
					}
					g = x
				}
			}
		}
	}
	if g == nil {
		return nil, nil
	}
	return c, g
}

// storedOnce: the captured variable has one value.
func storedOnce(fv *ssa.FreeVar) bool {
	k := -1
	for i, f := range fv.Parent().FreeVars {
		if f == fv {
			k = i
		}
	}
	n := 0
	for _, b := range fv.Parent().Parent().Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != fv.Parent() {
				continue
			}
			if n++; n > 1 {
				return false
			}
			a, ok := mc.Bindings[k].(*ssa.Alloc)
			if !ok {
				return false
			}
			st := 0
			for _, r := range *a.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr != a {
						return false
					}
					st++
				case *ssa.MakeClosure:
					for i, v := range y.Bindings {
						if v != a {
							continue
						}
						for _, q := range *y.Fn.(*ssa.Function).FreeVars[i].Referrers() {
							if u, ok := q.(*ssa.UnOp); !ok || u.Op != token.MUL {
								return false
							}
						}
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			if st != 1 {
				return false
			}
		}
	}
	return n == 1
}

// fork explores the body of a function started asynchronously from here.
func (ex *Explorer) fork(st *State, site ssa.Instruction, fnX *X, as []*X, why string) {
	fn, bind := ex.target(fnX)
	if fn == nil || fn.Blocks == nil || !ex.p.inRepo(fn) {
		return
	}
	for f := st.fr; f != nil; f = f.parent {
		if f.fn == fn {
			return
		}
	}
	s := st.clone()
	nf := ex.frame(fn, st.fr, site, "fork")
	ex.emit(s, &Event{K: KFork, Name: ex.p.Name(fn), Pos: site.Pos(), Ins: site, Fr: nf})
	s.fr = nf
	s.defers = map[*Frame][]dcall{}
	ex.bindParams(s, nf, fn, bind, as)
	ex.funcs[ex.p.Name(fn)] = true
	ex.cowFacts(s)
	s.facts = map[*X]bool{}
	ex.enterBlock(s, nil, fn.Blocks[0])
	ex.cur = st
}

func (ex *Explorer) target(fnX *X) (*ssa.Function, []*X) {
	if fnX == nil {
		return nil, nil
	}
	fnX = fnX.bare()
	switch fnX.Op {
	case "func":
		if f, ok := fnX.Fn.(*ssa.Function); ok {
			return f, nil
		}
	case "closure":
		return fnX.Fn.(*ssa.Function), fnX.A
	}
	return nil, nil
}

func (ex *Explorer) bindParams(st *State, nf *Frame, fn *ssa.Function, binds, as []*X) {
	for i, prm := range fn.Params {
		if i < len(as) {
			st.env[slot{nf, prm}] = as[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			st.env[slot{nf, fv}] = binds[i]
		}
	}
}

func (ex *Explorer) resolveAll(st *State, as []*X) []*X {
	out := make([]*X, len(as))
	for i, a := range as {
		out[i] = ex.resolve(st, a, 0)
	}
	return out
}

func (ex *Explorer) ret(st *State, rs []*X, pos token.Pos, ins ssa.Instruction) {
	fr := st.fr
	res := ex.resolveAll(st, rs)
	if fr.kind == "root" {
		ex.emit(st, &Event{K: KReturn, Name: ex.p.Name(fr.fn), A: res, Pos: pos, Ins: ins})
		return
	}
	if !wrapper(fr.fn) {
		ex.emit(st, &Event{K: KLeave, Name: ex.p.Name(fr.fn), A: res, Pos: pos, Ins: ins})
	}
	if fr.kind == "fork" {
		ex.emit(st, &Event{K: KFEnd, Name: ex.p.Name(fr.fn), Pos: pos, Ins: ins})
		return
	}
	par := fr.parent
	st.fr = par
	st.blk = fr.site.Block()
	info := ex.p.Info(par.fn)
	for i, x := range st.blk.Instrs {
		if x == fr.site {
			st.pc = i
		}
	}
	switch fr.kind {
	case "call", "once":
		if v, ok := fr.site.(*ssa.Call); ok {
			if fr.kind == "call" {
				if len(rs) == 1 {
					ex.bind(st, v, rs[0])
				} else {
					ex.bind(st, v, ex.in.mk(X{Op: "tuple", A: rs}))
				}
			}
		}
		st.pc++
	case "defer":
		// resume at the RunDefers instruction which ran it
		for i, x := range st.blk.Instrs {
			_ = i
			_ = x
		}
		b, pc := ex.runDefersOf(st, fr)
		st.blk, st.pc = b, pc
	case "iter":
		// the callback returned: iterate again or stop
		stop := false
		if len(rs) == 1 {
			if b, ok := rs[0].isBool(); ok && !b {
				stop = true
			}
		}
		for k := range st.env {
			if k.fr == fr {
				delete(st.env, k)
			}
		}
		ex.iterate(st, fr.site.(*ssa.Call), stop)
		return
	}
	_ = info
	ex.prune(st, par, ex.liveAfter(par, st.blk, st.pc))
	r, _ := ins.(*ssa.Return)
	ex.passResults(st, fr, r)
	for f := range st.facts {
		if f.Op == "dec" && ex.decs[f].fr == fr {
			ex.cowFacts(st)
			delete(st.facts, f)
		}
	}
	if ex.join(st, "ret") {
		ex.work = append(ex.work, st)
	}
}

// The frame of a deferred call remembers where it was run in State.rd.
func (ex *Explorer) runDefersOf(st *State, fr *Frame) (*ssa.BasicBlock, int) {
	k := slot{fr.parent, nil}
	x := st.env[k]
	delete(st.env, k)
	for _, b := range fr.parent.fn.Blocks {
		if fmt.Sprint(b.Index) == x.S {
			for i, ins := range b.Instrs {
				if _, ok := ins.(*ssa.RunDefers); ok {
					return b, i
				}
			}
		}
	}
	panic("no RunDefers")
}

var asyncCallbacks = map[string]int{ // callee -> index of the callback argument (receiver counts)
	"time.AfterFunc":     1,
	"kgo.Client.Produce": 3,
}

// synchronous iterators: callee -> index of the callback argument
func iterCallback(name string) int {
	switch name {
	case "kgo.Fetches.EachPartition", "kgo.Fetches.EachTopic", "kgo.Fetches.EachRecord", "kgo.Fetches.EachError",
		"kgo.FetchTopic.EachPartition", "kgo.FetchTopic.EachRecord", "kgo.FetchPartition.EachRecord", "kgo.FetchTopicPartition.EachRecord",
		"kgo.ConsumerBalancer.EachMember", "sort.Slice", "sort.SliceStable", "sort.Search", "sync.Map.Range":
		return 1
	}
	if strings.HasPrefix(name, "btree.BTree") {
		if i := strings.LastIndex(name, "."); i >= 0 {
			switch name[i+1:] {
			case "Ascend", "Descend":
				return 1
			case "AscendGreaterOrEqual", "AscendLessThan", "DescendLessOrEqual", "DescendGreaterThan":
				return 2
			case "AscendRange", "DescendRange":
				return 3
			}
		}
	}
	return -1
}

var devirt = map[string]string{
	"EventContextProducer.ProduceRecord": "producerNode.ProduceRecord",
	"AsyncCompleter.AsyncComplete":       "asyncCompleter.AsyncComplete",
	"eventExecutor.Exec":                 "eventProcessorExecutor.Exec",
}

func isLogger(name string) bool {
	return strings.HasPrefix(name, "Logger.") || strings.HasPrefix(name, "lgr.") || strings.HasPrefix(name, "kgo.Logger.")
}

var passThrough = map[string]bool{"sak.Noescape": true, "ssa:wrapnilchk": true}

func (ex *Explorer) call(st *State, site ssa.Instruction, c *ssa.CallCommon, fnX, rcv *X, as []*X, kind string, v *ssa.Call) bool {
	in := ex.in
	fr := st.fr
	pos := site.Pos()
	name := ""
	var fn *ssa.Function
	var binds []*X
	all := as
	setRes := func(r *X) {
		if v != nil {
			ex.bind(st, v, r)
		}
	}
	if c.IsInvoke() {
		name = objName(c.Method)
		if isLogger(name) {
			setRes(in.mk(X{Op: "const", S: "log"}))
			st.pc++
			if kind == "defer" {
				st.pc--
			}
			return true
		}
		all = append([]*X{rcv}, as...)
		if d, ok := devirt[name]; ok {
			fn = ex.p.Funcs[d]
		}
		if fn == nil {
			fn = ex.devirtByType(st, rcv, c.Method)
		}
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(st, site, b.Name(), c, as, kind, v)
	} else {
		fn, binds = ex.target(fnX)
		if fn != nil {
			name = ex.p.Name(fn)
		} else {
			name = "dyn"
		}
	}
	if passThrough[name] && len(as) > 0 {
		setRes(as[0])
		st.pc++
		return true
	}
	if name == "sync.Once.Do" && len(as) == 2 && kind == "call" {
		once, bb := ex.target(as[1])
		ex.emit(st, &Event{K: KCall, Name: name, A: all, Raw: all, Pos: pos, Ins: site})
		skip := st.clone()
		skip.pc++
		ex.emit(skip, &Event{K: KBranch, X: in.mk(X{Op: "onceDone", A: []*X{as[0]}}), Val: true, Pos: pos, Ins: site})
		ex.work = append(ex.work, skip)
		ex.emit(st, &Event{K: KBranch, X: in.mk(X{Op: "onceDone", A: []*X{as[0]}}), Val: false, Pos: pos, Ins: site})
		if once != nil && once.Blocks != nil && ex.p.inRepo(once) {
			ex.enter(st, once, bb, nil, site, "once", pos)
			return false
		}
		st.pc++
		return true
	}
	rec := false
	if fn != nil && fn.Blocks != nil && (ex.p.inRepo(fn) || fn.Synthetic != "") {
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				rec = true
			}
		}
		if !rec && fr.depth < 30 && !ex.noInline(ex.p.Name(fn)) {
			if kind == "defer" {
				st.env[slot{fr, nil}] = in.mk(X{Op: "const", S: fmt.Sprint(st.blk.Index)})
			}
			ex.enter(st, fn, binds, all, site, kind, pos)
			return false
		}
		name = ex.p.Name(fn)
	}
	// opaque call
	k := KCall
	field := ""
	if name == "dyn" {
		k = KDyn
		field = fnX.FieldName()
		name = "dyn:" + fnX.String()
	}
	uid := ex.uid(fr, site)
	ex.freshen(st, uid, slot{})
	var r *X
	rn := name
	if k == KDyn {
		rn = fnX.String()
	}
	r = in.mk(X{Op: "call", S: rn, A: all, UID: uid})
	if v != nil {
		r.T = v.Type()
	}
	ex.emit(st, &Event{K: k, Name: name, A: ex.resolveAll(st, all), Raw: all, X: fnX, Field: field, R: r, Pos: pos, Ins: site, Rec: rec})
	if cb := iterCallback(name); cb >= 0 && cb < len(all) && v != nil {
		if t, _ := ex.target(all[cb]); t != nil {
			setRes(r)
			ex.iterate(st, v, false)
			return false
		}
	}
	if ai, ok := asyncCallbacks[name]; ok && ex.o.Fork && ai < len(all) {
		var fa []*X
		if t, _ := ex.target(all[ai]); t != nil {
			for i := range t.Params {
				fa = append(fa, in.mk(X{Op: "cb", S: fmt.Sprint(i), A: []*X{r}, T: t.Params[i].Type()}))
			}
			ex.fork(st, site, all[ai], fa, name)
		}
	}
	if ex.o.Fork && fn != nil && ex.p.inRepo(fn) && ex.noInline(name) {
		for _, a := range all { // callbacks handed to a function which is not followed
			t, _ := ex.target(a)
			if t == nil {
				continue
			}
			var fa []*X
			for i := range t.Params {
				fa = append(fa, in.mk(X{Op: "cb", S: fmt.Sprint(i), A: []*X{r}, T: t.Params[i].Type()}))
			}
			ex.fork(st, site, a, fa, name)
		}
	}
	if v != nil {
		if tup, ok := v.Type().(*types.Tuple); ok {
			var rs []*X
			for i := 0; i < tup.Len(); i++ {
				rs = append(rs, in.mk(X{Op: "res", S: fmt.Sprint(i), A: []*X{r}, T: tup.At(i).Type()}))
			}
			r = in.mk(X{Op: "tuple", A: rs})
		}
		ex.bind(st, v, r)
	}
	// stores through pointers to locals which were passed are not tracked further
	for i, a := range all {
		if i > 0 && strings.HasPrefix(name, "atomic.") {
			break // they keep these values, and do not look behind them
		}
		ex.havocLocal(st, a, uid)
		ex.havocShared(st, a, uid)
		if k == KCall && !ex.noInline(name) && !strings.HasPrefix(name, "btree.") && !strings.HasPrefix(name, "sync.") {
			ex.havocStruct(st, a, uid)
		}
	}
	if kind != "defer" {
		st.pc++
	}
	return true
}

// havocLocal: an opaque callee may write through a pointer to a local variable.
func (ex *Explorer) havocLocal(st *State, a *X, uid string) {
	a = a.bare()
	if a.Op != "new" || a.T == nil {
		return
	}
	switch a.T.Underlying().(type) {
	case *types.Struct, *types.Array:
		return
	}
	if _, ok := st.mem[a]; ok || true {
		st.mem[a] = ex.in.mk(X{Op: "out", S: a.S, UID: uid + "o", A: nil, T: a.T})
	}
}

// havocStruct: an opaque callee may write through a pointer to (a part of) a local structure;
// what is known about its contents is forgotten.
func (ex *Explorer) havocStruct(st *State, a *X, uid string) {
	a = a.bare()
	if a.Op != "new" && a.Op != "field" || a.T == nil || memRoot(a) == nil {
		return
	}
	switch a.T.Underlying().(type) {
	case *types.Struct, *types.Array:
	default:
		if a.Op == "new" {
			return
		}
	}
	known := false
	for k := range st.mem {
		if k == a || hasPrefix(k, a) {
			delete(st.mem, k)
			known = true
		}
	}
	if !known && (a.Op != "field" || ex.wholeOf(st, a) == nil) {
		return
	}
	st.mem[a] = ex.in.mk(X{Op: "out", S: a.S, UID: uid + "o", T: a.T})
}

// havocShared: a closure which runs at an unknown time may write to the local variables
// it shares with its creator.
func (ex *Explorer) havocShared(st *State, a *X, uid string) {
	a = a.bare()
	if a.Op != "closure" {
		return
	}
	fn, binds := ex.target(a)
	if fn == nil {
		return
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) && storesTo(fn, fv, 0) {
			ex.havocLocal(st, binds[i], uid+"."+fv.Name())
		}
	}
}

// storesTo: fn, or a closure made by it, assigns the captured variable.
func storesTo(fn *ssa.Function, fv *ssa.FreeVar, d int) bool {
	for _, u := range *fv.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == ssa.Value(fv) {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == ssa.Value(fv) && d < 4 && storesTo(u.Fn.(*ssa.Function), u.Fn.(*ssa.Function).FreeVars[i], d+1) {
					return true
				}
			}
		}
	}
	return false
}

func (ex *Explorer) devirtByType(st *State, rcv *X, m *types.Func) *ssa.Function {
	x := rcv.bare()
	t := x.T
	if t == nil || types.IsInterface(t) {
		return nil
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return nil
	}
	for _, c := range []types.Type{t, types.NewPointer(t)} {
		o, _, _ := types.LookupFieldOrMethod(c, true, m.Pkg(), m.Name())
		if f, ok := o.(*types.Func); ok {
			if g := ex.p.Funcs[objName(f.Origin())]; g != nil && types.NewMethodSet(c).Lookup(m.Pkg(), m.Name()) != nil {
				return g
			}
		}
	}
	return nil
}

func (ex *Explorer) enter(st *State, fn *ssa.Function, binds, as []*X, site ssa.Instruction, kind string, pos token.Pos) {
	nf := ex.frame(fn, st.fr, site, kind)
	if !wrapper(fn) {
		ex.emit(st, &Event{K: KEnter, Name: ex.p.Name(fn), A: ex.resolveAll(st, as), Raw: as, Pos: pos, Ins: site})
	}
	ex.funcs[ex.p.Name(fn)] = true
	ex.prune(st, st.fr, ex.keepLive(st, kind))
	st.fr = nf
	ex.bindParams(st, nf, fn, binds, as)
	ex.enterBlock(st, nil, fn.Blocks[0])
}

// passArgs: what is known about boolean arguments is known about the parameters.
func (ex *Explorer) passArgs(st *State, fr *Frame) {
	c, ok := fr.site.(*ssa.Call)
	if !ok || fr.kind != "call" || c.Call.IsInvoke() || len(c.Call.Args) != len(fr.fn.Params) || ex.pass == 1 {
		return
	}
	for i, p := range fr.fn.Params {
		if ex.p.Info(fr.fn).nuses[p] > 0 {
			ex.passes(st, fr.parent, c.Call.Args[i], fr, p)
		}
	}
}

// passResults: what is known about boolean results is known about the registers of the caller.
func (ex *Explorer) passResults(st *State, fr *Frame, r *ssa.Return) {
	c, ok := fr.site.(*ssa.Call)
	if !ok || fr.kind != "call" || r == nil || ex.pass == 1 || len(ex.decs) == 0 {
		return
	}
	for i, v := range r.Results {
		if len(r.Results) == 1 {
			ex.passes(st, fr, v, fr.parent, c)
			continue
		}
		for _, u := range *c.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && e.Index == i {
				ex.passes(st, fr, v, fr.parent, e)
			}
		}
	}
}

// wrapper: a function of the compiler which only calls the method a method value or expression
// denotes.
func wrapper(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Synthetic, "bound method wrapper") || strings.HasPrefix(fn.Synthetic, "thunk for")
}

func (ex *Explorer) keepLive(st *State, kind string) map[ssa.Value]bool {
	pc := st.pc
	if kind == "call" || kind == "once" {
		pc++
	}
	l := ex.liveAfter(st.fr, st.blk, pc)
	l[nil] = true
	return l
}

// iterate: 0..n invocations of a synchronous callback.
func (ex *Explorer) iterate(st *State, site *ssa.Call, stop bool) {
	fr := st.fr
	if stop {
		st.pc++
		ex.prune(st, fr, ex.liveAfter(fr, st.blk, st.pc))
		if ex.join(st, "iterexit") {
			ex.work = append(ex.work, st)
		}
		return
	}
	keep := ex.liveAfter(fr, st.blk, st.pc)
	keep[site] = true
	ex.prune(st, fr, keep)
	if !ex.join(st, "iter") {
		return
	}
	r := st.env[slot{fr, site}]
	exit := st.clone()
	it := ex.in.mk(X{Op: "iter", A: []*X{r}})
	ex.emit(exit, &Event{K: KBranch, X: it, Val: false, Pos: site.Pos(), Ins: site})
	exit.pc++
	ex.work = append(ex.work, exit)
	// one more iteration
	ex.emit(st, &Event{K: KBranch, X: it, Val: true, Pos: site.Pos(), Ins: site})
	name := r.S
	cb := iterCallback(name)
	fn, binds := ex.target(r.A[cb])
	uid := ex.uid(fr, site) + "i"
	ex.freshen(st, uid, slot{})
	var as []*X
	for i := range fn.Params {
		as = append(as, ex.in.mk(X{Op: "each", S: fmt.Sprint(i), A: []*X{r.A[0]}, UID: uid, T: fn.Params[i].Type()}))
	}
	nf := ex.frame(fn, fr, site, "iter")
	ex.emit(st, &Event{K: KEnter, Name: ex.p.Name(fn), A: as, Raw: as, Pos: site.Pos(), Ins: site})
	ex.funcs[ex.p.Name(fn)] = true
	st.fr = nf
	ex.bindParams(st, nf, fn, binds, as)
	ex.enterBlock(st, nil, fn.Blocks[0])
}

func (ex *Explorer) builtin(st *State, site ssa.Instruction, name string, c *ssa.CallCommon, as []*X, kind string, v *ssa.Call) bool {
	in := ex.in
	var r *X
	switch name {
	case "len", "cap":
		a := as[0].bare()
		switch {
		case a.Op == "list":
			r = in.num(int64(len(a.A)))
		case a.isNil():
			r = in.num(0)
		case a.Op == "make" && len(a.A) == 2 && name == "len" && strings.HasPrefix(a.S, "[]"):
			r = a.A[0]
		case a.Op == "const" && a.UID == "str":
			r = in.mk(X{Op: name, A: []*X{a}})
		default:
			r = in.mk(X{Op: name, A: []*X{a}, T: types.Typ[types.Int]})
		}
	case "append":
		base := as[0]
		var items []*X
		if base.Op == "append" {
			items = append(items, base.A...)
		} else if base.Op == "list" {
			items = append(items, base.A...)
			items = append([]*X{in.nilX()}, items...)
		} else {
			items = []*X{base}
		}
		if len(as) > 1 {
			if as[1].Op == "list" {
				items = append(items, as[1].A...)
			} else {
				items = append(items, in.mk(X{Op: "spread", A: []*X{as[1]}}))
			}
		}
		if len(items) > 24 || (len(items) > 3 && (st.fr.looped || ex.p.Info(st.fr.fn).inLoop[st.blk.Index])) {
			u := ex.uid(st.fr, site)
			r = in.mk(X{Op: "acc", S: "append", UID: u})
			ex.emit(st, &Event{K: KCall, Name: "builtin.append", A: ex.resolveAll(st, as), Raw: as, R: r, Pos: site.Pos(), Ins: site})
			break
		}
		r = in.mk(X{Op: "append", A: items})
		ex.emit(st, &Event{K: KCall, Name: "builtin.append", A: ex.resolveAll(st, as), Raw: as, R: r, Pos: site.Pos(), Ins: site})
	case "close":
		ch := as[0]
		ex.emit(st, &Event{K: KClose, X: ch, Field: ch.FieldName(), Pos: site.Pos(), Ins: site})
	case "delete":
		ex.emit(st, &Event{K: KMapDel, X: as[0], V: as[1], A: as[1:], Field: as[0].FieldName(), Pos: site.Pos(), Ins: site})
		ex.killMap(st, as[0])
		ex.setFact(st, in.mk(X{Op: "has", A: []*X{as[0], as[1]}}), false)
	case "copy":
		ex.emit(st, &Event{K: KCall, Name: "builtin.copy", A: as, Raw: as, Pos: site.Pos(), Ins: site})
		r = in.mk(X{Op: "call", S: "copy", A: as, UID: ex.uid(st.fr, site)})
	case "min", "max":
		r = in.mk(X{Op: "call", S: name, A: as})
	case "ssa:wrapnilchk":
		r = as[0]
	default:
		ex.emit(st, &Event{K: KCall, Name: "builtin." + name, A: as, Raw: as, Pos: site.Pos(), Ins: site})
		r = in.mk(X{Op: "call", S: name, A: as, UID: ex.uid(st.fr, site)})
	}
	if v != nil && r != nil {
		ex.bind(st, v, r)
	}
	if kind != "defer" {
		st.pc++
	}
	return true
}

func (ex *Explorer) noInline(name string) bool {
	if ex.o.NoInline != nil && ex.o.NoInline(name) {
		return true
	}
	if !ex.o.InlinePool && (name == "sak.Pool.Borrow" || name == "sak.Pool.Release") {
		return true
	}
	return false
}

// updatesMap: the function stores elements of a map of this type.
func updatesMap(at *ssa.BasicBlock, t types.Type) bool {
	reach := func(from *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock{}, from.Succs...)
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if !seen[b] {
				seen[b] = true
				work = append(work, b.Succs...)
			}
		}
		return seen
	}
	after := reach(at)
	for _, b := range at.Parent().Blocks {
		if after[at] && b != at && (!after[b] || !reach(b)[at]) {
			continue // not in the loop of the lookup
		}
		for _, ins := range b.Instrs {
			if u, ok := ins.(*ssa.MapUpdate); ok && types.Identical(u.Map.Type(), t) {
				return true
			}
		}
	}
	return false
}
