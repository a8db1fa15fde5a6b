package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock discipline (C32).

func init() {
	rule("locks.release", "C32",
		"every lock is released on every path of the function which takes it (or of its callers, for a function which only locks or unlocks), and not taken again by the same goroutine while it is held",
		func(r *R) {
			a := r.p.locks(r)
			n, st := 0, 0
			for _, fn := range r.p.All {
				l := a.fns[fn]
				if l.direct {
					n++
				}
				st += l.states
			}
			r.need(a.ops, 20, "lock operations")
			r.insts += a.ops
			r.note("%d functions with lock operations, %d states", n, st)
		})

	rule("locks.order", "C32",
		"locks are taken in one order: the order of acquisition, over all call paths, has no cycle; two locks of the same field of different objects are not taken together, except for the ring of producer nodes (read locks, by the commit loop only)",
		func(r *R) {
			a := r.p.locks(&R{p: r.p, rule: r.rule})
			var es []lkEdge
			next := map[string][]string{}
			for e := range a.edges {
				es = append(es, e)
				next[e.from] = append(next[e.from], e.to)
			}
			sort.Slice(es, func(i, j int) bool { return es[i].from+" "+es[i].to < es[j].from+" "+es[j].to })
			var reach func(x, to string, seen map[string]bool, path []string) []string
			reach = func(x, to string, seen map[string]bool, path []string) []string {
				if x == to {
					return append(append([]string{}, path...), x)
				}
				if seen[x] {
					return nil
				}
				seen[x] = true
				ns := append([]string{}, next[x]...)
				sort.Strings(ns)
				for _, n := range ns {
					if p := reach(n, to, seen, append(path, x)); p != nil {
						return p
					}
				}
				return nil
			}
			for _, e := range es {
				r.insts++
				r.note("%s -> %s: %s", e.from, e.to, strings.Join(a.edges[e], " | "))
				if e.from == e.to {
					if e.from == "producerNode.partitionLock" {
						continue
					}
					r.fail(a.edgePos[e], a.edgeFn[e], "two locks "+e.from+" are taken together", a.edges[e])
					continue
				}
				if p := reach(e.to, e.from, map[string]bool{}, nil); p != nil {
					var d []string
					d = append(d, a.edges[e]...)
					for i := 0; i+1 < len(p); i++ {
						d = append(d, a.edges[lkEdge{p[i], p[i+1]}]...)
					}
					r.fail(a.edgePos[e], a.edgeFn[e], e.to+" is locked while "+e.from+" is held; elsewhere: "+strings.Join(p, " before "), d)
				}
			}
			r.need(len(es), 7, "orders of two locks")
		})

	// what each lock protects (accesses found with the lock held everywhere on the reviewed tree);
	// "writes": reads without the lock are accepted
	guarded := [][3]string{
		{"sak.Pool", "mu", "freelist"},
		{"AsyncBatcher", "mux", "executors assignments pendingItems executingCount"},
		{"AsyncJobScheduler", "mux", "workerMap maxConcurrentKeys"},
		{"AsyncJobScheduler", "updateRWLock", "writes:workerChannel"},
		{"asyncItemQueue", "headLock", "size head peekable"},
		{"partitionOwners", "mux", "owners"},
		{"eosCommitLog", "syncMux", "pendingSyncs"},
		{"eosCommitLog", "mux", "watermarks"},
		{"eventSourceConsumer", "workerMux", "workers"},
		{"eventSourceConsumer", "preppingMux", "prepping"},
		{"incrementalRebalancer", "statusLock", "gracefulChan memberStatus leaveTime preparing ready"},
		{"partitionedChangeLog", "mux", "data"},
		{"stateStorePartition", "bufferLock", "buffer done"},
		{"stateStorePartition", "waiterLock", "waiters"},
		{"msk.MskCluster", "mux", "builtOptions"},
	}
	rule("locks.guarded", "C32",
		"shared state which a lock protects is only accessed while holding it (exclusively for changes), in every function and on every call path, except for objects which were just allocated",
		func(r *R) {
			a := r.p.locks(&R{p: r.p, rule: r.rule})
			ent := a.entries()
			for _, g := range guarded {
				for _, f := range strings.Fields(g[2]) {
					writes := strings.HasPrefix(f, "writes:")
					f = strings.TrimPrefix(f, "writes:")
					n := 0
					for _, ac := range a.accesses(g[0] + "." + f) {
						e, ok := ent[ac.fn]
						if !ok || writes && !ac.write {
							continue
						}
						n++
						h := heldAt(a.fns[ac.fn].at[ac.ins], e)
						if len(a.fns[ac.fn].at[ac.ins]) == 0 {
							continue // never runs
						}
						switch m := h[ac.base+"."+g[1]]; {
						case m == 0:
							r.fail(ac.ins.Pos(), r.p.Name(ac.fn), ac.what+" "+g[0]+"."+f+" without holding "+g[1], nil)
						case m == 'R' && ac.write:
							r.fail(ac.ins.Pos(), r.p.Name(ac.fn), ac.what+" "+g[0]+"."+f+" with "+g[1]+" only read-locked", nil)
						}
					}
					r.need(n, 1, "accesses of "+g[0]+"."+f)
					r.insts += n
				}
			}
		})

	rule("locks.copied", "C32", "no value with a lock in it is copied",
		func(r *R) {
			has := map[types.Type]bool{}
			var lock func(t types.Type, d int) bool
			lock = func(t types.Type, d int) bool {
				if b, ok := has[t]; ok || d > 12 {
					return b
				}
				has[t] = false
				res := false
				if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
					switch n.Obj().Name() {
					case "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "Pool", "Map":
						res = true
					}
				}
				if !res {
					switch u := t.Underlying().(type) {
					case *types.Struct:
						for i := 0; i < u.NumFields(); i++ {
							res = res || lock(u.Field(i).Type(), d+1)
						}
					case *types.Array:
						res = lock(u.Elem(), d+1)
					}
				}
				has[t] = res
				return res
			}
			for _, fn := range r.p.All {
				for _, p := range fn.Params {
					r.insts++
					if lock(p.Type(), 0) {
						r.fail(p.Pos(), r.p.Name(fn), "the parameter "+p.Name()+" is a copy of a "+typeName(p.Type())+", which has a lock in it", nil)
					}
				}
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						u, ok := ins.(*ssa.UnOp)
						if !ok || u.Op != token.MUL || !lock(u.Type(), 0) || unused(u.X) {
							continue
						}
						r.insts++
						r.fail(u.Pos(), r.p.Name(fn), "copies a "+typeName(u.Type())+", which has a lock in it", nil)
					}
				}
			}
		})

	rule("locks.atomic", "C32", "variables which are accessed with atomic operations are accessed with them only",
		func(r *R) {
			a := r.p.locks(&R{p: r.p, rule: r.rule})
			ent := a.entries()
			at := map[string]bool{}
			for _, fn := range r.p.All {
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						if f := atomicField(ins); f != "" {
							at[f] = true
						}
					}
				}
			}
			// counters which are only read or reset while nobody changes them
			mixed := map[string]bool{"producerNode.byteCount": true, "producerNode.produceCnt": true, "stateStorePartition.byteCount": true, "stateStorePartition.count": true}
			var fs []string
			for f := range at {
				if mixed[f] {
					continue
				}
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				for _, ac := range a.accesses(f) {
					if _, ok := ent[ac.fn]; !ok {
						continue
					}
					r.insts++
					if atomicField(ac.ins) != f {
						r.fail(ac.ins.Pos(), r.p.Name(ac.fn), ac.what+" "+f+" without an atomic operation", nil)
					}
				}
			}
			r.note("%s", strings.Join(fs, ", "))
			r.need(len(fs), 1, "fields with atomic accesses")
		})
}

func atomicField(ins ssa.Instruction) string {
	c, ok := ins.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	f, ok := c.Common().Value.(*ssa.Function)
	if !ok || f.Object() == nil || f.Object().Pkg() == nil || f.Object().Pkg().Path() != "sync/atomic" || len(c.Common().Args) == 0 {
		return ""
	}
	if fa, ok := c.Common().Args[0].(*ssa.FieldAddr); ok && f.Signature.Recv() == nil {
		_, n := fieldVar(fa.X.Type(), fa.Field)
		return n
	}
	return ""
}

// unused: a variable which only is initialised and then copied (a composite literal).
func unused(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		switch x := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Store:
		case *ssa.FieldAddr:
			for _, w := range *x.Referrers() {
				if s, ok := w.(*ssa.Store); !ok || s.Addr != x {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
