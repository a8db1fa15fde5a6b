package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func offers(n *Node, ch string) bool {
	for _, a := range n.E.Alts {
		if !a.Send && globs(ch, a.Ch.String()) {
			return true
		}
	}
	return false
}

func init() {
	rule("worker.live", "C07 C08 C10 C14",
		"the loops of a worker wait for every source of work at once; what they receive is scheduled unless the partition was revoked, and refused once it was; the next expected offset is the one after the record being processed",
		func(r *R) {
			g := r.gs("partitionWorker.pushRecords")
			recs := "recv($0.partitionInput)"
			done := "call:context.Context.Done($0.runStatus.ctx)"
			running := "call:context.Context.Err($0.runStatus.ctx)==nil || call:sak.RunStatus.Running($0.runStatus)"
			queue := sendX("$0.interjectionEventInput")
			sel := kind(KSel)
			r.need(len(g.Find(recvX("$0.partitionInput"))), 1, "receipt of records")
			r.need(len(g.Find(recvX("$0.interjectionInput"))), 1, "receipts of interjections")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if e.K == KFork {
					return dead, ""
				}
				if s.has("rec") && (sel(n) || e.K == KRecv || e.K == KReturn) {
					return s, "fetched records are dropped although the partition was not revoked"
				}
				if s.has("ij") && (sel(n) || e.K == KRecv || e.K == KReturn) {
					return s, "an interjection is dropped although the partition was not revoked"
				}
				if c, _, ok := loopBranch(n); ok && c == recs {
					s = s.del("rec")
				}
				if sel(n) && e.Block {
					if offers(n, "$0.partitionInput") && !offers(n, "$0.interjectionInput") {
						return s, "interjections wait until the next record arrives"
					}
					if offers(n, "$0.partitionInput") && !offers(n, done) {
						return s, "an idle worker does not notice that its partition was revoked"
					}
				}
				switch {
				case e.K == KBranch && globs(running, e.X.String()):
					if e.Val {
						s = s.set("run", "1")
					} else {
						s = s.set("run", "0").del("rec")
						if s.has("ij") {
							s = s.del("ij").add("refuse")
						}
					}
				case recvX("$0.partitionInput")(n):
					s = s.del("run").add("rec")
				case recvX("$0.interjectionInput")(n):
					s = s.del("run").add("ij")
					if len(e.Alts) < 2 && e.Block {
						return s, "scheduling records waits for an interjection"
					}
				case queue(n):
					if s.has("refuse") || s.get("run") != "1" {
						return s, "an interjection is queued without asking whether the partition was revoked: it would never be answered"
					}
					s = s.del("ij")
				case dyn("interjection.callback")(n):
					if s.get("run") == "1" {
						return s, "an interjection is refused although the partition was not revoked"
					}
				case sel(n), e.K == KReturn:
					s = s.del("refuse")
				case sendX("$0.stopSignal")(n):
					if s.has("stop") {
						return s, "the worker is told to stop twice, the second time it is gone"
					}
					s = s.add("stop")
				}
				return s, ""
			})
			// a batch of records does not keep interjections waiting
			poll := func(n *Node) bool { return n.E.K == KSel && n.E.Name == "" && offers(n, "$0.interjectionInput") }
			r.ForEach(g, "while a batch of records is scheduled interjections are starved", recs, poll, 1, 9)
			// the worker
			w := r.gs("partitionWorker.work")
			evs, ijs, jobs, stop, revoked := "$0.eventInput", "$0.interjectionEventInput", "$0.asyncCompleter.asyncJobs", "$0.stopSignal", "$0.revokedSignal"
			n := 0
			r.Auto(w, "", func(s St, x *Node) (St, string) {
				e := x.E
				if e.K == KFork {
					return dead, ""
				}
				if recvX(stop)(x) {
					s = s.add("stop")
				}
				if call("sync.WaitGroup.Wait", "$0.revocationWaiter")(x) {
					return s, "the worker itself waits for its pending events, which need the worker to complete"
				}
				if e.K == KSel && e.Block && (offers(x, evs) || offers(x, ijs) || offers(x, stop) || offers(x, revoked)) {
					n++
					switch {
					case !offers(x, jobs):
						return s, "an idle worker does not handle asynchronous completions"
					case !offers(x, evs):
						return s, "a worker waits without accepting events"
					case !offers(x, ijs):
						return s, "a worker waits without accepting interjections"
					case !s.has("stop") && !offers(x, stop):
						return s, "an idle worker does not notice that it has to stop"
					case s.has("stop") && !offers(x, revoked):
						return s, "a stopping worker does not notice that its events are done"
					}
				}
				return s, ""
			})
			r.need(n, 1, "waiting of the worker")
			r.Every(w, "the next expected offset is neither the resume position nor the one after the record being processed", store("partitionWorker.highestOffset"), 1, func(x *Node) bool {
				v := x.E.V.String()
				return strings.HasPrefix(v, "$3.watermarks[") || v == "-1" || v == "0" || globs("recv($0.eventInput).input.kRecord.Offset+1", v)
			})
			// callbacks are optional
			for _, x := range []*Graph{g, w} {
				r.Auto(x, "", func(s St, n *Node) (St, string) {
					if n.E.K == KFork {
						return dead, ""
					}
					if isnil, ok := isNilOf(n, "*.callback"); ok && !isnil {
						return s.add("cb"), ""
					}
					if dyn("interjection.callback")(n) {
						if !s.has("cb") {
							return s, "the callback of an interjection which has none is called"
						}
						return s.del("cb"), ""
					}
					if n.E.K == KSel || n.E.K == KRecv {
						return s.del("cb"), ""
					}
					return s, ""
				})
			}
			r.insts += n + 6
		})

	rule("wiring.channels", "C43 C08 C07 C10 C12 C11",
		"a channel kept in a struct is created with the struct, somebody sends to or closes every such channel that is received from, and somebody receives from those which are sent to",
		func(r *R) {
			fields := chanFields(r.p)
			if len(fields) < 10 {
				r.fatal("only %d channels are kept in structs", len(fields))
			}
			var names []string
			for k := range fields {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				f := fields[k]
				r.insts++
				if f.recv != nil && !f.fed && !f.escapes {
					r.fail(f.recv.Pos(), r.p.Name(f.recv.Parent()), fmt.Sprintf("%s is received from, but nobody sends to it or closes it", k), nil)
				}
				if f.send != nil && !f.read && !f.escapes {
					r.fail(f.send.Pos(), r.p.Name(f.send.Parent()), fmt.Sprintf("%s is sent to, but nobody receives from it", k), nil)
				}
				if f.assigned || f.recv == nil && f.send == nil && f.closed == nil {
					continue
				}
				for _, a := range f.unset {
					if strings.HasPrefix(r.p.Name(a.Parent()), "Mock") { // contexts for the tests of an application
						continue
					}
					r.fail(a.Pos(), r.p.Name(a.Parent()), fmt.Sprintf("%s is never created: every use of it waits forever", k), nil)
				}
			}
		})
}

type chanField struct {
	recv, send, closed ssa.Instruction
	fed, read          bool
	assigned           bool // set outside of the construction of a new struct
	escapes            bool // its channel is handed to somebody else, or comes from somebody else
	unset              []*ssa.Alloc
}

// chanFields: how the channels kept in structs of the program are used.
func chanFields(p *Prog) map[string]*chanField {
	out := map[string]*chanField{}
	get := func(k string) *chanField {
		if out[k] == nil {
			out[k] = &chanField{}
		}
		return out[k]
	}
	own := func(v *types.Var) bool {
		for _, pk := range p.TPkgs {
			if pk.Types == v.Pkg() {
				return true
			}
		}
		return false
	}
	isChan := func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
	var val func(f *chanField, v ssa.Value, seen map[ssa.Value]bool)
	val = func(f *chanField, v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch y := u.(type) {
			case *ssa.DebugRef, *ssa.BinOp:
			case *ssa.UnOp:
				f.recv, f.read = y, true
			case *ssa.Range:
				f.recv, f.read = y, true
			case *ssa.Send:
				if y.Chan == v {
					f.send, f.fed = y, true
				} else {
					f.escapes = true
				}
			case *ssa.Select:
				for _, st := range y.States {
					if st.Send == v {
						f.escapes = true
					}
					if st.Chan != v {
						continue
					}
					if st.Dir == types.SendOnly {
						f.send, f.fed = y, true
					} else {
						f.recv, f.read = y, true
					}
				}
			case *ssa.Phi:
				val(f, y, seen)
			case *ssa.ChangeType:
				val(f, y, seen)
			case *ssa.Call, *ssa.Defer, *ssa.Go:
				com := y.(ssa.CallInstruction).Common()
				if b, ok := com.Value.(*ssa.Builtin); ok {
					if b.Name() == "close" {
						f.closed, f.fed = u, true
					}
					continue
				}
				f.escapes = true
			default:
				f.escapes = true
			}
		}
	}
	for _, fn := range p.All {
		fresh := map[*ssa.Alloc]map[int]bool{}
		whole := map[*ssa.Alloc]bool{}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					fv, name := fieldVar(x.X.Type(), x.Field)
					if a, ok := x.X.(*ssa.Alloc); ok {
						if fresh[a] == nil {
							fresh[a] = map[int]bool{}
						}
						for _, u := range *x.Referrers() {
							if st, ok := u.(*ssa.Store); ok && st.Addr == x {
								fresh[a][x.Field] = true
							}
						}
					}
					if fv == nil || !isChan(fv.Type()) || !own(fv) {
						continue
					}
					f := get(name)
					for _, u := range *x.Referrers() {
						switch y := u.(type) {
						case *ssa.DebugRef:
						case *ssa.UnOp:
							val(f, y, map[ssa.Value]bool{})
						case *ssa.Store:
							if y.Addr != x {
								f.escapes = true
							} else {
								if _, ok := y.Val.(*ssa.MakeChan); !ok {
									if c, isc := y.Val.(*ssa.Const); !isc || !c.IsNil() {
										f.escapes = true
									}
								} else if k := usesOf(y.Val); k > 1 {
									f.escapes = true
								}
								if _, ok := x.X.(*ssa.Alloc); !ok {
									f.assigned = true
								}
							}
						default:
							f.escapes = true
						}
					}
				case *ssa.Field:
					if fv, name := fieldVar(x.X.Type(), x.Field); fv != nil && isChan(fv.Type()) && own(fv) {
						val(get(name), x, map[ssa.Value]bool{})
					}
				case *ssa.Store:
					if a, ok := x.Addr.(*ssa.Alloc); ok {
						whole[a] = true
					}
				}
			}
		}
		for a, set := range fresh {
			if whole[a] || len(set) == 0 {
				continue
			}
			st, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if isChan(st.Field(i).Type()) && own(st.Field(i)) && !set[i] {
					_, name := fieldVar(a.Type(), i)
					f := get(name)
					f.unset = append(f.unset, a)
				}
			}
		}
	}
	return out
}

func usesOf(v ssa.Value) int {
	n := 0
	for _, u := range *v.Referrers() {
		if _, ok := u.(*ssa.DebugRef); !ok {
			n++
		}
	}
	return n
}

func init() {
	rule("index.range", "C12 C43",
		"an index which runs over one slice of a struct is not used for another one, which may be shorter",
		func(r *R) {
			loops := 0
			for _, fn := range r.p.All {
				for _, b := range fn.Blocks {
					iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					cmp, ok := iff.Cond.(*ssa.BinOp)
					if !ok || cmp.Op.String() != "<" {
						continue
					}
					y := lenOf(cmp.Y)
					fy := fieldOfLoad(y)
					if fy == "" {
						continue
					}
					loops++
					for _, u := range *cmp.X.Referrers() {
						ix, ok := u.(*ssa.IndexAddr)
						if !ok || !b.Succs[0].Dominates(ix.Block()) {
							continue
						}
						if fx := fieldOfLoad(ix.X); fx != "" && fx != fy {
							r.fail(ix.Pos(), r.p.Name(fn), fmt.Sprintf("%s is indexed up to the length of %s", fx, fy), nil)
						}
					}
				}
			}
			r.need(loops, 1, "loops over a slice of a struct")
			r.insts += loops
		})
}

func lenOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return nil
	}
	return c.Call.Args[0]
}

// fieldOfLoad: v is the value of a field ("Type.field").
func fieldOfLoad(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if f, ok := x.X.(*ssa.FieldAddr); ok {
			_, name := fieldVar(f.X.Type(), f.Field)
			return name
		}
	case *ssa.Field:
		_, name := fieldVar(x.X.Type(), x.Field)
		return name
	}
	return ""
}

// timers: the timer kept in a field is stopped only when there is one, and not forgotten while it runs.
func (r *R) timers(g *Graph, field, what string) {
	stop := call("time.Timer.Stop || time.Timer.Reset")
	r.need(len(g.Find(stop)), 1, "stopping the timer of "+what)
	r.insts += len(g.Find(stop))
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		if n.E.K == KFork {
			return "", ""
		}
		switch {
		case n.E.K == KBranch && strings.HasSuffix(n.E.X.String(), "."+field+"==nil"):
			if n.E.Val {
				return "nil", ""
			}
			return "some", ""
		case stop(n):
			if !s.has("some") && !s.has("stopped") {
				return s, "the timer of " + what + " which has none is stopped"
			}
			if s.has("pend") {
				return "nil", ""
			}
			return s.add("stopped"), ""
		case n.E.K == KStore && strings.HasSuffix(n.E.R.String(), "."+field):
			if s.has("pend") {
				return s, "the timer of " + what + " is forgotten but still running"
			}
			if n.E.V.String() != "nil" {
				return "some", ""
			}
			if s.has("some") && !s.has("stopped") {
				return s.add("pend"), "" // it has to be stopped from now on
			}
			if !s.has("stopped") && !s.has("nil") {
				return s, "the timer of " + what + " is forgotten but still running"
			}
			return "nil", ""
		case n.E.K == KReturn && s.has("pend"):
			return s, "the timer of " + what + " is forgotten but still running"
		}
		return s, ""
	})
}
