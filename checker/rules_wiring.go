package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// strategies: the balancer each strategy stands for.
var strategies = map[string]string{
	"RangeBalanceStrategy":             "call:kgo.RangeBalancer()",
	"RoundRobinBalanceStrategy":        "call:kgo.RoundRobinBalancer()",
	"CooperativeStickyBalanceStrategy": "call:kgo.CooperativeStickyBalancer()",
	"IncrementalBalanceStrategy":       "call:IncrementalRebalancer($0)",
}

func init() {
	rule("wiring.consumer", "C43",
		"the consumer of an event source is assembled from that event source, with one commit log, one Kafka client and the balancers its client uses",
		func(r *R) {
			g := r.gn("newEventSourceConsumer", false, "NewClient", "newEOSProducerPool", "newStateStoreConsumer", "newEosCommitLog", "toGroupBalancers", "EosConfig.validate", "EosConfig.IsZero", "Source.shouldMarkCommit", "sak.NewRunStatus", "sak.RunStatus.Fork", "Source.StateStoreTopicName")
			made := 0
			r.Every(g, "the consumer is not complete, or uses the parts of something else", kind(KReturn), 1, func(n *Node) bool {
				x, err := n.E.A[0], n.E.A[1].String()
				if x.String() == "nil" {
					return err != "nil"
				}
				if err != "nil" && !strings.HasPrefix(err, "call:NewClient(") {
					return false
				}
				made++
				pool := x.F("producerPool")
				if pool == nil || pool.Op != "call" || pool.S != "newEOSProducerPool" || len(pool.A) != 5 {
					return false
				}
				client := x.FS("client")
				return x.FS("ctx") == "$0.runStatus.ctx" && strings.HasPrefix(x.FS("workers"), "make:map") && strings.HasPrefix(x.FS("prepping"), "make:map") &&
					x.FS("eventSource") == "$0" && x.FS("source") == "$0.source" && x.FS("metrics") == "$0.metrics" &&
					strings.HasPrefix(x.FS("commitLog"), "call:newEosCommitLog(") && pool.A[1].String() == x.FS("commitLog") &&
					globs("call:NewClient(*)#0", client) && pool.A[3].String() == client && pool.A[0].String() == "$0.source" &&
					globs("call:newStateStoreConsumer(*,$0.source)", x.FS("stateStoreConsumer"))
			})
			r.need(made, 1, "consumers returned")
			strat := call("toGroupBalancers")
			none := []string{"len($0.source.config.BalanceStrategies)<1", "len($0.source.config.BalanceStrategies)==0"}
			asked := false
			for _, s := range r.FieldSites("EventSourceConfig.BalanceStrategies") {
				if r.p.Name(s.Fn) != "newEventSourceConsumer" && r.reached(s.Fn, "eventSourceConsumer.leave") {
					asked = true
				}
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				for _, c := range none {
					if e.K == KBranch && e.X.String() == c {
						s = s.set("none", b01(e.Val))
					}
				}
				if e.K == KBranch && globs("call:NewClient(*)#1==nil", squash(e.X.String())) {
					s = s.set("ok", b01(e.Val))
				}
				if e.K == KReturn {
					if nil0 := e.A[0].String() == "nil"; nil0 && s.get("ok") == "1" || !nil0 && s.get("ok") != "1" {
						return s, "the consumer is returned exactly when its client could not be created"
					}
				}
				if e.K == KBranch && e.Val && globs("is[IncrementalGroupRebalancer](elem(call:toGroupBalancers(*)))", squash(e.X.String())) {
					s = s.add("inc")
				}
				if e.K == KReturn && e.A[0].String() != "nil" && asked && s.get("none") == "1" && !s.has("kept") {
					return s, "the default balance strategies are unknown to a member which wants to leave"
				}
				switch {
				case store("EventSourceConfig.BalanceStrategies")(n):
					if s.get("none") != "1" || e.V.String() != "DefaultBalanceStrategies" {
						return s, "configured balance strategies are replaced"
					}
					return s.add("kept"), ""
				case strat(n):
					want := "$0.source.config.BalanceStrategies"
					if s.get("none") == "1" {
						want = "DefaultBalanceStrategies"
					} else if s.get("none") == "" {
						return s, "without balance strategies there is no balancer"
					}
					if got := arg(n, 1); got != want {
						return s, "other balance strategies are used than the configured or default ones: " + got
					}
					return s.add("bal"), ""
				case e.K == KStore && e.Field == "eventSourceConsumer.incrBalancer":
					if e.V.isNil() {
						return s.del("set"), ""
					}
					if !s.has("inc") || !globs("elem(call:toGroupBalancers(*))", squash(e.V.String())) {
						return s, "the incremental balancer is not one of the client's balancers"
					}
					return s.add("set"), ""
				case e.K == KReturn:
					if s.has("inc") && !s.has("set") {
						return s, "the incremental balancer of the client is unknown to the consumer, the member can not leave gracefully"
					}
				}
				return s, ""
			})
			r.need(len(g.Find(and(kind(KBranch), func(n *Node) bool { return strings.HasPrefix(n.E.X.String(), "is[IncrementalGroupRebalancer](") }))), 1, "search of the incremental balancer")
			// strategies
			b := r.gn("toGroupBalancers", false, "IncrementalRebalancer")
			app := call("builtin.append")
			r.Auto(b, "", func(s St, n *Node) (St, string) {
				e := n.E
				fin := func() string {
					for name := range strategies {
						if s.has("is"+name) && !s.has("got") {
							return "a balance strategy has no balancer"
						}
					}
					return ""
				}
				if _, more, ok := loopBranch(n); ok {
					if m := fin(); m != "" {
						return s, m
					}
					if more {
						return "in", ""
					}
					return "", ""
				}
				for _, want := range strategies {
					if e.K == KBranch && e.Val && e.X.String() == want+"==nil" {
						return dead, "" // a balancer which was just made
					}
				}
				for name := range strategies {
					if e.K == KBranch && e.X.String() == "elem($1)=="+r.constant(name) {
						if e.Val {
							return s.add("is" + name), ""
						}
						return s.add("no" + name), ""
					}
				}
				if app(n) {
					got := strings.Trim(e.A[1].String(), "[]")
					for name, want := range strategies {
						if got == want {
							if s.has("no"+name) || !s.has("is"+name) && s.has("in") && countPrefix(s, "is") > 0 {
								return s, "a strategy is mapped to another balancer"
							}
							if !s.has("is" + name) {
								return s, "a balancer is used without its strategy"
							}
							return s.add("got"), ""
						}
					}
					return s, "an unknown balancer is used: " + got
				}
				return s, ""
			})
			r.Every(b, "the balancers are not returned", kind(KReturn), 1, func(x *Node) bool {
				v := x.E.A[0].String()
				return strings.Contains(v, "append(") && !strings.HasSuffix(v, "]")
			})
			r.need(len(b.Find(app)), 1, "balancers")
			for name := range strategies {
				c := r.constant(name)
				r.need(len(b.Find(branch("elem($1)=="+c, true))), 1, "test for "+name)
			}
			r.insts += made + 8
		})

	rule("wiring.loops", "C43",
		"each consumer loop hands every fetch on, looks whether its client was closed before it polls again, and ends when it was",
		func(r *R) {
			each := "kgo.Fetches.EachPartition || kgo.Fetches.EachTopic || kgo.Fetches.EachRecord || kgo.Fetches.RecordIter || kgo.Fetches.Records"
			for _, fn := range []string{"eventSourceConsumer.start", "stateStoreConsumer.consume", "GlobalChangeLog.consume"} {
				g := r.gs(fn)
				poll := call("kgo.Client.PollFetches")
				closed := func(val bool) Pred { return branch("call:kgo.Fetches.IsClientClosed(*", val) }
				r.need(len(g.Find(poll)), 1, "polls of "+fn)
				r.need(len(g.Find(call(each))), 1, "fetches handed on by "+fn)
				r.insts += 2
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					if n.E.K == KFork {
						return dead, ""
					}
					switch {
					case poll(n):
						if s.has("polled") && !s.has("asked") {
							return s, "a closed client is polled again and again"
						}
						if s.has("closed") {
							return s, "a closed client is polled again and again"
						}
						if s.has("polled") && !s.has("given") {
							return s, "a fetch is dropped"
						}
						return s.del("asked").del("given").add("polled"), ""
					case closed(true)(n):
						return s.add("asked").add("closed"), ""
					case closed(false)(n):
						return s.add("asked"), ""
					case call(each)(n):
						if !s.has("polled") || s.has("given") {
							return s, "a fetch is handed on twice"
						}
						return s.add("given"), ""
					case call("kgo.Client.Close", "$0.client")(n):
						return s.add("shut"), ""
					case n.E.K == KReturn:
						if fn == "stateStoreConsumer.consume" && !s.has("closed") && !s.has("shut") {
							return s, "the consumer ends and leaves its client running"
						}
						if !s.has("closed") && s.has("polled") && !s.has("given") {
							return s, "a fetch is dropped"
						}
					}
					return s, ""
				})
			}
			if c := r.p.Funcs["GlobalChangeLog.consume"]; c != nil {
				for _, fn := range []string{"eosCommitLog.Start", "GlobalChangeLog.Start"} {
					if st := r.p.Funcs[fn]; st != nil && !r.reached(c, fn) {
						r.fail(st.Pos(), fn, "starting the change log does not consume it", nil)
					}
				}
			}
			// channels which are private to a function
			n := 0
			for _, fn := range r.p.Funcs {
				if fn.Blocks == nil || fn.Parent() != nil {
					continue
				}
				for _, p := range privateChans(fn) {
					n++
					r.insts++
					if p.recv != nil && !p.fed {
						r.fail(p.recv.Pos(), r.p.Name(p.recv.Parent()), fmt.Sprintf("a goroutine waits forever for a channel nobody sends to or closes (created in %s)", r.p.Name(fn)), nil)
					}
					if p.send != nil && !p.read && p.cap == 0 {
						r.fail(p.send.Pos(), r.p.Name(p.send.Parent()), fmt.Sprintf("a goroutine waits forever to send to a channel nobody receives from (created in %s)", r.p.Name(fn)), nil)
					}
				}
			}
			r.need(n, 1, "channels private to a function")
		})
}

func countPrefix(s St, p string) int {
	n := 0
	for name := range strategies {
		if s.has(p + name) {
			n++
		}
	}
	return n
}

type privateChan struct {
	recv, send ssa.Instruction
	fed, read  bool
	cap        int64
}

// privateChans: the channels made in fn (or its literals) which never leave them.
func privateChans(fn *ssa.Function) []*privateChan {
	var out []*privateChan
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if m, ok := ins.(*ssa.MakeChan); ok {
					p := &privateChan{}
					if c, ok := m.Size.(*ssa.Const); ok && c.Value != nil {
						p.cap = c.Int64()
					} else {
						p.cap = 1
					}
					if p.uses(m, map[ssa.Value]bool{}) {
						out = append(out, p)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	scan(fn)
	return out
}

// uses: collects the uses of the channel (or of a variable holding it); false when it escapes.
func (p *privateChan) uses(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	_, isVar := v.Type().Underlying().(*types.Pointer)
	for _, ref := range *v.Referrers() {
		switch y := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if isVar {
				if !p.uses(y, seen) {
					return false
				}
			} else {
				p.recv, p.read = y, true
			}
		case *ssa.Send:
			if y.X == v {
				return false
			}
			p.send, p.fed = y, true
		case *ssa.Select:
			for _, st := range y.States {
				if st.Send == v {
					return false
				}
				if st.Chan != v {
					continue
				}
				if st.Dir == types.SendOnly {
					p.fed = true
					if y.Blocking && len(y.States) == 1 {
						p.send = y
					}
				} else {
					p.read = true
					if y.Blocking && len(y.States) == 1 {
						p.recv = y
					}
				}
			}
		case *ssa.Store:
			if y.Val == v {
				a, ok := y.Addr.(*ssa.Alloc)
				if !ok || !p.uses(a, seen) {
					return false
				}
			} else if _, ok := y.Val.(*ssa.MakeChan); !ok {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range y.Bindings {
				if b == v && !p.uses(y.Fn.(*ssa.Function).FreeVars[i], seen) {
					return false
				}
			}
		case *ssa.ChangeType:
			if !p.uses(y, seen) {
				return false
			}
		case ssa.CallInstruction:
			b, ok := y.Common().Value.(*ssa.Builtin)
			if !ok {
				return false
			}
			if b.Name() == "close" {
				p.fed = true
			}
		default:
			return false
		}
	}
	return true
}
