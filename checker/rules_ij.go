package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isPtrType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// elements: what is put into the collection m, by append or by index.
func elements(g *Graph, m string) []string {
	seen := map[string]bool{}
	for _, n := range g.Nodes {
		switch {
		case call("builtin.append")(n) && len(n.E.A) == 2 && n.E.A[0].String() == m && n.E.A[1].Op == "list":
			for _, a := range n.E.A[1].A {
				seen[a.String()] = true
			}
		case n.E.K == KStore && (n.E.R.String() == "elem("+m+")" || strings.HasPrefix(n.E.R.String(), m+"[")):
			seen[n.E.V.String()] = true
		}
	}
	var out []string
	for s := range seen {
		out = append(out, s)
	}
	return out
}

// Interjections: interjection.go, interject and forEachChangeLogPartition* of source_consumer.go (C14).

// span: an interval linear in named parameters and 1: name -> [lo,hi].
type span map[string][2]float64

func (s span) pure() (lo, hi float64, ok bool) {
	for k := range s {
		if k != "1" && s[k] != [2]float64{} {
			return 0, 0, false
		}
	}
	return s["1"][0], s["1"][1], true
}

func (s span) scale(lo, hi float64) span {
	o := span{}
	for k, v := range s {
		a, b := v[0], v[1]
		ps := []float64{a * lo, a * hi, b * lo, b * hi}
		mn, mx := ps[0], ps[0]
		for _, p := range ps {
			if p < mn {
				mn = p
			}
			if p > mx {
				mx = p
			}
		}
		o[k] = [2]float64{mn, mx}
	}
	return o
}

func (s span) plus(t span) span {
	o := span{}
	for k, v := range s {
		o[k] = v
	}
	for k, v := range t {
		o[k] = [2]float64{o[k][0] + v[0], o[k][1] + v[1]}
	}
	return o
}

// spanOf evaluates x over intervals; par names the parameters (assumed not negative).
func spanOf(x *X, par map[string]string) (span, bool) {
	if p := par[x.String()]; p != "" {
		return span{p: {1, 1}}, true
	}
	switch x.Op {
	case "const":
		var f float64
		if x.Int != nil {
			fmt.Sscan(x.Int.String(), &f)
			return span{"1": {f, f}}, true
		}
		if _, err := fmt.Sscan(x.S, &f); err == nil {
			return span{"1": {f, f}}, true
		}
	case "lin":
		o := span{}
		for i, t := range x.A {
			v, ok := spanOf(t, par)
			if !ok {
				return nil, false
			}
			c := float64(coefs(x)[i])
			o = o.plus(v.scale(c, c))
		}
		if x.Int != nil {
			var f float64
			fmt.Sscan(x.Int.String(), &f)
			o = o.plus(span{"1": {f, f}})
		}
		return o, true
	case "bin":
		a, ok1 := spanOf(x.A[0], par)
		b, ok2 := spanOf(x.A[1], par)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch x.S {
		case "+":
			return a.plus(b), true
		case "-":
			return a.plus(b.scale(-1, -1)), true
		case "*":
			if lo, hi, ok := b.pure(); ok {
				return a.scale(lo, hi), true
			}
			if lo, hi, ok := a.pure(); ok {
				return b.scale(lo, hi), true
			}
		case "/":
			if lo, hi, ok := b.pure(); ok && lo == hi && lo != 0 {
				return a.scale(1/lo, 1/lo), true
			}
		}
	case "un":
		if v, ok := spanOf(x.A[0], par); ok && x.S == "-" {
			return v.scale(-1, -1), true
		}
	case "call":
		s := x.String()
		if globs("call:*.Float64() || call:*.Float32()", s) {
			return span{"1": {0, 1}}, true
		}
		if strings.HasPrefix(s, "call:rand.Int") && len(x.A) == 1 {
			if v, ok := spanOf(x.A[0], par); ok {
				o := span{}
				for k, w := range v {
					o[k] = [2]float64{0, w[1]}
				}
				return o, true
			}
		}
	}
	return nil, false
}

func init() {
	rule("interjection.schedule", "C14",
		"a scheduled interjection arms exactly one timer unless it is one-off or cancelled, with a delay of the interval plus or minus at most the jitter; its timer delivers it once, or ends when it is cancelled; cancelling never blocks",
		func(r *R) {
			g := r.g("interjection.tick")
			arm := call("time.AfterFunc")
			r.Guard2(g, "arming the timer of a scheduled interjection", arm, kind(KReturn),
				[]Atom{at("oneoff", "$0.isOneOff"), at("cancelled", "$0.cancelled")},
				func(v V) int { return b2m(!v["oneoff"] && !v["cancelled"]) })
			par := map[string]string{"$0.every": "E", "$0.jitter": "J"}
			pos, neg := false, false
			r.Every(g, "the delay of a scheduled interjection is not the interval plus or minus at most the jitter", arm, 1, func(n *Node) bool {
				d, ok := spanOf(n.E.A[0], par)
				if !ok {
					return false
				}
				const eps = 1e-6
				if d["J"][1] > eps {
					pos = true
				}
				if d["J"][0] < -eps {
					neg = true
				}
				return d["E"] == [2]float64{1, 1} && d["J"][0] >= -1-eps && d["J"][1] <= 1+eps && d["1"] == [2]float64{}
			})
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if n.E.K == KBranch && n.E.X.String() == "$0.jitter==0" {
					return s.set("j", b01(!n.E.Val)), ""
				}
				if arm(n) && s.get("j") == "1" {
					if d, ok := spanOf(n.E.A[0], par); ok && d["J"] == [2]float64{} {
						return s, "the delay of a scheduled interjection is not varied by its jitter"
					}
				}
				return s, ""
			})
			if !pos || !neg {
				r.fail(r.fn("interjection.tick").Pos(), "interjection.tick", "the jitter does not vary the delay in both directions", nil)
			}
			// the timer can be stopped
			r.Follow(g, "the timer of a scheduled interjection cannot be stopped when it is cancelled", arm,
				func(n *Node) bool {
					return n.E.K == KStore && n.E.R.String() == "$0.timer" && strings.HasPrefix(n.E.V.String(), "call:time.AfterFunc(")
				}, kind(KReturn))
			// the goroutine of the timer
			snd, stop := sendX("$0.interjectChannel"), recvX("$0.cancelSignal")
			r.need(sites(g.Find(snd)), 1, "delivery of a scheduled interjection")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				switch {
				case n.E.K == KFork:
					return "in", ""
				case s == "":
					if snd(n) {
						return s, "a scheduled interjection is delivered without waiting for its timer"
					}
				case n.E.K == KSend:
					if !snd(n) || n.E.V.String() != "$0" {
						return s, "another interjection is delivered, or to another partition"
					}
					if s != "in" {
						return s, "a scheduled interjection is delivered twice or after it was cancelled"
					}
					if n.E.Block && !func() bool {
						for _, a := range n.E.Alts {
							if globs("$0.cancelSignal", a.Ch.String()) {
								return true
							}
						}
						return false
					}() {
						return s, "the timer of a cancelled interjection waits for the stopped worker for ever"
					}
					return "sent", ""
				case stop(n):
					return "can", ""
				case n.E.K == KFEnd && s == "in":
					return s, "the timer of a scheduled interjection ends without delivering it"
				}
				return s, ""
			})
			r.insts += 4
			// initialisation
			in := r.gs("interjection.init")
			r.Every(in, "the cancellation signal of an interjection could block the worker", store("interjection.cancelSignal"), 1, func(n *Node) bool {
				return chanCap(n.E.V) >= 1
			})
			r.Every(in, "a scheduled interjection is delivered to another worker", store("interjection.interjectChannel"), 1, func(n *Node) bool {
				return n.E.R.String() == "$0.interjectChannel" && n.E.V.String() == "$2"
			})
			r.Every(in, "a scheduled interjection belongs to another partition", store("interjection.topicPartition"), 1, func(n *Node) bool {
				return n.E.R.String() == "$0.topicPartition" && n.E.V.String() == "$1"
			})
			first := branch("onceDone:*", true)
			for _, f := range []string{"cancelSignal", "interjectChannel", "topicPartition"} {
				r.Times(in, "an interjection is not completely initialised ("+f+")", or(store("interjection."+f), first), 1, 1, nil, nil)
			}
			// cancellation
			c := r.gs("interjection.cancel")
			sig := or(sendX("$0.cancelSignal"), closeX("$0.cancelSignal"))
			r.Times(c, "cancelling an interjection does not mark it as cancelled", or(store("interjection.cancelled", "true"), first), 1, 9, nil, nil)
			r.Times(c, "cancelling an interjection does not signal its timer exactly once", or(sig, first), 1, 1, nil, nil)
			r.Times(c, "the timer of a cancelled interjection is not stopped", or(call("time.Timer.Stop", "$0.timer"), first, branch("$0.timer==nil", true)), 1, 9, nil, nil)
			for _, n := range in.Find(call("sync.Once.Do")) {
				for _, m := range c.Find(call("sync.Once.Do")) {
					if arg(n, 0) == arg(m, 0) {
						r.failN(c, m, "an initialised interjection can not be cancelled any more", nil)
					}
				}
			}
			r.Precede(c, "the cancellation signal may be sent twice, which blocks the worker", call("sync.Once.Do", "$0.cancelOnce"), sig, nil)
			r.Confined("an interjection is cancelled or revived elsewhere", "interjection.cancelled", "interjection.cancel", true, false, 1)
			r.Confined("the interval of an interjection changes", "interjection.every || interjection.jitter", "EventSource.ScheduleInterjection", true, false, 1)
			// every worker has its own copies
			w := r.gs("partitionWorker.work")
			r.Every(w, "the scheduled interjections are shared between partitions", call("interjection.init"), 1, func(n *Node) bool {
				return !strings.Contains(strings.ReplaceAll(arg(n, 0), "len($1)", ""), "$") && arg(n, 1) == "$0.topicPartition" && arg(n, 2) == "$0.interjectionInput"
			})
			r.Never(w, "the scheduled interjections are shared between partitions", func(n *Node) bool {
				if n.E.K != KStore || !globs("elem(make:*) || acc:*", n.E.R.String()) || !globs("elem($1) || $1[*]", n.E.V.String()) {
					return false
				}
				st, ok := n.E.Ins.(*ssa.Store)
				return ok && isPtrType(st.Val.Type())
			})
			tok := r.Loop(w, "tick", "make:[]T(len($1),len($1)) || $1 || mu(make:[]T(0,len($1))*", call("interjection.tick"), 1, 1, 1)
			tok2 := r.Loop(w, "init", "make:[]T(len($1),len($1)) || $1 || mu(make:[]T(0,len($1))*", call("interjection.init"), 1, 1, 1)
			main := recv("partitionWorker.eventInput || partitionWorker.interjectionEventInput || partitionWorker.stopSignal")
			r.Auto(w, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if s.has("end") {
					return dead, ""
				}
				s = tok.step(s, n)
				s = tok2.step(s, n)
				if call("interjection.tick")(n) && s.get("init") != "1" && s.get("init") != "done" && !main(n) {
					return s, "a scheduled interjection is armed before it is initialised"
				}
				if main(n) {
					if s.get("tick") != "done" || s.get("init") != "done" {
						return s, "not every scheduled interjection is armed exactly once when the partition becomes active"
					}
					return "end", ""
				}
				return s, ""
			})
			// registration
			reg := r.gs("EventSource.ScheduleInterjection")
			add := func(n *Node) bool { return n.E.K == KStore && n.E.R.String() == "$0.interjections" }
			r.Every(reg, "a scheduled interjection is registered with another function, interval or jitter", add, 1, func(n *Node) bool {
				s := n.E.V.String()
				return strings.HasPrefix(s, "append($0.interjections,") && strings.Contains(s, "every=$2") && strings.Contains(s, "jitter=$3") && strings.Contains(s, "interjector=$1") && !strings.Contains(s, "isOneOff=true")
			})
			r.Times(reg, "a scheduled interjection is not registered exactly once", add, 1, 1, nil, nil)
			r.Every(r.gs("newPartitionWorker"), "a worker does not run the scheduled interjections of its event source", goEv("partitionWorker.work"), 1, func(n *Node) bool {
				return arg(n, 1) == "$0.interjections" || arg(n, 1) == "$0.consumer.source.interjections" || strings.HasSuffix(arg(n, 1), ".interjections")
			})
			// the interjector receives the context
			r.Every(w, "the interjector does not receive its event context", dyn("interjection.interjector"), 1, func(n *Node) bool {
				return strings.HasSuffix(arg(n, 0), "recv($0.interjectionEventInput)")
			})
		})

	rule("interjection.oneoff", "C14",
		"Interject: the answer channel has room for the answer; without an active worker the answer is ErrPartitionNotAssigned; otherwise the interjection is handed to the worker, or refused once the worker halts; the interjector runs before the channel is closed",
		func(r *R) {
			g := r.gs("eventSourceConsumer.interject")
			var ch string
			r.Every(g, "the answer channel of an interjection blocks its sender", kind(KReturn), 1, func(n *Node) bool {
				if len(n.E.A) != 1 || chanCap(n.E.A[0]) < 1 {
					return false
				}
				ch = n.E.A[0].String()
				return true
			})
			w := "$0.workers[$1]"
			hand := send("partitionWorker.interjectionInput")
			r.need(sites(g.Find(hand)), 1, "hand-over of a one-off interjection")
			answer := func(n *Node) bool { return n.E.K == KSend && n.E.X.String() == ch }
			ready := at("inactive", "call:atomic.LoadInt64("+w+".ready)==0")
			refuse := or(answer, hand)
			r.Guard(g, "handing a one-off interjection to the worker", nil, or(hand, recvX("call:context.Context.Done("+w+".runStatus.ctx)")), nil,
				[]Atom{at("none", w+"==nil", "!has($0.workers,$1)"), ready}, func(v V) int { return b2m(!v["none"] && !v["inactive"]) })
			r.Times(g, "a one-off interjection is not either accepted or refused exactly once", refuse, 1, 1, nil, nil)
			r.Every(g, "a refused interjection is answered with another error", answer, 1, func(n *Node) bool { return n.E.V.String() == "ErrPartitionNotAssigned" })
			r.Every(g, "a one-off interjection could wait for a revoked partition for ever, or is given to another worker", hand, 1, func(n *Node) bool {
				if n.E.X.String() != w+".interjectionInput" {
					return false
				}
				for _, a := range n.E.Alts {
					if a.Ch.String() == "call:context.Context.Done("+w+".runStatus.ctx)" {
						return true
					}
				}
				return !n.E.Block
			})
			// what is handed over: one-off, of this partition, with both closures
			r.Every(g, "a one-off interjection is incomplete", hand, 1, func(n *Node) bool {
				ob := n.E.V
				f := func(k string) string { return ob.FS(k) }
				return f("isOneOff") == "true" && strings.HasPrefix(f("interjector"), "closure:") && strings.HasPrefix(f("callback"), "closure:")
			})
			// the closures of the interjection
			var run, cb []string
			for _, n := range g.Find(hand) {
				run = append(run, strings.TrimPrefix(n.E.V.FS("interjector"), "closure:"))
				cb = append(cb, strings.TrimPrefix(n.E.V.FS("callback"), "closure:"))
			}
			isCh := func(x *X) bool { return x.String() == "^c" || strings.HasPrefix(x.String(), "^") || x.String() == ch }
			for _, f := range run {
				h := r.gs(f)
				r.Auto(h, "", func(s St, n *Node) (St, string) {
					switch n.E.K {
					case KDyn:
						if !strings.HasPrefix(n.E.Name, "dyn:^") {
							return s, ""
						}
						if s != "" {
							return s, "the interjector is run twice or after its caller was answered"
						}
						if arg(n, 0) != "$0" || arg(n, 1) != "$1" {
							return s, "the interjector does not receive its event context and time"
						}
						return St("res=call:" + strings.TrimPrefix(n.E.Name, "dyn:") + "($0,$1)"), ""
					case KClose, KSend:
						if !isCh(n.E.X) || n.E.K == KSend && n.E.V.String() != "nil" {
							return s, "the caller of an executed interjection receives an error"
						}
						if s.get("res") == "" {
							return s, "the caller of an interjection is answered before it ran"
						}
						if s.has("ans") {
							return s, "the caller of an interjection is answered twice"
						}
						return s.add("ans"), ""
					case KReturn:
						if s.get("res") == "" {
							return s, "a one-off interjection is answered without running its interjector"
						}
						if !s.has("ans") {
							return s, "the caller of an interjection is never answered"
						}
						if arg(n, 0) != s.get("res") {
							return s, "the state returned by the interjector is dropped"
						}
					}
					return s, ""
				})
				r.insts++
			}
			for _, f := range cb {
				h := r.gs(f)
				ans := func(n *Node) bool {
					return n.E.K == KSend && isCh(n.E.X) && n.E.V.String() == "ErrPartitionNotAssigned"
				}
				r.Times(h, "the caller of a rejected interjection is not told that the partition is not assigned", ans, 1, 1, nil, nil)
				r.Never(h, "the caller of a rejected interjection is told that it ran", func(n *Node) bool { return n.E.K == KSend && !ans(n) })
			}
			// a worker is active only between the restoration and the revocation
			a := r.gs("partitionWorker.canInterject")
			r.Every(a, "an interjection is accepted before the partition is active", kind(KReturn), 1, func(n *Node) bool {
				s := arg(n, 0)
				return globs("!call:atomic.LoadInt64($0.ready)==0 || call:atomic.LoadInt64($0.ready)==1 || 0<call:atomic.LoadInt64($0.ready) || !call:atomic.LoadInt64($0.ready)<1 || call:atomic.Bool.Load(*", s) || s == "true" || s == "false"
			})
			d := r.gs("EventSource.Interject")
			r.Every(d, "Interject addresses another partition or drops the interjector", call("eventSourceConsumer.interject"), 1, func(n *Node) bool {
				return arg(n, 0) == "$0.consumer" && arg(n, 1) == "$1" && arg(n, 2) == "$2"
			})
			r.Every(d, "Interject returns another channel than the one answered", kind(KReturn), 1, func(n *Node) bool { return chanCap(n.E.A[0]) >= 1 })
		})

	rule("interjection.all", "C14",
		"InterjectAll and InterjectAllSync interject once into every assigned partition and wait for every answer; the synchronous form waits before it continues with the next partition; no lock is held while waiting",
		func(r *R) {
			for _, x := range []struct {
				fn   string
				sync bool
			}{{"EventSource.InterjectAll", false}, {"EventSource.InterjectAllSync", true}} {
				g := r.gn(x.fn, true, "eventSourceConsumer.interject")
				ij := call("eventSourceConsumer.interject", "$0.consumer", "*", "$1")
				r.need(sites(g.Find(ij)), 1, "interjecting into a partition")
				r.Every(g, "the partitions addressed are not those assigned", ij, 1, func(n *Node) bool {
					part := func(s string) bool {
						return s == "key($0.consumer.workers)" || globs("elem(*.workers)*.topicPartition.Partition || $0.consumer.workers[*].topicPartition.Partition", s)
					}
					s := arg(n, 1)
					if part(s) {
						return true
					}
					if !globs("elem(*)", s) {
						return false
					}
					es := elements(g, s[5:len(s)-1])
					for _, e := range es {
						if !part(e) {
							return false
						}
					}
					return len(es) > 0
				})
				ans := func(n *Node) bool {
					return n.E.K == KRecv && (strings.HasPrefix(n.E.X.String(), "call:eventSourceConsumer.interject(") || strings.HasPrefix(n.E.X.String(), "elem("))
				}
				coll := "mu(*) || make:*) || $0.consumer.workers"
				one := r.Loop(g, "ij", coll, ij, 1, 1, 1)
				wait := r.Loop(g, "ans", coll, ans, 1, 1, 1)
				build := r.Loop(g, "ps", "$0.consumer.workers", or(call("builtin.append"), func(n *Node) bool { return n.E.K == KStore && n.E.V.String() == "key($0.consumer.workers)" }), 1, 1, 0)
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					if n.E.K == KFork {
						return s, ""
					}
					s = build.step(s, n)
					s = one.step(s, n)
					s = wait.step(s, n)
					if m := s.loopBad("ps"); m != "" && s.get("ps") != "" {
						return s, "not every assigned partition is addressed: " + m
					}
					if m := s.loopBad("ij"); m != "" && s.get("ij") != "" {
						return s, "not every assigned partition is addressed: " + m
					}
					if m := s.loopBad("ans"); m != "" && s.get("ans") != "" {
						return s, "the answer of a partition is not awaited: " + m
					}
					if ij(n) {
						if x.sync && s.has("open") {
							return s, "InterjectAllSync interjects into the next partition before the previous answered"
						}
						s = s.add("open")
					}
					if ans(n) {
						s = s.del("open")
					}
					if n.E.K == KReturn && n.E.Fr.parent == nil {
						if s.get("ij") != "done" || s.get("ans") != "done" {
							return s, x.fn + " returns before every assigned partition was addressed and answered"
						}
					}
					return s, ""
				})
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					if mu, acq, _, ok := lockOp(n); ok && strings.HasSuffix(mu, ".workerMux") {
						if acq {
							return "L", ""
						}
						return "", ""
					}
					if s == "L" && (ij(n) || ans(n)) {
						return s, "waiting for interjections while the worker lock is held blocks the worker's own revocation"
					}
					return s, ""
				})
				r.insts += 2
			}
		})
}
