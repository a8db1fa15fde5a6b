package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CloseSites: the close(x.field) calls of channels held in the fields.
func (r *R) CloseSites(fields string) []FieldSite {
	var out []FieldSite
	for _, fn := range r.p.All {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var c *ssa.CallCommon
				switch x := ins.(type) {
				case *ssa.Call:
					c = &x.Call
				case *ssa.Defer:
					c = &x.Call
				default:
					continue
				}
				bi, ok := c.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "close" {
					continue
				}
				name := ""
				switch v := c.Args[0].(type) {
				case *ssa.UnOp:
					if fa, ok := v.X.(*ssa.FieldAddr); ok {
						_, name = fieldVar(fa.X.Type(), fa.Field)
					}
				case *ssa.Field:
					_, name = fieldVar(v.X.Type(), v.Field)
				}
				if name != "" && globs(fields, name) {
					out = append(out, FieldSite{Fn: fn, Ins: ins})
				}
			}
		}
	}
	return out
}

const revokedDone = "call:context.Context.Done($0.runStatus.ctx)"

func init() {
	rule("worker.forward", "C08 C06 C07 C01",
		"every event context taken by the forwarding loop either joins the current transaction and is given that very producer, or (its partition revoked) is rejected with a nil producer and taken off the revocation accounting; never both, never neither",
		func(r *R) {
			g := r.gs("eosProducerPool.forwardExecutionContexts")
			ec := "recv($0.buffer)"
			add := call("producerNode.addEventContext", "$0.onDeck", ec)
			give := sendX(ec + ".producerChan")
			done := call("sync.WaitGroup.Done", ec+".revocationWaiter")
			for _, p := range []Pred{add, give, done} {
				r.need(sites(g.Find(p)), 1, "forwarding steps")
				r.insts += sites(g.Find(p))
			}
			fin := func(s St) string {
				if !s.has("T") {
					return ""
				}
				switch {
				case s.get("rev") == "":
					return "an event context is forwarded without checking whether its partition was revoked"
				case s.get("give") == "":
					return "an event context is never given a producer nor rejected, its worker waits forever"
				case s.get("rev") == "1" && s.get("done") == "":
					return "a rejected event stays on the revocation accounting, revoking the partition never finishes"
				case s.get("rev") == "0" && s.get("add") == "":
					return "an event is given a producer without joining its transaction"
				}
				return ""
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if n.E.K == KRecv && !recv("eosProducerPool.producerNodeQueue")(n) || n.E.K == KReturn {
					if m := fin(s); m != "" {
						return s, m
					}
					if recvX("$0.buffer")(n) {
						return "T", ""
					}
					return "", ""
				}
				if !s.has("T") {
					return s, ""
				}
				switch {
				case branch("call:context.Context.Err("+ec+".ctx)==nil", true)(n):
					return s.set("rev", "0"), ""
				case branch("call:context.Context.Err("+ec+".ctx)==nil", false)(n):
					return s.set("rev", "1"), ""
				case add(n):
					if s.get("rev") != "0" {
						return s, "an event of a revoked partition joins a transaction"
					}
					if s.get("add") != "" || s.get("give") != "" {
						return s, "an event joins a transaction twice, or after its worker was told to go on"
					}
					return s.set("add", identOf(n.E.A[0])), ""
				case give(n):
					if s.get("give") != "" {
						return s, "a worker is given two producers for one event"
					}
					if n.E.V.isNil() || n.E.V.String() == "nil" {
						if s.get("rev") != "1" {
							return s, "an event is rejected although its partition is not revoked"
						}
					} else if s.get("add") != identOf(n.E.V) {
						return s, "an event is given another producer than the one whose transaction it joined"
					}
					return s.set("give", "1"), ""
				case done(n):
					if s.get("rev") != "1" || s.get("done") != "" {
						return s, "an event which was not rejected is taken off the revocation accounting"
					}
					return s.set("done", "1"), ""
				}
				return s, ""
			})
			r.CalledFrom("event contexts are forwarded by more than one goroutine, their order is lost", "producerNode.addEventContext", "eosProducerPool.forwardExecutionContexts", true, 1)
			n := r.gn("newEOSProducerPool", true, "newProducerNode", "eosProducerPool.forwardExecutionContexts", "eosProducerPool.commitLoop")
			r.Times(n, "exactly one forwarding loop per pool is started", goEv("eosProducerPool.forwardExecutionContexts"), 1, 1, nil, nil)
			r.Times(n, "exactly one commit loop per pool is started", goEv("eosProducerPool.commitLoop"), 1, 1, nil, nil)
			for _, nm := range []string{"eosProducerPool.forwardExecutionContexts", "eosProducerPool.commitLoop"} {
				for _, c := range r.CallSites(nm) {
					if bad := r.From(c.Fn, "newEOSProducerPool", false); bad != "" || c.Kind != "go" {
						r.fail(c.Ins.Pos(), r.p.Name(c.Fn), "a second "+nm+" is started", nil)
					}
				}
			}
		})

	rule("worker.accounting", "C08",
		"every event is taken off the revocation accounting exactly once when its transaction is committed; a partition is held until its transaction ended",
		func(r *R) {
			g := commitGraph(r)
			wd := func(x string) Pred { return call("sync.WaitGroup.Done", alt("%.revocationWaiter", x)) }
			ch := r.Loop(g, "ch", chainX, wd("mu(elem("+nodeX+".currentPartitions).tail;@.prev) || mu(elem("+nodeX+".currentPartitions).root;@.next)"), 1, 1, 1)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				s = ch.step(s, n)
				if m := s.loopBad("ch"); m != "" && s.get("ch") != "left" { // left: timed out, the transaction is not committed
					return s, "an event is not taken off the revocation accounting exactly once: " + m
				}
				return s, ""
			})
			r.ForEachIf(g, "a partition is not released exactly once after its transaction", nodeX+".currentPartitions",
				wd("elem("+nodeX+".currentPartitions).root || elem("+nodeX+".currentPartitions).tail"), 1, 1)
			r.Precede(g, "a partition can be reassigned before the transaction with its events is committed",
				branch("call:kgo.Client.EndTransaction("+nodeX+".client,*)==nil", true),
				wd("elem("+nodeX+".currentPartitions).root || elem("+nodeX+".currentPartitions).tail"), recvX("$0.commitQueue"))
			a := r.gs("producerNode.addEventContext")
			r.Guard(a, "holding the partition until the transaction ends", nil, call("sync.WaitGroup.Add", "$1.revocationWaiter", "1"), nil,
				[]Atom{at("known", "has($0.currentPartitions,$1.topicPartition.Partition)")},
				func(v V) int { return b2m(!v["known"]) })
			r.Times(a, "the partition is held once per transaction", call("sync.WaitGroup.Add"), 0, 1, nil, nil)
			all := 0
			for _, s := range r.FieldSites("partitionWorker.revocationWaiter || EventContext.revocationWaiter") {
				all++
				if bad := r.From(s.Fn, "partitionWorker.pushRecords || partitionWorker.work || eosProducerPool.forwardExecutionContexts || eosProducerPool.commitLoop", false); bad != "" {
					r.fail(s.Ins.Pos(), r.p.Name(s.Fn), "the revocation accounting is touched elsewhere: "+bad, nil)
				}
			}
			r.need(all, 1, "uses of the revocation accounting")
		})

	rule("worker.stop", "C08 C14 C33",
		"a revoked worker stops its interjections, waits for every accounted event, then closes its queues and rejects the interjection still buffered; it never closes a channel others send on",
		func(r *R) {
			g := r.gs("partitionWorker.pushRecords")
			halt := recvX(revokedDone)
			r.need(sites(g.Find(halt)), 1, "reaction to revocation")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				switch {
				case halt(n):
					return "D", ""
				case sendX("$0.stopSignal")(n) || closeX("$0.stopSignal")(n):
					if !s.has("D") || s.has("sig") {
						return s, "the worker is told to stop although it is not revoked, or twice"
					}
					return s.add("sig"), ""
				case recvX("$0.stopped")(n):
					if !s.has("sig") {
						return s, "the end of the worker is awaited before it was told to stop"
					}
					return s.add("st"), ""
				case n.E.K == KClose:
					if !s.has("st") {
						return s, "a queue of the worker is closed while the worker still runs"
					}
					return s.add(strings.TrimPrefix(n.E.X.String(), "$0.")), ""
				case s.has("st") && (n.E.K == KRecv || n.E.K == KSel) && func() bool {
					for _, a := range n.E.Alts {
						if a.Ch.String() == "$0.interjectionInput" {
							return true
						}
					}
					return recvX("$0.interjectionInput")(n)
				}():
					return s.add("drained"), ""
				case n.E.K == KReturn:
					if !s.has("st") {
						return s, "the scheduling loop ends before the worker stopped"
					}
					if !s.has("drained") {
						return s, "an interjection which is still buffered is never answered"
					}
				}
				return s, ""
			})
			r.insts += 5
			w := r.gs("partitionWorker.work")
			nowait := func(n *Node) bool {
				return recv("partitionWorker.eventInput || partitionWorker.interjectionEventInput")(n) || n.E.K == KReturn
			}
			r.Follow(r.g("partitionWorker.work"), "a revoked worker does not wait for the events it accepted", recvX("$0.stopSignal"), or(goDoes(call("sync.WaitGroup.Wait", "$0.revocationWaiter")), call("sync.WaitGroup.Wait", "$0.revocationWaiter")), nowait)
			cancel := r.Loop(w, "can", "make:[]T(len($1),len($1)) || $1 || mu(make:[]T(0,len($1))*", call("interjection.cancel"), 1, 1, 1)
			r.Auto(w, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if recvX("$0.stopSignal")(n) {
					return "S", ""
				}
				if s.has("S") {
					s = cancel.step(s, n)
					if m := s.loopBad("can"); m != "" && s.get("can") != "" {
						return s, "the scheduled interjections of a revoked partition are not all stopped: " + m
					}
					if recv("partitionWorker.eventInput || partitionWorker.interjectionEventInput || partitionWorker.revokedSignal")(n) {
						if s.get("can") != "done" {
							return s, "the scheduled interjections of a revoked partition are not stopped"
						}
						return "", ""
					}
				}
				return s, ""
			})
			r.Precede(w, "the worker reports its end before all accepted events were accounted for", recvX("$0.revokedSignal"), or(sendX("$0.stopped"), closeX("$0.stopped"), kind(KReturn)), nil)
			r.Follow(w, "the scheduling loop is never told that the worker ended", recvX("$0.revokedSignal"), or(sendX("$0.stopped"), closeX("$0.stopped")), nil)
			r.NotAfter(w, "the worker goes on after reporting its end", or(sendX("$0.stopped"), closeX("$0.stopped")), or(recv("partitionWorker.eventInput"), recv("partitionWorker.interjectionEventInput")), nil)
			f := r.g("partitionWorker.work")
			r.Precede(f, "a worker ends before all accepted events were accounted for", call("sync.WaitGroup.Wait", "$0.revocationWaiter"), sendX("$0.revokedSignal"), nil)
			for _, c := range r.CloseSites("partitionWorker.partitionInput || partitionWorker.interjectionInput || eosProducerPool.buffer || eosProducerPool.commitQueue || eosProducerPool.producerNodeQueue || EventContext.producerChan || EventSource.metrics || interjection.cancelSignal || partitionWorker.maxPending || interjection.interjectChannel") {
				r.fail(c.Ins.Pos(), r.p.Name(c.Fn), "a channel which others still send on is closed", nil)
			}
			// revoking halts exactly the worker of the partition, and forgets it
			v := r.g("eventSourceConsumer.partitionsRevoked")
			el := "elem(elem($2)) || elem(elem($3))"
			_ = el
			r.need(len(v.Find(dyn("sak.RunStatus.cancel"))), 1, "halting of the revoked worker")
			r.ForEach(v, "the worker of a revoked partition is not halted", "elem($3)", func(n *Node) bool {
				return dyn("sak.RunStatus.cancel")(n) && strings.HasPrefix(n.E.Name, "dyn:$0.workers[elem(elem($3))]") || branch("has($0.workers,elem(elem($3)))", false)(n)
			}, 1, 1)
			r.ForEach(v, "the worker of a revoked partition is not forgotten", "elem($3)", func(n *Node) bool {
				return n.E.K == KMapDel && n.E.X.String() == "$0.workers" && n.E.V.String() == "elem(elem($3))" || branch("has($0.workers,elem(elem($3)))", false)(n)
			}, 1, 1)
		})

	rule("worker.start", "C04 C03 C33",
		"while a worker restores, its partition is paused; records, interjections, activation and resumption come only after the resume position is known and the state was restored",
		func(r *R) {
			g := r.g("partitionWorker.work")
			restored := dyn("$2")
			r.need(sites(g.Find(restored)), 1, "waiting for the restored state")
			position := func(n *Node) bool {
				return n.E.K == KStore && n.E.R.String() == "$0.highestOffset" && strings.HasPrefix(n.E.V.String(), "$3.watermarks[") ||
					n.E.K == KStore && n.E.R.String() == "$0.highestOffset" && (n.E.V.String() == "-1" || n.E.V.String() == "0")
			}
			begin := or(goEv("partitionWorker.pushRecords"), call("partitionWorker.pushRecords"), recv("partitionWorker.eventInput"), recv("partitionWorker.interjectionEventInput"),
				setTo("$0.ready", "1"), call("time.AfterFunc"), dyn("EventSourceConfig.OnPartitionActivated"), call("kgo.Client.ResumeFetchPartitions"))
			r.need(sites(g.Find(begin)), 1, "steps which begin processing")
			r.Precede(g, "processing, interjections, activation or fetching begin before the state is restored", restored, begin, nil)
			r.Precede(g, "processing begins before the resume position is known", position, or(goEv("partitionWorker.pushRecords"), recv("partitionWorker.eventInput"), call("kgo.Client.ResumeFetchPartitions")), nil)
			r.Precede(g, "the state is restored without pausing the partition", call("kgo.Client.PauseFetchPartitions"), restored, nil)
			r.Times(g, "a partition is paused and resumed exactly once", call("kgo.Client.PauseFetchPartitions"), 1, 1, nil, recvX("$0.eventInput"))
			r.Times(g, "a restored partition is resumed exactly once", call("kgo.Client.ResumeFetchPartitions"), 1, 1, nil, recvX("$0.eventInput"))
			r.Times(g, "a partition is activated at most once", call("Source.onPartitionActivated"), 0, 1, nil, recvX("$0.eventInput"))
			r.Times(g, "the scheduling loop of a worker is started exactly once", goEv("partitionWorker.pushRecords"), 1, 1, nil, recvX("$0.eventInput"))
			// what is paused and resumed
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if n.E.K == KMapSet && strings.HasPrefix(n.E.X.String(), "make:map[string][]int32") {
					if n.E.A[0].String() == "$0.topicPartition.Topic" && n.E.V.String() == "[$0.topicPartition.Partition]" {
						return St(fmt.Sprintf("ok%p", n.E.X)), ""
					}
					return "other", ""
				}
				if call("kgo.Client.PauseFetchPartitions || kgo.Client.ResumeFetchPartitions")(n) {
					if s != St(fmt.Sprintf("ok%p", n.E.Raw[1])) || arg(n, 0) != "$0.eventSource.consumer.client" {
						return s, "another partition or client is paused or resumed than the worker's"
					}
				}
				return s, ""
			})
			// the activation callback gets the partition
			r.Every(g, "the activation handler is called for another partition", dyn("EventSourceConfig.OnPartitionActivated"), 1, func(n *Node) bool {
				return arg(n, 1) == "$0.topicPartition.Partition" || arg(n, 1) == "elem([$0.topicPartition.Partition])"
			})
		})

	rule("worker.budget", "C09",
		"in-flight slots: the budget is MaxBatchSize times PoolSize; slots are taken by the scheduling goroutine before an event joins a transaction, and released only where an event completes or is rejected",
		func(r *R) {
			n := r.gs("newPartitionWorker")
			max := func(s string) bool {
				return s == "make:chan struct(($4.cfg.MaxBatchSize*$4.cfg.PoolSize))" || s == "make:chan struct(($4.cfg.PoolSize*$4.cfg.MaxBatchSize))"
			}
			found := 0
			for _, x := range n.Find(store("partitionWorker.maxPending")) {
				found++
				if !max(x.E.V.String()) {
					r.failN(n, x, "the in-flight budget is not MaxBatchSize*PoolSize: "+x.E.V.String(), nil)
				}
			}
			r.need(found, 1, "creation of the in-flight budget")
			r.insts += found
			r.Confined("the in-flight budget is replaced or used elsewhere", "partitionWorker.maxPending", "newPartitionWorker || partitionWorker.work || partitionWorker.pushRecords", false, false, 1)
			g := r.gs("partitionWorker.pushRecords")
			r.Every(g, "an in-flight slot is taken without waiting for a free one", sendX("$0.maxPending"), 1, func(n *Node) bool { return n.E.Block && len(n.E.Alts) < 2 })
			r.Never(g, "the scheduling goroutine releases an in-flight slot", recvX("$0.maxPending"))
			w := r.gs("partitionWorker.work")
			r.Never(w, "the worker takes an in-flight slot (it would deadlock with itself)", sendX("$0.maxPending"))
			p := r.gn("newEOSProducerPool", false, "newProducerNode")
			for _, x := range p.Find(store("eosProducerPool.cfg")) {
				if x.E.V.String() != "$2" {
					r.failN(p, x, "the pool uses another configuration than the validated one", nil)
				}
			}
			r.Confined("the configuration of the producer pool changes", "eosProducerPool.cfg", "newEOSProducerPool", true, false, 1)
		})

	rule("worker.receive", "C07 C08",
		"fetched records go, complete and in order, to the worker of their own partition; they are dropped only if the partition has no worker or is revoked",
		func(r *R) {
			g := r.g("eventSourceConsumer.receive")
			w := "$0.workers[$1.FetchPartition.Partition] || $0.workers[$1.Partition]"
			snd := send("partitionWorker.partitionInput")
			r.Every(g, "records are given to another worker, or are not passed on as fetched", snd, 1, func(n *Node) bool {
				return globs(alt("%.partitionInput", w), n.E.X.String()) && globs("$1.FetchPartition.Records || $1.Records", n.E.V.String())
			})
			r.Times(g, "a fetched batch is queued at most once", snd, 0, 1, nil, nil)
			r.Guard(g, "queueing fetched records", nil, or(snd, recvX(alt("call:context.Context.Done(%.runStatus.ctx)", w))), nil,
				[]Atom{at("worker", "has($0.workers,$1.FetchPartition.Partition)", "!$0.workers[$1.FetchPartition.Partition]==nil"), at("empty", "len($1.FetchPartition.Records)<1", "len($1.FetchPartition.Records)==0"),
					at("running", "call:context.Context.Err($0.workers[$1.FetchPartition.Partition].runStatus.ctx)==nil")},
				func(v V) int {
					if !v["worker"] {
						return mustnot
					}
					if v["empty"] || !v["running"] {
						return dontcare
					}
					return must
				})
			r.Every(g, "queueing records can block for ever after revocation", snd, 1, func(n *Node) bool {
				for _, a := range n.E.Alts {
					if strings.HasPrefix(a.Ch.String(), "call:context.Context.Done(") {
						return true
					}
				}
				return !n.E.Block
			})
			s := r.gs("eventSourceConsumer.start")
			r.insts++
			got := s.Find(call("eventSourceConsumer.receive"))
			each := s.Find(call("kgo.Fetches.EachPartition"))
			r.need(len(got)+len(each), 1, "dispatch of fetched partitions")
		})
}
