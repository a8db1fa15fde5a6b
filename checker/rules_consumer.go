package main

import (
	"strings"
)

// Assignment and revocation of partitions, interjections from outside (C04 C05 C14 C20 C33).

// storeOf: x is the store kept for partition p in the partitioned store base.
func storeOf(x *X, base, p string) bool {
	if x == nil {
		return false
	}
	switch x.String() {
	case base + ".data[" + p + "]", "call:partitionedChangeLog.assign(" + base + "," + p + ")":
		return true
	}
	return x.FS("store") == "call:"+base+".factory(TopicPartition{Partition="+p+",Topic="+base+".changeLogTopic})"
}

// has: tokens n1 / n0 for a branch on has(m,k).
func hasTok(s St, n *Node, name, m, k string) St {
	if branch("has("+m+","+k+")", true)(n) {
		return s.set(name, "1")
	}
	if branch("has("+m+","+k+")", false)(n) {
		return s.set(name, "0")
	}
	// pointers looked up without the second result
	if branch(m+"["+k+"]==nil", true)(n) {
		return s.set(name, "0")
	}
	if branch(m+"["+k+"]==nil", false)(n) {
		return s.set(name, "1")
	}
	return s
}

// handlerCalls: the handler is called for every element of coll, with the source and the element,
// exactly when it is configured.
func (r *R) handlerCalls(g *Graph, h, src, what string, unless ...Pred) {
	f := src + ".config." + h
	ev := dyn("SourceConfig.*" + h + " || EventSourceConfig." + h)
	evs := g.Find(ev)
	if len(evs) == 0 {
		ev = func(n *Node) bool { return n.E.K == KDyn && n.E.Name == "dyn:"+f }
		evs = g.Find(ev)
	}
	r.need(len(evs), 1, "call of "+h)
	r.ForEachIf(g, what+" is not told of a partition", "$2 || [elem($2)] || [*]", or(ev, branch(f+"==nil", true)), 1, 1, append(unless, branch(f+"==nil", true), branch("$0.partitionedStore==nil", true))...)
	r.Every(g, what+" is told of another partition", ev, 1, func(n *Node) bool {
		return arg(n, 0) == src && globs("elem($2) || elem([elem($2)])", arg(n, 1))
	})
	r.Precede(g, what+" is called although it is not configured", branch(f+"==nil", false), ev, nil)
}

func init() {
	noin := []string{"newPartitionWorker", "stateStoreConsumer.activatePartition", "stateStorePartition.sync", "toTopicPartitions"}
	rule("consumer.assign", "C05 C04 C33",
		"every assigned partition without a worker gets one, with the partition's store, waiting for its own restoration; a prepared one keeps its preparation, others are activated; the balancer and the observers are told afterwards",
		func(r *R) {
			g := r.gn("eventSourceConsumer.assignPartitions", true, noin...)
			base, p := "$0.partitionedStore", "elem($2)"
			nw := call("newPartitionWorker")
			act := call("stateStoreConsumer.activatePartition")
			l := r.Loop(g, "L", "$2", or(nw, branch("has($0.workers,*", true), branch("has($0.workers,*", false)), 0, 9, 1)
			observe := dyn("*OnPartitionAssigned")
			fin := func(s St) string {
				switch {
				case s.get("prep") == "":
					return "an assigned partition is not checked for a preparation"
				case s.get("prep") == "1":
					if !s.has("del") {
						return "an assigned partition remains in preparation"
					}
				case s.get("wk") == "1":
					if s.has("set") || s.get("act") != "" {
						return "the worker of a partition is replaced while it works"
					}
					return ""
				case s.get("wk") == "0":
					if s.get("act") == "" {
						return "the state of an assigned partition is not restored"
					}
				}
				if !s.has("set") {
					return "an assigned partition gets no worker"
				}
				return ""
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if e.K == KFork {
					if s.get("w") == "new" {
						return s.add("in"), ""
					}
					return dead, ""
				}
				if s.has("in") {
					switch {
					case call("stateStorePartition.sync")(n):
						want := "$0.prepping[" + p + "]"
						if s.get("prep") != "1" {
							want = s.get("act")
							if want == "" || identOf(e.A[0]) != want {
								return s, "a worker waits for another restoration than the one of its partition"
							}
						} else if arg(n, 0) != want {
							return s, "a worker waits for another restoration than the one of its partition"
						}
						return s.add("synced"), ""
					case e.K == KFEnd && !s.has("synced"):
						return s, "a worker does not wait for the restoration of its partition"
					}
					return s, ""
				}
				if c, _, ok := loopBranch(n); ok && c == "$2" && l.sites[siteOf(n)] {
					if s.has("el") {
						if m := fin(s); m != "" {
							return s, m
						}
					}
					s = l.step(St("").set("L", s.get("L")), n)
					if n := s.get("L"); n == "0" {
						s = s.add("el")
					}
					return s, ""
				}
				s = l.step(s, n)
				if b := s.loopBad("L"); b != "" {
					return s, "an assigned partition is not served: " + b
				}
				s = hasTok(s, n, "prep", "$0.prepping", p)
				s = hasTok(s, n, "wk", "$0.workers", p)
				switch {
				case e.K == KMapDel && e.X.String() == "$0.prepping":
					if e.A[0].String() != p || s.get("prep") != "1" {
						return s, "the preparation of another partition is dropped"
					}
					return s.add("del"), ""
				case act(n):
					if s.get("prep") == "1" {
						return s, "a prepared partition is restored again"
					}
					if s.get("wk") != "0" {
						return s, "the store of a partition which is being processed is restored again"
					}
					if arg(n, 0) != "$0.stateStoreConsumer" || arg(n, 1) != p || !storeOf(e.A[2], base, p) {
						return s, "another store than the partition's is restored"
					}
					if s.get("act") != "" {
						return s, "a partition is restored twice"
					}
					if e.R == nil {
						return s.set("act", "?"), ""
					}
					return s.set("act", identOf(e.R)), ""
				case nw(n):
					if s.get("prep") != "1" && s.get("act") == "" {
						return s, "a worker is started for a partition whose state is not restored"
					}
					tp := e.A[1]
					if arg(n, 0) != "$0.eventSource" || tp.FS("Partition") != p || tp.FS("Topic") != "$1" || arg(n, 2) != "$0.commitLog" || arg(n, 4) != "$0.producerPool" {
						return s, "a worker is created for another partition, commit log or producer pool"
					}
					if !storeOf(e.A[3], base, p) {
						return s, "a worker gets another store than the restored one of its partition"
					}
					if s.get("w") != "" {
						return s, "a partition gets two workers"
					}
					return s.set("w", "new"), ""
				case e.K == KMapSet && e.X.String() == "$0.workers":
					if e.A[0].String() != p || !strings.HasPrefix(e.V.String(), "call:newPartitionWorker(") || s.get("w") == "" {
						return s, "a worker is registered for another partition"
					}
					return s.add("set"), ""
				case e.K == KMapDel && e.X.String() == "$0.workers":
					return s, "a worker is dropped by an assignment"
				case e.K == KMapSet && e.X.String() == base+".data":
					if e.A[0].String() != p || !storeOf(e.V, base, p) {
						return s, "a store is kept for another partition"
					}
				case observe(n) || call("IncrementalGroupRebalancer.PartitionsAssigned")(n):
					if s.get("L") != "done" {
						return s, "an assignment is reported before the workers of the partitions exist"
					}
				case e.K == KReturn && s.get("L") != "done":
					return s, "assigned partitions are not served"
				}
				return s, ""
			})
			r.need(sites(g.Find(nw)), 1, "creation of workers")
			r.need(sites(g.Find(call("stateStorePartition.sync"))), 1, "waiting for the restoration")
			r.insts += 9
			r.handlerCalls(g, "OnPartitionAssigned", "$0.source", "the assigned callback")
			tell := call("IncrementalGroupRebalancer.PartitionsAssigned")
			r.Guard(g, "telling the balancer of assigned partitions", nil, tell, nil, []Atom{at("none", "$0.incrBalancer==nil")}, func(v V) int { return b2m(!v["none"]) })
			r.Every(g, "the balancer is told of other partitions", tell, 1, func(n *Node) bool {
				return arg(n, 0) == "$0.incrBalancer" && arg(n, 1) == "call:toTopicPartitions($1,$2)"
			})
			if len(g.Find(call("toTopicPartitions"))) > 0 {
				r.ForEach(r.gs("toTopicPartitions"), "a partition is left out", "$1", func(n *Node) bool {
					v := n.E.V
					if n.E.K == KCall && n.E.Name == "builtin.append" && len(n.E.A) == 2 && n.E.A[1].Op == "list" && len(n.E.A[1].A) == 1 {
						v = n.E.A[1].A[0]
					} else if n.E.K != KStore || !strings.HasPrefix(n.E.R.String(), "elem(make:[]TopicPartition") {
						return false
					}
					return v.FS("Partition") == "elem($1)" && v.FS("Topic") == "$0"
				}, 1, 1)
			}
			r.Held(g, "workers are accessed without their lock", func(n *Node) bool {
				return (n.E.K == KMapSet || n.E.K == KMapGet) && n.E.X.String() == "$0.workers"
			}, "$0.workerMux", true)
			r.Held(g, "preparations are accessed without their lock", func(n *Node) bool {
				return (n.E.K == KMapDel || n.E.K == KMapGet) && n.E.X.String() == "$0.prepping"
			}, "$0.preppingMux", true)
			for fn, to := range map[string]string{"eventSourceConsumer.partitionsAssigned": "eventSourceConsumer.assignPartitions", "eventSourceConsumer.partitionsRevoked": "eventSourceConsumer.revokePartitions"} {
				c := r.gn(fn, false, to)
				r.ForEach(c, "partitions of a topic are ignored", "$3", call(to, "$0", "key($3)", "elem($3)"), 1, 1)
				r.need(sites(c.Find(call(to))), 1, "forwarding of "+fn)
				r.CalledFrom("partitions are assigned or revoked by something else than the group", to, fn, true, 1)
			}
			// the worker keeps what it was given
			w := r.gn("newPartitionWorker", false)
			r.Every(w, "a worker works with other parts than it was given", kind(KReturn), 1, func(n *Node) bool {
				x := n.E.A[0]
				return x.FS("eventSource") == "$0" && x.FS("topicPartition") == "$1" && x.FS("changeLog") == "$3" && x.FS("eosProducer") == "$4"
			})
			r.Every(w, "a worker waits for another restoration or reads another commit log than it was given", goEv("partitionWorker.work"), 1, func(n *Node) bool {
				return arg(n, 2) == "$5" && arg(n, 3) == "$2"
			})
		})

	rule("consumer.revoke", "C05 C33",
		"for every revoked partition: will-revoke first, then its worker is told to stop and forgotten, then its store is dropped and told once; the revoked callback runs last, once per partition",
		func(r *R) {
			g := r.gs("eventSourceConsumer.revokePartitions")
			base, p := "$0.partitionedStore", "elem($2)"
			halt := dyn("$0.workers[elem($2)].runStatus.cancel || elem($0.workers).runStatus.cancel")
			told := call("StateStore.Revoked")
			drop := func(n *Node) bool { return n.E.K == KMapDel && n.E.X.String() == base+".data" }
			will := or(dyn("*OnPartitionWillRevoke"), branch("$0.source.config.OnPartitionWillRevoke==nil", true))
			observe := or(dyn("*OnPartitionRevoked"), branch("$0.source.config.OnPartitionRevoked==nil", true))
			l := r.Loop(g, "L", "$2", told, 0, 1, 1)
			fin := func(s St) string {
				switch {
				case !s.has("will"):
					return "a partition is revoked without announcing it"
				case s.get("wk") == "":
					return "a revoked partition is not checked for a worker"
				case s.get("wk") == "1" && !(s.has("halt") && s.has("forget")):
					return "the worker of a revoked partition continues, or is kept"
				case s.get("st") == "":
					return "a revoked partition is not checked for a store"
				case s.get("st") == "1" && !(s.has("drop") && s.has("told")):
					return "the store of a revoked partition is kept, or not told"
				}
				return ""
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if _, _, ok := loopBranch(n); ok && l.sites[siteOf(n)] {
					if s.has("el") {
						if m := fin(s); m != "" {
							return s, m
						}
					}
					s = l.step(St("").set("L", s.get("L")), n)
					if s.get("L") == "0" {
						s = s.add("el")
					}
					return s, ""
				}
				s = l.step(s, n)
				if b := s.loopBad("L"); b != "" {
					return s, "a revoked partition is not given up: " + b
				}
				if c, more, ok := loopBranch(n); ok && !more && c == "$2" && s.get("L") == "done" {
					return s.add("obs"), ""
				}
				s = hasTok(s, n, "wk", "$0.workers", p)
				s = hasTok(s, n, "st", base+".data", p)
				if branch(base+"==nil", true)(n) {
					return s.add("none"), ""
				}
				if s.get("L") == "done" && will(n) && e.K == KDyn {
					return s, "the revocation is announced after the partition was given up"
				}
				switch {
				case will(n):
					if s.has("halt") || s.has("forget") || s.has("drop") || s.has("told") {
						return s, "the revocation is announced after the partition was given up"
					}
					return s.add("will"), ""
				case halt(n):
					if !s.has("will") {
						return s, "the worker is stopped before the revocation was announced"
					}
					if s.has("halt") {
						return s, "a worker is stopped twice"
					}
					return s.add("halt"), ""
				case e.K == KDyn && strings.HasSuffix(e.Name, ".cancel"):
					return s, "another worker is stopped"
				case e.K == KMapDel && e.X.String() == "$0.workers":
					if e.A[0].String() != p {
						return s, "another worker is forgotten"
					}
					return s.add("forget"), ""
				case drop(n):
					if e.A[0].String() != p {
						return s, "another store is dropped"
					}
					if !s.has("will") || s.get("wk") == "" || s.get("wk") == "1" && !s.has("halt") {
						return s, "the store is dropped before the worker was told to stop"
					}
					return s.add("drop"), ""
				case told(n):
					if arg(n, 0) != base+".data["+p+"].store" {
						return s, "another store is told of the revocation"
					}
					if !s.has("will") || s.get("wk") == "" || s.get("wk") == "1" && !s.has("halt") {
						return s, "the store is told before the worker was told to stop"
					}
					if s.has("told") {
						return s, "a store is told twice of its revocation"
					}
					return s.add("told"), ""
				case observe(n):
					if s.get("L") != "done" {
						return s, "a partition is reported as revoked before it was given up"
					}
					return s.add("obs"), ""
				case e.K == KReturn:
					if s.get("L") != "done" && !s.has("none") {
						return s, "revoked partitions are kept"
					}
					if s.get("L") == "done" && !s.has("obs") {
						return s, "a revocation is not reported"
					}
				}
				return s, ""
			})
			r.need(sites(g.Find(halt)), 1, "stopping the worker")
			r.need(sites(g.Find(drop)), 1, "dropping the store")
			r.insts += 8
			r.handlerCalls(g, "OnPartitionRevoked", "$0.source", "the revoked callback")
			r.handlerCalls(g, "OnPartitionWillRevoke", "$0.source", "the will-revoke callback", func(n *Node) bool { c, _, ok := loopBranch(n); return ok && c == "$2" })
			r.Held(g, "workers are accessed without their lock", func(n *Node) bool {
				return (n.E.K == KMapDel || n.E.K == KMapGet) && n.E.X.String() == "$0.workers"
			}, "$0.workerMux", true)
			r.CalledFrom("a store is told of a revocation elsewhere", "StateStore.Revoked", "eventSourceConsumer.revokePartitions || partitionedChangeLog.revoke", true, 1)
			// every callback is its own
			for h, fn := range map[string]string{"OnPartitionAssigned": "Source.onPartitionsAssigned", "OnPartitionActivated": "Source.onPartitionActivated", "OnPartitionWillRevoke": "Source.onPartitionWillRevoke", "OnPartitionRevoked": "Source.onPartitionsRevoked"} {
				c := r.gs(fn)
				for _, n := range c.Find(kind(KDyn)) {
					if n.E.Name != "dyn:$0.config."+h {
						r.failN(c, n, "another callback is invoked than "+h, nil)
					}
				}
				r.need(len(c.Find(kind(KDyn))), 1, "invocation of "+h)
				r.insts++
				r.CalledFrom(h+" runs in a goroutine of its own, out of order with the other callbacks", fn, "eventSourceConsumer.assignPartitions || eventSourceConsumer.revokePartitions || eventSourceConsumer.partitionsAssigned || eventSourceConsumer.partitionsRevoked || partitionWorker.work", true, 1)
				r.Never(c, h+" runs in a goroutine of its own, out of order with the other callbacks", kind(KGo))
			}
		})

	rule("consumer.stores", "C05",
		"a partition has at most one store: created by the factory for exactly that change log partition when there is none, returned unchanged until it is revoked",
		func(r *R) {
			g := r.gs("partitionedChangeLog.assign")
			none := []Atom{at("has", "has($0.data,$1)")}
			r.Results(g, "the store of a partition", none, func(v V) []string {
				if v["has"] {
					return []string{"$0.data[$1]"}
				}
				return []string{"changeLogPartition{store=call:$0.factory(TopicPartition{Partition=$1,Topic=$0.changeLogTopic}),topic=$0.changeLogTopic}"}
			})
			made := dyn("$0.factory")
			kept := func(n *Node) bool { return n.E.K == KMapSet && n.E.X.String() == "$0.data" }
			r.Guard(g, "creating a store", nil, made, nil, none, func(v V) int { return b2m(!v["has"]) })
			r.Guard(g, "keeping a new store", nil, kept, nil, none, func(v V) int { return b2m(!v["has"]) })
			r.Times(g, "a store is created once", made, 0, 1, nil, nil)
			r.Every(g, "another store is kept, or for another partition", kept, 1, func(n *Node) bool { return n.E.A[0].String() == "$1" && storeOf(n.E.V, "$0", "$1") })
			r.Held(g, "stores are accessed without their lock", or(kept, made), "$0.mux", true)
			d := r.gs("partitionedChangeLog.revoke")
			has := at("has", "has($0.data,$1)")
			told := call("StateStore.Revoked", "$0.data[$1].store")
			drop := func(n *Node) bool {
				return n.E.K == KMapDel && n.E.X.String() == "$0.data" && n.E.A[0].String() == "$1"
			}
			r.Guard(d, "telling the store of its revocation", nil, told, nil, []Atom{has}, func(v V) int { return b2m(v["has"]) })
			r.Guard(d, "forgetting a revoked store", nil, drop, nil, []Atom{has}, func(v V) int {
				if v["has"] {
					return must
				}
				return dontcare
			})
			r.Times(d, "a store is told once", call("StateStore.Revoked"), 0, 1, nil, nil)
			r.Held(d, "stores are accessed without their lock", drop, "$0.mux", true)
			r.Confined("stores change elsewhere", "partitionedChangeLog.data || partitionedChangeLog.factory || partitionedChangeLog.changeLogTopic", "partitionedChangeLog.assign || partitionedChangeLog.revoke || partitionedChangeLog.Len || newPartitionedChangeLog", false, false, 1)
			r.Confined("the store of a context or worker is replaced", "partitionWorker.changeLog || EventContext.changeLog || changeLogPartition.store || changeLogData.store", "newPartitionWorker || newEventContext || newInterjectionContext || MockEventContext || NewMockEventContext* || Mock* || newPartition* || partitionedChangeLog.assign", true, false, 1)
			c := r.gn("newEventSourceConsumer", false, "newEosCommitLog", "newEOSProducerPool", "newStateStoreConsumer", "NewClient", "toGroupBalancers", "Source.StateStoreTopicName")
			r.Every(c, "stores are created for another topic or by something else than the application's factory", kind(KStore), 1, func(n *Node) bool {
				if n.E.Field != "eventSourceConsumer.partitionedStore" {
					return true
				}
				return n.E.V.FS("changeLogTopic") == "call:Source.StateStoreTopicName($0.source)" && globs("closure:EventSource.createChangeLogReceiver* || $0.stateStoreFactory", n.E.V.FS("factory")) && strings.HasPrefix(n.E.V.FS("data"), "make:map")
			})
			r.Ret("EventSource.createChangeLogReceiver", "the application's factory creates the stores", "call:$0.stateStoreFactory($1)")
		})

	rule("consumer.change", "C05",
		"a recorded change is produced in the event's transaction to the change log topic and partition of the event, whatever it carried",
		func(r *R) {
			g := r.gn("EventContext.RecordChange", false, "producerNode.ProduceRecord", "producerNode.produceRecord")
			rec := "elem($1).record"
			prod := call("producerNode.ProduceRecord || producerNode.produceRecord")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if _, _, ok := loopBranch(n); ok {
					return "", ""
				}
				if e.K == KStore && globs("kgo.Record.Topic || kgo.Record.Partition", e.Field) {
					switch e.R.String() {
					case rec + ".kRecord.Topic":
						if e.V.String() != "$0.changeLog.topic" {
							return s, "a change is sent to another topic"
						}
						return s.add("t"), ""
					case rec + ".kRecord.Partition":
						if e.V.String() != "$0.topicPartition.Partition" {
							return s, "a change is sent to another partition than the event's"
						}
						return s.add("p"), ""
					}
					return s, "the destination of another record is changed"
				}
				if prod(n) {
					if arg(n, 0) != "$0.producer" || arg(n, 1) != "$0" || arg(n, 2) != rec {
						return s, "a change is not produced in the transaction of its event"
					}
					if !s.has("t") || !s.has("p") {
						return s, "a change is produced before its destination is set"
					}
				}
				if call("kgo.Client.*")(n) {
					return s, "a change is produced outside of the transaction"
				}
				return s, ""
			})
			r.need(sites(g.Find(prod)), 1, "producing a change")
			r.insts += 4
			stateless := or(branch("len($0.changeLog.topic)<1 || $0.changeLog.topic==\"\"", true), branch("0<len($0.changeLog.topic) || $0.changeLog.topic!=\"\"", false))
			r.ForEachIf(g, "a change is lost", "$1", or(prod, stateless), 1, 1, stateless)
			r.Guard(g, "producing a change exactly when the consumer has state", func(n *Node) bool { c, cont, ok := loopBranch(n); return ok && cont && c == "$1" }, prod, func(n *Node) bool { c, _, ok := loopBranch(n); return ok && c == "$1" },
				[]Atom{atKeep("stateless", "len($0.changeLog.topic)<1", `$0.changeLog.topic==""`)}, func(v V) int { return b2m(!v["stateless"]) })
			r.Results(r.gs("EventContext.Store"), "the store of an event", nil, func(V) []string { return []string{"$0.changeLog.store"} })
			x := r.gs("newEventContext")
			r.Every(x, "an event gets another store or partition", kind(KReturn), 1, func(n *Node) bool {
				o := n.E.A[0]
				tp := o.F("topicPartition")
				return o.FS("changeLog") == "$2" && tp != nil && (tp.FS("Partition") == "$1.Partition" || tp.String() == "$3.topicPartition")
			})
			y := r.gs("newInterjectionContext")
			r.Every(y, "an interjection gets another store or partition", kind(KReturn), 1, func(n *Node) bool {
				o := n.E.A[0]
				return o.FS("changeLog") == "$3" && o.FS("topicPartition") == "$2"
			})
			made := 0
			for _, fn := range []string{"partitionWorker.pushRecords"} {
				q := r.gn(fn, false, "newEventContext", "newInterjectionContext")
				for _, n := range q.Find(call("newEventContext || newInterjectionContext")) {
					made++
					i := 2
					if n.E.Name == "newInterjectionContext" {
						i = 3
						if arg(n, 2) != "$0.topicPartition" {
							r.failN(q, n, "an interjection gets another partition", nil)
						}
					}
					if !strings.Contains(arg(n, i), "$0.changeLog") {
						r.failN(q, n, "an event gets another store than its worker's: "+arg(n, i), nil)
					}
				}
			}
			r.need(made, 1, "creation of contexts")
			r.insts += made
		})
}
