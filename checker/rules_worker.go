package main

import (
	"fmt"
	"strings"
)

// Partition workers and interjections: partition_worker.go, interjection.go, event_context.go (C07-C10, C14).

const evX = "recv($0.eventInput)"
const ijX = "recv($0.interjectionEventInput)"
const jobX = "recv($0.asyncCompleter.asyncJobs)"

// zeroRes: the branch decides whether the result of a call matching pats is Complete.
func zeroRes(pats string, n *Node) (complete, ok bool) {
	if n.E.K != KBranch {
		return false, false
	}
	s := n.E.X.String()
	if strings.HasSuffix(s, "==0") && globs(pats, strings.TrimSuffix(s, "==0")) {
		return n.E.Val, true
	}
	return false, false
}

func isNilOf(n *Node, pats string) (isnil, ok bool) {
	if n.E.K != KBranch {
		return false, false
	}
	s := n.E.X.String()
	if strings.HasSuffix(s, "==nil") && globs(pats, strings.TrimSuffix(s, "==nil")) {
		return n.E.Val, true
	}
	return false, false
}

// identOf: the identity of an object (its allocation or origin), for comparisons within a path.
func identOf(x *X) string {
	if x == nil {
		return ""
	}
	if x.Op == "obj" {
		x = x.A[0]
	}
	return fmt.Sprintf("%p", x)
}

func arg(n *Node, i int) string {
	if i < len(n.E.A) {
		return n.E.A[i].String()
	}
	return ""
}

// workerStep follows the handling of one event, interjection or async job of a worker.
// It returns a message when an obligation is broken.
func workerStep(r *R, g *Graph) func(s St, n *Node) (St, string) {
	// results of processing an event
	results := map[string]bool{}
	for _, n := range g.Find(leave("EventSource.handleEvent")) {
		if len(n.E.A) == 1 {
			results[n.E.A[0].String()] = true
		}
	}
	r.need(len(results), 1, "results of EventSource.handleEvent")
	main := recv("partitionWorker.eventInput || partitionWorker.interjectionEventInput || partitionWorker.stopSignal || partitionWorker.revokedSignal")
	jobRecv := recvX(jobX[5 : len(jobX)-1])
	prod := recv("EventContext.producerChan")
	handle := call("EventSource.handleEvent")
	interject := dyn("interjection.interjector")
	finalizer := dyn("AsyncJob.finalizer")
	tick := call("interjection.tick")
	release := recvX("$0.maxPending")
	cb := dyn("interjection.callback")

	bump := func(s St, k string) St {
		switch s.get(k) {
		case "":
			return s.set(k, "1")
		}
		return s.set(k, "2")
	}
	want := func(s St, k string, w bool) bool {
		if w {
			return s.get(k) == "1"
		}
		return s.get(k) == ""
	}
	endJob := func(s St) (St, string) {
		if s.get("job") == "" {
			return s, ""
		}
		if s.get("jfin") != "1" {
			return s, "the finalizer of an asynchronous job is not run exactly once"
		}
		done := s.get("jres") == "C"
		if s.get("jres") == "" && (s.get("jdone") != "" || s.get("jrel") != "") {
			return s, "an event is completed whatever the finalizer of its asynchronous job returned"
		}
		if !want(s, "jdone", done) {
			return s, "an asynchronously processed event is not completed exactly when its finalizer returned Complete"
		}
		if !want(s, "jrel", done) {
			return s, "the in-flight slot of an asynchronously processed event is not released exactly once, when it completes"
		}
		if done && s.get("jij") == "" {
			return s, "a completed asynchronous interjection is not distinguished, it is never scheduled again"
		}
		if !want(s, "jtick", done && s.get("jij") == "1") {
			return s, "an interjection which completed asynchronously is not scheduled again exactly once"
		}
		for _, k := range []string{"job", "jfin", "jres", "jdone", "jrel", "jij", "jtick"} {
			s = s.set(k, "")
		}
		return s, ""
	}
	endCur := func(s St) (St, string) {
		c := s.get("cur")
		if c == "" {
			return s, ""
		}
		what := map[string]string{"ev": "an event", "ij": "an interjection"}[c]
		p := s.get("prod")
		if p != "nil" && p != "ok" {
			return s, what + " taken from the queue is neither given a producer nor rejected"
		}
		if p == "nil" {
			if s.get("h") != "" {
				return s, what + " is processed although its partition is revoked"
			}
			if !want(s, "rel", true) {
				return s, "the in-flight slot of " + what + " rejected after revocation is not released exactly once"
			}
			if s.get("done") != "" {
				return s, what + " of a revoked partition is completed"
			}
			if c == "ij" && s.get("cb") != "1" && s.get("cbnil") != "1" {
				return s, "the caller of a one-off interjection is not told that the partition was revoked"
			}
		} else {
			if s.get("h") != "1" {
				return s, what + " is not processed exactly once"
			}
			if c == "ev" && s.get("off") == "" {
				return s, "an event is processed and the next expected offset does not move past it: it would be processed again if it was fetched again"
			}
			done := s.get("res") == "C"
			if s.get("res") == "" && (s.get("done") != "" || s.get("rel") != "") {
				return s, what + " is completed whatever its processor returned"
			}
			if s.get("res") == "" {
				return s, "the result of processing " + what + " is ignored"
			}
			if !want(s, "done", done) {
				return s, what + " is not completed exactly when its processing returned Complete"
			}
			if !want(s, "rel", done) {
				return s, "the in-flight slot of " + what + " is not released exactly once, when it completes"
			}
			if c == "ij" {
				if !want(s, "tick", done) {
					return s, "an interjection is not scheduled again exactly when it completed"
				}
				if s.get("cb") != "" {
					return s, "the revocation callback of an interjection is called although it was executed"
				}
			}
		}
		for _, k := range []string{"cur", "prod", "h", "res", "done", "rel", "cb", "cbnil", "tick", "off"} {
			s = s.set(k, "")
		}
		return s, ""
	}
	return func(s St, n *Node) (St, string) {
		if n.E.K == KFork {
			return dead, ""
		}
		bad := ""
		x := map[string]string{"ev": evX, "ij": ijX}[s.get("cur")]
		inJob := s.get("job") != ""
		switch {
		case main(n), n.E.K == KReturn:
			if s, bad = endJob(s); bad != "" {
				return s, bad
			}
			if s, bad = endCur(s); bad != "" {
				return s, bad
			}
			if recvX("$0.eventInput")(n) {
				return s.set("cur", "ev"), ""
			}
			if recvX("$0.interjectionEventInput")(n) {
				return s.set("cur", "ij"), ""
			}
			return s, ""
		case jobRecv(n):
			if s, bad = endJob(s); bad != "" {
				return s, bad
			}
			during := false // while waiting for the producer of the current event
			for _, a := range n.E.Alts {
				if a.Field == "EventContext.producerChan" {
					during = true
				}
			}
			if !during {
				if s, bad = endCur(s); bad != "" {
					return s, bad
				}
			}
			return s.set("job", "1"), ""
		case prod(n):
			if s, bad = endJob(s); bad != "" {
				return s, bad
			}
			if s.get("cur") == "" || n.E.X.String() != x+".producerChan" {
				return s, "a producer is awaited for something else than the event at hand"
			}
			if s.get("prod") != "" {
				return s, "a producer is awaited twice for one event, the second wait never ends"
			}
			return s.set("prod", "got"), ""
		case finalizer(n):
			if !inJob || !globs("dyn:"+jobX+".finalizer", n.E.Name) {
				return s, "the finalizer of another asynchronous job is run"
			}
			return bump(s, "jfin"), ""
		case handle(n):
			if s.get("cur") != "ev" || arg(n, 1) != evX {
				return s, "another event is processed than the one taken from the queue"
			}
			if s.get("prod") != "ok" {
				return s, "an event is processed before it was added to a transaction"
			}
			return bump(s, "h"), ""
		case interject(n):
			if s.get("cur") != "ij" || arg(n, 0) != ijX || n.E.Name != "dyn:"+ijX+".interjection.interjector" {
				return s, "another interjection is executed than the one taken from the queue"
			}
			if s.get("prod") != "ok" {
				return s, "an interjection is executed before it was added to a transaction"
			}
			return bump(s, "h"), ""
		case leave("EventSource.handleEvent")(n):
			switch arg(n, 0) {
			case "0":
				return s.set("res", "C"), ""
			case "1", "2", "3":
				return s.set("res", "I"), ""
			}
			return s, ""
		case closeEv("EventContext.done")(n):
			switch n.E.X.String() {
			case jobX + ".ctx.done":
				if !inJob || s.get("jres") != "C" {
					return s, "an event is completed although the finalizer of its asynchronous job did not return Complete"
				}
				return bump(s, "jdone"), ""
			case x + ".done":
				if s.get("prod") == "ok" && s.get("res") != "C" {
					return s, "an event is completed although its processing did not return Complete"
				}
				return bump(s, "done"), ""
			}
			return s, "another event than the one at hand is completed"
		case release(n):
			if inJob {
				return bump(s, "jrel"), ""
			}
			return bump(s, "rel"), ""
		case tick(n):
			switch arg(n, 0) {
			case jobX + ".ctx.interjection":
				return bump(s, "jtick"), ""
			case ijX + ".interjection":
				return bump(s, "tick"), ""
			}
			return s, ""
		case cb(n):
			return bump(s, "cb"), ""
		case n.E.K == KStore && n.E.R.String() == "$0.highestOffset" && s.get("cur") == "ev":
			return s.set("off", "1"), ""
		}
		if isnil, ok := isNilOf(n, x+".producer || recv("+x+".producerChan)"); ok && x != "" {
			if s.get("prod") == "" {
				return s, "the producer of an event is looked at before it was assigned"
			}
			if isnil {
				return s.set("prod", "nil"), ""
			}
			return s.set("prod", "ok"), ""
		}
		if isnil, ok := isNilOf(n, ijX+".interjection.callback"); ok && isnil {
			return s.set("cbnil", "1"), ""
		}
		if isnil, ok := isNilOf(n, jobX+".ctx.interjection"); ok && inJob {
			if isnil {
				return s.set("jij", "0"), ""
			}
			return s.set("jij", "1"), ""
		}
		if isnil, ok := isNilOf(n, evX+".interjection || "+ijX+".interjection"); ok {
			// worker.order: what is queued in eventInput has no interjection, what is queued in
			// interjectionEventInput has one
			if isnil == strings.Contains(n.E.X.String(), ijX) {
				return dead, ""
			}
			return s, ""
		}
		if c, ok := zeroRes("call:"+jobX+".finalizer*", n); ok && inJob {
			if c {
				return s.set("jres", "C"), ""
			}
			return s.set("jres", "I"), ""
		}
		if s.get("cur") == "ij" {
			if c, ok := zeroRes("call:"+ijX+".interjection.interjector*", n); ok {
				if c {
					return s.set("res", "C"), ""
				}
				return s.set("res", "I"), ""
			}
		}
		if s.get("cur") == "ev" && n.E.K == KBranch && !inJob {
			if v := strings.TrimSuffix(n.E.X.String(), "==0"); v != n.E.X.String() && results[v] && s.get("h") != "" {
				if n.E.Val {
					return s.set("res", "C"), ""
				}
				return s.set("res", "I"), ""
			}
		}
		return s, ""
	}
}

func init() {
	rule("worker.step", "C07 C09 C10 C14",
		"per event, interjection and asynchronous job of a worker: a producer is assigned first; revoked work is rejected unprocessed; the rest is processed exactly once; completion, slot release and re-scheduling happen exactly once and exactly when Complete was returned",
		func(r *R) {
			g := r.gs("partitionWorker.work")
			for what, p := range map[string]Pred{
				"receive from eventInput": recvX("$0.eventInput"), "receive from interjectionEventInput": recvX("$0.interjectionEventInput"),
				"receive from asyncJobs": recvX("$0.asyncCompleter.asyncJobs"), "receive of the producer": recv("EventContext.producerChan"),
				"release of maxPending": recvX("$0.maxPending"), "completion": closeEv("EventContext.done"), "interjector": dyn("interjection.interjector"),
				"processing": call("EventSource.handleEvent"), "finalizer": dyn("AsyncJob.finalizer")} {
				c := sites(g.Find(p))
				r.need(c, 1, what)
				r.insts += c
			}
			r.Auto(g, "", workerStep(r, g))
			// while waiting for a producer, async completions are still handled (no deadlock with the producers)
			r.Every(g, "while waiting for a producer a worker does not handle asynchronous completions (it can deadlock with a transaction waiting for them)",
				recv("EventContext.producerChan"), 1, func(n *Node) bool {
					for _, a := range n.E.Alts {
						if !a.Send && a.Ch.String() == "$0.asyncCompleter.asyncJobs" {
							return true
						}
					}
					return !n.E.Block
				})
		})

	rule("worker.single", "C07",
		"events, interjections and finalizers of a partition are run only by the worker's own goroutine, started once per worker",
		func(r *R) {
			starts := 0
			for _, c := range r.CallSites("partitionWorker.work") {
				if c.Kind != "go" {
					r.fail(c.Ins.Pos(), r.p.Name(c.Fn), "the worker loop runs in another goroutine than its own", nil)
				}
				starts++
			}
			g := r.gs("newPartitionWorker")
			r.need(starts, 1, "start of the worker loop")
			r.Times(g, "the worker loop is started for each worker", goEv("partitionWorker.work"), 1, 1, nil, nil)
			r.Every(g, "a worker loop is started for another worker", goEv("partitionWorker.work"), 1, func(n *Node) bool {
				return strings.HasPrefix(arg(n, 0), "partitionWorker{")
			})
			r.CalledFrom("an event is processed outside of its worker's goroutine", "EventSource.handleEvent", "partitionWorker.work", true, 1)
			r.CalledFrom("a worker is created for a partition elsewhere", "newPartitionWorker", "eventSourceConsumer.assignPartitions", true, 1)
			n := 0
			for _, f := range []string{"interjection.interjector", "AsyncJob.finalizer"} {
				for _, s := range r.FieldSites(f) {
					if s.Write {
						continue
					}
					n++
					if bad := r.From(s.Fn, "partitionWorker.work || AsyncJob.Finalize || eventSourceConsumer.interject", true); bad != "" {
						r.fail(s.Ins.Pos(), r.p.Name(s.Fn), f+" is used outside of the worker's goroutine: "+bad, nil)
					}
				}
			}
			r.CalledFrom("a finalizer is run outside of the worker's goroutine", "AsyncJob.Finalize", "partitionWorker.work", true, 1)
			r.need(n, 1, "uses of interjectors and finalizers")
			r.insts += n
			w := r.g("partitionWorker.work")
			user := or(call("EventSource.handleEvent"), dyn("interjection.interjector"), dyn("AsyncJob.finalizer"))
			r.Auto(w, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					s = "fork"
				}
				if s == "fork" && user(n) {
					return s, "application code of a partition runs in a goroutine besides the worker's"
				}
				return s, ""
			})
		})

	rule("worker.order", "C07 C08 C09 C03",
		"records of a fetched batch are taken in order; each is either skipped (stale, accounted) or takes an in-flight slot, is handed to the transactions and then queued for processing, exactly once and in this order",
		func(r *R) {
			g := r.gs("partitionWorker.pushRecords")
			recs := "recv($0.partitionInput)"
			el := "elem(" + recs + ")"
			slot := sendX("$0.maxPending")
			pool := sendX("$0.eosProducer.buffer")
			queue := sendX("$0.eventInput")
			ijq := sendX("$0.interjectionEventInput")
			for _, p := range []Pred{slot, pool, queue, ijq} {
				r.need(sites(g.Find(p)), 1, "hand-over steps of an event")
				r.insts += sites(g.Find(p))
			}
			r.Loop(g, "rec", recs, queue, 0, 1, 1)
			wg := func(n *Node) (string, bool) {
				if call("sync.WaitGroup.Add", "$0.revocationWaiter")(n) {
					return arg(n, 1), true
				}
				if call("sync.WaitGroup.Done", "$0.revocationWaiter")(n) {
					return "-1", true
				}
				return "", false
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				// the state of the records loop
				if c, cont, ok := loopBranch(n); ok && c == recs {
					if st := s.get("st"); st != "" && st != "ij" {
						switch {
						case s.get("add") == "all" && st == "skip" && s.get("wg") != "-1", s.get("add") != "all" && st == "skip" && s.get("wg") != "":
							return s, "a skipped record is not taken off the revocation accounting exactly once"
						case s.get("add") == "all" && st == "queued" && s.get("wg") != "", s.get("add") != "all" && st == "queued" && s.get("wg") != "1":
							return s, "a queued record is not on the revocation accounting exactly once"
						case st == "slot" || st == "pool":
							return s, "a record takes an in-flight slot but is not queued for processing"
						}
					}
					if cont {
						return s.set("st", "skip").set("wg", ""), ""
					}
					return s.set("st", "").set("wg", "").set("add", ""), ""
				}
				if k, ok := wg(n); ok {
					if s.get("ij") == "" && s.get("st") == "" && k == "len("+recs+")" {
						return s.set("add", "all"), ""
					}
					if k == "1" && s.get("ij") == "" && s.get("ijpend") != "" {
						return s.set("ij", "add"), ""
					}
					switch s.get("wg") + k {
					case "-1", "1":
						return s.set("wg", k), ""
					case "1-1", "-11":
						return s.set("wg", ""), ""
					}
					return s, "the revocation accounting of a record is changed more than once"
				}
				if recvX("$0.partitionInput")(n) {
					return "", ""
				}
				if recvX("$0.interjectionInput")(n) {
					if s.get("ijpend") != "" {
						return s, "an interjection is dropped"
					}
					return s.set("ijpend", "1"), ""
				}
				if s.get("ijpend") != "" { // handling an interjection
					switch {
					case dyn("interjection.callback")(n):
						if n.E.Name != "dyn:recv($0.interjectionInput).callback" {
							return s, "another interjection's callback is called"
						}
						return s.set("ijpend", "").set("ij", ""), ""
					case branch("recv($0.interjectionInput).callback==nil", true)(n):
						return s.set("ijpend", "").set("ij", ""), ""
					case slot(n):
						if s.get("ij") != "add" {
							return s, "an interjection takes a slot before it is accounted for revocation (or takes two)"
						}
						return s.set("ij", "slot"), ""
					case pool(n):
						if s.get("ij") != "slot" {
							return s, "an interjection joins the transactions without taking an in-flight slot"
						}
						return s.set("ij", "pool").set("ec", identOf(n.E.V)), ""
					case ijq(n):
						if s.get("ij") != "pool" {
							return s, "an interjection is queued before it was handed to the transactions"
						}
						if s.get("ec") != identOf(n.E.V) {
							return s, "another context is queued for the interjection"
						}
						return s.set("ijpend", "").set("ij", ""), ""
					case queue(n):
						return s, "an interjection is queued as an event"
					}
					if n.E.K == KReturn || n.E.K == KSel || n.E.K == KRecv {
						return s, "an interjection is neither queued nor rejected"
					}
					return s, ""
				}
				switch {
				case slot(n):
					if s.get("st") != "skip" {
						return s, "a record takes more than one in-flight slot"
					}
					return s.set("st", "slot"), ""
				case pool(n):
					if s.get("st") != "slot" {
						return s, "a record joins the transactions without taking exactly one in-flight slot"
					}
					return s.set("st", "pool").set("ec", identOf(n.E.V)), ""
				case queue(n):
					if s.get("st") != "pool" {
						return s, "a record is queued for processing before it was handed to the transactions (or twice)"
					}
					if s.get("ec") != identOf(n.E.V) {
						return s, "another context is queued than the record's"
					}
					return s.set("st", "queued"), ""
				case ijq(n):
					return s, "an event is queued as an interjection"
				}
				return s, ""
			})
			// stale records only
			r.Guard(g, "queueing a fetched record", func(n *Node) bool { c, cont, ok := loopBranch(n); return ok && cont && c == recs },
				queue, func(n *Node) bool { c, _, ok := loopBranch(n); return ok && c == recs },
				[]Atom{at("nil", el+"==nil"), at("stale", "!$0.highestOffset-"+el+".Offset<1", "-$0.highestOffset+"+el+".Offset<0", el+".Offset-$0.highestOffset<0")},
				func(v V) int {
					if v["nil"] || v["stale"] {
						return mustnot
					}
					return must
				})
			// the context carries its record
			r.Every(g, "the context of an event or interjection is built for another record, partition, store or worker", or(queue, ijq), 1, func(n *Node) bool {
				v := n.E.V
				ok := v.FS("changeLog") != "zero" && strings.HasPrefix(v.FS("done"), "make:chan struct") &&
					strings.HasPrefix(v.FS("producerChan"), "make:chan") && strings.HasSuffix(v.FS("producerChan"), "(1)") &&
					v.FS("asyncCompleter") == "$0.asyncCompleter" && globs("$0.revocationWaiter || &$0.revocationWaiter", v.FS("revocationWaiter")) &&
					v.FS("ctx") == "$0.runStatus.ctx"
				if queue(n) {
					return ok && strings.Contains(v.FS("input"), el) && globs("nil || zero", v.FS("interjection"))
				}
				return ok && v.FS("interjection") == "recv($0.interjectionInput)" && v.FS("topicPartition") == "$0.topicPartition" && v.FS("input") == "zero"
			})
		})
}
