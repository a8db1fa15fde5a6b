package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// AsyncJobScheduler and its queues: async_scheduler.go, async_item_queue.go (C11).

// mutexState follows one mutex: token lk=W/R while it is held.
func mutexState(s St, n *Node, mutex, tok string) (St, string) {
	m, acq, sh, ok := lockOp(n)
	if !ok || !globs(mutex, m) {
		return s, ""
	}
	if acq {
		if s.get(tok) != "" {
			return s, "a lock which is already held is acquired again"
		}
		if sh {
			return s.set(tok, "R"), ""
		}
		return s.set(tok, "W"), ""
	}
	if s.get(tok) == "" {
		return s, "a lock which is not held is released"
	}
	return s.set(tok, ""), ""
}

// queueStep: the peekable queue. pk: whether head holds an item (known), qe: the channel was found empty.
func queueStep(r *R, op string) func(s St, n *Node) (St, string) {
	const q = "$0.queue"
	tested := map[ssa.Value]bool{}
	return func(s St, n *Node) (St, string) {
		e := n.E
		if s2, m := mutexState(s, n, "$0.headLock", "lk"); m != "" {
			return s, m
		} else {
			s = s2
		}
		touch := e.K == KStore && globs("$0.head || $0.peekable || $0.size", e.R.String())
		if touch && s.get("lk") != "W" {
			return s, "the state of a queue changes without its lock"
		}
		switch {
		case e.K == KFork:
			return dead, ""
		case e.K == KStore && e.R.String() == "$0.size", call("atomic.AddInt32 || atomic.AddInt64", "$0.size")(n):
			v := ""
			if e.K == KStore {
				v = e.V.String()
			} else {
				v = "$0.size+" + arg(n, 1)
			}
			if s.get("sz") != "" {
				return s, "an item is counted twice"
			}
			switch {
			case op == "enq" && v == "$0.size+1":
				return s.set("sz", "+"), ""
			case op == "deq" && globs("$0.size-1 || $0.size+-1", v):
				if s.get("pk") != "1" {
					return s, "an item is removed from a queue which may be empty"
				}
				return s.set("sz", "-").set("pk", "0").set("qe", "").add("stale"), ""
			}
			return s, "the number of items of a queue changes by another amount than one"
		case e.K == KBranch:
			for _, c := range conds(e.X) {
				if c == "$0.peekable" {
					v := "0"
					if e.Val {
						v = "1"
					}
					if c, ok := e.Ins.(*ssa.If); ok {
						tested[c.Cond] = true
						if u, ok := c.Cond.(*ssa.UnOp); ok && u.Op == token.NOT {
							tested[u.X] = true
						}
					}
					if s.get("pk") == "" {
						s = s.set("pk", v).set("pk0", v)
					}
				}
			}
		case e.K == KRecv && e.X.String() == q:
			if e.Block {
				return s, "a queue waits for an item while its lock is held"
			}
			if s.get("pk") != "0" {
				return s, "an item taken from the channel replaces the item at the head"
			}
			if s.has("got") {
				return s, "an item taken from the channel is dropped"
			}
			return s.add("got"), ""
		case e.K == KSel && e.Name == "default":
			for _, a := range e.Alts {
				if a.Ch.String() == q && !a.Send {
					return s.set("qe", "1"), ""
				}
			}
		case e.K == KStore && e.R.String() == "$0.head":
			switch v := e.V.String(); {
			case v == "recv("+q+")":
				if !s.has("got") {
					return s, "an item is put at the head twice"
				}
				return s.del("got").add("hd"), ""
			case op == "enq" && v == "$1":
				if s.get("pk") != "0" || s.get("qe") != "1" {
					return s, "an item is put at the head although an earlier item may be waiting"
				}
				if s.has("put") {
					return s, "an item is enqueued twice"
				}
				if s.has("early") { // marked as peekable before
					return s.add("put").set("pk", "1").del("early").del("stale"), ""
				}
				return s.add("put").add("hd"), ""
			default: // emptied
				if s.get("pk") != "0" || s.has("hd") {
					return s, "the item at the head is dropped"
				}
			}
		case e.K == KStore && e.R.String() == "$0.peekable":
			if e.V.String() == "true" {
				if !s.has("hd") {
					if s.has("early") || op != "enq" || s.get("pk") != "0" || s.has("put") {
						return s, "a queue without item at its head is marked as peekable"
					}
					return s.add("early"), ""
				}
				return s.set("pk", "1").del("hd").del("stale"), ""
			}
			if e.V.String() != "false" {
				return s, "a queue without item at its head may be marked as peekable: " + e.V.String()
			}
			if s.has("hd") || s.get("pk") == "1" {
				return s, "an item at the head of the queue is hidden"
			}
			return s.set("pk", "0").del("stale"), ""
		case e.K == KSend && e.X.String() == q:
			if e.Block {
				return s, "adding to a full queue blocks while its lock is held"
			}
			if op != "enq" || e.V.String() != "$1" {
				return s, "another item is enqueued"
			}
			if s.has("put") {
				return s, "an item is enqueued twice"
			}
			return s.add("put"), ""
		case e.K == KReturn:
			if s.has("got") || s.has("hd") {
				return s, "an item taken from the channel is dropped"
			}
			if s.has("early") {
				return s, "a queue without item at its head is marked as peekable"
			}
			if s.get("lk") != "" {
				return s, "the lock of a queue is not released"
			}
			switch op {
			case "enq":
				if s.get("sz") != "+" {
					return s, "an item which is or will be added to the queue is not counted, its queue may be retired"
				}
				if v := arg(n, 0); v == "true" && !s.has("put") || v == "false" && s.has("put") || v != "true" && v != "false" {
					return s, "tryEnqueue does not report whether the item was added"
				}
			case "deq":
				if s.has("stale") {
					return s, "a removed item stays at the head of the queue"
				}
				if s.get("pk0") == "1" && arg(n, 0) != "$0.head" {
					return s, "another item is returned than the first one"
				}
				if len(e.A) == 2 && arg(n, 1) == "false" {
					if s.get("sz") == "-" {
						return s, "a removed item is reported as missing"
					}
					if s.get("pk") != "0" || s.get("qe") != "1" {
						return s, "a queue is reported as empty although an item may be waiting"
					}
				} else if s.get("sz") != "-" {
					return s, "an item is returned but not removed"
				}
			case "peek":
				v := arg(n, 1)
				if v == "$0.peekable" && s.get("pk0") != "" {
					src := "pk"
					if ret, ok := e.Ins.(*ssa.Return); ok && len(ret.Results) == 2 && tested[returned(ret, 1)] { // loaded before the head was filled
						src = "pk0"
					}
					v = map[string]string{"0": "false", "1": "true"}[s.get(src)]
				}
				if v != "true" && v != "false" || v == "true" && s.get("pk") != "1" || v == "false" && (s.get("pk") != "0" || s.get("qe") != "1") {
					return s, "a queue is reported as empty although an item may be waiting, or as not empty although it is"
				}
				if v == "true" && !globs("$0.head || recv($0.queue)", arg(n, 0)) {
					return s, "peek returns another item than the first one"
				}
			}
		}
		return s, ""
	}
}

func init() {
	rule("sched.queue", "C11",
		"the queue of a key is first in, first out and loses nothing: an item is counted before it is added or will be added; the head is only filled when it is free and with the oldest item; a queue is done only when nothing is counted",
		func(r *R) {
			for fn, op := range map[string]string{"asyncItemQueue.tryEnqueue": "enq", "asyncItemQueue.dequeue": "deq", "asyncItemQueue.peek": "peek"} {
				g := r.gs(fn)
				r.need(sites(g.Find(or(kind(KRecv), kind(KSel)))), 1, "refilling the head of a queue")
				r.insts++
				r.Auto(g, "", queueStep(r, op))
			}
			q := r.gs("newAsyncItemQueue")
			r.Auto(q, "", func(s St, n *Node) (St, string) {
				if n.E.K == KBranch && globs("$0<1 || $0<2 || $0<0 || $0==0", n.E.X.String()) {
					s = s.set("small", b01(n.E.Val))
				}
				if n.E.K != KReturn {
					return s, ""
				}
				x := n.E.A[0]
				if !globs("false || zero*", x.FS("peekable")) || !globs("0 || zero*", x.FS("size")) {
					return s, "a new queue is not empty"
				}
				ch := x.FS("queue")
				if !strings.HasPrefix(ch, "make:chan") {
					return s, "a new queue can not hold anything"
				}
				c := ch[strings.LastIndex(ch, "(")+1 : len(ch)-1]
				if !globs("$0-1 || $0 || $0+1 || call:sak.Max(*", c) && (c < "0" || c > "9999") || strings.HasPrefix(c, "$0") && s.get("small") != "0" {
					return s, "a queue can not be created for every depth: " + c
				}
				return s, ""
			})
			d := r.gs("asyncItemQueue.done")
			r.Every(d, "a queue is retired while items are pending", kind(KReturn), 1, func(n *Node) bool {
				return globs("$0.size<1 || $0.size==0 || call:atomic.LoadInt*($0.size)<1 || call:atomic.LoadInt*($0.size)==0", arg(n, 0))
			})
		})
}

func init() {
	const wf = "recv($0.workerChannel)"
	queueOps := []string{"asyncItemQueue.tryEnqueue", "asyncItemQueue.done", "asyncItemQueue.peek", "asyncItemQueue.dequeue"}
	rule("sched.schedule", "C11",
		"scheduling adds every job exactly once, to the queue of its key, which is looked up and told about the job under one lock; a queue is made available to the processors exactly when it is created; waiting ends when the scheduler is halted",
		func(r *R) {
			g := r.gn("AsyncJobScheduler.Schedule", true, queueOps...)
			job := func(x *X) bool {
				if x == nil {
					return false
				}
				return x.FS("eventContext") == "$1" && x.FS("key") == "$2" && x.FS("value") == "$3" && x.FS("finalizer") == "$0.finalizer"
			}
			try := call("asyncItemQueue.tryEnqueue")
			add := send("asyncItemQueue.queue")
			enq := send("AsyncJobScheduler.workerChannel")
			r.need(sites(g.Find(try)), 1, "adding a job to the queue of its key")
			r.need(sites(g.Find(enq)), 1, "making a new queue available to the processors")
			r.need(sites(g.Find(add)), 1, "waiting for room in the queue of a key")
			old := "$0.workerMap[$2]"
			fresh := "call:sync.Pool.Get($0.workerPool)*"
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if e.K == KFork {
					return s, ""
				}
				if t, m := mutexState(s, n, "$0.mux", "lk"); m != "" {
					return s, m
				} else if t != s {
					if t.get("lk") != "" && s.has("halted") {
						return s, "scheduling goes on waiting for a free key after the scheduler is halted"
					}
					if s.get("lk") != "" {
						t = t.del("seen").del("absent").del("room").set("new", t.get("new"))
						if s.has("pending") {
							return s, "the lock is released between creating the queue of a key and adding its job, which orphans the job"
						}
					}
					return t, ""
				}
				if s.has("halted") && branch("call:context.Context.Err($0.runStatus.ctx)==nil", true)(n) {
					return dead, ""
				}
				if branch("call:sync.Pool.Get($0.workerPool)*==nil", true)(n) {
					return dead, "" // the pool creates a queue when it has none
				}
				switch {
				case e.K == KBranch && e.Val && globs("*call:sync.Pool.Get($0.workerPool).capacity==0", e.X.String()):
					return s.add("deep"), ""
				case e.K == KBranch && globs("*call:sync.Pool.Get($0.workerPool).capacity*", e.X.String()):
					if s.has("stale") {
						return s, "scheduling looks at the same queue of an old depth for ever"
					}
					return s.add("stale"), ""
				case e.K == KBranch && !strings.HasPrefix(e.X.String(), "call:asyncItemQueue.tryEnqueue("):
					for _, c := range conds(e.X) {
						c = strings.TrimPrefix(c, "!")
						switch {
						case globs("has($0.workerMap,$2)", c), c == old+"==nil":
							if s.get("lk") == "" && !s.has("added") && !s.has("full") {
								if e.K == KBranch && s.get("w") == "" && !s.has("known") {
									return s, ""
								}
							}
							isAbsent := e.Val == strings.HasSuffix(c, "==nil")
							if s.get("lk") != "" {
								if isAbsent {
									s = s.add("absent")
								} else {
									s = s.add("seen")
								}
							}
						case globs("$0.maxConcurrentKeys-len($0.workerMap)<1", c):
							if s.get("lk") != "" && !e.Val {
								s = s.add("room")
							}
						}
					}
				case e.K == KMapSet && e.X.String() == "$0.workerMap":
					if s.get("lk") == "" || !s.has("absent") {
						return s, "the queue of an active key is replaced, its jobs are processed concurrently or lost"
					}
					if !s.has("room") {
						return s, "more keys than configured become active"
					}
					if e.A[0].String() != "$2" || !globs(fresh, e.V.String()) && !globs("&worker{* || worker{* || new:*", e.V.String()) {
						return s, "a queue is registered for another key than the job's"
					}
					if s.get("new") != "" {
						return s, "two queues are created for one job"
					}
					if globs(fresh, e.V.String()) && !s.has("deep") {
						return s, "a queue of another depth than the configured one is used"
					}
					return s.set("new", "1").add("pending"), ""
				case e.K == KStore && e.Field == "worker.key" && e.V.String() == "$2":
					return s.add("keyed"), ""
				case call("sync.Pool.Get", "$0.workerPool")(n):
					return s.del("stale").del("deep"), ""
				case try(n):
					if s.get("lk") != "W" {
						return s, "a job is added to a queue which may be retired at the same time"
					}
					if s.has("added") || s.has("full") {
						return s, "a job is added twice"
					}
					q := arg(n, 0)
					if !job(e.A[1]) {
						return s, "another job is scheduled"
					}
					if s.has("pending") {
						if !globs(fresh+".workQueue || *worker{*.workQueue || new:*.workQueue", q) && q != old+".workQueue" {
							return s, "the job is added to another queue than the one created for it"
						}
					} else if q != old+".workQueue" || !s.has("seen") {
						return s, "the job is added to the queue of another key"
					}
					return s.del("pending").set("try", "call:asyncItemQueue.tryEnqueue"), ""
				case add(n):
					if s.get("lk") != "" {
						return s, "waiting for room in the queue of a key while the lock is held blocks the processors"
					}
					if s.has("added") {
						return s, "a job is added twice"
					}
					if !s.has("full") || !job(e.V) || !strings.HasSuffix(e.X.String(), ".workQueue.queue") {
						return s, "a job is added to a queue without being counted"
					}
					out := false
					for _, a := range e.Alts {
						if !a.Send && globs("call:context.Context.Done(*", a.Ch.String()) {
							out = true
							if strings.Contains(a.Ch.String(), "$1") {
								return s, "a job which was counted is given up although the scheduler goes on, the queue of its key is never retired"
							}
						}
					}
					if !e.Block {
						return s, "a job which was counted is dropped when the queue of its key is full"
					}
					if !out {
						return s, "scheduling waits for ever for room after the scheduler is halted"
					}
					return s.add("added"), ""
				case e.K == KRecv && e.Block && globs("call:context.Context.Done(*", e.X.String()):
					in := false
					for _, a := range e.Alts {
						in = in || a.Ch.String() == "$0.workerFreeSignal" || a.Send
					}
					if !in {
						return s, "a caller waiting for a free key is not told that one became free"
					}
					return s.add("halted"), ""
				case e.K == KRecv && e.Block:
					out := false
					for _, a := range e.Alts {
						if globs("call:context.Context.Done(*", a.Ch.String()) {
							out = true
						}
					}
					if !out {
						return s, "scheduling waits for ever after the scheduler is halted"
					}
					if s.get("lk") != "" {
						return s, "waiting for a free key while the lock is held blocks the processors"
					}
				case enq(n):
					if !s.has("keyed") && n.E.V.FS("key") != "$2" {
						return s, "the queue of a new key does not know its key, it is never retired"
					}
					if s.get("new") != "1" || s.has("enq") {
						return s, "a queue which is already available is given to a second processor, its jobs are processed concurrently"
					}
					if s.get("lk") != "" {
						return s, "a queue is made available while the lock is held, which can block the processors"
					}
					if !s.has("added") {
						return s, "an empty queue is made available"
					}
					return s.add("enq"), ""
				case e.K == KReturn && e.Fr.parent == nil:
					if s.get("lk") != "" {
						return s, "the lock is not released"
					}
					if s.get("new") == "1" && s.has("added") && !s.has("enq") {
						return s, "the queue of a new key is never made available to the processors"
					}
					if arg(n, 0) != evFail {
						return s, "an event is reported as complete although its job is only scheduled"
					}
				case call("EventContext.AsyncJobComplete || *syncCompleter.AsyncComplete")(n):
					return s, "an event is completed although its job was not processed"
				}
				// the result of tryEnqueue
				if s.get("try") != "" && e.K == KBranch && strings.HasPrefix(e.X.String(), "call:asyncItemQueue.tryEnqueue(") {
					s = s.set("try", "")
					if e.Val {
						return s.add("added"), ""
					}
					if s.get("new") == "1" {
						return dead, "" // a recycled queue is empty and accepts its first job (sched.queue)
					}
					return s.add("full"), ""
				}
				return s, ""
			})
			r.insts += 8
			// jobs are accepted while running and only then
			ret := kind(KReturn)
			_ = ret
			r.Guard(g, "scheduling a job", nil, or(try, branch("call:context.Context.Err($0.runStatus.ctx)==nil", false)), kind(KReturn),
				[]Atom{at("running", "call:context.Context.Err($0.runStatus.ctx)==nil")}, func(v V) int {
					return must
				})
			r.Precede(g, "a job is accepted by a halted scheduler", branch("call:context.Context.Err($0.runStatus.ctx)==nil", true), try, nil)
		})

	rule("sched.process", "C11",
		"a processor takes a queue, processes its first job once with its key and value, removes it, completes it once with the result, and only then retires the queue (when nothing is counted, under the lock) or makes it available again; a halted scheduler completes nothing",
		func(r *R) {
			g := r.gn("AsyncJobScheduler.work", true, append(queueOps, "EventContext.AsyncJobComplete")...)
			take := recv("AsyncJobScheduler.workerChannel")
			r.need(sites(g.Find(take)), 1, "taking a queue")
			proc := dyn("worker.processor")
			r.need(sites(g.Find(proc)), 1, "processing a job")
			r.Never(g, "the jobs of a key are processed concurrently or not at all", kind(KGo))
			peek := "call:asyncItemQueue.peek(" + wf + ".workQueue)"
			deq := call("asyncItemQueue.dequeue")
			done := call("EventContext.AsyncJobComplete")
			closes := len(r.gs("AsyncJobScheduler.SetMaxConcurrentKeys").Find(closeX("$0.workerChannel"))) > 0
			r.Every(g, "a processor waits for a queue after the scheduler was halted", func(n *Node) bool { return take(n) && n.E.Block }, 0, func(n *Node) bool {
				for _, a := range n.E.Alts {
					if !a.Send && globs("call:context.Context.Done(*", a.Ch.String()) {
						return true
					}
				}
				return false
			})
			end := func(s St) (St, string) {
				if !s.has("w") {
					return s, ""
				}
				if !s.has("released") {
					return s, "a queue is taken but neither retired nor made available again, its jobs are lost"
				}
				if s.has("retired") && s.get("free") != "1" {
					return s, "callers waiting for a free key are not told that one became free"
				}
				return "", ""
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if e.K == KFork {
					return dead, ""
				}
				if t, m := mutexState(s, n, "$0.mux", "lk"); m != "" {
					return s, m
				} else if t != s {
					if s.get("lk") != "" && s.has("done?") && !s.has("retired") && s.get("empty") == "1" {
						return s, "the lock is released between finding a queue empty and retiring it, a job added in between is lost"
					}
					return t, ""
				}
				switch {
				case take(n):
					t, m := end(s)
					if m != "" {
						return s, m
					}
					if s.has("stop") {
						return s, "a halted processor goes on"
					}
					return t.del("gone").add("w"), ""
				case recv("call:context.Context.Done")(n), e.K == KRecv && e.Block && globs("call:context.Context.Done(*", e.X.String()):
					return s.add("stop"), ""
				case s.has("stop") && e.K == KSel && e.Block:
					return s, "a halted processor goes on"
				case branch(wf+"==nil", true)(n):
					if s.has("proc") {
						return s, ""
					}
					return s.del("w").add("gone"), ""
				case s.has("gone") && closes && (proc(n) || e.K == KCall && globs(wf+"*", arg(n, 0))):
					return s, "a processor uses the queue taken from a channel which was closed to resize it"
				case branch(wf+"==nil", false)(n), branch("recvok("+wf[5:len(wf)-1]+")", true)(n):
					return s.add("real"), ""
				case s.has("w") && !s.has("real") && closes && (proc(n) || e.K == KCall && globs(wf+"*", arg(n, 0))):
					return s, "a processor uses the queue taken from a channel which was closed to resize it"
				case branch("recvok("+wf[5:len(wf)-1]+")", false)(n):
					return s.del("w"), ""
				case e.K == KReturn:
					_, m := end(s)
					return s, m
				}
				if !s.has("w") {
					return s, ""
				}
				switch {
				case proc(n):
					if !s.has("run") {
						return s, "a job is processed after the scheduler was halted"
					}
					if !s.has("item") {
						return s, "a job is processed although the queue may be empty"
					}
					if s.has("proc") || s.has("deq") {
						return s, "a job is processed twice"
					}
					if s.has("released") {
						return s, "a queue is used after it was made available to other processors"
					}
					if arg(n, 0) != peek+"#0.key" || arg(n, 1) != peek+"#0.value" {
						return s, "a job is processed with another key or value"
					}
					return s.add("proc"), ""
				case branch("call:context.Context.Err($0.runStatus.ctx)==nil", false)(n):
					return s.set("free", "1").add("halted"), ""
				case branch("call:context.Context.Err(*.ctx)==nil", true)(n):
					return s.add("run"), ""
				case branch("call:context.Context.Err(*.ctx)==nil", false)(n):
					return s.add("halted"), ""
				case branch(peek+"#1", true)(n):
					return s.add("item"), ""
				case branch(peek+"#1", false)(n):
					return s.add("none"), ""
				case deq(n):
					if !s.has("proc") || s.has("deq") || arg(n, 0) != wf+".workQueue" {
						return s, "a job is removed without being processed, or twice"
					}
					return s.add("deq"), ""
				case done(n):
					if !s.has("proc") || s.has("done") {
						return s, "a job is completed without being processed, or twice"
					}
					if s.has("released") {
						return s, "a job is completed after its queue was made available to other processors, completions of a key can overtake each other"
					}
					if arg(n, 0) != peek+"#0.eventContext" {
						return s, "another event is completed than the one of the job"
					}
					return s.add("done"), ""
				case call("asyncItemQueue.done")(n):
					if s.get("lk") != "W" {
						return s, "a queue is found empty without the lock, a job added in between is lost"
					}
					return s.add("done?"), ""
				case branch("call:asyncItemQueue.done("+wf+".workQueue)", true)(n):
					return s.set("empty", "1"), ""
				case branch("call:asyncItemQueue.done("+wf+".workQueue)", false)(n):
					return s.set("empty", "0"), ""
				case e.K == KMapDel && e.X.String() == "$0.workerMap":
					if s.get("lk") != "W" || s.get("empty") != "1" {
						return s, "the queue of a key is retired although jobs may be pending"
					}
					if e.V.String() != wf+".key" && (len(e.A) == 0 || e.A[0].String() != wf+".key") || s.has("reset") {
						return s, "another key is retired"
					}
					return s.add("retired").add("released"), ""
				case e.K == KStore && e.R.String() == wf+".key":
					return s.add("reset"), ""
				case call("sync.Pool.Put", "$0.workerPool")(n):
					if s.get("empty") != "1" || arg(n, 1) != wf {
						return s, "a queue with pending jobs is recycled"
					}
					if s.has("put") {
						return s, "a queue is recycled twice, two keys would share it"
					}
					return s.add("put"), ""
				case sendX("$0.workerFreeSignal")(n), e.K == KSel && e.Name == "default" && len(e.Alts) > 0 && e.Alts[0].Ch.String() == "$0.workerFreeSignal":
					if e.K == KSend && e.Block {
						return s, "a processor waits until someone needs a free key"
					}
					if s.has("retired") && s.get("lk") == "" {
						return s.set("free", "1"), ""
					}
				case sendX("$0.workerChannel")(n):
					if e.V.String() != wf {
						return s, "another queue is made available"
					}
					if s.has("released") {
						return s, "a queue is made available twice or after it was retired"
					}
					if s.get("lk") != "" {
						return s, "a queue is made available while the lock is held, which can block the processors"
					}
					if s.get("empty") != "0" {
						return s, "a queue is made available although it may be empty and its key retired by nobody"
					}
					return s.add("released"), ""
				}
				if s.has("released") && s.has("proc") && (!s.has("deq") || !s.has("done")) {
					return s, "a processed job is not removed from its queue and completed exactly once"
				}
				if s.has("item") && !s.has("proc") && s.has("released") {
					return s, "a waiting job is not processed"
				}
				return s, ""
			})
			r.insts += 8
			// halted: free signal of the branch above must not be confused: the run check of the scheduler
			r.Every(g, "a job is completed with another finalizer or result than its own", done, 1, func(n *Node) bool {
				return globs("closure:asyncJobContainer.invokeFinalizer || closure:*", n.E.A[1].String())
			})
			// the result reaches the finalizer: err is stored into the job before the finalizer is bound
			p := r.gn("worker.process", true, append(queueOps, "EventContext.AsyncJobComplete")...)
			var cl *Node
			for _, n := range p.Find(done) {
				cl = n
			}
			if cl != nil {
				r.insts++
				r.jobFinalizer(p, cl)
			}
			f := r.gs("asyncJobContainer.invokeFinalizer")
			fin := dyn("asyncJobContainer.finalizer")
			r.Times(f, "the finalizer of a job is not called exactly once", fin, 1, 1, nil, nil)
			r.Every(f, "the finalizer does not receive the event, key, value and result of its job", fin, 1, func(n *Node) bool {
				return arg(n, 0) == "$0.eventContext" && arg(n, 1) == "$0.key" && arg(n, 2) == "$0.value" && arg(n, 3) == "$0.err"
			})
			r.Every(f, "the state returned by the finalizer is dropped", kind(KReturn), 1, func(n *Node) bool {
				return strings.HasPrefix(arg(n, 0), "call:$0.finalizer(")
			})
			// nobody else takes or makes queues available, or touches the keys
			r.Confined("queues are taken or made available elsewhere", "AsyncJobScheduler.workerChannel", "NewAsyncJobScheduler || AsyncJobScheduler.work || AsyncJobScheduler.SetMaxConcurrentKeys || AsyncJobScheduler.Schedule || AsyncJobScheduler.scheduleItem || AsyncJobScheduler.releaseWorker || AsyncJobScheduler.enqueueWorker", false, false, 1)
			r.Confined("the active keys change elsewhere", "AsyncJobScheduler.workerMap", "NewAsyncJobScheduler || AsyncJobScheduler.Schedule || AsyncJobScheduler.work || AsyncJobScheduler.scheduleItem || AsyncJobScheduler.releaseWorker || AsyncJobScheduler.grabWorker", false, false, 1)
			for _, c := range r.CloseSites("AsyncJobScheduler.workerFreeSignal") {
				r.fail(c.Ins.Pos(), r.p.Name(c.Fn), "a channel every processor may send to is closed", nil)
			}
			r.CalledFrom("jobs are taken from a queue elsewhere", "asyncItemQueue.dequeue || asyncItemQueue.peek", "AsyncJobScheduler.work", false, 2)
		})

	rule("sched.config", "C11",
		"a scheduler needs a positive concurrency; it starts that many processors; the channel of available queues always has room for every active key; a missing finalizer completes; resizing moves every available queue under the exclusive lock",
		func(r *R) {
			g := r.gn("NewAsyncJobScheduler", false, "AsyncJobScheduler.warmup")
			c := r.gs("NewAsyncJobScheduler")
			_ = c
			started := goEv("AsyncJobScheduler.work")
			r.Guard(g, "accepting a scheduler configuration", nil, func(n *Node) bool { return n.E.K == KReturn && arg(n, 1) == "nil" }, kind(KReturn),
				[]Atom{at("depth", "$3.WorkerQueueDepth<0"), at("conc", "$3.Concurrency<1")},
				func(v V) int { return b2m(!v["depth"] && !v["conc"]) })
			l := r.Loop(g, "st", "count:$3.Concurrency", started, 1, 1, 1)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				s = l.step(s, n)
				if m := s.loopBad("st"); m != "" && s.get("st") != "" {
					return s, "another number of processors than configured is started: " + m
				}
				if n.E.K == KReturn && arg(n, 1) == "nil" && s.get("st") != "done" {
					return s, "the configured number of processors is not started"
				}
				return s, ""
			})
			// capacities
			room := func(max, cap string) bool { return cap == max+"+1" || cap == max+"+2" }
			_ = room
			r.insts++
			for _, n := range g.Find(started) {
				o := n.E.A[0]
				mx, ch, fs := o.F("maxConcurrentKeys"), o.FS("workerChannel"), o.F("workerFreeSignal")
				if mx == nil || !strings.HasSuffix(ch, "("+mx.String()+"+1)") {
					r.failN(g, n, "the channel of available queues has no room for every active key, processors would block each other: "+ch, nil)
				}
				if fs == nil || chanCap(fs) < 1 {
					r.failN(g, n, "the signal that a key became free can be lost", nil)
				}
				if mx != nil && !globs("$3.Concurrency || $3.MaxConcurrentKeys || call:*concurrentKeys* || call:sak.Max*", mx.String()) {
					r.failN(g, n, "the number of active keys is not the configured one: "+mx.String(), nil)
				}
				if o.FS("processor") != "$1" || o.FS("runStatus") != "$0" {
					r.failN(g, n, "the scheduler runs another processor or run status than given", nil)
				}
				if f := o.FS("finalizer"); f != "$2" && !strings.HasPrefix(f, "closure:") && !strings.HasPrefix(f, "func:") {
					r.failN(g, n, "the scheduler runs another finalizer than given: "+f, nil)
				}
			}
			r.Guard(g, "replacing the finalizer by the default", nil, func(n *Node) bool {
				return started(n) && n.E.A[0].FS("finalizer") != "$2"
			}, or(kind(KReturn), started), []Atom{at("nil", "$2==nil"), at("more", "$3.Concurrency*")}, func(v V) int {
				if !v["nil"] {
					return mustnot
				}
				return dontcare
			})
			r.Every(g, "the scheduler is not created as configured", func(n *Node) bool { return n.E.K == KReturn && arg(n, 1) == "nil" }, 1, func(n *Node) bool {
				o := n.E.A[0]
				pool := o.F("workerPool")
				return o.FS("workerQueueDepth") == "$3.WorkerQueueDepth" && pool != nil && globs("closure:*", pool.FS("New")) && globs("make:map*", o.FS("workerMap"))
			})
			for _, n := range g.Find(func(n *Node) bool { return n.E.K == KReturn && arg(n, 1) == "nil" }) {
				if p := n.E.A[0].F("workerPool"); p != nil && p.F("New") != nil {
					if c := r.gs(strings.TrimPrefix(p.FS("New"), "closure:")); c != nil {
						r.Every(c, "the pool creates no queue", kind(KReturn), 1, func(n *Node) bool {
							w := n.E.A[0]
							q := w.FS("workQueue")
							return q != "" && !strings.HasPrefix(q, "zero") && q != "nil" && globs("call:atomic.LoadInt64(*.workerQueueDepth) || *.workerQueueDepth || call:atomic.Int*.Load(*", w.FS("capacity")) && strings.HasSuffix(w.FS("processor"), ".processor") && strings.HasSuffix(w.FS("ctx"), ".runStatus.ctx")
						})
					}
				}
				if f := n.E.A[0].FS("finalizer"); strings.HasPrefix(f, "func:") || strings.HasPrefix(f, "closure:") {
					c := r.gs(strings.TrimPrefix(strings.TrimPrefix(f, "func:"), "closure:"))
					r.Every(c, "the default finalizer does not complete", kind(KReturn), 1, func(n *Node) bool { return arg(n, 0) == evOK })
				}
			}
			k := r.gs("SchedulerConfig.concurrentKeys")
			r.Guard(k, "more processors than active keys", nil, func(n *Node) bool { return n.E.K == KReturn && arg(n, 0) == "$0.Concurrency" }, kind(KReturn),
				[]Atom{at("less", "$0.MaxConcurrentKeys-$0.Concurrency<0", "!$0.Concurrency-$0.MaxConcurrentKeys<1", "$0.MaxConcurrentKeys<$0.Concurrency"), at("le", "$0.MaxConcurrentKeys-$0.Concurrency<1", "!$0.Concurrency-$0.MaxConcurrentKeys<0", "!$0.Concurrency<$0.MaxConcurrentKeys")},
				func(v V) int {
					if v["less"] && v["le"] {
						return must
					}
					if v["less"] {
						return dontcare
					}
					if !v["le"] {
						return mustnot
					}
					return dontcare
				})
			// resizing
			s := r.gs("AsyncJobScheduler.SetMaxConcurrentKeys")
			set := func(n *Node) bool { return n.E.K == KStore && n.E.R.String() == "$0.workerChannel" }
			r.Held(s, "the channel of available queues is replaced while queues are made available", or(set, closeX("$0.workerChannel"), recvX("$0.workerChannel")), "$0.updateRWLock", true)
			r.Held(s, "the number of active keys changes without the lock", store("AsyncJobScheduler.maxConcurrentKeys"), "$0.mux", true)
			r.Times(s, "the number of active keys is not changed", store("AsyncJobScheduler.maxConcurrentKeys"), 1, 1, nil, nil)
			r.Every(s, "the number of active keys is not the requested one", store("AsyncJobScheduler.maxConcurrentKeys"), 1, func(n *Node) bool {
				return globs("$1 || 0 || new:SchedulerConfig.Concurrency || call:sak.Max(*$1*) || call:SchedulerConfig.concurrentKeys(*$1*)", n.E.V.String())
			})
			r.need(sites(s.Find(func(n *Node) bool {
				return n.E.K == KStore && n.E.Field == "AsyncJobScheduler.maxConcurrentKeys" && strings.Contains(n.E.V.String(), "$1")
			})), 1, "storing the requested number of active keys")
			dp := r.gs("AsyncJobScheduler.SetWorkerQueueDepth")
			r.Times(dp, "the depth of queues is not set to the requested one", or(call("atomic.StoreInt* || atomic.SwapInt*", "$0.workerQueueDepth", "$1"), func(n *Node) bool {
				return n.E.K == KStore && n.E.R.String() == "$0.workerQueueDepth" && n.E.V.String() == "$1" || n.E.K == KCall && globs("atomic.Int*.Store", n.E.Name) && arg(n, 1) == "$1"
			}), 1, 1, nil, nil)
			r.Auto(s, "", func(t St, n *Node) (St, string) {
				e := n.E
				switch {
				case e.K == KFork:
					return dead, ""
				case recvX("$0.workerChannel")(n):
					if t.has("item") {
						return t, "an available queue is lost while resizing"
					}
					if t.has("closed") {
						return t, "the closed channel of available queues is read"
					}
					if e.Block {
						return t, "resizing waits for an available queue"
					}
					return t.add("item"), ""
				case e.K == KSel && e.Name == "default":
					return t.add("drained"), ""
				case e.K == KSend:
					if !t.has("item") || e.V.String() != "recv($0.workerChannel)" || !globs("make:chan worker($1+1)", e.X.String()) {
						return t, "an available queue is moved to another channel, or twice"
					}
					return t.del("item"), ""
				case set(n):
					if !t.has("small") {
						return t, "the channel of available queues shrinks, queues do not fit into it"
					}
					if !globs("make:chan worker($1+1)", e.V.String()) {
						return t, "the new channel of available queues has no room for every active key"
					}
					if t.has("item") {
						return t, "an available queue is lost while resizing"
					}
					return t.add("set"), ""
				case e.K == KBranch:
					if coll, more, ok := loopBranch(n); ok && coll == "count:$1" && !more {
						return t.add("drained"), ""
					}
					for _, c := range conds(e.X) {
						if c == "$1-cap($0.workerChannel)<0" {
							if e.Val {
								return t.add("fits"), ""
							}
							return t.add("small"), ""
						}
					}
				case e.K == KClose:
					if e.X.String() != "$0.workerChannel" {
						return t, "the new channel of available queues is closed"
					}
					return t.add("closed"), ""
				case e.K == KReturn:
					if t.has("set") && !t.has("drained") {
						return t, "available queues are left behind in the replaced channel"
					}
					if !t.has("set") && !t.has("fits") {
						return t, "the channel of available queues has no room for every active key, processors would block each other"
					}
					if t.has("set") && !t.has("closed") {
						return t, "processors waiting for the replaced channel are never woken up"
					}
				}
				return t, ""
			})
			r.insts += 4
			e := r.gs("AsyncJobScheduler.enqueueWorker")
			snd := sendX("$0.workerChannel")
			r.Held(e, "a queue is made available while the channel is replaced", snd, "$0.updateRWLock", false)
			r.Times(e, "a queue is not made available exactly once", snd, 1, 1, nil, nil)
			// halting wakes up waiting callers
			d := r.gn("CreateAsyncJobScheduler", false, "sak.NewRunStatus")
			r.Every(d, "the scheduler is not tied to the run status of its event source", goEv("AsyncJobScheduler.work"), 1, func(n *Node) bool {
				return globs("call:sak.NewRunStatus($0.runStatus.ctx) || $0.runStatus", n.E.A[0].FS("runStatus"))
			})
			capacity := len(r.FieldSites("worker.capacity")) > 1
			q := r.gs("AsyncJobScheduler.newQueue")
			r.Every(q, "a queue is not halted with its scheduler, or processes with another function", kind(KReturn), 1, func(n *Node) bool {
				o := n.E.A[0]
				c := o.FS("capacity")
				return o.FS("ctx") == "$0.runStatus.ctx" && o.FS("processor") == "$0.processor" && o.FS("workQueue") != "" && (c == "" && !capacity || strings.Contains(c, "$0.workerQueueDepth"))
			})
		})
}

// jobFinalizer: the finalizer bound to the completion of a job carries the result of processing it.
func (r *R) jobFinalizer(g *Graph, n *Node) {
	c := n.E.A[1]
	if c.Op != "closure" {
		return
	}
	for _, b := range c.A {
		for b.Op == "ref" || b.Op == "old" {
			b = b.A[0]
		}
		if b.Op != "obj" && !globs("call:asyncItemQueue.peek(*)#0", b.String()) {
			continue
		}
		if f := b.FS("finalizer"); f != "call:asyncItemQueue.peek($0.workQueue)#0.finalizer" {
			r.failN(g, n, "a job is completed with another finalizer than its own: "+f, nil)
		}
		if !globs("call:*.processor(*)", b.FS("err")) {
			r.failN(g, n, "the result of a job does not reach its finalizer", nil)
		}
	}
}

// returned: the value of a result, looking through the variable which holds it while deferred calls run.
func returned(ret *ssa.Return, i int) ssa.Value {
	v := ret.Results[i]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	var last ssa.Value
	for _, ins := range ret.Block().Instrs {
		if st, ok := ins.(*ssa.Store); ok && st.Addr == al {
			last = st.Val
		}
	}
	if last != nil {
		return last
	}
	return v
}
