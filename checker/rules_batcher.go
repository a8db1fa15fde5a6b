package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// AsyncBatcher: async_batcher.go (C12).

// batching follows items on their way into the executors of an AsyncBatcher. Everything which is known about
// executors and keys is known only while the lock of the batcher is held.
type batching struct {
	ids map[string]int
}

func (b *batching) id(x *X) string {
	s := x.String()
	if _, ok := b.ids[s]; !ok {
		b.ids[s] = len(b.ids) + 1
	}
	return strconv.Itoa(b.ids[s])
}

// forget drops everything known under the lock.
func (b *batching) forget(s St) St {
	for i := 1; i <= len(b.ids); i++ {
		k := strconv.Itoa(i)
		s = s.del("ready" + k).del("timer" + k).del("taken" + k).del("free" + k)
	}
	return s
}

// settled: what adding an item has to be followed by happened.
func (b *batching) settled(s St) string {
	switch {
	case s.has("listed") && !s.has("added"):
		return "an item is executed but not added to the batch, it is never completed"
	case s.has("added") && !s.has("keyed"):
		return "a key is not assigned to the executor its item is added to, its next item is executed at the same time"
	case s.has("added") && s.get("kind") == "" || s.get("kind") == "item" && !s.has("listed"):
		return "an item is completed without being executed"
	case s.get("kind") == "placeholder" && s.has("listed"):
		return "a placeholder is given to the batch executor"
	case s.has("added") && !s.has("measured"):
		return "a full batch is not executed, the next one exceeds the configured size"
	case s.has("full") && !s.has("go"):
		return "a full batch is not executed, the next one exceeds the configured size"
	case s.has("added") && s.has("go") && !s.has("full"):
		return "an incomplete batch is executed before its delay elapsed"
	case s.has("added") && !s.has("full") && !s.has("go") && s.get("tm") == "":
		return "an incomplete batch is never executed, no timer is running"
	}
	if s.has("go") && !s.has("tmnil") {
		return "the timer of a started batch is kept, no timer is started for the next one, which may never be executed"
	}
	if s.has("go") != s.has("busy") || s.has("go") != s.has("more") {
		return "an executor is started without being marked and counted as executing, or marked without being started"
	}
	return ""
}

func (b *batching) clear(s St) St {
	for _, t := range []string{"added", "keyed", "listed", "measured", "full", "go", "busy", "more", "tmnil"} {
		s = s.del(t)
	}
	return s.set("kind", "").set("tm", "").set("E", "").set("X", "")
}

func (b *batching) step(s St, n *Node) (St, string) {
	e := n.E
	if e.K == KFork {
		t := b.clear(b.forget(s)).set("lk", "").add("fork")
		return t, ""
	}
	if t, m := mutexState(s, n, "$0.mux", "lk"); m != "" {
		return s, m
	} else if t != s {
		if t.get("lk") != "" {
			return b.forget(t), ""
		}
		if m := b.settled(s); m != "" {
			return s, m
		}
		return b.clear(b.forget(t)), ""
	}
	locked := s.get("lk") != ""
	lock := func() string {
		if !locked {
			return "the state of the batcher is used without its lock"
		}
		return ""
	}
	switch {
	case e.K == KBranch:
		if c := e.X.String(); globs("$0.assignments[*].state==*", c) && locked && s.get("as") == "" {
			if k := c[len("$0.assignments["):strings.LastIndex(c, "].state==")]; !s.has("taken" + b.idS(k)) {
				return s, "the executor of a key is used although the key may not be assigned to one"
			}
		}
		s = b.branch(s, n)
		if s == dead {
			return dead, ""
		}
	case e.K == KStore && e.Field == "asyncBatchExecutor.all":
		if e.V.Op != "append" {
			return s, "" // reset
		}
		if m := lock(); m != "" {
			return s, m
		}
		pre := s.has("listed") && !s.has("added") // the item was given to the executor before
		was := [2]string{s.get("E"), s.get("X")}
		if !pre {
			if m := b.settled(s); m != "" {
				return s, m
			}
		}
		s = b.clear(s)
		if len(e.V.A) != 2 || e.V.A[0].String() != e.X.String()+".all" || s.get("one") == "1" {
			return s, "another item is added to a batch, or an item is added twice"
		}
		E, X := e.X, e.V.A[1]
		if X.Op == "list" {
			X = X.A[0]
		}
		if pre {
			if was != [2]string{b.id(E), b.id(X)} {
				return s, "another item is executed than the one added"
			}
			s = s.add("listed").set("kind", "item")
		}
		if !s.has("ready" + b.id(E)) {
			return s, "an item is added to an executor which is already executing, it is never executed or completed"
		}
		key := X.FS("key")
		if !s.has("free"+b.idS(key)) && !(s.has("taken"+b.idS(key)) && E.String() == "$0.assignments["+key+"]") {
			return s, "an item is added although another item of its key is or will be executed by another batch"
		}
		if s.get("E") != "" {
			return s, "an item is added to two batches"
		}
		s = s.add("added").set("E", b.id(E)).set("X", b.id(X)).set("one", "1")
		if s.has("taken" + b.idS(key)) {
			s = s.add("keyed")
		}
		if t := X.FS("itemType"); t == "0" || s.get("type"+b.id(X)) == "0" {
			s = s.set("kind", "item")
		} else if t == "1" || s.get("type"+b.id(X)) == "1" {
			s = s.set("kind", "placeholder")
		}
		if s.get("as") == key2(b, key, E) {
			s = s.add("keyed")
		}
		return s, ""
	case e.K == KMapSet && e.X.String() == "$0.assignments":
		if m := lock(); m != "" {
			return s, m
		}
		k := e.A[0].String()
		if !s.has("ready" + b.id(e.V)) {
			return s, "a key is assigned to an executor which is not available"
		}
		if !s.has("free"+b.idS(k)) && !(s.has("taken"+b.idS(k)) && e.V.String() == "$0.assignments["+k+"]") {
			return s, "a key which is part of a batch is assigned to another one"
		}
		s = s.set("as", key2(b, k, e.V))
		if s.has("added") && s.get("E") == b.id(e.V) {
			s = s.add("keyed")
		}
	case e.K == KStore && e.Field == "asyncBatchExecutor.items" && e.V.Op == "append":
		if m := lock(); m != "" {
			return s, m
		}
		x := e.V.A[len(e.V.A)-1]
		if x.Op == "list" {
			x = x.A[0]
		}
		if e.V.A[0].String() != e.X.String()+".items" || s.has("added") && (s.get("E") != b.id(e.X) || s.get("X") != b.id(x)) {
			return s, "another item is executed than the one added"
		}
		if s.has("listed") {
			return s, "an item is executed twice"
		}
		if x.FS("itemType") == "1" || s.get("type"+b.id(x)) == "1" {
			return s, "a placeholder is given to the batch executor"
		}
		if !s.has("added") {
			s = s.set("E", b.id(e.X)).set("X", b.id(x))
		}
		return s.add("listed").set("kind", "item"), ""
	case e.K == KStore && e.Field == "asyncBatchExecutor.state":
		if m := lock(); m != "" {
			return s, m
		}
		if e.V.String() == "1" {
			if !s.has("ready" + b.id(e.X)) {
				return s, "a batch is executed twice"
			}
			if s.has("added") && s.get("E") != b.id(e.X) || s.has("busy") {
				return s, "another executor is marked as executing"
			}
			s = b.unready(s).add("busy").set("B", b.id(e.X))
		}
	case e.K == KStore && e.R.String() == "$0.executingCount":
		if m := lock(); m != "" {
			return s, m
		}
		if e.V.String() == "$0.executingCount+1" {
			if s.has("more") {
				return s, "an executing batch is counted twice"
			}
			return s.add("more"), ""
		}
		if e.V.String() != "$0.executingCount-1" {
			return s, "the number of executing batches is wrong"
		}
	case e.K == KGo || call("AsyncBatcher.executeBatch")(n) && e.Fr.parent != nil:
		if goEv("AsyncBatcher.executeBatch")(n) {
			if m := lock(); m != "" {
				return s, m
			}
			if s.has("go") || s.has("busy") && s.get("B") != b.id(e.A[1]) || !s.has("busy") && !s.has("ready"+b.id(e.A[1])) {
				return s, "a batch is executed twice"
			}
			return s.add("go").set("B", b.id(e.A[1])), ""
		}
		if e.K == KCall && locked {
			return s, "a batch is executed while the lock is held"
		}
	case e.K == KStore && e.Field == "asyncBatchExecutor.flushTimer":
		if m := lock(); m != "" {
			return s, m
		}
		if e.V.String() != "nil" {
			if !strings.HasPrefix(e.V.String(), "call:time.AfterFunc($0.batchDelay,") {
				return s, "an incomplete batch is executed after another delay than configured"
			}
			if s.get("E") == b.id(e.X) {
				return s.set("tm", "1"), ""
			}
		} else {
			s = s.set("tm", "").add("tmnil")
		}
	case dyn("AsyncBatcher.executor")(n) || call("EventContext.AsyncJobComplete || BatchItems.completeItem || asyncCompleter.AsyncComplete")(n):
		if locked {
			return s, "items are executed or completed while the lock is held, which blocks everyone adding items"
		}
	case e.K == KReturn && locked || e.K == KFEnd && locked:
		return s, "the lock is not released"
	}
	return s, ""
}

func key2(b *batching, k string, e *X) string { return b.idS(k) + "." + b.id(e) }

func (b *batching) idS(s string) string {
	if _, ok := b.ids[s]; !ok {
		b.ids[s] = len(b.ids) + 1
	}
	return strconv.Itoa(b.ids[s])
}

func (b *batching) unready(s St) St {
	for i := 1; i <= len(b.ids); i++ {
		s = s.del("ready" + strconv.Itoa(i))
	}
	return s
}

func (b *batching) branch(s St, n *Node) St {
	x := n.E.X
	str := x.String()
	locked := s.get("lk") != ""
	base := func(suffix string) string { return strings.TrimSuffix(str, suffix) }
	switch {
	case strings.HasPrefix(str, "has($0.assignments,"):
		k := x.A[1].String()
		if locked && s.get("as") == "" {
			if n.E.Val {
				return s.add("taken" + b.idS(k))
			}
			return s.add("free" + b.idS(k))
		}
	case strings.HasPrefix(str, "$0.assignments[") && strings.HasSuffix(str, "]==nil"):
		if E := base("==nil"); s.has("ready"+b.idS(E)) && n.E.Val {
			return dead // an assigned executor exists
		} else if locked && s.get("as") == "" {
			k := strings.TrimSuffix(strings.TrimPrefix(E, "$0.assignments["), "]")
			if n.E.Val {
				return s.add("free" + b.idS(k))
			}
			return s.add("taken" + b.idS(k))
		}
	case str == "elem($0.executors)==nil":
		if n.E.Val {
			return dead // NewAsyncBatcher creates them
		}
	case strings.HasSuffix(str, ".state==0") || strings.HasSuffix(str, ".state==1"):
		E := str[:len(str)-len(".state==0")]
		if n.E.Val == strings.HasSuffix(str, "0") {
			if locked {
				return s.add("ready" + b.idS(E))
			}
		} else if s.has("ready" + b.idS(E)) {
			return dead
		} else {
			return s
		}
	case strings.HasSuffix(str, ".flushTimer==nil"):
		if n.E.Val {
			s = s.add("tmnil")
		}
		if s.has("added") && s.get("E") == b.idS(base(".flushTimer==nil")) && !n.E.Val {
			return s.set("tm", "1")
		}
	case globs("*.itemType==1 || *.itemType==0", str):
		X := b.idS(str[:len(str)-len(".itemType==0")])
		t := "0"
		if n.E.Val == strings.HasSuffix(str, "1") {
			t = "1"
		}
		if v := s.get("type" + X); v != "" && v != t {
			return dead
		}
		s = s.set("type"+X, t)
		if s.get("X") == X {
			s = s.set("kind", map[string]string{"0": "item", "1": "placeholder"}[t])
		}
		return s
	case globs("$0.maxBatchSize-len(*.all)==0 || $0.maxBatchSize-len(*.all)<1", str):
		i := strings.Index(str, "len(")
		E := str[i+4 : strings.LastIndex(str, ".all)")]
		if s.has("added") && s.get("E") == b.idS(E) {
			s = s.add("measured")
			if n.E.Val {
				s = s.add("full")
			}
		}
	}
	return s
}

func init() {
	lists := []string{"sak.List.PushBack", "sak.List.PushFront", "sak.List.Front", "sak.List.Remove", "sak.Element.Next", "EventContext.AsyncJobComplete", "BatchItems.completeItem"}

	rule("batcher.add", "C12 C32",
		"every item of a batch, or a placeholder for an empty one, is either added to one available executor or made to wait, in order; its key is assigned to that executor; a full executor is started at once and otherwise a timer is running; executors are started, marked and counted together, all under the lock",
		func(r *R) {
			g := r.gn("AsyncBatcher.Add", true, append(lists, "AsyncBatcher.executeBatch")...)
			b := &batching{ids: map[string]int{}}
			into := func(n *Node) bool {
				return n.E.K == KStore && n.E.Field == "asyncBatchExecutor.all" && n.E.V.Op == "append"
			}
			wait := call("sak.List.PushBack", "$0.pendingItems")
			r.need(sites(g.Find(into)), 1, "adding an item to a batch")
			r.need(sites(g.Find(wait)), 1, "making an item wait")
			const items = "$1.items"
			itemOf := func(n *Node) *X {
				if wait(n) {
					return n.E.A[1]
				}
				x := n.E.V.A[len(n.E.V.A)-1]
				if x.Op == "list" {
					x = x.A[0]
				}
				return x
			}
			l := r.Loop(g, "L", items, or(into, wait), 1, 1, 1)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if s.has("fork") {
					return b.step(s, n)
				}
				if coll, _, ok := loopBranch(n); ok && coll == items {
					s = s.set("one", "")
				}
				s = l.step(s, n)
				if m := s.loopBad("L"); m != "" {
					return s, "an item is not added exactly once: " + m
				}
				if n.E.K == KBranch && globs("len($1.items)<1 || len($1.items)==0", n.E.X.String()) {
					s = s.set("none", map[bool]string{true: "1", false: "0"}[n.E.Val])
				}
				if wait(n) || into(n) {
					x := itemOf(n)
					if x.String() == "elem($1.items)" {
						// an item
					} else if x.FS("itemType") == "1" && x.FS("batch") == "$1" && x.FS("key") == "$1.key" {
						if s.get("none") != "1" || s.has("ph") {
							return s, "a placeholder is added for a batch with items, its callback is invoked twice"
						}
						s = s.add("ph")
					} else {
						return s, "another item is added: " + x.String()
					}
				}
				if wait(n) {
					if s.get("lk") == "" {
						return s, "the state of the batcher is used without its lock"
					}
					if s.get("one") == "1" {
						return s, "an item is added twice"
					}
					x := itemOf(n)
					k := x.FS("key")
					if s.has("ready"+b.idS("$0.assignments["+k+"]")) || s.has("ready"+b.idS("elem($0.executors)")) {
						return s, "an item waits although an executor is available, nothing starts it"
					}
					if !s.has("taken"+b.idS(k)) && s.get("all") != "done" {
						return s, "an item waits although an executor may be available, nothing starts it"
					}
					s = s.set("one", "1")
				}
				if coll, more, ok := loopBranch(n); ok && coll == "$0.executors" {
					if more {
						s = s.set("all", "")
					} else {
						s = s.set("all", "done")
					}
				}
				if m, acq, _, ok := lockOp(n); ok && m == "$0.mux" && acq {
					s = s.set("all", "").set("as", "").set("one", "")
				}
				if n.E.K == KReturn {
					if arg(n, 0) != evFail {
						return s, "an event is reported as complete although its items are only added"
					}
					if s.get("none") == "1" && !s.has("ph") || s.get("none") == "" {
						return s, "an empty batch is dropped, its callback is never invoked"
					}
				}
				s, m := b.step(s, n)
				return s, m
			})
			r.insts += 10
			// the timer executes the batch unless it is already executing
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				switch {
				case n.E.K == KFork && !s.has("fork"):
					if c, ok := n.E.Ins.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().String() == "time.AfterFunc" {
						return s.add("fork"), ""
					}
					return dead, ""
				case n.E.K == KFork:
					return dead, ""
				case !s.has("fork"):
					return s, ""
				case goEv("AsyncBatcher.executeBatch")(n), branch("*.state==0", false)(n), branch("*.state==1", true)(n):
					return s.add("ok"), ""
				case n.E.K == KFEnd || n.E.K == KReturn && n.E.Fr.parent == nil:
					if !s.has("ok") {
						return s, "the timer of a batch does not execute it, an incomplete batch is never executed"
					}
				}
				return s, ""
			})
			for fn, want := range map[string]string{"BatchItem.Key": "$0.key", "BatchItems.Key": "$0.key", "BatchItems.Items": "$0.items", "BatchItems.Add": "$0", "BatchItems.AddWithKey": "$0"} {
				r.Every(r.gs(fn), "another value is returned than "+want, kind(KReturn), 1, func(n *Node) bool { return arg(n, 0) == want })
			}
			r.Every(r.gs("NewBatchItems"), "a batch is not created with the given event, key and callback", kind(KReturn), 1, func(n *Node) bool {
				o := n.E.A[0]
				return o.FS("eventContext") == "$0" && o.FS("key") == "$1" && o.FS("callback") == "$2"
			})
			for fn, p := range map[string][2]string{"BatchItems.Add": {"$0.key", "$1"}, "BatchItems.AddWithKey": {"$1", "$2"}} {
				a := r.gs(fn)
				put := store("BatchItems.items")
				r.ForEach(a, "a value is not added exactly once", p[1], put, 1, 1)
				r.Every(a, "an item does not carry its key, value and batch", put, 1, func(n *Node) bool {
					v := n.E.V
					if v.Op != "append" || len(v.A) < 2 || v.A[0].String() != "$0.items" {
						return false
					}
					x := v.A[len(v.A)-1]
					if x.Op == "list" {
						x = x.A[0]
					}
					return x.FS("key") == p[0] && x.FS("Value") == "elem("+p[1]+")" && x.FS("batch") == "$0" && (x.F("itemType") == nil || x.FS("itemType") == "0")
				})
			}
		})

	rule("batcher.timer", "C12",
		"the delay of a batch ends when the batch is started: its timer is stopped, if it has one",
		func(r *R) {
			r.timers(r.gs("AsyncBatcher.add"), "flushTimer", "a batch")
			r.timers(r.gs("AsyncBatcher.executeBatch"), "flushTimer", "a batch")
		})

	rule("batcher.execute", "C12 C32",
		"a started batch executes its items once, if there are any, then completes every item and placeholder in order of arrival, and only then frees its keys, its executor and its place; waiting items are started in order under the same lock unless every executor is executing",
		func(r *R) {
			g := r.gn("AsyncBatcher.executeBatch", true, lists...)
			b := &batching{ids: map[string]int{}}
			run := dyn("AsyncBatcher.executor")
			r.need(sites(g.Find(run)), 1, "executing a batch")
			done := or(call("EventContext.AsyncJobComplete", "elem($1.all).batch.eventContext"), call("BatchItems.completeItem", "elem($1.all).batch"))
			anyDone := or(call("EventContext.AsyncJobComplete"), call("BatchItems.completeItem"))
			r.Every(g, "another item is completed than those of the batch", anyDone, 1, done)
			r.Every(g, "the executor is invoked with other items than those of the batch", run, 1, func(n *Node) bool { return arg(n, 0) == "$1.items" })
			r.Guard(g, "executing a batch", nil, run, or(anyDone, lockPred("$0.mux"), kind(KReturn)), []Atom{at("none", "len($1.items)<1", "len($1.items)==0")}, func(v V) int { return b2m(!v["none"]) })
			r.Times(g, "a batch is executed more than once", run, 0, 1, nil, nil)
			comp := r.Loop(g, "C", "$1.all", anyDone, 1, 1, 1)
			free := func(n *Node) bool { return n.E.K == KMapDel && n.E.X.String() == "$0.assignments" }
			r.need(sites(g.Find(free)), 1, "freeing the keys of a batch")
			fl := r.Loop(g, "F", "$1.all", free, 1, 1, 1)
			into := func(n *Node) bool {
				return n.E.K == KStore && n.E.Field == "asyncBatchExecutor.all" && n.E.V.Op == "append"
			}
			r.need(sites(g.Find(into)), 1, "starting waiting items")
			const el = "mu(call:sak.List.Front($0.pendingItems);call:sak.Element.Next(@))"
			emptied := func(n *Node, f string) bool {
				return n.E.K == KStore && n.E.R.String() == "$1."+f && globs("$1."+f+"[0:0] || $1."+f+"[:0] || nil || make:*(0,*)", n.E.V.String())
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if s.has("fork") {
					return b.step(s, n)
				}
				s = comp.step(s, n)
				s = fl.step(s, n)
				if m := s.loopBad("C"); m != "" {
					return s, "an item of a batch is not completed exactly once: " + m
				}
				if m := s.loopBad("F"); m != "" {
					return s, "a key of a finished batch stays assigned to it or is freed by another batch: " + m
				}
				completed := s.get("C") == "done" || s.has("completed")
				if completed {
					s = s.add("completed")
				}
				switch {
				case run(n) && completed:
					return s, "items are completed before they are executed"
				case free(n):
					if e.V != nil && e.V.String() != "elem($1.all).key" && (len(e.A) == 0 || e.A[0].String() != "elem($1.all).key") {
						return s, "another key is freed"
					}
					if !s.has("completed") {
						return s, "a key is freed before its items are completed"
					}
					if s.get("lk") == "" {
						return s, "the state of the batcher is used without its lock"
					}
					if s.has("reset") {
						return s, "keys are freed after the executor became available"
					}
				case e.K == KStore && e.R.String() == "$0.executingCount" && e.V.String() == "$0.executingCount-1":
					if s.has("less") {
						return s, "a finished batch is counted twice"
					}
					s = s.add("less")
				case emptied(n, "all"):
					if s.get("F") != "done" {
						return s, "the items of a batch are dropped before their keys are freed"
					}
					s = s.add("all0")
				case emptied(n, "items"):
					if !s.has("completed") {
						return s, "the items of a batch are dropped before they are completed"
					}
					s = s.add("items0")
				case e.K == KStore && globs("$1.all || $1.items", e.R.String()) && e.V.Op != "append":
					return s, "the items of a finished batch are not dropped, they are executed again"
				case e.K == KStore && e.R.String() == "$1.state":
					if e.V.String() != "0" || !s.has("completed") {
						return s, "an executor becomes available before its items are completed"
					}
					if s.get("F") != "done" {
						return s, "an executor becomes available although its keys are still assigned"
					}
					s = s.add("reset")
				case into(n) || call("sak.List.Remove")(n) || call("sak.List.Front")(n):
					if !s.has("reset") || !s.has("less") || !s.has("all0") || !s.has("items0") {
						return s, "waiting items are started before the finished batch is dropped"
					}
				}
				// waiting items
				coll, _, isLoop := loopBranch(n)
				cont, head := false, false
				if isLoop && coll == "chain:"+el {
					head, cont = true, !branch(el+"==nil", true)(n)
				}
				switch {
				case head:
					if s.has("removed") && !s.has("moved") {
						return s, "a waiting item is dropped without being started"
					}
					if s.has("moved") && !s.has("removed") {
						return s, "a waiting item is started and keeps waiting, it is executed twice"
					}
					if s.get("at") == "1" && !s.has("next") {
						return s, "the same waiting item is visited again"
					}
					if m := b.settled(s); m != "" {
						return s, m
					}
					s = b.clear(b.forget(s)).set("as", "").set("one", "").del("moved").del("removed").del("next").set("all", "")
					if cont {
						s = s.set("at", "1")
					} else {
						s = s.set("at", "end")
					}
				case into(n):
					x := e.V.A[len(e.V.A)-1]
					if x.Op == "list" {
						x = x.A[0]
					}
					if x.String() != el+".Value" || s.get("at") != "1" {
						return s, "another item is started than the waiting one"
					}
					s = s.add("moved")
				case call("sak.List.PushFront || sak.List.PushBack")(n):
					return s, "a waiting item loses its place"
				case call("sak.Element.Next")(n):
					if s.has("removed") {
						return s, "the successor of a removed element is used"
					}
					s = s.add("next")
				case call("sak.List.Remove")(n):
					if arg(n, 0) != "$0.pendingItems" || arg(n, 1) != el || s.get("at") != "1" || s.has("removed") {
						return s, "another waiting item is dropped"
					}
					s = s.add("removed")
				case e.K == KBranch && globs("$0.executingCount-len($0.executors)==0 || len($0.executors)-$0.executingCount<1 || len($0.executors)-$0.executingCount==0", e.X.String()):
					s = s.set("busyAll", map[bool]string{true: "1", false: "0"}[e.Val])
				case e.K == KBranch && e.X.String() == "$0.executingCount-len($0.executors)<0":
					s = s.set("busyAll", map[bool]string{true: "0", false: "1"}[e.Val])
				}
				if isLoop && coll == "$0.executors" {
					s = s.set("all", map[bool]string{true: "", false: "done"}[branchMore(n)])
				}
				if m, acq, _, ok := lockOp(n); ok && m == "$0.mux" && !acq && s.has("reset") {
					if s.has("removed") && !s.has("moved") {
						return s, "a waiting item is dropped without being started"
					}
					if s.has("moved") && !s.has("removed") {
						return s, "a waiting item is started and keeps waiting, it is executed twice"
					}
					if s.get("at") != "end" && s.get("busyAll") != "1" {
						return s, "waiting items are not started although an executor is available"
					}
				}
				if e.K == KReturn {
					if !s.has("reset") || !s.has("less") || !s.has("all0") || !s.has("items0") {
						return s, "a finished executor does not become available again"
					}
				}
				return b.step(s, n)
			})
			r.insts += 12
			// an item which keeps waiting has no executor
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				coll, more, ok := loopBranch(n)
				switch {
				case ok && coll == "chain:"+el:
					if s.get("at") == "1" && s.has("could") && !s.has("moved") {
						return s, "an item keeps waiting although an executor is available"
					}
					if s.get("at") == "1" && !s.has("moved") && !s.has("taken") && !s.has("none") {
						return s, "an item keeps waiting although an executor may be available"
					}
					s = ""
					if !branch(el+"==nil", true)(n) {
						return s.set("at", "1"), ""
					}
				case ok && coll == "$0.executors":
					if !more {
						s = s.add("none")
					}
				case branch("has($0.assignments,"+el+".Value.key)", true)(n), branch("$0.assignments["+el+".Value.key]==nil", false)(n):
					s = s.add("taken")
				case into(n):
					s = s.add("moved")
				case branch("$0.assignments["+el+".Value.key]==nil", true)(n) && s.has("could"):
					return dead, ""
				case branch("elem($0.executors)==nil", true)(n):
					return dead, ""
				case branch("$0.assignments["+el+".Value.key].state==0 || elem($0.executors).state==0", true)(n):
					s = s.add("could")
				}
				return s, ""
			})
			// completion
			c := r.gs("BatchItems.completeItem")
			fin := call("EventContext.AsyncJobComplete")
			cg := r.gn("BatchItems.completeItem", false, "EventContext.AsyncJobComplete")
			_ = c
			r.Times(cg, "a completed item is not counted exactly once", call("atomic.AddInt64 || atomic.AddInt32 || atomic.Int64.Add || atomic.Int32.Add", "$0.completed"), 1, 1, nil, nil)
			r.Guard(cg, "completing a batch", nil, fin, nil, []Atom{at("last", "call:atomic.*($0.completed,1)-len($0.items)==0", "!call:atomic.*($0.completed,1)-len($0.items)<0")}, func(v V) int { return b2m(v["last"]) })
			cb := func(n *Node) bool { return globs("closure:BatchItems.executeCallback*", arg(n, 1)) }
			r.Every(cg, "another event is completed, or without the callback of its batch", fin, 1, func(n *Node) bool { return arg(n, 0) == "$0.eventContext" && cb(n) })
			r.Every(g, "a placeholder is completed without the callback of its batch", call("EventContext.AsyncJobComplete"), 1, cb)
			r.Guard(g, "completing a placeholder", func(n *Node) bool { coll, more, ok := loopBranch(n); return ok && more && coll == "$1.all" }, call("EventContext.AsyncJobComplete"), or(anyDone, free, func(n *Node) bool { coll, _, ok := loopBranch(n); return ok && coll == "$1.all" }),
				[]Atom{at("ph", "elem($1.all).itemType==1", "!elem($1.all).itemType==0"), at("undone", "len($1.all)*")}, func(v V) int {
					if !v["ph"] {
						return mustnot
					}
					return dontcare
				})
			r.Guard(g, "completing an item", func(n *Node) bool { coll, more, ok := loopBranch(n); return ok && more && coll == "$1.all" }, call("BatchItems.completeItem"), or(anyDone, free, func(n *Node) bool { coll, _, ok := loopBranch(n); return ok && coll == "$1.all" }),
				[]Atom{at("ph", "elem($1.all).itemType==1", "!elem($1.all).itemType==0")}, func(v V) int {
					if v["ph"] {
						return mustnot
					}
					return dontcare
				})
			x := r.gs("BatchItems.executeCallback")
			back := dyn("BatchItems.callback")
			r.Guard(x, "invoking the callback of a batch", nil, back, nil, []Atom{at("nil", "$0.callback==nil")}, func(v V) int { return b2m(!v["nil"]) })
			r.Times(x, "the callback of a batch is invoked more than once", back, 0, 1, nil, nil)
			r.Every(x, "the callback receives another event or batch", back, 1, func(n *Node) bool { return arg(n, 0) == "$0.eventContext" && arg(n, 1) == "$0" })
			r.Auto(x, "", func(s St, n *Node) (St, string) {
				if back(n) {
					s = s.add("cb")
				}
				if n.E.K == KReturn {
					if s.has("cb") != strings.HasPrefix(arg(n, 0), "call:$0.callback(") || !s.has("cb") && arg(n, 0) != evOK {
						return s, "the state returned by the callback is dropped, or a batch without callback does not complete"
					}
				}
				return s, ""
			})
			// who runs batches and touches their state
			own := "AsyncBatcher.* || asyncBatchExecutor.* || NewAsyncBatcher"
			r.Confined("the executors change elsewhere", "asyncBatchExecutor.state || asyncBatchExecutor.all || asyncBatchExecutor.items || AsyncBatcher.assignments || AsyncBatcher.executingCount", own, true, false, 1)
			r.CalledFrom("an item is completed elsewhere", "BatchItems.completeItem || BatchItems.executeCallback", "AsyncBatcher.executeBatch", false, 2)
		})

	rule("batcher.config", "C12",
		"a batcher has as many executors as batches may be executed concurrently, all idle and different, the given batch size, executor and delay",
		func(r *R) {
			g := r.gn("NewAsyncBatcher", true, "sak.NewList", "sak.Abs")
			r.Every(g, "a batcher is not created as configured", kind(KReturn), 1, func(n *Node) bool {
				o := n.E.A[0]
				return o.FS("executor") == "$0" && o.FS("maxBatchSize") == "$1" && globs("make:[]asyncBatchExecutor($2,*) || mu(make:[]asyncBatchExecutor(0,$2);append(@,*))", o.FS("executors")) &&
					globs("make:map*", o.FS("assignments")) && globs("call:sak.NewList*", o.FS("pendingItems")) && globs("*$3* || *5000000*", o.FS("batchDelay"))
			})
			r.Guard(g, "using the default delay", nil, func(n *Node) bool {
				return n.E.K == KReturn && !strings.Contains(n.E.A[0].FS("batchDelay"), "$3")
			}, kind(KReturn), []Atom{at("zero", "$3==0")}, func(v V) int { return b2m(v["zero"]) })
			appended := func(n *Node) bool {
				return n.E.K == KCall && n.E.Name == "builtin.append" && len(n.E.A) == 2 && globs("mu(make:[]asyncBatchExecutor(0,$2);*", n.E.A[0].String()) && n.E.A[1].Op == "list" && len(n.E.A[1].A) == 1
			}
			fill := func(n *Node) bool {
				return appended(n) || n.E.K == KStore && globs("elem(make:[]asyncBatchExecutor($2,*)) || make:[]asyncBatchExecutor($2,*)[mu(0;@+1)]", n.E.R.String())
			}
			r.Every(g, "an executor is shared or not idle", fill, 1, func(n *Node) bool {
				v := n.E.V
				if appended(n) {
					v = n.E.A[1].A[0]
				}
				empty := func(f, ok string) bool { x := v.F(f); return x == nil || globs(ok, x.String()) }
				return v.Op == "obj" && r.perIteration(n) && empty("state", "0") && empty("items", "make:[]BatchItem(0,*) || nil") && empty("all", "make:[]BatchItem(0,*) || nil")
			})
			coll := "count:$2 || make:[]asyncBatchExecutor($2,*)"
			r.ForEach(g, "an executor is missing", coll, fill, 1, 1)
		})
}

// perIteration: what is stored at n is allocated in every loop the store is in.
func (r *R) perIteration(n *Node) bool {
	st, ok := n.E.Ins.(*ssa.Store)
	if !ok {
		return true
	}
	a, ok := st.Val.(*ssa.Alloc)
	if !ok {
		return true
	}
	for _, body := range r.p.Info(st.Parent()).loopOf {
		if body[st.Block().Index] && !body[a.Block().Index] {
			return false
		}
	}
	return true
}

// lockPred: n acquires mutex.
func lockPred(mutex string) Pred {
	return func(n *Node) bool { m, acq, _, ok := lockOp(n); return ok && acq && m == mutex }
}

// branchMore: the loop decided at n goes on.
func branchMore(n *Node) bool { _, more, ok := loopBranch(n); return ok && more }
