package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Transactions: eos_producer.go (C01, C02, C06, C15, C26, C36).

const nodeX = "recv($0.commitQueue)"
const nextX = "mu(recv($0.commitQueue).next;@.next)"
const chainX = "chain:mu(elem(" + nodeX + ".currentPartitions).tail;@.prev) || chain:mu(elem(" + nodeX + ".currentPartitions).root;@.next)"
const curX = "mu(elem(" + nodeX + ".currentPartitions).tail;@.prev)"

// setTo: field of an object is set, plainly or atomically.
func setTo(obj string, vals string) Pred {
	return func(n *Node) bool {
		switch n.E.K {
		case KStore:
			return globs(obj, n.E.R.String()) && globs(vals, n.E.V.String())
		case KCall:
			switch n.E.Name {
			case "atomic.StoreInt64", "atomic.StoreInt32", "atomic.StoreUint64", "atomic.Pointer.Store", "atomic.Int64.Store":
				return globs(obj, n.E.A[0].String()) && globs(vals, n.E.A[1].String())
			}
		}
		return false
	}
}

// reads of an integer, plain or atomic
func num(x string) string {
	return x + " || call:atomic.LoadInt64(" + x + ")"
}

func alt(format string, xs string) string {
	var out []string
	for _, x := range strings.Split(xs, " || ") {
		out = append(out, strings.ReplaceAll(format, "%", x))
	}
	return strings.Join(out, " || ")
}

var commitEnd = recv("eosProducerPool.commitQueue")

func commitGraph(r *R) *Graph {
	g := r.g("eosProducerPool.commitLoop")
	r.need(len(g.Find(recvX("$0.commitQueue"))), 1, "receive from the commit queue")
	return g
}

func endTxn(commit string) Pred {
	return call("kgo.Client.EndTransaction", nodeX+".client", "*", commit)
}

func init() {
	rule("txn.commit-preconditions", "C01",
		"EndTransaction(commit) only after: all buffered records produced, every event of every partition waited for, Flush succeeded after the last Produce, no produce error outstanding (or answered with Continue)",
		func(r *R) {
			g := commitGraph(r)
			produce := call("kgo.Client.Produce", nodeX+".client")
			done := recvX("mu(elem(" + nodeX + ".currentPartitions).tail;@.prev).done || mu(elem(" + nodeX + ".currentPartitions).root;@.next).done")
			ch := r.Loop(g, "ch", chainX, done, 1, 1, 1)
			parts := r.Loop(g, "parts", nodeX+".currentPartitions", func(n *Node) bool {
				_, cont, ok := loopBranch(n)
				return ok && !cont && ch.sites[siteOf(n)]
			}, 1, 1, 1)
			buf := r.Loop(g, "buf", nodeX+".recordsToProduce", produce, 1, 1, 1)
			commit := and(endTxn("*"), not(endTxn("false")))
			r.need(sites(g.Find(commit)), 1, "EndTransaction(commit) of the node taken from the commit queue")
			r.insts += len(g.Find(commit))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if recvX("$0.commitQueue")(n) {
					return "T", ""
				}
				if !s.has("T") {
					return s, ""
				}
				if n.E.K == KFork {
					return dead, ""
				}
				s = ch.step(s, n)
				if m := s.loopBad("ch"); m != "" && m != "the loop is left before every element was handled" {
					return s, "an event of the transaction is not waited for: " + m
				}
				s = parts.step(s, n)
				s = buf.step(s, n)
				switch {
				case produce(n):
					s = s.del("F").del("PE")
				case branch("call:kgo.Client.Flush("+nodeX+".client,*)==nil", true)(n):
					s = s.add("F")
				case branch("call:kgo.Client.Flush("+nodeX+".client,*)==nil", false)(n):
					s = s.del("F").add("failed")
				case branch("call:atomic.Pointer.Load("+nodeX+".produceErr)==nil", true)(n):
					if s.has("F") {
						s = s.add("PE")
					}
				case branch("call:*xnErrorHandler(*produceErr*)==0", true)(n): // Continue
					if s.has("F") {
						s = s.add("PE")
					}
				case branch("call:*xnErrorHandler(*produceErr*)==0", false)(n):
					s = s.del("PE")
				case recvX("call:context.Context.Done(*)")(n):
					s = s.add("failed")
				}
				if commit(n) {
					switch {
					case s.has("failed"):
						return s, "a transaction is committed after a time out or a failed flush"
					case s.get("buf") != "done":
						return s, "a transaction is committed although buffered records may not have been produced (" + s.loopBad("buf") + ")"
					case s.get("parts") != "done" || s.get("ch") == "left":
						return s, "a transaction is committed although not every event of every partition was waited for (" + s.loopBad("parts") + s.loopBad("ch") + ")"
					case !s.has("F"):
						return s, "a transaction is committed without a successful Flush after the last Produce"
					case !s.has("PE"):
						return s, "a transaction is committed although a produce error may be outstanding"
					}
				}
				return s, ""
			})
			// the zero-work case is aborted
			var zero []string
			for _, x := range strings.Split(num(nodeX+".produceCnt"), " || ") {
				zero = append(zero, x+"==0", x+"<1", "!0<"+x, "!-"+x+"<0", "!0-"+x+"<0")
			}
			guarded := func(n *Node) bool { // the commit flag itself is "something was produced"
				a := n.E.A[2].String()
				for _, z := range zero {
					if strings.HasPrefix(z, "!") && a == z[1:] || !strings.HasPrefix(z, "!") && a == "!"+z {
						return true
					}
				}
				return false
			}
			unguarded := and(commit, not(guarded))
			if len(g.Find(unguarded)) > 0 {
				r.Guard(g, "committing a transaction in which something was produced", recvX("$0.commitQueue"), unguarded,
					or(endTxn("*"), branch("call:kgo.Client.EndTransaction(*)==nil", true), branch("call:kgo.Client.EndTransaction(*)==nil", false)),
					[]Atom{at("empty", zero...)},
					func(v V) int {
						if v["empty"] {
							return mustnot
						}
						return dontcare
					})
			}
			r.Every(g, "the transaction is flushed and ended within the transaction's own context", or(call("kgo.Client.Flush"), call("kgo.Client.EndTransaction")), 2,
				func(n *Node) bool {
					return globs(nodeX+".client", n.E.A[0].String()) && globs(nodeX+".txnContext", n.E.A[1].String())
				})
		})

	rule("txn.reuse", "C01",
		"a producer node returns to the pool only after EndTransaction succeeded and its state was reset completely; failures are reported to the transaction error handler and never followed by a reuse",
		func(r *R) {
			g := commitGraph(r)
			reuse := sendX("$0.producerNodeQueue")
			r.need(sites(g.Find(reuse)), 1, "return of a producer node to the pool")
			emptied := r.Loop(g, "emp", nodeX+".currentPartitions", func(n *Node) bool {
				return n.E.K == KMapDel && n.E.X.String() == nodeX+".currentPartitions"
			}, 1, 1, 0)
			type item struct {
				tok, what string
				p         Pred
			}
			items := []item{
				{"ctx", "txnContext is reset", setTo(nodeX+".txnContext", "nil")},
				{"cancel", "the transaction context is cancelled", dyn("*.txnContextCancel")},
				{"cnt", "produceCnt is reset", setTo(nodeX+".produceCnt", "0")},
				{"ecc", "eventContextCnt is reset", setTo(nodeX+".eventContextCnt", "0")},
				{"bytes", "byteCount is reset", setTo(nodeX+".byteCount", "0")},
				{"perr", "produceErr is reset", setTo(nodeX+".produceErr", "nil")},
				{"recs", "recordsToProduce is emptied", setTo(nodeX+".recordsToProduce", "call:sak.Pool.Borrow(*) || nil || *[:0] || *[0:0] || new:*")},
				{"emap", "currentPartitions is emptied", or(setTo(nodeX+".currentPartitions", "new:*"), call("builtin.clear", nodeX+".currentPartitions"))},
			}
			r.insts += len(items)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if recvX("$0.commitQueue")(n) {
					return "T", ""
				}
				if !s.has("T") {
					if reuse(n) {
						return s, "a node is returned to the pool which was not taken from the commit queue"
					}
					return s, ""
				}
				if n.E.K == KFork {
					return dead, ""
				}
				s = emptied.step(s, n)
				if s.get("emp") == "done" {
					s = s.add("emap")
				}
				if endTxn("*")(n) {
					s = St("T")
				}
				if branch("call:kgo.Client.EndTransaction("+nodeX+".client,*)==nil", true)(n) {
					s = s.add("E")
				}
				for _, it := range items {
					if it.p(n) {
						s = s.add(it.tok)
					}
				}
				if reuse(n) {
					if n.E.V.String() != nodeX {
						return s, "another node than the committed one is returned to the pool"
					}
					if !s.has("E") {
						return s, "a producer node is reused although its transaction was not ended successfully"
					}
					for _, it := range items {
						if !s.has(it.tok) {
							return s, "a producer node is reused although it is not established that " + it.what
						}
					}
					return "", ""
				}
				return s, ""
			})
			fails := or(recvX("call:context.Context.Done("+nodeX+".txnContext)"),
				branch("call:kgo.Client.Flush("+nodeX+".client,*)==nil", false),
				branch("call:kgo.Client.EndTransaction("+nodeX+".client,*)==nil", false))
			r.need(sites(g.Find(fails)), 1, "failure outcomes of waiting, flushing and ending")
			handler := or(dyn("*xnErrorHandler"), call("DefaultTxnErrorHandler"))
			r.Follow(g, "a failed transaction is not reported to the transaction error handler", fails, handler,
				or(commitEnd, kind(KReturn), reuse))
			r.NotAfter(g, "the producer of a failed transaction is reused", fails, reuse, recvX("$0.commitQueue"))
			r.NotAfter(g, "a failed transaction is ended again", fails, and(endTxn("*"), not(endTxn("false"))), recvX("$0.commitQueue"))
		})

	rule("txn.exclusive", "C01",
		"no event joins a transaction while it is being finalized, committed or reset: both sides hold commitWaiter",
		func(r *R) {
			g := commitGraph(r)
			lock := call("sync.Mutex.Lock", nodeX+".commitWaiter")
			unlock := call("sync.Mutex.Unlock", nodeX+".commitWaiter")
			work := or(recvX("mu(elem("+nodeX+".currentPartitions).*;@.*).done"), call("kgo.Client.Flush", nodeX+".client"), endTxn("*"),
				setTo(nodeX+".eventContextCnt", "0"), setTo(nodeX+".txnContext", "nil"), mapdel("*.currentPartitions"),
				func(n *Node) bool {
					c, _, ok := loopBranch(n)
					return ok && c == nodeX+".currentPartitions"
				})
			r.need(sites(g.Find(work)), 1, "commit steps")
			r.insts += len(g.Find(work))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if recvX("$0.commitQueue")(n) {
					return "T", ""
				}
				if n.E.K == KFork {
					return dead, ""
				}
				if lock(n) {
					if s.has("was") {
						return s, "the transaction is unlocked and locked again while it is being committed"
					}
					return s.add("L").add("was"), ""
				}
				if unlock(n) {
					return s.del("L"), ""
				}
				if s.has("T") && work(n) && !s.has("L") {
					return s, "a step of the commit is made without holding the node's commit lock"
				}
				return s, ""
			})
			a := r.gs("producerNode.addEventContext")
			muts := or(mapset("producerNode.currentPartitions"), store("*.eventContextCnt"), store("EventContext.prev"), store("EventContext.next"))
			r.need(sites(a.Find(muts)), 1, "updates of the transaction in addEventContext")
			r.Held(a, "an event is added to the transaction without holding the node's commit lock", muts, "$0.commitWaiter", true)
			r.Held(a, "an event is added to the transaction without excluding relinquishOwnership", mapset("producerNode.currentPartitions"), "$0.partitionLock", true)
		})

	rule("txn.begin", "C01 C27",
		"a transaction is begun before its first record is produced, within the transaction's context, whose time out is shorter than the broker side transaction timeout",
		func(r *R) {
			for _, root := range []string{"eosProducerPool.commitLoop", "producerNode.ProduceRecord"} {
				g := r.g(root)
				r.insts += len(g.Find(call("kgo.Client.Produce")))
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					if n.E.K == KFork {
						return dead, ""
					}
					node := func(x string) string { return strings.TrimSuffix(strings.TrimSuffix(x, ".client"), ".txnContext") }
					if n.E.K == KBranch && !n.E.Val && strings.HasSuffix(n.E.X.String(), ".txnContext==nil") {
						s = s.set(node(strings.TrimSuffix(n.E.X.String(), "==nil")), "begun")
					}
					if call("kgo.Client.BeginTransaction")(n) {
						s = s.set(node(n.E.A[0].String()), "begun")
					}
					if n.E.K == KStore && strings.HasSuffix(n.E.R.String(), ".txnContext") && n.E.V.String() == "nil" {
						s = s.set(node(n.E.R.String()), "")
					}
					if recvX("$0.commitQueue")(n) {
						return "", ""
					}
					if call("kgo.Client.Produce")(n) {
						x := n.E.A[0].String()
						if !strings.HasSuffix(x, ".client") || s.get(node(x)) != "begun" {
							return s, "a record is produced by a transactional client before a transaction was begun"
						}
						c := n.E.A[1].String()
						if c != node(x)+".txnContext" && !strings.HasPrefix(c, "call:context.WithTimeout(") {
							return s, "a record is produced outside of the transaction's context"
						}
					}
					// forget the other nodes when moving on
					if c, cont, ok := loopBranch(n); ok && cont && c == "chain:"+nextX {
						s = s.set(nextX, "")
					}
					return s, ""
				})
				var limit int64 = -1
				pn := r.gs("newProducerNode")
				for _, n := range pn.Find(call("kgo.TransactionTimeout")) {
					limit, _ = strconv.ParseInt(n.E.A[0].String(), 10, 64)
				}
				if limit <= 0 {
					r.fatal("the broker side transaction timeout is not a constant")
				}
				stored := g.Find(and(kind(KStore), func(n *Node) bool { return strings.HasSuffix(n.E.R.String(), ".txnContext") }))
				r.need(sites(stored), 1, "creation of the transaction context")
				r.Every(g, "the transaction context ends before the broker's transaction timeout", func(n *Node) bool {
					return n.E.K == KStore && strings.HasSuffix(n.E.R.String(), ".txnContext") && n.E.V.String() != "nil"
				}, 1, func(n *Node) bool {
					v := n.E.V
					i := strings.LastIndex(v.String(), ",")
					j := strings.LastIndex(v.String(), ")")
					if !strings.HasPrefix(v.String(), "call:context.WithTimeout(") || i < 0 || j < i {
						return false
					}
					d, err := strconv.ParseInt(v.String()[i+1:j], 10, 64)
					return err == nil && d > 0 && d < limit
				})
			}
		})

	rule("txn.offset-record", "C02",
		"walking from the newest event of each partition, exactly the first real event (not an interjection) produces one commit record, in this transaction",
		func(r *R) {
			g := commitGraph(r)
			done := recvX(curX + ".done")
			ch := r.Loop(g, "ch", "chain:"+curX, done, 1, 1, 1)
			handed := func(n *Node) bool {
				if !(n.E.K == KCall && n.E.Name == "kgo.Client.Produce" && n.E.A[0].String() == nodeX+".client" ||
					n.E.K == KStore && n.E.R.String() == nodeX+".recordsToProduce" && strings.HasPrefix(n.E.V.String(), "append(")) {
					return false
				}
				for c := range ch.sites {
					if r.inLoop(c, n) {
						return true
					}
				}
				return false
			}
			r.need(sites(g.Find(handed)), 1, "production of the commit record while walking the events")
			r.insts += len(g.Find(handed))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if recvX("$0.commitQueue")(n) {
					return "T", ""
				}
				if !s.has("T") {
					return s, ""
				}
				if _, cont, ok := loopBranch(n); ok {
					if n.E.X.String() == "next("+nodeX+".currentPartitions)" {
						s = "T"
						if cont {
							s = s.add("P")
						}
						return s, ""
					}
					if ch.sites[siteOf(n)] {
						if s.has("real") && !s.has("rec") {
							return s, "the offset of the newest real event is not recorded"
						}
						s = s.del("real").del("intj").del("neg")
						if cont {
							s = s.add("it")
						} else {
							s = s.del("it")
						}
						return s, ""
					}
				}
				if n.E.K == KBranch {
					x := n.E.X.String()
					switch {
					case x == curX+".interjection==nil":
						if n.E.Val {
							s = s.add("real")
						} else {
							s = s.add("intj")
						}
					case x == curX+".input.kRecord.Offset<0":
						if n.E.Val {
							s = s.add("neg").del("real")
						}
					}
				}
				if handed(n) {
					if s.has("rec") {
						return s, "more than one commit record is produced for a partition"
					}
					if s.has("intj") || s.has("neg") {
						return s, "an interjection contributes an offset"
					}
					if !s.has("real") {
						return s, "a commit record is produced without establishing that the event is not an interjection"
					}
					s = s.add("rec")
				}
				return s, ""
			})
			// the walk really starts at the newest event and covers the chain: see txn.event-list
		})

	rule("txn.offset-content", "C02",
		"the commit record carries offset+1, the source partition as key, is stored in the commit log partition derived from the source partition, and is decoded with the same layout",
		func(r *R) {
			g := commitGraph(r)
			rec := "call:sak.Pool.Borrow(recordPool)"
			cr := func(n *Node) bool { return call("kgo.Client.Produce", nodeX+".client", "*", rec+".kRecord*")(n) }
			r.need(sites(g.Find(cr)), 1, "production of a commit record")
			off := curX + ".input.kRecord.Offset+1"
			part := curX + ".topicPartition.Partition"
			writes := func(buf, val string) Pred {
				return func(n *Node) bool {
					if n.E.K != KCall {
						return false
					}
					a := args(n.E.A)
					return strings.Contains(a, val) && (strings.Contains(a, rec+"."+buf) || strings.Contains(n.E.Name, "Put"))
				}
			}
			exact := func(buf, val string) Pred {
				w := writes(buf, val)
				return func(n *Node) bool {
					if !w(n) {
						return false
					}
					for _, a := range n.E.A {
						s := a.String()
						if s == val || strings.HasPrefix(s, "["+val+",") || s == "["+val+"]" {
							return true
						}
					}
					return false
				}
			}
			type item struct {
				tok, what string
				p         Pred
			}
			items := []item{
				{"v", "its value is the offset of the event plus one", exact("valueBuffer", off)},
				{"k", "its key identifies the source partition", exact("keyBuffer", part)},
				{"t", "its topic is the commit log topic", setTo(rec+".kRecord.Topic", nodeX+".commitLog.topic")},
				{"p", "its partition is derived from the source partition", setTo(rec+".kRecord.Partition", "("+part+"%"+nodeX+".commitLog.numPartitions)")},
			}
			r.insts += len(items)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if call("sak.Pool.Borrow", "recordPool")(n) {
					return "", ""
				}
				for _, it := range items {
					if it.p(n) {
						s = s.add(it.tok)
					}
				}
				if n.E.K == KStore && n.E.R.String() == rec+".kRecord.Partition" && !items[3].p(n) {
					s = s.del("p")
				}
				if n.E.K == KStore && n.E.R.String() == rec+".kRecord.Topic" && !items[2].p(n) {
					s = s.del("t")
				}
				if cr(n) {
					for _, it := range items {
						if !s.has(it.tok) {
							return s, "a commit record is produced although it is not established that " + it.what
						}
					}
				}
				return s, ""
			})
			// reader
			rd := r.gs("eosCommitLog.ReceiveChange")
			r.Every(rd, "the position read is stored for the partition read from the key", mapset("eosCommitLog.watermarks"), 1, func(n *Node) bool {
				k, v := n.E.A[0].String(), n.E.V.String()
				return strings.Contains(k, "kRecord.Key") && !strings.ContainsAny(k, "+-") && strings.Contains(v, "kRecord.Value") && !strings.ContainsAny(v, "+-")
			})
			r.Follow(rd, "a commit record is not stored", branchNotMarker(false), mapset("eosCommitLog.watermarks"), nil)
			// the same derivation is used to locate the record when synchronising
			lp := r.g("eosCommitLog.lastProcessed")
			r.Every(lp, "the commit log partition synchronised is derived from the source partition like the one written to", call("sendMarkerMessage"), 1, func(n *Node) bool {
				x := n.E.A[1]
				f := x.F("Partition")
				return f != nil && f.String() == "($1.Partition%$0.numPartitions)" || strings.Contains(x.String(), "Partition=($1.Partition%$0.numPartitions)")
			})
			w := r.gs("eosCommitLog.Watermark")
			r.Every(w, "the position looked up is the one of the source partition", kind(KMapGet), 1, func(n *Node) bool {
				return n.E.X.String() == "$0.watermarks" && n.E.V.String() == "$1.Partition"
			})
		})

	rule("txn.event-list", "C02 C01",
		"events join the per partition list at its tail, doubly linked, and the list covers every event of the partition",
		func(r *R) {
			a := r.gs("producerNode.addEventContext")
			p := "$1.topicPartition.Partition"
			old := "$0.currentPartitions[" + p + "]"
			ms := mapset("producerNode.currentPartitions")
			r.Every(a, "the list is stored for the partition of the event", ms, 1, func(n *Node) bool { return n.E.A[0].String() == p })
			r.Follow(a, "an event is not added to the list of its partition", kind(KStart), ms, nil)
			exists := "has($0.currentPartitions," + p + ")"
			r.insts += 4
			r.Auto(a, "", func(s St, n *Node) (St, string) {
				switch {
				case branch(exists, true)(n):
					s = s.add("old")
				case branch(exists, false)(n):
					s = s.add("new")
				case n.E.K == KStore && n.E.R.String() == "$1.prev":
					if n.E.V.String() == old+".tail" {
						s = s.add("prev")
					} else {
						s = s.del("prev")
					}
				case n.E.K == KStore && n.E.R.String() == old+".tail.next":
					if n.E.V.String() == "$1" {
						s = s.add("next")
					} else {
						s = s.del("next")
					}
				}
				if ms(n) {
					v := n.E.V
					t, ro := v.FS("tail"), v.FS("root")
					if t != "$1" {
						return s, "the added event does not become the newest one of its partition"
					}
					if s.has("old") {
						if ro != old+".root" {
							return s, "adding an event replaces the root of the list"
						}
						if !s.has("prev") {
							return s, "the added event is not linked to the previous newest event"
						}
					} else {
						if ro != "$1" {
							return s, "the first event of a partition does not become the root of the list"
						}
					}
				}
				return s, ""
			})
		})

	rule("txn.mark", "C36",
		"consumer group offsets are marked only when requested, only for real events, all of them, and only after the transaction was ended successfully",
		func(r *R) {
			g := commitGraph(r)
			mark := call("kgo.Client.MarkCommitRecords")
			r.need(sites(g.Find(mark)), 1, "marking of offsets")
			ch := r.Loop(g, "ch", chainX, mark, 0, 1, 1)
			parts := r.Loop(g, "parts", nodeX+".currentPartitions", func(n *Node) bool {
				_, cont, ok := loopBranch(n)
				return ok && !cont && ch.sites[siteOf(n)]
			}, 0, 1, 1)
			r.insts += len(g.Find(mark))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if recvX("$0.commitQueue")(n) {
					return "T", ""
				}
				if branch("call:kgo.Client.EndTransaction("+nodeX+".client,*)==nil", true)(n) {
					s = s.add("E")
				}
				if _, _, ok := loopBranch(n); ok && ch.sites[siteOf(n)] {
					if s.has("real") && !s.has("marked") && s.has("req") {
						return s, "a committed event is not marked although offsets shall be committed"
					}
					s = s.del("real").del("marked").del("intj")
				}
				s = ch.step(s, n)
				s = parts.step(s, n)
				if n.E.K == KBranch {
					switch n.E.X.String() {
					case nodeX + ".shouldMarkCommit":
						if n.E.Val {
							s = s.add("req")
						} else {
							s = s.add("noreq")
						}
					default:
						if ch.in(n) && strings.HasPrefix(n.E.X.String(), "mu(elem("+nodeX+".currentPartitions).") && strings.HasSuffix(n.E.X.String(), ".interjection==nil") {
							if n.E.Val {
								s = s.add("real")
							} else {
								s = s.add("intj")
							}
						}
					}
				}
				if mark(n) {
					switch {
					case !s.has("E"):
						return s, "offsets are marked before the transaction was committed"
					case !s.has("req"):
						return s, "offsets are marked although committing offsets was not requested"
					case !s.has("real") || s.has("intj"):
						return s, "an interjection is marked for committing"
					case n.E.A[0].String() != nodeX+".commitClient":
						return s, "offsets are marked with another client than the one which commits them"
					case !globs("[mu(elem("+nodeX+".currentPartitions).*).input.kRecord*]", n.E.A[1].String()):
						return s, "another record than the event's is marked"
					}
					s = s.add("marked")
				}
				if sendX("$0.producerNodeQueue")(n) && s.has("req") {
					if s.get("ch") == "left" || s.get("parts") != "done" {
						return s, "not every committed event is marked although offsets shall be committed"
					}
				}
				return s, ""
			})
			// the flag is what the application configured
			src := r.gs("Source.shouldMarkCommit")
			r.Every(src, "offsets are committed exactly when configured", kind(KReturn), 1, func(n *Node) bool {
				return strings.Contains(n.E.A[0].String(), "CommitOffsets") && !strings.HasPrefix(n.E.A[0].String(), "!")
			})
			pn := r.gs("newProducerNode")
			r.Every(pn, "a producer node marks offsets exactly when configured", kind(KReturn), 1, func(n *Node) bool {
				f := n.E.A[0].F("shouldMarkCommit")
				return f != nil && globs("$1.config.CommitOffsets", f.String())
			})
		})
}

func branchNotMarker(val bool) Pred {
	return func(n *Node) bool {
		return n.E.K == KBranch && strings.Contains(n.E.X.String(), "markerRecordType") || n.E.K == KBranch && n.E.Val == val && strings.Contains(n.E.X.String(), `"__kesmk__"`)
	}
}

var _ = fmt.Sprint
