package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The pool of producers: eos_producer.go (C06, C15, C23, C26, C41).

// ringRoles decides which producer nodes the links of the ring connect, where the nodes are kept in
// variables of the loop creating them. It returns whether nodes are linked in a loop.
func (r *R) ringRoles() bool {
	inLoop := false
	for _, st := range r.FieldSites("producerNode.next") {
		s, ok := st.Ins.(*ssa.Store)
		if !ok {
			continue
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		r.insts++
		inf := r.p.Info(st.Fn)
		var body map[int]bool
		for _, b := range inf.loopOf {
			if b[s.Block().Index] {
				body = b
			}
		}
		if body != nil {
			inLoop = true
			if ring, role := r.nodeRole(fa.X); ring && role != "prev" {
				r.fail(s.Pos(), r.p.Name(st.Fn), "another producer node than the one created before is linked to the new one", nil)
			}
			if ring, _ := r.nodeRole(s.Val); ring {
				r.fail(s.Pos(), r.p.Name(st.Fn), "a producer node is not linked to the one created after it", nil)
			}
			continue
		}
		if ring, role := r.nodeRole(fa.X); ring && role != "prev" {
			r.fail(s.Pos(), r.p.Name(st.Fn), "the ring of producer nodes is not closed at the node created last", nil)
		}
		if ring, role := r.nodeRole(s.Val); ring && role != "first" {
			r.fail(s.Pos(), r.p.Name(st.Fn), "the ring of producer nodes does not lead back to the node created first", nil)
		}
		if c, ok := fa.X.(*ssa.Const); ok && c.IsNil() {
			r.fail(s.Pos(), r.p.Name(st.Fn), "the ring of producer nodes is not closed at the node created last", nil)
		}
		if c, ok := s.Val.(*ssa.Const); ok && c.IsNil() {
			r.fail(s.Pos(), r.p.Name(st.Fn), "the producer nodes do not form a ring", nil)
		}
	}
	return inLoop
}

// nodeRole: the value is a variable of the loop which creates the producer nodes, holding the node
// created before ("prev"), the one created first ("first") or something else ("").
func (r *R) nodeRole(v ssa.Value) (bool, string) {
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false, ""
	}
	body := r.p.Info(p.Parent()).loopOf[p.Block().Index]
	if body == nil {
		return false, ""
	}
	isNew := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && body[c.Block().Index] && c.Call.StaticCallee() != nil && r.p.Name(c.Call.StaticCallee()) == "newProducerNode"
	}
	role := ""
	for i, e := range p.Edges {
		pred := p.Block().Preds[i]
		if !body[pred.Index] {
			if c, ok := e.(*ssa.Const); !ok || !c.IsNil() {
				return true, ""
			}
			continue
		}
		got := ""
		switch x := e.(type) {
		case *ssa.Call:
			if isNew(x) {
				got = "prev"
			}
		case *ssa.Phi: // the new node if there is none yet, the same as before otherwise
			got = "first"
			for j, f := range x.Edges {
				if f == p {
					continue
				}
				if !isNew(f) {
					return true, ""
				}
				if !firstOnly(x, j, body) {
					got = ""
				}
			}
		}
		if got == "" || role != "" && role != got {
			return true, ""
		}
		role = got
	}
	return true, role
}

// firstOnly: the j-th edge of a phi is taken exactly when a variable of the loop is still nil (or its
// counter zero). Conditions of other forms are not judged.
func firstOnly(x *ssa.Phi, j int, body map[int]bool) bool {
	b := x.Block().Preds[j]
	at := x.Block()
	for len(b.Preds) == 1 {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			break
		}
		at, b = b, b.Preds[0]
	}
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || !body[b.Index] {
		return false
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	y, ok := c.Y.(*ssa.Const)
	if !ok {
		return true
	}
	zero := y.IsNil() || y.Value != nil && y.Value.ExactString() == "0"
	if !zero {
		return true
	}
	switch c.Op {
	case token.EQL:
		return b.Succs[0] == at
	case token.NEQ, token.GTR:
		return b.Succs[1] == at
	}
	return true
}

func init() {
	rule("own.flush", "C41",
		"a transaction which accepted an event is handed to the committer once it is large enough, and otherwise a timer is armed with the batch delay and re-armed until it could be handed over; none is handed over without events",
		func(r *R) {
			g := r.gs("eosProducerPool.forwardExecutionContexts")
			joined := and(mapset("producerNode.currentPartitions"), func(n *Node) bool { return n.E.X.String() == "$0.onDeck.currentPartitions" })
			swap := sendX("$0.commitQueue")
			reset := call("time.Ticker.Reset || time.Timer.Reset", "$0.flushTimer")
			arm := call("time.Ticker.Reset || time.Timer.Reset", "$0.flushTimer", "$0.cfg.BatchDelay")
			tick := recvX("$0.flushTimer.C")
			ec, pc := "$0.onDeck.eventContextCnt", num("$0.onDeck.produceCnt")
			large := alt("$0.cfg.MaxBatchSize-%<1 || $0.cfg.TargetBatchSize-%<1", ec+" || "+pc)
			large2 := alt("-$0.cfg.MaxBatchSize+%<0 || %-$0.cfg.MaxBatchSize<0 || -$0.cfg.TargetBatchSize+%<0 || %-$0.cfg.TargetBatchSize<0", ec+" || "+pc)
			isLarge := or(branch(large, true), branch(large2, false))
			r.need(sites(g.Find(joined)), 1, "joining of the on-deck transaction")
			r.need(sites(g.Find(tick)), 1, "reception from the flush timer")
			r.need(sites(g.Find(arm)), 1, "arming of the flush timer")
			r.need(sites(g.Find(swap)), 1, "handing over to the committer")
			r.insts += len(g.Find(or(joined, swap, reset, tick)))
			for _, n := range g.Find(kind(KSel)) {
				if a := altStr(n.E); strings.Contains(a, "<-$0.buffer") && !strings.Contains(a, "<-$0.flushTimer.C") {
					r.failN(g, n, "the flush timer is not waited for", nil)
				}
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				switch {
				case e.K == KSel && e.Name != "default" && strings.Contains(altStr(e), "<-$0.buffer"), e.K == KReturn:
					if !s.has("handed") && !s.has("armed") {
						if s.has("J") && s.get("first") != "0" {
							return s, "an event opens a transaction, but the flush timer is not armed with the batch delay: it may never be committed"
						}
						if s.has("tick") && s.get("empty") != "1" {
							return s, "the flush timer expired, but the transaction is neither handed over nor the timer armed again"
						}
					}
					if s.has("J") && s.has("large") && !s.has("tried") {
						return s, "the transaction reached its target size, but it is not handed over"
					}
					if e.K == KReturn {
						return s, "event contexts are no longer forwarded"
					}
					return "", ""
				case tick(n):
					return St("tick"), ""
				case branch(ec+"==0 || "+ec+"<1", true)(n), branch("0<"+ec+" || -"+ec+"<0", false)(n):
					if s.has("J") || s.has("large") {
						return dead, ""
					}
					s = s.set("first", "1").set("empty", "1")
				case branch(ec+"==0 || "+ec+"<1", false)(n), branch("0<"+ec+" || -"+ec+"<0", true)(n):
					if s.get("empty") == "1" && !s.has("J") {
						return dead, ""
					}
					if !s.has("J") {
						s = s.set("first", "0")
					}
					s = s.set("empty", "0")
				case joined(n):
					s = s.add("J").set("empty", "0")
				case isLarge(n):
					s = s.add("large")
				case e.K == KSel && e.Name == "default" && strings.Contains(altStr(e), "->$0.commitQueue"):
					s = s.add("tried")
				case swap(n):
					if !s.has("handed") && s.get("empty") != "0" && !s.has("large") {
						return s, "a transaction may be handed over although it has no events"
					}
					if !s.has("tick") && !s.has("large") {
						return s, "a transaction is handed over although neither its target size was reached nor its delay elapsed"
					}
					s = s.add("handed").add("tried")
				case reset(n):
					if s.has("handed") {
						break // the next transaction has no events
					}
					if arm(n) {
						if s.has("J") && s.get("first") == "0" && !s.has("tried") {
							return s, "every event defers the commit of the transaction it joins"
						}
						s = s.add("armed")
					} else if s.get("empty") != "1" {
						return s, "the flush timer is deferred although the transaction has events"
					} else {
						s = s.del("armed")
					}
				}
				return s, ""
			})
		})

	rule("txn.begun", "C01 C41",
		"a transaction is begun exactly once: exactly when it has no context yet, which is set at that time; it is flushed and ended only once begun",
		func(r *R) {
			for _, root := range []string{"eosProducerPool.commitLoop", "producerNode.ProduceRecord"} {
				g := r.g(root)
				begin := call("kgo.Client.BeginTransaction")
				node := func(x string) string {
					return strings.TrimSuffix(strings.TrimSuffix(strings.TrimSuffix(x, "==nil"), ".client"), ".txnContext")
				}
				r.need(sites(g.Find(begin)), 1, "beginning of a transaction")
				r.insts += len(g.Find(begin))
				use := or(call("kgo.Client.Flush || kgo.Client.EndTransaction", nodeX+".client"), recvX("call:context.Context.Done("+nodeX+".txnContext)"))
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					e := n.E
					switch {
					case e.K == KFork:
						return dead, ""
					case recvX("$0.commitQueue")(n):
						return "", ""
					case e.K == KBranch && strings.HasSuffix(e.X.String(), ".txnContext==nil"):
						x := node(e.X.String())
						switch old := s.get(x); {
						case e.Val && (old == "ctx" || old == "begun"), !e.Val && old == "nil":
							return dead, ""
						case e.Val && old == "":
							s = s.set(x, "nil")
						case !e.Val && old == "":
							s = s.set(x, "begun")
						}
					case e.K == KStore && strings.HasSuffix(e.R.String(), ".txnContext"):
						x := node(e.R.String())
						if e.V.String() == "nil" {
							return s.set(x, ""), ""
						}
						switch s.get(x) {
						case "nil":
							s = s.set(x, "ctx")
						case "bare":
							s = s.set(x, "begun")
						default:
							return s, "the context of a transaction is replaced although it may be in use"
						}
					case begin(n):
						x := node(e.A[0].String())
						switch s.get(x) {
						case "nil":
							s = s.set(x, "bare")
						case "ctx":
							s = s.set(x, "begun")
						default:
							return s, "a transaction may be begun although it is already open"
						}
					case call("kgo.Client.Produce")(n):
						if x := node(e.A[0].String()); s.get(x) != "begun" {
							return s, "a record is produced although its transaction was not begun"
						}
					case use(n):
						if s.get(nodeX) != "begun" {
							return s, "a transaction is waited for, flushed or ended although it was not begun"
						}
					}
					if c, cont, ok := loopBranch(n); ok && cont && c == "chain:"+nextX {
						s = s.set(nextX, "")
					}
					return s, ""
				})
			}
		})

	rule("produce.callback", "C06 C15 C26",
		"once a record of a transaction was acknowledged or failed, its callback, if any, runs once with the record as it was produced and its own error, its size is counted once, and errors are reported exactly for failed records, without blocking",
		func(r *R) {
			for _, root := range []string{"producerNode.ProduceRecord", "eosProducerPool.commitLoop"} {
				g := r.g(root)
				isCb := func(n *Node) bool {
					return n.E.K == KDyn && len(n.E.A) == 2 && strings.HasPrefix(n.E.A[1].String(), "cb:1(call:kgo.Client.Produce(")
				}
				r.need(sites(g.Find(isCb)), 1, "invocation of the callback of a record")
				r.insts += len(g.Find(isCb))
				failed := func(v bool) Pred {
					return func(n *Node) bool {
						return n.E.K == KBranch && n.E.Val == v && globs("cb:1(call:kgo.Client.Produce(*))==nil", n.E.X.String())
					}
				}
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					e := n.E
					if e.K == KFork {
						if c, ok := e.Ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && r.p.Name(c.Common().StaticCallee()) == "kgo.Client.Produce" {
							return "P", ""
						}
						return dead, ""
					}
					if e.K == KSend && strings.HasSuffix(e.X.String(), ".errorChannel") && e.Block {
						return s, "reporting an error may block the committer or the client"
					}
					if !s.has("P") {
						return s, ""
					}
					switch {
					case failed(true)(n):
						s = s.set("err", "0")
					case failed(false)(n):
						s = s.set("err", "1")
					case e.K == KBranch && globs("$3==nil || elem(*.recordsToProduce).cb==nil", e.X.String()):
						s = s.set("cb", b01(!e.Val))
					case e.K == KStore && strings.HasSuffix(e.R.String(), ".kRecord") && strings.HasPrefix(e.V.String(), "cb:0(call:kgo.Client.Produce("):
						s = s.add("rec")
					case e.K == KCall && e.Name == "atomic.AddInt64":
						if strings.HasSuffix(e.A[0].String(), ".byteCount") && strings.Contains(e.A[1].String(), "len(cb:0(call:kgo.Client.Produce(") {
							if s.has("bytes") {
								return s, "the size of a record is counted twice"
							}
							s = s.add("bytes")
						} else {
							return s, "the size of a record is not counted as such"
						}
					case call("atomic.Pointer.CompareAndSwap || atomic.Pointer.Store || atomic.Pointer.Swap", "*.produceErr")(n), e.K == KSend && strings.HasSuffix(e.X.String(), ".errorChannel"):
						if s.get("err") != "1" {
							return s, "an error is reported for a record which did not fail"
						}
						if e.K == KSend && !strings.HasPrefix(e.V.String(), "cb:1(call:kgo.Client.Produce(") {
							return s, "another error is reported than the one of the record"
						}
					case isCb(n):
						if s.get("cb") != "1" {
							return s, "a callback is called without establishing that there is one"
						}
						if s.has("called") {
							return s, "the callback of a record runs twice"
						}
						if !s.has("rec") {
							return s, "the callback gets the record as it was given, not as it was produced"
						}
						s = s.add("called")
					case e.K == KFEnd:
						if s.get("cb") == "1" && !s.has("called") {
							return s, "the callback of a record is not called"
						}
						if !s.has("bytes") {
							return s, "the size of a record is not counted"
						}
						return "", ""
					}
					return s, ""
				})
				r.Every(g, "the callback gets its own record", isCb, 1, func(n *Node) bool {
					rec := n.E.A[0].String()
					return strings.Contains(n.E.A[1].String(), ","+rec+".kRecord,")
				})
			}
			g := r.gs("producerNode.ProduceRecord")
			r.Guard(g, "stamping a record", nil, func(n *Node) bool {
				return n.E.K == KStore && strings.HasSuffix(n.E.R.String(), ".kRecord.Timestamp")
			}, nil, []Atom{at("unset", "call:time.Time.IsZero($2.kRecord.Timestamp)")}, func(v V) int { return b2m(v["unset"]) })
			r.Precede(g, "a record is handed over before it was stamped", call("time.Time.IsZero", "$2.kRecord.Timestamp"),
				or(call("kgo.Client.Produce"), func(n *Node) bool { return n.E.K == KStore && n.E.R.String() == "$0.recordsToProduce" }), nil)
		})

	rule("txn.continue", "C15",
		"a produce error which the transaction error handler answers with Continue does not keep the transaction from being committed",
		func(r *R) {
			g := commitGraph(r)
			ask := func(n *Node) bool {
				return globs("dyn:*xnErrorHandler || *xnErrorHandler", n.E.Name) && n.E.K == KDyn && len(n.E.A) > 0 && strings.Contains(n.E.A[len(n.E.A)-1].String(), nodeX+".produceErr")
			}
			r.need(sites(g.Find(ask)), 1, "question whether to go on after a produce error")
			r.insts += len(g.Find(ask))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				switch {
				case n.E.K == KFork:
					return dead, ""
				case recvX("$0.commitQueue")(n):
					return "T", ""
				case recvX("$0.errorChannel")(n), endTxn("*")(n):
					return "", ""
				case s.has("T") && ask(n):
					if s.has("asked") {
						return "", ""
					}
					s = s.add("asked")
				case s.has("asked") && branch("call:*xnErrorHandler(*)==0", true)(n):
					s = s.add("go")
				case s.has("asked") && branch("call:*xnErrorHandler(*)==0", false)(n):
					return "", ""
				case n.E.K == KSel && strings.Contains(altStr(n.E), "$0.commitQueue") || n.E.K == KReturn:
					if s.has("go") {
						return s, "the handler answered Continue, but the transaction is not committed and its producer is lost"
					}
				}
				return s, ""
			})
		})
}
