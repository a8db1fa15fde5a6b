package main

import (
	"strings"
)

// isOld: a value computed by an earlier execution of the same instruction.
func isOld(x *X) bool { return x != nil && x.Op == "old" }

func baseOf(x *X) *X {
	if x != nil && (x.Op == "field" || x.Op == "ref") && len(x.A) > 0 {
		return x.A[0]
	}
	return nil
}

func init() {
	rule("own.produce", "C06 C01",
		"a record is handed to the client only while the node owns the event's partition, otherwise buffered, exactly once either way, counted exactly once, all in one produceLock section",
		func(r *R) {
			g := r.g("producerNode.ProduceRecord")
			produce := call("kgo.Client.Produce")
			isBuf := func(n *Node) bool {
				return n.E.K == KStore && n.E.R.String() == "$0.recordsToProduce"
			}
			part := "$1.topicPartition.Partition"
			owner := "$0==$0.partitionOwners.owners[" + part + "] || $0.partitionOwners.owners[" + part + "]==$0"
			r.need(sites(g.Find(produce)), 1, "Produce")
			r.need(sites(g.Find(isBuf)), 1, "buffering")
			r.insts += len(g.Find(produce)) + len(g.Find(isBuf))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				switch {
				case call("sync.Mutex.Lock", "$0.produceLock")(n):
					if s.has("was") {
						return s, "ownership is checked and used in different produceLock sections"
					}
					s = s.add("L").add("was")
				case call("sync.Mutex.Unlock", "$0.produceLock")(n):
					s = s.del("L")
				case branch(owner, true)(n):
					s = s.add("own")
					if !s.has("L") {
						return s, "ownership is checked without holding produceLock"
					}
				case branch(owner, false)(n):
					s = s.add("notown")
				case setTo("$0.produceCnt", "*")(n):
					if n.E.V.String() != "$0.produceCnt+1" {
						return s, "producing a record does not count it exactly once"
					}
					if s.has("cnt") {
						return s, "a record is counted twice"
					}
					s = s.add("cnt")
				case call("atomic.AddInt64", "$0.produceCnt")(n):
					if n.E.A[1].String() != "1" || s.has("cnt") {
						return s, "producing a record does not count it exactly once"
					}
					s = s.add("cnt")
				case produce(n):
					if !s.has("own") {
						return s, "a record is produced although it is not established that this transaction owns the partition"
					}
					if !s.has("L") || s.has("out") {
						return s, "a record is produced twice or outside of the produceLock"
					}
					if n.E.A[0].String() != "$0.client" || !strings.HasPrefix(n.E.A[2].String(), "$2.kRecord") {
						return s, "another record or client is used than the one given"
					}
					s = s.add("out")
				case isBuf(n):
					v := n.E.V.String()
					if !strings.HasPrefix(v, "append($0.recordsToProduce,") || !strings.Contains(v, "record=$2") || !strings.Contains(v, "partition="+part) || !strings.Contains(v, "cb=$3") {
						return s, "a record is not buffered completely, at the end of the buffer, with its partition and callback"
					}
					if !s.has("notown") {
						return s, "a record is buffered although this transaction owns the partition (it would be overtaken by later ones)"
					}
					if !s.has("L") || s.has("out") {
						return s, "a record is buffered twice or outside of the produceLock"
					}
					s = s.add("out")
				case n.E.K == KReturn:
					if !s.has("out") {
						return s, "a record is neither produced nor buffered"
					}
					if !s.has("cnt") {
						return s, "a record is not counted"
					}
					if s.has("L") {
						return s, "produceLock is not released"
					}
				}
				return s, ""
			})
		})

	rule("own.takeover", "C06 C02",
		"at the start of a commit, in one produceLock section, every buffered record is produced in order and the ownership of every partition of the transaction is taken, before the events are finalized",
		func(r *R) {
			g := commitGraph(r)
			produce := and(call("kgo.Client.Produce", nodeX+".client"), func(n *Node) bool {
				return strings.HasPrefix(n.E.A[2].String(), "elem("+nodeX+".recordsToProduce).record.kRecord")
			})
			buf := r.Loop(g, "buf", nodeX+".recordsToProduce", produce, 1, 1, 1)
			set := func(n *Node) bool {
				return mapset("partitionOwners.owners")(n) && n.E.A[0].String() == "key("+nodeX+".currentPartitions)" && n.E.V.String() == nodeX
			}
			own := r.Loop(g, "own", nodeX+".currentPartitions", set, 1, 1, 1)
			fin := recvX("mu(elem(" + nodeX + ".currentPartitions).*;@.*).done")
			r.insts += len(g.Find(or(produce, set, fin)))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if recvX("$0.commitQueue")(n) {
					return "T", ""
				}
				if !s.has("T") {
					return s, ""
				}
				if call("sync.Mutex.Lock", nodeX+".produceLock")(n) && !s.has("fin") {
					if s.has("was") {
						return s, "buffered records are flushed and ownership is taken in different produceLock sections"
					}
					s = s.add("was").add("L")
				}
				if call("sync.Mutex.Unlock", nodeX+".produceLock")(n) {
					s = s.del("L")
				}
				s = buf.step(s, n)
				s = own.step(s, n)
				if (produce(n) || set(n)) && !s.has("L") {
					return s, "buffered records are flushed or ownership is taken without holding produceLock"
				}
				if set(n) && s.get("buf") != "done" {
					return s, "ownership is taken before the buffered records were produced"
				}
				if fin(n) {
					s = s.add("fin")
				}
				if fin(n) || call("kgo.Client.Flush")(n) {
					if s.get("buf") != "done" {
						return s, "the transaction is finalized before its buffered records were produced (" + s.loopBad("buf") + ")"
					}
					if s.get("own") != "done" {
						return s, "the transaction is finalized before it owns all of its partitions, its commit records would be buffered and lost (" + s.loopBad("own") + ")"
					}
				}
				return s, ""
			})
			// callback and record of one pending entry belong together
			r.Every(g, "a buffered record is produced with its own callback", call("producerNode.produceKafkaRecord"), 1, func(n *Node) bool {
				a, b := n.E.A[1].String(), n.E.A[2].String()
				if strings.HasSuffix(a, ".record") {
					return b == strings.TrimSuffix(a, ".record")+".cb"
				}
				return true
			})
		})

	rule("own.handoff", "C06",
		"after a commit the ownership of each partition passes to the next transaction in ring order with events of the partition, in one produceLock section with flushing its buffered records; otherwise it is released",
		func(r *R) {
			g := commitGraph(r)
			key := "key(" + nodeX + ".currentPartitions)"
			hasP := "has(" + nextX + ".currentPartitions," + key + ")"
			give := and(mapset("partitionOwners.owners"), func(n *Node) bool { return n.E.A[0].String() == key && n.E.V.String() != nodeX })
			drop := and(mapdel("partitionOwners.owners"), func(n *Node) bool { return n.E.V.String() == key })
			produce := call("kgo.Client.Produce", nextX+".client")
			keep := func(n *Node) bool {
				return n.E.K == KCall && n.E.Name == "builtin.append" && n.E.A[1].String() == "[elem("+nextX+".recordsToProduce)]"
			}
			r.need(sites(g.Find(give)), 1, "transfer of ownership")
			r.need(sites(g.Find(drop)), 1, "release of ownership")
			r.need(sites(g.Find(produce)), 1, "flush of the next transaction's records")
			fl := r.Loop(g, "fl", nextX+".recordsToProduce", or(produce, keep), 1, 1, 1)
			all := r.Loop(g, "all", nodeX+".currentPartitions", or(give, drop), 1, 1, 1)
			locks := r.Loop(g, "rl", "chain:"+nextX, call("sync.RWMutex.RLock", nextX+".partitionLock"), 1, 1, 1)
			unlocks := r.Loop(g, "ru", "chain:"+nextX, call("sync.RWMutex.RUnlock", nextX+".partitionLock"), 1, 1, 1)
			match := "elem(" + nextX + ".recordsToProduce).partition-" + key + "==0 || " + key + "-elem(" + nextX + ".recordsToProduce).partition==0"
			r.insts += len(g.Find(or(give, drop, produce, keep)))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if recvX("$0.commitQueue")(n) {
					return "T", ""
				}
				if !s.has("T") {
					return s, ""
				}
				if branch("call:kgo.Client.EndTransaction("+nodeX+".client,*)==nil", true)(n) {
					s = s.add("E")
				}
				s = locks.step(s, n)
				s = unlocks.step(s, n)
				s = all.step(s, n)
				s = fl.step(s, n)
				if m := s.loopBad("fl"); m != "" {
					return s, "records buffered by the next transaction are not all produced or kept exactly once: " + m
				}
				if m := s.loopBad("all"); m != "" {
					return s, "the ownership of a partition is not handed over or released exactly once: " + m
				}
				if c, cont, ok := loopBranch(n); ok {
					if c == nodeX+".currentPartitions" && cont {
						s = s.del("out").del("found").del("L").del("repl").del("searched").set("fl", "")
					}
					if c == "chain:"+nextX && !cont && globs(nextX+"=="+nodeX+" || "+nodeX+"=="+nextX, n.E.X.String()) {
						s = s.add("searched")
					}
					if c == "chain:"+nextX && cont {
						s = s.del("match").del("nomatch").del("searched")
						if s.has("found") && !s.has("out") && all.in(n) {
							return s, "a transaction with events of the partition is passed over"
						}
					}
				}
				switch {
				case call("sync.Mutex.Lock", nextX+".produceLock")(n):
					s = s.add("L")
				case call("sync.Mutex.Unlock", nextX+".produceLock")(n):
					if s.has("found") && !s.has("out") {
						return s, "produceLock of the next owner is released between finding it and transferring the ownership"
					}
					s = s.del("L")
				case branch(hasP, true)(n) && all.in(n) && !s.has("found"):
					if s.get("rl") != "done" {
						return s, "the events of the other transactions are examined without locking out new ones"
					}
					if !s.has("L") {
						return s, "the next owner is determined without holding its produceLock"
					}
					s = s.add("found")
				case branch(match, true)(n):
					s = s.add("match").del("nomatch")
				case branch(match, false)(n):
					s = s.add("nomatch").del("match")
				case produce(n):
					if !s.has("E") {
						return s, "records of the next transaction are produced before this one was committed"
					}
					if !s.has("found") || !s.has("match") || !s.has("L") {
						return s, "a record of another partition, or of a node without events of the partition, is produced early"
					}
					if !strings.HasPrefix(n.E.A[2].String(), "elem("+nextX+".recordsToProduce).record.kRecord") {
						return s, "another record than the buffered one is produced"
					}
					s = s.del("match")
				case keep(n) && fl.in(n):
					if !s.has("nomatch") {
						return s, "a record of the handed over partition is kept in the buffer"
					}
					s = s.del("nomatch")
				case n.E.K == KStore && n.E.R.String() == nextX+".recordsToProduce":
					v := n.E.V.String()
					if !strings.Contains(v, "append(") && !strings.Contains(v, "acc:") && !strings.HasPrefix(v, "call:sak.Pool.Borrow(") {
						return s, "the remaining buffered records of the next transaction are not kept"
					}
					if s.has("found") {
						s = s.add("repl")
					}
				case give(n):
					if n.E.V.String() != nextX {
						return s, "the ownership is given to a node which is not the next one in the ring"
					}
					if !s.has("E") {
						return s, "the ownership is given away before the transaction was committed"
					}
					if !s.has("found") || !s.has("L") {
						return s, "the ownership is given to a transaction without events of the partition or without holding its produceLock"
					}
					if s.get("fl") != "done" {
						return s, "the ownership is transferred before the buffered records of the new owner were produced"
					}
					if !s.has("repl") {
						return s, "the produced records of the new owner stay in its buffer, they are produced again"
					}
					s = s.add("out")
				case drop(n):
					if !s.has("E") {
						return s, "the ownership is released before the transaction was committed"
					}
					if s.has("found") {
						return s, "the ownership is released although another transaction has events of the partition"
					}
					if !s.has("searched") {
						return s, "the ownership is released before every other transaction was asked for events of the partition"
					}
					s = s.add("out")
				case sendX("$0.producerNodeQueue")(n):
					if s.get("all") != "done" {
						return s, "a node is reused before it gave up the ownership of its partitions"
					}
					if s.get("ru") != "done" {
						return s, "the other transactions stay locked"
					}
				}
				if s.get("rl") == "done" && s.get("ru") == "done" && (give(n) || drop(n)) {
					return s, "the ownership changes after the other transactions were unlocked"
				}
				return s, ""
			})
		})

	rule("own.join", "C06 C07",
		"an event joins the on-deck transaction, which becomes owner of the partition only if it has none, before the worker learns its producer",
		func(r *R) {
			g := r.gs("eosProducerPool.forwardExecutionContexts")
			ec := "recv($0.buffer)"
			joined := and(mapset("producerNode.currentPartitions"), func(n *Node) bool { return n.E.X.String() == "$0.onDeck.currentPartitions" })
			claim := mapset("partitionOwners.owners")
			answer := sendX(ec + ".producerChan")
			part := ec + ".topicPartition.Partition"
			r.need(sites(g.Find(claim)), 1, "claim of ownership")
			r.need(sites(g.Find(joined)), 1, "joining of the on-deck transaction")
			r.insts += len(g.Find(or(joined, claim, answer)))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if recvX("$0.buffer")(n) {
					return "T", ""
				}
				if !s.has("T") {
					return s, ""
				}
				switch {
				case branch("has($0.partitionOwners.owners,"+part+")", true)(n):
					s = s.add("owned")
				case branch("has($0.partitionOwners.owners,"+part+")", false)(n):
					s = s.add("free")
				case joined(n):
					s = s.add("joined")
				case claim(n):
					if n.E.V.String() != "$0.onDeck" || n.E.A[0].String() != part {
						return s, "another node or partition is claimed than the one of the event"
					}
					if !s.has("free") {
						return s, "the ownership of a partition is claimed although another transaction may have it"
					}
					s = s.add("claimed")
				case answer(n):
					if n.E.V.String() == "nil" {
						if s.has("joined") {
							return s, "an event which joined a transaction is rejected"
						}
						return s, ""
					}
					if n.E.V.String() != "$0.onDeck" {
						return s, "the worker is given another producer than the one the event joined"
					}
					if !s.has("joined") {
						return s, "the worker learns the producer before the event joined the transaction"
					}
					if !s.has("owned") && !s.has("claimed") {
						return s, "the worker learns the producer before somebody owns the partition"
					}
					s = s.add("answered")
				case setTo("$0.onDeck", "*")(n), sendX("$0.commitQueue")(n):
					if s.has("joined") && !s.has("answered") {
						return s, "the on-deck transaction changes between joining and answering"
					}
				}
				return s, ""
			})
			r.Every(g, "the on-deck transaction is replaced by the oldest free one", setTo("$0.onDeck", "*"), 1, func(n *Node) bool {
				return n.E.V.String() == "recv($0.producerNodeQueue)"
			})
			r.Every(g, "the on-deck transaction is the one committed next", sendX("$0.commitQueue"), 1, func(n *Node) bool {
				return n.E.V.String() == "$0.onDeck"
			})
			r.Follow(g, "a queued transaction stays on deck", sendX("$0.commitQueue"), setTo("$0.onDeck", "*"), or(recvX("$0.buffer"), joined, sendX("$0.commitQueue"), kind(KReturn)))
			r.Precede(g, "the on-deck transaction is replaced without queueing it for commit", sendX("$0.commitQueue"), setTo("$0.onDeck", "*"), setTo("$0.onDeck", "*"))
		})

	rule("own.full", "C22",
		"a transaction stops accepting events once its events or records, whichever is larger, reach the maximum batch size",
		func(r *R) {
			g := r.gs("eosProducerPool.forwardExecutionContexts")
			joined := mapset("producerNode.currentPartitions")
			ec, pc := "$0.onDeck.eventContextCnt", "call:atomic.LoadInt64($0.onDeck.produceCnt)"
			small := func(x string) Pred {
				return or(branch("$0.cfg.MaxBatchSize-"+x+"<1 || $0.cfg.TargetBatchSize-"+x+"<1", false),
					branch("-$0.cfg.MaxBatchSize+"+x+"<0 || "+x+"-$0.cfg.MaxBatchSize<0 || -$0.cfg.TargetBatchSize+"+x+"<0 || "+x+"-$0.cfg.TargetBatchSize<0", true))
			}
			r.need(sites(g.Find(joined)), 1, "joining of the on-deck transaction")
			r.insts += len(g.Find(joined))
			end := func(n *Node) bool {
				return n.E.K == KSel && len(n.E.Alts) >= 2
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if joined(n) {
					return "J", ""
				}
				if !s.has("J") {
					return s, ""
				}
				switch {
				case branch(pc+"<"+ec, true)(n), branch(pc+"-"+ec+"<0 || "+pc+"-"+ec+"<1", true)(n), branch(ec+"-"+pc+"<0 || "+ec+"-"+pc+"<1 || "+ec+"<"+pc, false)(n):
					s = s.add("ecBig").del("pcBig")
				case branch(pc+"<"+ec, false)(n), branch(pc+"-"+ec+"<0 || "+pc+"-"+ec+"<1", false)(n), branch(ec+"-"+pc+"<0 || "+ec+"-"+pc+"<1 || "+ec+"<"+pc, true)(n):
					s = s.add("pcBig").del("ecBig")
				case small(ec)(n):
					s = s.add("ecSmall")
				case small(pc)(n):
					s = s.add("pcSmall")
				case sendX("$0.commitQueue")(n):
					return "", ""
				}
				if s.has("ecSmall") && (s.has("ecBig") || s.has("pcSmall")) || s.has("pcSmall") && s.has("pcBig") {
					return "", ""
				}
				if end(n) && strings.Contains(altStr(n.E), "$0.buffer") {
					return s, "a transaction goes on accepting events although it may have reached the maximum batch size"
				}
				return s, ""
			})
		})

	rule("own.ring", "C06 C22 C27",
		"the producer nodes form a ring in the order in which they are queued; node count, queue sizes and node identities follow the configuration",
		func(r *R) {
			g := r.gn("newEOSProducerPool", false, "newProducerNode")
			mk := call("newProducerNode")
			r.need(sites(g.Find(mk)), 1, "creation of producer nodes")
			q := and(kind(KSend), func(n *Node) bool {
				return strings.HasPrefix(n.E.V.String(), "call:newProducerNode(") && n.E.X.String() == "make:chan producerNode($2.PoolSize)"
			})
			l := r.Loop(g, "l", "count:$2.PoolSize", q, 1, 1, 1)
			next := and(kind(KStore), func(n *Node) bool {
				return strings.HasSuffix(n.E.R.String(), ".next") && n.E.Field == "producerNode.next"
			})
			r.insts += len(g.Find(or(mk, q, next)))
			linksInLoop := r.ringRoles()
			// linked by position: nodes[i].next = nodes[(i+1)%len(nodes)], for every i, of a slice
			// which every node was appended to
			byIndex := func(n *Node) bool {
				if !next(n) {
					return false
				}
				b, v := baseOf(n.E.R), n.E.V
				for b.Op == "ref" {
					b = b.A[0]
				}
				c := ""
				if b.Op == "elem" || b.Op == "index" && b.A[1].String() == "mu(0;@+1)" {
					c = b.A[0].String()
				}
				return c != "" && v.String() == c+"[(mu(0;@+1)+1%len("+c+"))]"
			}
			positions := ""
			for _, n := range g.Find(byIndex) {
				if c := baseOf(n.E.R).A[0]; strings.HasPrefix(c.String(), "acc:") {
					positions = c.String()
				}
			}
			if positions != "" {
				linksInLoop = false
				lp := r.Loop(g, "p", positions, byIndex, 1, 1, 1)
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					if n.E.K == KPanic || n.E.K == KFork {
						return dead, ""
					}
					s = lp.step(s, n)
					if m := s.loopBad("p"); m != "" {
						return s, "a producer node is not linked: " + m
					}
					return s, ""
				})
				app := and(kind(KStore), func(n *Node) bool { return strings.HasPrefix(n.E.V.String(), "append(") && strings.Contains(n.E.V.String(), "call:newProducerNode(") })
				r.ForEach(g, "a producer node is not kept with the others", "count:$2.PoolSize", app, 1, 1)
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KPanic {
					return dead, ""
				}
				s = l.step(s, n)
				if m := s.loopBad("l"); m != "" {
					return s, "not every producer node is queued exactly once: " + m
				}
				if n.E.K == KBranch && n.E.Val && globs("call:newProducerNode(*)==nil || old(call:newProducerNode(*))==nil", n.E.X.String()) {
					return dead, ""
				}
				if mk(n) {
					if s.has("made") {
						s = s.add("second")
					}
					s = s.add("made").del("linked")
				}
				if q(n) && isOld(n.E.V) {
					return s, "another producer node is queued than the one just created"
				}
				if n.E.K == KBranch && strings.Contains(n.E.X.String(), "mu(0;@+1)") && !strings.Contains(n.E.X.String(), "PoolSize") {
					s = s.add("counted") // linking depends on the position of the node
				}
				if q(n) && linksInLoop && s.has("second") && !s.has("linked") && !s.has("counted") {
					return s, "a producer node is not linked to the one created before it"
				}
				if positions != "" && byIndex(n) {
					if s.get("l") != "done" {
						return s, "nodes are linked by position before all are made"
					}
					return s, ""
				}
				if next(n) && s.has("made") {
					b := baseOf(n.E.R)
					if s.get("l") == "done" {
						if isOld(b) {
							return s, "the ring is not closed at its last node"
						}
						s = s.add("closed")
					} else if !isOld(b) || isOld(n.E.V) {
						return s, "nodes are not linked in the order of their creation"
					} else {
						s = s.add("linked")
					}
				}
				if n.E.K == KReturn && s.has("made") && !s.has("closed") && positions == "" {
					return s, "the producer nodes do not form a ring"
				}
				return s, ""
			})
			r.Every(g, "queues are sized by the configuration", kind(KReturn), 1, func(n *Node) bool {
				p := n.E.A[0]
				return p.FS("producerNodeQueue") == "make:chan producerNode($2.PoolSize)" && p.FS("commitQueue") == "make:chan producerNode($2.PendingTxnCount)" && p.FS("cfg") == "$2"
			})
			r.Every(g, "the pool reports to its source, and has a table of owners and a timer", kind(KReturn), 1, func(n *Node) bool {
				p := n.E.A[0]
				o := p.F("partitionOwners")
				return p.FS("source") == "$0" && globs("call:time.NewTicker(*) || call:time.NewTimer(*)", p.FS("flushTimer")) && o != nil && strings.HasPrefix(o.FS("owners"), "make:map") && strings.HasPrefix(o.FS("mux"), "new:")
			})
			r.Every(g, "every producer node reports to the pool's error channel and shares the ownership table", mk, 1, func(n *Node) bool {
				e := n.E.A[6].String()
				return strings.HasPrefix(e, "make:chan error(") && e != "make:chan error(0)"
			})
			r.Every(g, "the first transaction on deck is taken from the queue", setTo("new:eosProducerPool.onDeck", "*"), 1, func(n *Node) bool {
				return n.E.V.String() == "recv(make:chan producerNode($2.PoolSize))"
			})
			for _, f := range []string{"eosProducerPool.forwardExecutionContexts", "eosProducerPool.commitLoop"} {
				if len(g.Find(goEv(f))) == 0 {
					r.failN(g, g.Start, f+" is not started exactly once", nil)
				}
				r.Times(g, f+" is started exactly once", goEv(f), 1, 1, nil, nil)
			}
			pn := r.gs("newProducerNode")
			r.Every(pn, "a producer node keeps what it was given", kind(KReturn), 1, func(n *Node) bool {
				x := n.E.A[0]
				return x.FS("errorChannel") == "$6" && x.FS("partitionOwners") == "$3" && x.FS("commitLog") == "$2" && x.FS("source") == "$1" && x.FS("metrics") == "$5" && x.FS("commitClient") == "$4"
			})
			r.Every(pn, "a producer node is complete", kind(KReturn), 1, func(n *Node) bool {
				x := n.E.A[0]
				set := func(f string) bool { v := x.FS(f); return v != "" && v != "nil" && !strings.HasPrefix(v, "zero") }
				return strings.HasPrefix(x.FS("currentPartitions"), "make:map") && set("client") && set("txnErrorHandler")
			})
		})

	rule("txn.errors", "C15",
		"every transaction and produce error is answered by the configured handler; anything but Continue marks the source unhealthy and stops it",
		func(r *R) {
			g := commitGraph(r)
			handler := or(dyn("*xnErrorHandler"), call("DefaultTxnErrorHandler"))
			fromChan := recvX("$0.errorChannel")
			r.need(sites(g.Find(fromChan)), 1, "receive from the error channel")
			r.need(sites(g.Find(handler)), 1, "call of the transaction error handler")
			start := or(commitEnd, fromChan)
			r.Every(g, "the handler is given the error", handler, 1, func(n *Node) bool { return n.E.A[len(n.E.A)-1].String() != "nil" })
			contB := func(v bool) Pred {
				return func(n *Node) bool {
					return n.E.K == KBranch && n.E.Val == v && globs("call:*xnErrorHandler(*)==0", n.E.X.String())
				}
			}
			r.insts += len(g.Find(handler))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if start(n) {
					if s.has("refused") && !s.has("unknown") {
						return s, "processing continues although the handler did not answer Continue"
					}
					s = "T"
					if fromChan(n) {
						s = s.add("err")
					}
					return s, ""
				}
				switch {
				case branch("recv($0.errorChannel)==nil", true)(n):
					s = s.del("err")
				case handler(n):
					s = s.del("err").del("refused").del("continue").del("asked")
					if n.E.K == KDyn {
						s = s.add("asked")
					}
				case leave("DefaultTxnErrorHandler")(n):
					if n.E.A[0].String() != "0" {
						s = s.add("refused")
					}
				case contB(true)(n):
					s = s.del("refused").del("asked").add("continue")
				case contB(false)(n):
					s = s.add("refused").del("asked")
				case call("atomic.StoreUint64", "*.state", "1")(n):
					if s.has("continue") && !s.has("refused") {
						return s, "the consumer fails although the handler answered Continue"
					}
					s = s.add("unhealthy")
				case n.E.K == KSel && strings.Contains(altStr(n.E), "$0.source.failure") || sendX("$0.source.failure")(n):
					s = s.add("stopping")
				case branch("call:*xnErrorHandler(*)==1", true)(n):
					s = s.add("refused").del("asked")
				case branch("call:*xnErrorHandler(*)==2", true)(n):
					s = s.add("fatal").add("refused").del("asked")
				case branch("call:*xnErrorHandler(*)==2", false)(n):
					if s.has("notfail") {
						s = s.add("unknown")
					}
					s = s.add("notfatal")
				case branch("call:*xnErrorHandler(*)==1", false)(n):
					if s.has("notfatal") {
						s = s.add("unknown")
					}
					s = s.add("notfail")
				}
				if n.E.K == KPanic && !s.has("fatal") {
					return s, "the process panics although the handler did not ask for a fatal exit"
				}
				if n.E.K == KReturn {
					if s.has("fatal") {
						return s, "a fatal exit was requested, but the process does not panic"
					}
					if s.has("refused") {
						if !s.has("unhealthy") || !s.has("stopping") {
							return s, "the source is not marked unhealthy and stopped after the handler refused to continue"
						}
					}
				}
				if n.E.K == KSel && strings.Contains(altStr(n.E), "$0.commitQueue") {
					if s.has("asked") && !(s.has("notfatal") && s.has("notfail")) {
						return s, "processing continues without establishing that the handler answered Continue"
					}
					if s.has("err") {
						return s, "an error is dropped without asking the handler"
					}
					if s.has("refused") && !s.has("unknown") || s.has("fatal") {
						return s, "processing continues although the handler did not answer Continue"
					}
					if s.has("unknown") && (!s.has("unhealthy") || !s.has("stopping")) {
						return s, "the source is not marked unhealthy and stopped after the handler refused to continue"
					}
				}
				return s, ""
			})
			// selection of the handler
			h := r.gs("Source.eosErrorHandler")
			r.insts++
			r.Auto(h, "", func(s St, n *Node) (St, string) {
				if branch("$0.config.TxnErrorHandler==nil", true)(n) {
					s = "nil"
				}
				if branch("$0.config.TxnErrorHandler==nil", false)(n) {
					s = "set"
				}
				if n.E.K == KReturn {
					v := n.E.A[0].String()
					if s == "nil" && v != "func:DefaultTxnErrorHandler" || s != "nil" && v != "$0.config.TxnErrorHandler" {
						return s, "the configured transaction error handler is not used, or no default when none is configured"
					}
				}
				return s, ""
			})
			d := r.gs("DefaultTxnErrorHandler")
			r.Every(d, "the default transaction error handler fails the consumer", kind(KReturn), 1, func(n *Node) bool { return n.E.A[0].String() == "1" })
			// errors of transactional produces and of beginning a transaction reach the handler
			for _, root := range []string{"eosProducerPool.commitLoop", "producerNode.ProduceRecord"} {
				p := r.g(root)
				bad := func(n *Node) bool {
					return n.E.K == KBranch && !n.E.Val && (globs("cb:1(call:kgo.Client.Produce(*))==nil", n.E.X.String()) || globs("call:kgo.Client.BeginTransaction(*)==nil", n.E.X.String()))
				}
				r.need(sites(p.Find(bad)), 1, "failure outcomes of Produce and BeginTransaction")
				r.insts += len(p.Find(bad))
				r.Auto(p, "", func(s St, n *Node) (St, string) {
					if n.E.K == KFork {
						return "", ""
					}
					if n.E.K == KBranch && n.E.Val && globs("cb:1(call:kgo.Client.Produce(*))==nil", n.E.X.String()) {
						s = ""
					}
					if bad(n) {
						s = "B"
						if strings.HasPrefix(n.E.X.String(), "call:kgo.Client.Begin") {
							s = "G"
						}
					}
					if n.E.K == KSel && strings.Contains(altStr(n.E), ".errorChannel") || send("*errorChannel")(n) {
						s = s.del("G").del("B")
					}
					if s.has("B") && n.E.K == KFEnd {
						return s, "a produce error in a transaction is not passed to the error channel"
					}
					if s.has("G") && (n.E.K == KReturn || call("kgo.Client.Produce || kgo.Client.Flush")(n)) {
						return s, "a failure to begin a transaction is not passed to the error channel"
					}
					return s, ""
				})
				r.Follow(p, "a produce error in a transaction does not prevent its commit",
					func(n *Node) bool {
						return n.E.K == KBranch && !n.E.Val && globs("cb:1(call:kgo.Client.Produce(*))==nil", n.E.X.String())
					},
					call("atomic.Pointer.CompareAndSwap || atomic.Pointer.Store || atomic.Pointer.Swap", "*.produceErr"), kind(KFEnd))
				r.Auto(p, "", func(s St, n *Node) (St, string) {
					switch {
					case n.E.K == KFork, n.E.K == KFEnd:
						return "", ""
					case n.E.K == KBranch && strings.HasPrefix(n.E.X.String(), "cb:1(call:kgo.Client.Produce("):
						return "cb", ""
					case s == "cb" && (setTo("*.produceErr", "nil")(n) || call("atomic.Pointer.CompareAndSwap", "*.produceErr", "*", "nil")(n) || call("atomic.Pointer.Swap", "*.produceErr", "nil")(n)):
						return s, "a produce error in a transaction is forgotten when a later record is acknowledged"
					}
					return s, ""
				})
			}
		})

	rule("metric.commit", "C26",
		"the commit metric is emitted only after the transaction was ended successfully, with the transaction's own numbers",
		func(r *R) {
			g := commitGraph(r)
			isCommitMetric := func(n *Node) bool {
				return n.E.K == KSend && strings.Contains(n.E.V.String(), "Operation=\"TxnCommit\"")
			}
			ns := g.Find(isCommitMetric)
			r.need(sites(ns), 1, "emission of the commit metric")
			r.insts += len(ns)
			reset := setTo(nodeX+".produceCnt || "+nodeX+".byteCount", "0")
			emptied := and(kind(KMapDel), func(n *Node) bool { return n.E.X.String() == nodeX+".currentPartitions" })
			zeroCount := alt("%==0 || %<1", num(nodeX+".produceCnt"))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if recvX("$0.commitQueue")(n) {
					return "T", ""
				}
				if branch("call:kgo.Client.EndTransaction("+nodeX+".client,*)==nil", true)(n) {
					s = s.add("E")
				}
				if n.E.K == KSel && n.E.Name == "default" && strings.Contains(altStr(n.E), nodeX+".metrics") || branch(nodeX+".metrics==nil", true)(n) {
					s = s.add("sent")
				}
				if branch(zeroCount, true)(n) {
					s = s.add("empty").add("sent")
				}
				if sendX("$0.producerNodeQueue")(n) && s.has("E") && !s.has("sent") {
					return s, "no commit is reported for a transaction which was committed"
				}
				if reset(n) {
					s = s.add("reset")
				}
				if emptied(n) {
					s = s.add("emptied")
				}
				if isCommitMetric(n) {
					s = s.add("sent")
					if s.has("empty") {
						return s, "a commit is reported for a transaction which was aborted"
					}
					if !s.has("E") {
						return s, "a commit is reported for a transaction which was not committed"
					}
					if n.E.Block {
						return s, "emitting the commit metric may block the commit loop"
					}
					m := n.E.V
					type kv struct{ f, want string }
					for _, x := range []kv{{"Count", num(nodeX + ".produceCnt")}, {"Bytes", num(nodeX + ".byteCount")}, {"StartTime", nodeX + ".firstEvent"}, {"ExecuteTime", "call:time.Now()"}, {"EndTime", "call:time.Now()"}, {"PartitionCount", "len(" + nodeX + ".currentPartitions)"},
						{"Topic", nodeX + ".source.config.Topic"}, {"GroupId", nodeX + ".source.config.GroupId"}, {"Partition", "-1"}} {
						if !globs(x.want, m.FS(x.f)) {
							return s, "the commit metric does not report the transaction's own " + x.f + " (" + m.FS(x.f) + ")"
						}
						if s.has("reset") && (x.f == "Count" || x.f == "Bytes") && !isOld(m.F(x.f)) || s.has("emptied") && x.f == "PartitionCount" && !isOld(m.F(x.f)) {
							return s, "the commit metric reports " + x.f + " after it was reset"
						}
					}
				}
				return s, ""
			})
			// commit start: taken before the commit's work; the partition count before the partitions are dropped
			r.Precede(g, "the commit start is taken after the commit", call("time.Now"), call("kgo.Client.Flush"), recvX("$0.commitQueue"))
			// first event time is set when the transaction accepts its first event
			a := r.gs("producerNode.addEventContext")
			r.insts++
			r.Guard(a, "recording the start of the transaction", nil, setTo("$0.firstEvent", "call:time.Now()"), nil,
				[]Atom{at("first", "$0.eventContextCnt==0 || $0.eventContextCnt<1")}, func(v V) int { return b2m(v["first"]) })
			r.Every(a, "every event is counted", setTo("$0.eventContextCnt", "*"), 1, func(n *Node) bool { return n.E.V.String() == "$0.eventContextCnt+1" })
			r.Times(a, "every event is counted exactly once", setTo("$0.eventContextCnt", "*"), 1, 1, nil, nil)
		})
}
