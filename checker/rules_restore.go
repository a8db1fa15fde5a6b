package main

import (
	"go/types"
	"strings"
)

// Commit log, change log replay, preparation of state stores (C03, C04, C05).

const markHeader = `"gkes__mark"`

// markBranch: the condition tells markers from other records of rec.
func markBranch(rec string, val bool) Pred {
	return branch(rec+".Headers[0].Key=="+markHeader+" || elem("+rec+".Headers).Key=="+markHeader, val)
}

// recFields: what a produced record contains: fields given in its literal, arguments of kgo constructors, stores.
func recFields(g *Graph, rec *X) map[string]string {
	out := map[string]string{}
	if rec == nil {
		return out
	}
	id := identOf(rec)
	for _, f := range []string{"Key", "Value", "Topic", "Partition", "Headers"} {
		if x := rec.F(f); x != nil {
			out[f] = x.String()
		}
	}
	if s := rec.String(); strings.HasPrefix(s, "call:kgo.KeySliceRecord(") && len(rec.A) >= 2 {
		out["Key"], out["Value"] = rec.A[len(rec.A)-2].String(), rec.A[len(rec.A)-1].String()
	}
	if s := rec.String(); strings.HasPrefix(s, "call:kgo.SliceRecord(") && len(rec.A) >= 1 {
		out["Value"] = rec.A[len(rec.A)-1].String()
	}
	for _, n := range g.Find(kind(KStore)) {
		if !strings.HasPrefix(n.E.Field, "kgo.Record.") || n.E.X == nil || identOf(n.E.X) != id {
			continue
		}
		f := strings.TrimPrefix(n.E.Field, "kgo.Record.")
		if old := out[f]; old != "" && old != n.E.V.String() && !strings.HasPrefix(old, "zero:") {
			out[f] = "several values"
		} else {
			out[f] = n.E.V.String()
		}
	}
	return out
}

// marker describes a synchronisation: register a waiter under a new mark, produce the mark, wait.
type marker struct{ pend, client, topic, part string }

// step: tokens m=<mark> w=<waiter> armed sent synced.
func (m marker) step(g *Graph, s St, n *Node) (St, string) {
	e := n.E
	switch {
	case e.K == KCall && e.Name == "sync.WaitGroup.Add" && arg(n, 1) == "1":
		return s.set("add", identOf(e.A[0])), ""
	case e.K == KMapSet && e.X.String() == m.pend:
		k, w := e.A[0].String(), e.V
		if !strings.Contains(k, "call:uuid.New") || strings.Contains(k, ")[") {
			return s, "a waiter is registered under a mark which is not unique"
		}
		if s.has("sent") {
			return s, "the waiter is registered after its marker was sent"
		}
		if !strings.HasPrefix(w.String(), "make:chan") && !strings.HasPrefix(w.String(), "new:sync.WaitGroup") {
			return s, "what is registered is not a waiter of this synchronisation"
		}
		return s.set("m", strings.ReplaceAll(k, " ", "_")).set("w", identOf(w)).set("t", strings.Split(w.String(), ":")[0]), ""
	case call("kgo.Client.TryProduce")(n):
		return s, "a marker is dropped when the client is busy: its waiter waits forever"
	case call("kgo.Client.Produce || kgo.Client.ProduceSync")(n):
		if arg(n, 0) != m.client {
			return s, "a marker is produced by another client"
		}
		f := recFields(g, e.A[2])
		if s.get("m") == "" {
			return s, "a marker is sent before its waiter is registered"
		}
		if s.get("t") == "new" && s.get("add") != s.get("w") {
			return s, "a marker is sent before its waiter can wait"
		}
		if strings.ReplaceAll(f["Value"], " ", "_") != s.get("m") {
			return s, "the marker does not carry the mark of the waiter"
		}
		if f["Topic"] != m.topic {
			return s, "the marker is written to another topic: " + f["Topic"]
		}
		if f["Partition"] != m.part {
			return s, "the marker is written to another partition: " + f["Partition"]
		}
		if !strings.Contains(f["Headers"], "Key="+markHeader) {
			return s, "the marker is not recognisable as one"
		}
		return s.add("sent"), ""
	case s.has("sent") && (e.K == KRecv && identOf(e.X) == s.get("w") && e.Block && len(e.Alts) < 2 ||
		e.K == KCall && e.Name == "sync.WaitGroup.Wait" && identOf(e.A[0]) == s.get("w")):
		return s.add("synced"), ""
	}
	return s, ""
}

func init() {
	rule("log.receive", "C03",
		"every commit log record which is not a marker records its position under its partition, every marker releases exactly the waiter registered under its mark, and neither does the other's work",
		func(r *R) {
			g := r.gs("eosCommitLog.ReceiveChange")
			rec := "$1.kRecord"
			w := "$0.pendingSyncs[" + rec + ".Value]"
			release := or(call("sync.WaitGroup.Done"), kind(KClose))
			n := 0
			r.Auto(g, "", func(s St, x *Node) (St, string) {
				e := x.E
				switch {
				case markBranch(rec, true)(x):
					n++
					return s.add("mark"), ""
				case branch("has($0.pendingSyncs,"+rec+".Value)", true)(x):
					return s.add("has"), ""
				case branch("has($0.pendingSyncs,"+rec+".Value)", false)(x):
					return s.add("hasnot"), ""
				case e.K == KMapSet && e.X.String() == "$0.watermarks":
					n++
					if s.has("mark") {
						return s, "a marker changes a recorded position"
					}
					if e.A[0].String() != rec+".Key[0]" {
						return s, "a position is recorded for another partition than the one of the record's key"
					}
					if e.V.String() != rec+".Value[0]" {
						return s, "another position is recorded than the one in the record"
					}
					return s.add("pos"), ""
				case e.K == KMapDel && e.X.String() == "$0.watermarks":
					return s, "a recorded position is forgotten"
				case e.K == KMapDel && e.X.String() == "$0.pendingSyncs":
					if !s.has("mark") || e.A[0].String() != rec+".Value" {
						return s, "a waiter is forgotten by another record than its marker"
					}
					return s.add("del"), ""
				case e.K == KMapSet && e.X.String() == "$0.pendingSyncs":
					return s, "a waiter is registered by a received record"
				case release(x):
					n++
					var t string
					if e.K == KClose {
						t = e.X.String()
					} else {
						t = arg(x, 0)
					}
					if t != w {
						return s, "another waiter is released than the one registered under the mark"
					}
					if !s.has("mark") || !s.has("has") {
						return s, "a waiter is released by a record which is not its marker"
					}
					if s.has("rel") {
						return s, "a waiter is released twice"
					}
					return s.add("rel"), ""
				case e.K == KReturn:
					if !s.has("mark") {
						if !s.has("pos") {
							return s, "a recorded position is dropped"
						}
					} else if !s.has("hasnot") && !(s.has("rel") && s.has("del")) {
						return s, "the waiter of a marker is not released, or would be released again"
					}
				}
				return s, ""
			})
			r.need(n, 1, "steps of receiving a commit log record")
			r.insts += n
			set := func(x *Node) bool { return x.E.K == KMapSet && x.E.X.String() == "$0.watermarks" }
			r.Held(g, "a position is recorded without holding the lock of its readers", set, "$0.mux", true)
			r.Held(g, "the waiters are accessed without their lock", func(x *Node) bool {
				return (x.E.K == KMapDel || x.E.K == KMapGet) && x.E.X.String() == "$0.pendingSyncs"
			}, "$0.syncMux", true)
			r.Confined("recorded positions change elsewhere", "eosCommitLog.watermarks", "eosCommitLog.ReceiveChange || eosCommitLog.Watermark || newEosCommitLog || eosCommitLog.lastProcessed || eventSourceConsumer.adjustOffsetsBeforeAssign", false, false, 1)
			// the commit log reads all partitions of its own topic
			c := r.gn("newEosCommitLog", false, "NewGlobalChangeLogWithRunStatus", "NewClient")
			made := call("NewGlobalChangeLogWithRunStatus")
			r.Times(c, "the commit log is read once", made, 1, 1, nil, nil)
			r.Every(c, "the commit log reads another cluster, topic or partition count, or hands records to something else", made, 1, func(x *Node) bool {
				return arg(x, 0) == "$0" && globs("call:Source.stateCluster($1) || $1.config.S*Cluster", arg(x, 1)) && arg(x, 3) == "$2" && strings.Contains(arg(x, 4), "GroupId")
			})
			r.Every(c, "the commit log does not know the partitions or topic it is read from", kind(KReturn), 1, func(x *Node) bool {
				o := x.E.A[0]
				return o.FS("numPartitions") == "$2" && strings.Contains(o.FS("topic"), "GroupId") && strings.HasPrefix(o.FS("watermarks"), "make:map") && strings.HasPrefix(o.FS("pendingSyncs"), "make:map")
			})
		})

	rule("log.sync", "C03",
		"a position is read only after a marker, written by this consumer to the commit log partition which holds it, was read back; the waiter is registered before the marker is sent, and waits for that marker only",
		func(r *R) {
			read := func(b, p string) Pred {
				return func(n *Node) bool { return n.E.K == KMapGet && n.E.X.String() == b+".watermarks" && n.E.V.String() == p }
			}
			for _, c := range []struct{ fn, cl, p string }{
				{"eosCommitLog.lastProcessed", "$0", "$1.Partition"},
				{"partitionWorker.work", "$3", "$0.topicPartition.Partition"},
			} {
				g := r.gs(c.fn)
				m := marker{c.cl + ".pendingSyncs", c.cl + ".changeLog.client", c.cl + ".topic", "(" + c.p + "%" + c.cl + ".numPartitions)"}
				n := 0
				r.Auto(g, "", func(s St, x *Node) (St, string) {
					if read(c.cl, c.p)(x) {
						n++
						if !s.has("synced") {
							return s, "the position is read before the local commit log caught up"
						}
					}
					if recv("partitionWorker.eventInput || partitionWorker.interjectionEventInput || AsyncCompleter.asyncJobs")(x) || x.E.K == KSel {
						return dead, ""
					}
					return m.step(g, s, x)
				})
				r.need(n, 1, "reading the recorded position in "+c.fn)
				r.insts += n
				r.Held(g, "waiters are registered without their lock", func(x *Node) bool { return x.E.K == KMapSet && x.E.X.String() == m.pend }, c.cl+".syncMux", true)
				r.Held(g, "positions are read without their lock", read(c.cl, c.p), c.cl+".mux", false)
			}
			r.Results(r.gs("eosCommitLog.lastProcessed"), "the resume position", []Atom{at("has", "has($0.watermarks,$1.Partition)")}, func(v V) []string {
				if v["has"] {
					return []string{"$0.watermarks[$1.Partition]"}
				}
				return []string{"-1 || 0"}
			})
			r.Results(r.gs("eosCommitLog.Watermark"), "the known position", []Atom{at("has", "has($0.watermarks,$1.Partition)")}, func(v V) []string {
				if v["has"] {
					return []string{"$0.watermarks[$1.Partition]"}
				}
				return []string{"-1 || 0"}
			})
			// all partitions
			g := r.g("eosCommitLog.syncAll")
			p := "mu(0;@+1)"
			m := marker{"$0.pendingSyncs", "$0.changeLog.client", "$0.topic", p}
			coll := "count:$0.numPartitions"
			sync := func(x *Node) bool { return x.E.K == KMapSet && x.E.X.String() == m.pend }
			r.need(len(g.Find(sync)), 1, "synchronisations of all partitions")
			forked := false
			for _, x := range g.Find(kind(KFork)) {
				if strings.HasPrefix(x.E.Name, "eosCommitLog.") || strings.HasPrefix(x.E.Name, "sak.") {
					forked = true
				}
			}
			if forked {
				l := r.Loop(g, "L", coll, kind(KGo), 1, 1, 1)
				grp := call("sync.WaitGroup.Wait")
				r.Auto(g, "", func(s St, x *Node) (St, string) {
					if x.E.K == KFork {
						if s.has("in") {
							return dead, "" // the callback of the produced marker
						}
						return St("in").set("g", s.get("g")), ""
					}
					if s.has("in") {
						if call("sync.WaitGroup.Done")(x) {
							if !s.has("synced") {
								return s, "a partition is reported as synchronised too early"
							}
							if s.has("done") || identOf(x.E.A[0]) != s.get("g") {
								return s, "a partition is reported as synchronised more than once, or to another waiter"
							}
							return s.add("done"), ""
						}
						if x.E.K == KFEnd && !s.has("done") {
							return s, "a synchronised partition is not reported, waiting never ends"
						}
						return m.step(g, s, x)
					}
					if _, _, ok := loopBranch(x); ok {
						s = s.del("add")
					}
					s = l.step(s, x)
					if b := s.loopBad("L"); b != "" {
						return s, "a partition of the commit log is not synchronised: " + b
					}
					if call("sync.WaitGroup.Add")(x) {
						if s.get("L") == "" && arg(x, 1) == "$0.numPartitions" {
							return s.add("all").set("g", identOf(x.E.A[0])), ""
						}
						if s.get("L") == "0" && arg(x, 1) == "1" && !s.has("all") && !s.has("add") {
							return s.add("add").set("g", identOf(x.E.A[0])), ""
						}
						return s, "the number of synchronisations which are waited for is wrong"
					}
					if x.E.K == KGo && !s.has("add") && !s.has("all") {
						return s, "a synchronisation is started without being waited for"
					}
					if grp(x) {
						if s.get("L") != "done" {
							return s, "it is not waited until all partitions are synchronised"
						}
						return s.add("waited"), ""
					}
					if x.E.K == KReturn && !s.has("waited") {
						return s, "it is not waited until all partitions are synchronised"
					}
					return s, ""
				})
			} else {
				l := r.Loop(g, "L", coll, sync, 1, 1, 1)
				r.Auto(g, "", func(s St, x *Node) (St, string) {
					if x.E.K == KFork {
						return dead, ""
					}
					if _, _, ok := loopBranch(x); ok {
						if s.get("m") != "" && !s.has("synced") {
							return s, "a partition of the commit log is not waited for"
						}
						s = St("").set("L", s.get("L"))
					}
					s = l.step(s, x)
					if b := s.loopBad("L"); b != "" {
						return s, "a partition of the commit log is not synchronised: " + b
					}
					if x.E.K == KReturn && s.get("L") != "done" {
						return s, "partitions of the commit log are not synchronised"
					}
					return m.step(g, s, x)
				})
			}
			r.insts++
			// the consumer catches up before it fetches anything
			st := r.gn("eventSourceConsumer.start", false, "eosCommitLog.syncAll", "eventSourceConsumer.receive")
			caught := call("eosCommitLog.syncAll", "$0.commitLog")
			poll := call("kgo.Client.Poll*")
			r.need(len(st.Find(poll)), 1, "polling")
			r.Precede(st, "the consumer joins before its commit log caught up", caught, poll, nil)
			r.Precede(st, "the commit log is synchronised without reading it", or(goEv("eosCommitLog.Start || GlobalChangeLog.Start || eosCommitLog.Start$*"), call("GlobalChangeLog.Start || eosCommitLog.Start")), caught, nil)
		})

	rule("log.adjust", "C03",
		"a newly assigned partition is fetched from its recorded position, and from where it would have been otherwise when there is none",
		func(r *R) {
			g := r.gn("eventSourceConsumer.adjustOffsetsBeforeAssign", false, "sak.MapKeysToSlice")
			ps := globs
			part := func(p string) bool {
				return ps("key(elem($2)) || key($2[key($2)]) || elem(call:sak.MapKeysToSlice(elem($2))) || elem(call:sak.MapKeysToSlice($2[key($2)]))", p)
			}
			wm := func(p string) string { return "$0.commitLog.watermarks[" + p + "]" }
			parse := func(c, pre, post string) (string, bool) {
				if strings.HasPrefix(c, pre) && strings.HasSuffix(c, post) {
					return c[len(pre) : len(c)-len(post)], true
				}
				return "", false
			}
			n := 0
			fin := func(s St) string {
				if s.has("set") {
					return ""
				}
				if s.has("yes") && !s.has("low") {
					return "a recorded position is ignored"
				}
				return ""
			}
			r.Auto(g, "", func(s St, x *Node) (St, string) {
				e := x.E
				if c, cont, ok := loopBranch(x); ok {
					if m := fin(s); m != "" {
						return s, m
					}
					if !cont && (c == "$2" || strings.HasSuffix(c, "MapKeysToSlice($2)")) {
						return "all", ""
					}
					return "", ""
				}
				if branch("len($2)<1 || len($2)==0 || $2==nil", true)(x) {
					s = s.add("all")
				}
				if e.K == KBranch {
					c := e.X.String()
					if p, ok := parse(c, "has($0.commitLog.watermarks,", ")"); ok {
						if !part(p) {
							return s, "the position of another partition is looked up"
						}
						n++
						if e.Val {
							return s.add("yes"), ""
						}
						return s.add("no"), ""
					}
					for _, lim := range []string{"<1", "<0", "<=0"} {
						if p, ok := parse(c, "$0.commitLog.watermarks[", "]"+lim); ok && part(p) && e.Val {
							return s.add("low"), ""
						}
					}
				}
				if e.K == KMapSet && globs("elem($2) || $2[key($2)]", e.X.String()) {
					n++
					p := e.A[0].String()
					if !part(p) {
						return s, "the position of another partition is changed"
					}
					if !s.has("yes") {
						return s, "the start of a partition without a recorded position is changed"
					}
					if e.V.String() != "call:kgo.Offset.At(call:kgo.NewOffset(),"+wm(p)+")" {
						return s, "a partition is fetched from another position than the recorded one"
					}
					return s.add("set"), ""
				}
				if e.K == KMapDel && globs("elem($2) || $2[key($2)] || $2", e.X.String()) {
					return s, "an assigned partition is dropped"
				}
				if e.K == KReturn {
					if m := fin(s); m != "" {
						return s, m
					}
					if !s.has("all") {
						return s, "not every assigned partition is adjusted"
					}
					if arg(x, 0) != "$2" || arg(x, 1) != "nil" {
						return s, "the adjusted positions are not used"
					}
				}
				return s, ""
			})
			r.need(n, 1, "adjusting of positions")
			r.insts += n
			look := func(x *Node) bool {
				return x.E.K == KBranch && strings.HasPrefix(x.E.X.String(), "has($0.commitLog.watermarks,")
			}
			r.ForEach(g, "an assigned partition is not adjusted", "elem($2) || $2[key($2)] || call:sak.MapKeysToSlice(*)", look, 1, 1)
			r.ForEach(g, "an assigned topic is not adjusted", "$2", look, 0, 9)
		})
}

// constant is the value of a package-level constant of streams, as printed in expressions.
func (r *R) constant(name string) string {
	for _, p := range r.p.Pkgs {
		if !strings.HasSuffix(p.Pkg.Path(), "/streams") {
			continue
		}
		if c, ok := lookup(p.Pkg, name).(*types.Const); ok {
			return c.Val().ExactString()
		}
	}
	r.fatal("constant %s not found", name)
	return "?"
}

// setState: the state of a partition is set, to val unless empty.
func setState(ssp, val string) Pred {
	return func(n *Node) bool {
		if n.E.K == KStore && n.E.R.String() == ssp+".state" {
			return val == "" || n.E.V.String() == val
		}
		if n.E.K == KCall && globs("atomic.Store* || atomic.*.Store || atomic.Swap* || atomic.*.Swap || atomic.CompareAndSwap* || atomic.*.CompareAndSwap", n.E.Name) && arg(n, 0) == ssp+".state" {
			return val == "" || arg(n, len(n.E.A)-1) == val
		}
		return false
	}
}

// fedState: the state of some restoring partition is set.
func fedState(n *Node) bool { return fedTarget(n) != "" }

func fedTarget(n *Node) string {
	if n.E.K == KStore && strings.HasSuffix(n.E.R.String(), "].state") {
		return n.E.R.String()
	}
	if n.E.K == KCall && len(n.E.A) > 1 && strings.HasPrefix(n.E.Name, "atomic.") && !strings.Contains(n.E.Name, "Load") && strings.HasSuffix(arg(n, 0), "].state") {
		return arg(n, 0)
	}
	return ""
}

func init() {
	rule("restore.begin", "C04 C20",
		"preparing and activating replay the partition's change log from its beginning into the given store by one new goroutine, which reads what is fetched from then on",
		func(r *R) {
			first := false
			for _, n := range r.gs("init").Find(kind(KStore)) {
				if n.E.R.String() == "startEpochOffset" && n.E.V.FS("Offset") == "0" && n.E.V.FS("Epoch") == "-1" {
					first = true
				}
			}
			if len(r.FieldSites("startEpochOffset")) > 0 {
				first = false
			}
			for fn, state := range map[string]string{"stateStoreConsumer.preparePartition": r.constant("prepping"), "stateStoreConsumer.activatePartition": r.constant("ready")} {
				g := r.gs(fn)
				ssp := "$0.partitions[$1]"
				tp := func(s string) bool { return s == ssp+".topicPartition.Partition" || s == "$1" }
				topic := func(s string) bool { return s == ssp+".topicPartition.Topic" || s == "$0.topic" }
				client := func(s string) bool { return s == ssp+".client" || s == "$0.client" }
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					e := n.E
					switch {
					case setState(ssp, "")(n):
						if !setState(ssp, state)(n) {
							return s, "the partition is in another state than the one it is restored for"
						}
						return s.add("state"), ""
					case e.K == KStore && e.Field == "stateStorePartition.buffer":
						if e.R.String() != ssp+".buffer" || chanCap(e.V) < 0 {
							return s, "records fetched before remain to be replayed"
						}
						return s.set("b", identOf(e.V)), ""
					case e.K == KStore && e.Field == "stateStorePartition.done":
						if e.R.String() != ssp+".done" || chanCap(e.V) < 0 {
							return s, "an earlier restoration may end this one"
						}
						return s.set("d", identOf(e.V)), ""
					case e.K == KMapSet && strings.HasPrefix(e.X.String(), "make:map[int32]kgo.EpochOffset"):
						if !tp(e.A[0].String()) {
							return s, "another partition is rewound"
						}
						if !(e.V.String() == "startEpochOffset" && first || e.V.FS("Offset") == "0" && e.V.FS("Epoch") == "-1") {
							return s, "the change log is not replayed from its beginning"
						}
						return s.set("off", identOf(e.X)), ""
					case e.K == KMapSet && strings.HasPrefix(e.X.String(), "make:map[string]map[int32]kgo.EpochOffset"):
						if !topic(e.A[0].String()) || identOf(e.V) != s.get("off") && s.get("off") != "" {
							return s, "another topic is rewound"
						}
						return s.set("outer", identOf(e.X)), ""
					case call("kgo.Client.SetOffsets")(n):
						if !client(arg(n, 0)) || identOf(e.A[1]) != s.get("outer") || s.get("off") == "" {
							return s, "the change log is not replayed from its beginning"
						}
						return s.add("rewound"), ""
					case e.K == KMapSet && strings.HasPrefix(e.X.String(), "make:map[string][]int32"):
						if topic(e.A[0].String()) && e.V.Op == "list" && len(e.V.A) == 1 && tp(e.V.A[0].String()) {
							return s.set("named", identOf(e.X)), ""
						}
						return s, "another partition is fetched"
					case call("kgo.Client.ResumeFetchPartitions")(n):
						if !client(arg(n, 0)) || identOf(e.A[1]) != s.get("named") {
							return s, "another partition is fetched"
						}
						if !s.has("rewound") {
							return s, "fetching begins before the position was set to the beginning"
						}
						if !s.has("state") || s.get("b") == "" || s.get("d") == "" {
							return s, "fetching begins before the records can be received"
						}
						return s.add("fetch"), ""
					case goEv("*")(n):
						if n.E.Name != "stateStorePartition.populate" {
							return s, "another goroutine than the replaying one is started"
						}
						if s.has("go") {
							return s, "the change log is replayed by two goroutines"
						}
						if arg(n, 0) != ssp || arg(n, 1) != "$2" {
							return s, "the change log is replayed into another store"
						}
						if identOf(e.A[2]) != s.get("b") || identOf(e.A[3]) != s.get("d") {
							return s, "the replaying goroutine does not read what is fetched from now on"
						}
						return s.add("go"), ""
					case e.K == KReturn:
						if !s.has("go") || !s.has("fetch") {
							return s, "the change log is not replayed"
						}
						if arg(n, 0) != ssp {
							return s, "another partition is returned than the prepared one"
						}
					}
					return s, ""
				})
				r.need(sites(g.Find(goEv("*"))), 1, "start of replaying")
				r.insts += 6
				r.Held(g, "a restoration begins while the change log consumer decides about the same partition", or(setState(ssp, ""), call("kgo.Client.ResumeFetchPartitions")), "$0.mux", true)
				r.Held(g, "the buffer is replaced without its lock", store("stateStorePartition.buffer || stateStorePartition.done"), ssp+".bufferLock", true)
			}
			r.CalledFrom("the change log is replayed by another goroutine", "stateStorePartition.populate", "stateStorePartition.prep || stateStoreConsumer.preparePartition || stateStoreConsumer.activatePartition", false, 1)
		})

	rule("restore.replay", "C04 C20",
		"every fetched change log record is delivered once and in order to the store, markers are not; the marker of a prepared partition makes it ready, the next one ends the restoration before its waiter is released; errors do not stop it",
		func(r *R) {
			g := r.gs("stateStorePartition.populate")
			rec := "elem(recv($2))"
			ssp := "$0"
			wait := "$0.waiters[" + rec + ".Value]"
			prepping, ready, paused := r.constant("prepping"), r.constant("ready"), r.constant("paused")
			isState := func(n *Node, v string, val bool) bool {
				if n.E.K != KBranch || n.E.Val != val {
					return false
				}
				return globs("call:atomic.*($0.state)=="+v+" || $0.state=="+v, n.E.X.String())
			}
			fin := func(s St) string {
				if !s.has("el") {
					return ""
				}
				if !s.has("mark") {
					if !s.has("dlv") {
						return "a change log record is not delivered to the store"
					}
					return ""
				}
				if s.has("nf") {
					return ""
				}
				if !s.has("closed") || !s.has("del") {
					return "the waiter of a marker is not released"
				}
				if !s.has("np") && !s.has("rdy") && !s.has("now"+ready) {
					return "a prepared partition does not become ready"
				}
				if !s.has("nr") && !s.has("prep") && !s.has("end") {
					return "the restoration of an assigned partition does not end"
				}
				return ""
			}
			n := 0
			r.Auto(g, "", func(s St, x *Node) (St, string) {
				e := x.E
				if c, cont, ok := loopBranch(x); ok && c == "recv($2)" {
					if m := fin(s); m != "" {
						return s, m
					}
					if s.has("end") { // nothing may happen to the remaining records
						return "end", ""
					}
					if cont {
						return "el", ""
					}
					return "", ""
				}
				if mc := call("StateStore.ReceiveChange")(x); mc {
					n++
					switch {
					case arg(x, 0) != "$1.store":
						return s, "records are delivered to another store"
					case e.A[1].F("kRecord") == nil || e.A[1].FS("kRecord") != rec:
						return s, "another record is delivered than the fetched one"
					case s.has("mark"):
						return s, "a marker is delivered to the store"
					case s.has("dlv"):
						return s, "a change log record is delivered twice"
					case s.has("end"):
						return s, "change log records are delivered after the final synchronisation"
					}
					return s.add("dlv"), ""
				}
				switch {
				case e.K == KGo:
					return s, "change log records are delivered by another goroutine, their order is lost"
				case e.K == KPanic:
					return s, "an error stops the restoration"
				case markBranch(rec, true)(x):
					n++
					return s.add("mark"), ""
				case s.has("end") && !s.has("mark") && or(kind(KMapDel), kind(KClose), setState(ssp, ""))(x):
					return s, "markers are processed after the final synchronisation"
				case branch("has($0.waiters,"+rec+".Value)", true)(x):
					return s.add("found"), ""
				case branch("has($0.waiters,"+rec+".Value)", false)(x):
					return s.add("nf"), ""
				case isState(x, prepping, true):
					if s.has("rdy") {
						return dead, ""
					}
					return s.add("prep"), ""
				case isState(x, ready, true):
					if s.has("prep") {
						return dead, ""
					}
					return s.add("rdy"), ""
				case isState(x, prepping, false):
					return s.add("np"), ""
				case isState(x, ready, false):
					return s.add("nr"), ""
				case isState(x, paused, true):
					return s.add("np").add("nr"), ""
				case setState(ssp, "")(x):
					switch {
					case s.has("found") && s.has("prep") && setState(ssp, ready)(x):
						return s.add("now" + ready), ""
					case s.has("found") && s.has("rdy") && setState(ssp, paused)(x):
						n++
						return s.add("now" + paused), ""
					case s.has("found"):
						return s, "a marker changes the state of the partition to the wrong one"
					}
					return s, "the state of the partition changes without a marker of this consumer"
				case branch("$0.buffer==nil", true)(x):
					return s.add("nobuf"), ""
				case e.K == KClose && e.X.String() == "$0.done":
					if !s.has("rdy") || !s.has("found") {
						return s, "the restoration ends without a marker of this consumer"
					}
					return s.add("killed"), ""
				case e.K == KClose:
					n++
					if e.X.String() != wait || !s.has("found") {
						return s, "another waiter is released than the one registered under the mark"
					}
					if s.has("rdy") && !(s.has("now"+paused) && (s.has("killed") || s.has("nobuf"))) {
						return s, "the waiter is released before the restoration has ended, it would end the next one"
					}
					if s.has("closed") {
						return s, "a waiter is released twice"
					}
					s = s.add("closed")
					if s.has("rdy") {
						s = s.add("end")
					}
					return s, ""
				case e.K == KMapDel && e.X.String() == "$0.waiters":
					if e.A[0].String() != rec+".Value" || !s.has("mark") {
						return s, "the waiter of another marker is forgotten"
					}
					return s.add("del"), ""
				case recvX("$2")(x):
					if s.has("el") {
						return s, "the rest of a batch of change log records is dropped"
					}
					if s.has("end") {
						return s, "change log records are delivered after the final synchronisation"
					}
					if s.has("stop") {
						return s, "a cancelled restoration goes on"
					}
					if !strings.Contains(altStr(e), "$3") {
						return s, "the goroutine of a cancelled restoration never ends"
					}
					return "", ""
				case recvX("$3")(x):
					return s.add("stop"), ""
				case e.K == KReturn:
					if !s.has("stop") && !s.has("end") {
						return s, "replaying stops although the restoration has not ended"
					}
					if !s.has("stop") {
						if m := fin(s); m != "" {
							return s, m
						}
					}
				}
				return s, ""
			})
			r.need(n, 1, "steps of replaying")
			r.insts += n
			r.Held(g, "the waiters are accessed without their lock", func(x *Node) bool {
				return (x.E.K == KMapDel || x.E.K == KMapGet) && x.E.X.String() == "$0.waiters"
			}, "$0.waiterLock", true)
		})

	rule("restore.sync", "C04 C20",
		"synchronising waits for a new marker on the partition's own change log partition, registered before it is sent",
		func(r *R) {
			g := r.gs("stateStorePartition.sync")
			m := marker{"$0.waiters", "$0.client", "$0.topicPartition.Topic", "$0.topicPartition.Partition"}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KReturn && !s.has("synced") {
					return s, "synchronising does not wait until its marker was read"
				}
				return m.step(g, s, n)
			})
			set := func(x *Node) bool { return x.E.K == KMapSet && x.E.X.String() == m.pend }
			r.need(len(g.Find(set)), 1, "registration of a waiter")
			r.Held(g, "a waiter is registered without its lock", set, "$0.waiterLock", true)
			r.Results(r.gs("isMarkerRecord"), "recognising markers", []Atom{at("one", "len($0.Headers)==1"), at("empty", "len($0.Headers)<1"), at("key", "$0.Headers[0].Key=="+markHeader)}, func(v V) []string {
				if v["one"] {
					return []string{"$0.Headers[0].Key==" + markHeader}
				}
				return []string{"false"}
			})
		})

	rule("restore.feed", "C04",
		"fetched change log records reach the buffer of their own partition, and feeding never blocks on a restoration which has ended",
		func(r *R) {
			g := r.gs("stateStoreConsumer.consume")
			part := func(x string) (string, bool) { // the fetched partition
				if strings.HasPrefix(x, "$0.partitions[") {
					if i := strings.LastIndex(x, ".FetchPartition.Partition]"); i > 0 {
						return x[len("$0.partitions["):i], true
					}
					if i := strings.LastIndex(x, ".Partition]"); i > 0 {
						return x[len("$0.partitions["):i], true
					}
				}
				return "", false
			}
			give := func(n *Node) bool { return n.E.K == KSend && strings.HasSuffix(n.E.X.String(), ".buffer") }
			r.Every(g, "fetched records are fed to another partition, or block the consumer when nobody replays them", give, 1, func(n *Node) bool {
				e, ok := part(n.E.X.String())
				if !ok || !globs(e+".FetchPartition.Records || "+e+".Records", n.E.V.String()) || !n.E.Block || len(n.E.Alts) != 2 {
					return false
				}
				for _, a := range n.E.Alts {
					if !a.Send && a.Ch.String() == strings.TrimSuffix(n.E.X.String(), ".buffer")+".done" {
						return true
					}
				}
				return false
			})
			paused := r.constant("paused")
			// from one fetched partition to the next
			n := 0
			r.Auto(g, "", func(s St, x *Node) (St, string) {
				e := x.E
				if e.K == KBranch && strings.HasPrefix(e.X.String(), "iter:") {
					if s.has("in") && !s.has("given") && !s.has("skip") {
						return s, "fetched records of a partition are lost"
					}
					if e.Val {
						n++
						return "in", ""
					}
					return "", ""
				}
				switch {
				case e.K == KBranch && e.Val && strings.HasSuffix(e.X.String(), ".buffer==nil"):
					return s.add("skip"), ""
				case e.K == KBranch && e.Val && globs("call:atomic.*.state)=="+paused, e.X.String()):
					return s.add("skip").add("idle"), ""
				case e.K == KBranch && e.Val && globs("len(*.Records)<1 || len(*.Records)==0", e.X.String()):
					return s.add("skip"), ""
				case give(x):
					if s.has("given") {
						return s, "fetched records are fed twice"
					}
					return s.add("given"), ""
				case e.K == KRecv && strings.HasSuffix(e.X.String(), ".done"):
					return s.add("skip"), ""
				case e.K == KStore && strings.HasSuffix(e.Field, "stateStorePartition.buffer") && !s.has("ending"):
					return s.add("ending"), ""
				case x.E.K == KCall && strings.HasSuffix(x.E.Name, ".Lock") && arg(x, 0) == "$0.mux":
					return s.add("mux").del("idle"), ""
				case x.E.K == KCall && strings.HasSuffix(x.E.Name, ".Unlock") && arg(x, 0) == "$0.mux":
					return s.del("mux").del("idle"), ""
				case fedState(x) || call("kgo.Client.PauseFetchPartitions")(x):
					if fedState(x) && !setState(strings.TrimSuffix(fedTarget(x), ".state"), paused)(x) {
						return s, "the state of a partition is changed while feeding"
					}
					if !s.has("mux") || !s.has("idle") {
						return s, "a partition whose restoration begins at the same time is paused"
					}
					return s, ""
				case e.K == KGo:
					return s, "records are fed by several goroutines, their order is lost"
				case e.K == KPanic:
					return s, "an error stops feeding"
				}
				return s, ""
			})
			if n == 0 {
				r.note("fetched partitions are not iterated with EachPartition")
			}
			r.insts += n
			closed := branch("call:kgo.Fetches.IsClientClosed(*", true)
			halted := branch("call:context.Context.Err($0.runStatus.ctx)==nil", false)
			r.Precede(g, "feeding stops although neither the client was closed nor the process halted", or(closed, halted), kind(KReturn), nil)
			r.Precede(g, "restorations are abandoned although neither the client was closed nor the process halted", or(closed, halted), kind(KClose), nil)
			r.ForEach(g, "the replaying goroutine of a partition is never ended", "$0.partitions", or(branch("elem($0.partitions).buffer==nil", true), closeX("elem($0.partitions).done")), 1, 1)
			all := r.Loop(g, "L", "$0.partitions", closeX("elem($0.partitions).done"), 0, 1, 1)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				s = all.step(s, n)
				if n.E.K == KReturn && s.get("L") != "done" {
					return s, "replaying goroutines are never ended"
				}
				return s, ""
			})
			// ending a restoration
			for _, fn := range []string{"stateStorePartition.kill", "stateStoreConsumer.cancelPartition"} {
				k := r.gs(fn)
				ssp := "$0"
				if fn == "stateStoreConsumer.cancelPartition" {
					ssp = "$0.partitions[$1]"
					r.Times(k, "a cancelled partition is paused", setState(ssp, paused), 1, 9, nil, nil)
				}
				none := at("none", ssp+".buffer==nil")
				cl := closeX(ssp + ".done")
				r.need(len(k.Find(cl)), 1, "ending a restoration in "+fn)
				r.Guard(k, "a restoration is ended exactly when one is running", nil, cl, nil, []Atom{none}, func(v V) int { return b2m(!v["none"]) })
				r.Times(k, "a restoration is ended once", cl, 0, 1, nil, nil)
				r.Guard(k, "an ended restoration still receives records", nil, setTo(ssp+".buffer", "nil"), nil, []Atom{none}, func(v V) int {
					if v["none"] {
						return dontcare
					}
					return must
				})
				r.Held(k, "a restoration is ended without the lock of its buffer", or(cl, store("stateStorePartition.buffer")), ssp+".bufferLock", true)
			}
			for _, s := range r.CloseSites("stateStorePartition.done || stateStorePartition.buffer") {
				if bad := r.From(s.Fn, "stateStorePartition.kill || stateStoreConsumer.cancelPartition || stateStoreConsumer.consume || stateStorePartition.populate || stateStoreConsumer.stop", false); bad != "" {
					r.fail(s.Ins.Pos(), r.p.Name(s.Fn), "a restoration is ended elsewhere: "+bad, nil)
				}
			}
			r.Confined("the buffer of a restoring partition changes elsewhere", "stateStorePartition.buffer || stateStorePartition.done", "stateStorePartition.add || stateStorePartition.kill || stateStorePartition.prep || stateStoreConsumer.*", false, false, 1)
			// creation
			c := r.gn("newStateStoreConsumer", true, "NewClient", "stateStoreConsumer.consume", "Source.StateStoreTopicName")
			i := "mu(0;@+1)"
			topic := "call:Source.StateStoreTopicName($1)"
			cnt := "count:$1.config.NumPartitions || make:[]int32* || mu(make:[]int32(0,*;append(*"
			idx := i + " || elem(make:[]int32*) || elem(mu(make:[]int32(0,*;append(*"
			r.ForEach(c, "a partition of the change log is not read from its beginning", cnt, func(x *Node) bool {
				return x.E.K == KMapSet && strings.HasPrefix(x.E.X.String(), "make:map[int32]kgo.Offset") && globs(idx, x.E.A[0].String()) && x.E.V.String() == "call:kgo.Offset.AtStart(call:kgo.NewOffset())"
			}, 1, 1)
			r.ForEach(c, "a partition of the change log cannot be restored", cnt, func(x *Node) bool {
				if x.E.K != KMapSet || !strings.HasPrefix(x.E.X.String(), "make:map[int32]stateStorePartition") || !globs(idx, x.E.A[0].String()) {
					return false
				}
				tp := x.E.V.F("topicPartition")
				return tp != nil && tp.FS("Partition") == x.E.A[0].String() && tp.FS("Topic") == topic && strings.HasPrefix(x.E.V.FS("client"), "call:NewClient(") && strings.HasPrefix(x.E.V.FS("waiters"), "make:map") &&
					globs("0 || zero:* || "+paused, x.E.V.FS("state"))
			}, 1, 1)
			lit := func(m, of string) Pred {
				return func(x *Node) bool {
					return x.E.K == KMapSet && x.E.X.String() == m && x.E.A[0].String() == topic && globs(of, x.E.V.String())
				}
			}
			r.Times(c, "the client consumes the change log", lit("make:map[string]map[int32]kgo.Offset", "make:map[int32]kgo.Offset*"), 1, 1, nil, call("NewClient"))
			r.Times(c, "the partitions which nobody restores are named", lit("make:map[string][]int32", "make:[]int32* || mu(make:[]int32(0,*;append(@,*))"), 1, 1, nil, call("kgo.Client.PauseFetchPartitions"))
			r.ForEach(c, "a partition which nobody restores is fetched", cnt, func(x *Node) bool {
				return x.E.K == KStore && globs("elem(make:[]int32(*))", x.E.X.String()) && x.E.V.String() == i || call("builtin.append", "*", "["+i+"]")(x)
			}, 1, 1)
			r.Every(c, "the consumer of the change log is not complete", and(kind(KReturn), inFn("newStateStoreConsumer")), 1, func(x *Node) bool {
				o := x.E.A[0]
				return o.FS("runStatus") == "$0" && o.FS("source") == "$1" && o.FS("topic") == topic && strings.HasPrefix(o.FS("partitions"), "make:map[int32]stateStorePartition") && globs("call:NewClient(*)#0", o.FS("client"))
			})
			r.Auto(c, "", func(s St, x *Node) (St, string) {
				if x.E.K == KFork {
					return dead, ""
				}
				if x.E.K == KBranch && globs("call:NewClient(*)#1==nil", squash(x.E.X.String())) {
					s = s.set("ok", b01(x.E.Val))
				}
				if x.E.K == KReturn && s.get("ok") != "1" {
					return s, "a consumer of the change log is built although its client could not be created"
				}
				if x.E.K == KPanic && s.get("ok") != "0" {
					return s, "the consumer of the change log is not built although its client was created"
				}
				return s, ""
			})
			r.Times(c, "the change log is consumed by one loop", goEv("stateStoreConsumer.consume"), 1, 1, nil, nil)
			r.CalledFrom("the change log is consumed by one loop", "stateStoreConsumer.consume", "newStateStoreConsumer", false, 1)
			r.Times(c, "partitions which nobody restores are fetched", call("kgo.Client.PauseFetchPartitions", "call:NewClient(*"), 1, 1, nil, goEv("stateStoreConsumer.consume"))
		})
}
