package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The incremental balancer: preparation protocol (C20), graceful leave (C19), plan (C18).

// setOp: the operation on a set of topic partitions with element tp.
func setOp(op, set, tp string) Pred { return call("btree.BTreeG."+op, set, tp) }

// setHit: the branch deciding whether the element was found by op (before it).
func setHit(op, set, tp string) Atom {
	c := "call:btree.BTreeG." + op + "(" + set + "," + tp + ")#1"
	return at(op+set, c)
}

// launches: n does (or starts something which always does) p.
func launches(n *Node, p Pred) bool {
	if p(n) {
		return true
	}
	if n.E.K != KGo && n.E.K != KCall {
		return false
	}
	for _, f := range n.Succ {
		if f.E.K != KFork {
			continue
		}
		seen := map[*Node]bool{}
		miss := false
		var walk func(n *Node)
		walk = func(n *Node) {
			if seen[n] || p(n) || n.E.K == KFork && n != f {
				return
			}
			seen[n] = true
			if n.E.K == KFEnd {
				miss = true
				return
			}
			for _, s := range n.Succ {
				walk(s)
			}
		}
		walk(f)
		if !miss {
			return true
		}
	}
	return false
}

// rebalance: the group is asked to rebalance, now or soon.
func rebalance(n *Node) bool {
	force := or(call("kgo.Client.ForceRebalance"), goEv("kgo.Client.ForceRebalance"))
	later := func(n *Node) bool {
		return n.E.K == KCall && n.E.Name == "time.AfterFunc" && strings.Contains(arg(n, 1), ":kgo.Client.ForceRebalance")
	}
	return n.E.K != KFork && launches(n, or(force, later))
}

// loopSpan: the start of an iteration of a loop over coll, and its end.
func loopSpan(coll string) (Pred, Pred) {
	is := func(n *Node) (bool, bool) {
		c, more, ok := loopBranch(n)
		return ok && globs(coll, c), more
	}
	return func(n *Node) bool { ok, more := is(n); return ok && more },
		func(n *Node) bool { ok, _ := is(n); return ok || n.E.K == KReturn || n.E.K == KFEnd }
}

// resultIgnored: nothing depends on what the call (or the call of the wrapper it is in) returns.
func resultIgnored(n *Node) bool {
	ins := n.E.Ins
	if n.E.Fr != nil && n.E.Fr.parent != nil && n.E.Fr.site != nil {
		ins = n.E.Fr.site
	}
	v, ok := ins.(ssa.Value)
	if !ok {
		return false
	}
	var used func(v ssa.Value) bool
	used = func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return true
		}
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Extract:
				if used(u) {
					return true
				}
			case *ssa.If:
				if u.Block().Succs[0] != u.Block().Succs[1] {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return !used(v)
}

func init() {
	const prep, ready = "$0.preparing.BTreeG", "$0.ready.BTreeG"
	rule("group.prepare", "C20 C04",
		"a partition is prepared once: its own store is restored in the background and only a caught-up store is reported as prepared; forgetting ends the preparation of exactly that partition",
		func(r *R) {
			g := r.gn("eventSourceConsumer.PrepareTopicPartition", true, "stateStoreConsumer.preparePartition", "stateStorePartition.sync", "emitMetric", "partitionedChangeLog.assign")
			p := "$1.Partition"
			begin := call("stateStoreConsumer.preparePartition")
			known := []Atom{at("prepping", "has($0.prepping,"+p+")", "!$0.prepping["+p+"]==nil")}
			keep := func(n *Node) bool { return n.E.K == KMapSet && n.E.X.String() == "$0.prepping" }
			first := func(v V) int { return b2m(!v["prepping"]) }
			r.Guard(g, "preparing a partition", nil, begin, nil, known, first)
			r.Guard(g, "remembering a preparation", nil, keep, nil, known, first)
			r.Times(g, "a partition is prepared once", begin, 0, 1, nil, nil)
			r.Every(g, "another partition or store is prepared", begin, 1, func(n *Node) bool {
				return arg(n, 0) == "$0.stateStoreConsumer" && arg(n, 1) == p && storeOf(n.E.A[2], "$0.partitionedStore", p)
			})
			told := call("IncrementalGroupRebalancer.PartitionPrepared")
			r.need(sites(g.Find(told)), 1, "reporting a prepared partition")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if e.K == KFork {
					return s.add("in").del("synced").del("told"), ""
				}
				if e.K == KFEnd {
					if s.get("ssp") != "" && s.has("synced") && !s.has("told") {
						return s, "a prepared partition is not reported"
					}
					return dead, ""
				}
				switch {
				case begin(n) && e.R != nil:
					return s.set("ssp", identOf(e.R)), ""
				case begin(n):
					return s.set("ssp", "?"), ""
				case keep(n):
					if e.A[0].String() != p || identOf(e.V) != s.get("ssp") {
						return s, "another preparation is remembered for the partition"
					}
					return s.add("kept"), ""
				case e.K == KGo:
					if launches(n, told) {
						if s.has("started") {
							return s, "a prepared partition is reported twice"
						}
						return s.add("started"), ""
					}
				case call("stateStorePartition.sync")(n):
					if identOf(e.A[0]) != s.get("ssp") {
						return s, "it is waited for another partition than the prepared one"
					}
					if !s.has("in") {
						return s, "the balancer is blocked while a partition is prepared"
					}
					return s.add("synced"), ""
				case told(n):
					if !s.has("synced") || s.has("told") {
						return s, "a partition is reported as prepared before its store caught up, or twice"
					}
					if arg(n, 0) != "$0.incrBalancer" || arg(n, 1) != "$1" {
						return s, "another partition is reported as prepared"
					}
					return s.add("told"), ""
				case e.K == KReturn:
					if s.get("ssp") != "" && !s.has("started") {
						return s, "a partition which is being prepared is never reported"
					}
				}
				return s, ""
			})
			r.Held(g, "preparations are accessed without their lock", or(keep, begin), "$0.preppingMux", true)
			f := r.gn("eventSourceConsumer.ForgetPreparedTopicPartition", false, "stateStoreConsumer.cancelPartition")
			cancel := call("stateStoreConsumer.cancelPartition", "$0.stateStoreConsumer", p)
			drop := func(n *Node) bool {
				return n.E.K == KMapDel && n.E.X.String() == "$0.prepping" && n.E.A[0].String() == p
			}
			was := func(v V) int { return b2m(v["prepping"]) }
			r.Guard(f, "ending the preparation of a forgotten partition", nil, cancel, nil, known, was)
			r.Guard(f, "dropping the preparation of a forgotten partition", nil, drop, nil, known, func(v V) int {
				if v["prepping"] {
					return must
				}
				return dontcare
			})
			r.Every(f, "the preparation of another partition is ended", or(call("stateStoreConsumer.cancelPartition"), kind(KMapDel)), 1, or(cancel, drop))
			r.Held(f, "preparations are accessed without their lock", or(cancel, drop), "$0.preppingMux", true)
			r.Confined("preparations change elsewhere", "eventSourceConsumer.prepping", "eventSourceConsumer.PrepareTopicPartition || eventSourceConsumer.ForgetPreparedTopicPartition || eventSourceConsumer.assignPartitions || newEventSourceConsumer", false, false, 1)
		})

	rule("group.sets", "C20",
		"the sets of preparing and ready partitions change under one lock exactly as reported, every change which matters to others triggers a rebalance, and the next join advertises both sets",
		func(r *R) {
			lock := "$0.statusLock"
			mut := or(setOp("Delete", prep, "*"), setOp("Delete", ready, "*"), setOp("ReplaceOrInsert", prep, "*"), setOp("ReplaceOrInsert", ready, "*"))
			mine := func(g *Graph, tp string, min int) {
				r.Every(g, "the sets change for another partition", mut, min, func(n *Node) bool { return arg(n, 1) == tp })
				r.Held(g, "the sets change without their lock", mut, lock, true)
			}
			// prepared
			g := r.g("incrementalRebalancer.PartitionPrepared")
			mine(g, "$1", 1)
			for what, ev := range map[string]Pred{
				"taking a prepared partition out of the preparing ones": setOp("Delete", prep, "$1"),
				"adding a prepared partition to the ready ones":         setOp("ReplaceOrInsert", ready, "$1"),
				"rebalancing once a partition is prepared":              rebalance,
			} {
				r.Guard(g, what, nil, ev, nil, nil, func(v V) int { return must })
			}
			r.Never(g, "a prepared partition is not ready", or(setOp("Delete", ready, "*"), setOp("ReplaceOrInsert", prep, "*")))
			// failed
			g = r.g("incrementalRebalancer.PartitionPreparationFailed")
			mine(g, "$1", 1)
			was := []Atom{setHit("Delete", prep, "$1"), setHit("Delete", ready, "$1")}
			gone := func(v V) int {
				return b2m(v["Delete"+prep] || v["Delete"+ready])
			}
			r.Guard(g, "forgetting a preparing partition", nil, setOp("Delete", prep, "$1"), nil, nil, func(v V) int { return must })
			r.Guard(g, "forgetting a ready partition", nil, setOp("Delete", ready, "$1"), nil, nil, func(v V) int { return must })
			r.Guard(g, "rebalancing after a preparation failed", nil, rebalance, nil, was, gone)
			r.Never(g, "a failed preparation is recorded as prepared", setOp("ReplaceOrInsert", "*", "*"))
			r.Every(r.gs("incrementalRebalancer.ProtocolName"), "members do not join with the protocol of this balancer", kind(KReturn), 1, func(n *Node) bool {
				return n.E.A[0].String() == "\"incr_coop\""
			})
			// assigned
			g = r.g("incrementalRebalancer.PartitionsAssigned")
			mine(g, "elem($1)", 1)
			r.ForEach(g, "an assigned partition remains preparing", "$1", setOp("Delete", prep, "elem($1)"), 1, 9)
			r.ForEach(g, "an assigned partition remains ready", "$1", setOp("Delete", ready, "elem($1)"), 1, 9)
			r.Never(g, "an assigned partition is recorded as prepared", setOp("ReplaceOrInsert", "*", "*"))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				for _, a := range []Atom{setHit("Delete", prep, "elem($1)"), setHit("Delete", ready, "elem($1)")} {
					if n.E.K == KBranch {
						if ok, neg := a.M(n.E.X); ok && n.E.Val != neg {
							s = s.add("hit")
						}
					}
				}
				if setOp("Delete", "*", "elem($1)")(n) && resultIgnored(n) {
					s = s.add("hit")
				}
				if rebalance(n) {
					if !s.has("hit") {
						return s, "every assignment makes the group rebalance again"
					}
					s = s.add("told")
				}
				if n.E.K == KReturn && s.has("hit") && !s.has("told") {
					return s, "a partition is no longer preparing or ready, but the group is not rebalanced"
				}
				return s, ""
			})
			r.insts++
			// advertised
			u := r.gs("incrementalRebalancer.userData")
			enc := call("*.Marshal")
			r.Every(u, "the advertised state is not the one of the member", enc, 1, func(n *Node) bool {
				x := n.E.A[len(n.E.A)-1]
				return x.FS("Status") == "$0.memberStatus" && x.FS("LeftAt") == "$0.leaveTime" && itemsOf(u, n, x.F("Preparing"), prep) && itemsOf(u, n, x.F("Ready"), ready)
			})
			r.Held(u, "the advertised state is read without its lock", or(loadEv("incrementalRebalancer.memberStatus"), loadEv("incrementalRebalancer.leaveTime"), call("btree.BTreeG.Ascend", prep+" || "+ready)), lock, false)
			un := r.gn("incrementalRebalancer.userData", false, "TopicPartitionSet.Items")
			r.Held(un, "the advertised state is read without its lock", call("TopicPartitionSet.Items"), lock, true)
			r.Every(u, "something else is advertised", kind(KReturn), 1, func(n *Node) bool { return globs("call:*.Marshal(*)#0", n.E.A[0].String()) })
			j := r.gn("incrementalRebalancer.JoinGroupMetadata", false, "incrementalRebalancer.userData")
			r.Guard(j, "advertising the state of the member", nil, func(n *Node) bool {
				return n.E.K == KStore && n.E.Field == "kmsg.ConsumerMemberMetadata.UserData" && n.E.V.String() == "call:incrementalRebalancer.userData($0)"
			}, nil, nil, func(v V) int { return must })
			r.ForEach(j, "an owned partition is not advertised", "$2", func(n *Node) bool {
				return n.E.K == KCall && n.E.Name == "builtin.append" && len(n.E.A) == 2 && n.E.A[1].Op == "list" && len(n.E.A[1].A) == 1 && n.E.A[1].A[0].FS("Topic") == "key($2)" && n.E.A[1].A[0].FS("Partitions") == "elem($2)"
			}, 1, 1)
			r.Every(j, "other topics are advertised", store("kmsg.ConsumerMemberMetadata.Topics"), 1, func(n *Node) bool { return n.E.V.String() == "$1" })
			r.Every(j, "the metadata which is sent is another one", kind(KReturn), 1, func(n *Node) bool {
				return globs("call:kmsg.ConsumerMemberMetadata.AppendTo(*,nil)", n.E.A[0].String())
			})
			for _, fn := range []string{"incrementalRebalancer.PartitionPrepared", "incrementalRebalancer.PartitionPreparationFailed", "incrementalRebalancer.PartitionsAssigned", "incrementalRebalancer.ParseSyncAssignment"} {
				r.Every(r.g(fn), "another client than the member's is asked to rebalance", or(call("kgo.Client.ForceRebalance"), goEv("kgo.Client.ForceRebalance")), 1, func(n *Node) bool {
					return globs("call:IncrRebalanceInstructionHandler.Client($0.instructionHandler)", arg(n, 0))
				})
			}
			r.Guard(j, "using a version of the metadata which has the owned partitions", nil, store("kmsg.ConsumerMemberMetadata.Version", "1 || 2 || 3"), nil, nil, func(v V) int { return must })
			r.Every(j, "a version of the metadata is used which lacks the owned partitions", store("kmsg.ConsumerMemberMetadata.Version"), 1, func(n *Node) bool { return globs("1 || 2 || 3", n.E.V.String()) })
			for fn, want := range map[string]string{"IncrGroupMemberMeta.isReadyFor": "Ready", "IncrGroupMemberMeta.isPreparingFor": "Preparing"} {
				if r.p.Funcs[fn] != nil && r.p.Funcs["containsTopicPartition"] != nil {
					r.Every(r.gn(fn, false, "containsTopicPartition"), "another list of the member is searched by "+fn, call("containsTopicPartition"), 0, func(n *Node) bool {
						return arg(n, 0) == "$1" && arg(n, 1) == "$2" && arg(n, 2) == "$0."+want
					})
				}
			}
			// the set itself
			one := func(fn, op, want string) {
				g := r.gs(fn)
				r.Times(g, fn+" changes the set once", setOp(op, "$0.BTreeG", "$1"), 1, 1, nil, nil)
				r.Ret(fn, "the result of "+fn, want)
			}
			one("TopicPartitionSet.Insert", "ReplaceOrInsert", "!call:btree.BTreeG.ReplaceOrInsert($0.BTreeG,$1)#1")
			one("TopicPartitionSet.Remove", "Delete", "call:btree.BTreeG.Delete($0.BTreeG,$1)#1")
			r.Ret("TopicPartitionSet.Contains", "the result of TopicPartitionSet.Contains", "call:btree.BTreeG.Get($0.BTreeG,$1)#1 || call:btree.BTreeG.Has($0.BTreeG,$1)")
			if r.p.Funcs["toTopicPartitions"] != nil {
				tt := r.gs("toTopicPartitions")
				add := func(n *Node) bool {
					return n.E.K == KStore && globs("elem(make:* || make:*[mu(0;@+1)]*", n.E.R.String()) || n.E.K == KCall && n.E.Name == "builtin.append"
				}
				r.ForEach(tt, "a partition is left out of the topic partitions", "$1*", add, 1, 1)
				r.Results(tt, "the topic partitions", nil, func(V) []string {
					return []string{"make:*(len($1),len($1)) || make:*(0,*) || mu(*;append(@,*)) || append(*"}
				})
				r.Every(tt, "the topic partitions have another topic or partition", add, 1, func(n *Node) bool {
					x := ""
					if n.E.K == KCall {
						x = arg(n, 1)
					} else {
						x = n.E.V.String()
					}
					return globs("*TopicPartition{Partition=elem($1),Topic=$0} || *TopicPartition{Partition=$1[mu(0;@+1)],Topic=$0} || [TopicPartition{Partition=elem($1),Topic=$0}]", x)
				})
			}
			it := r.gs("TopicPartitionSet.Items")
			r.ForEach(it, "a member of the set is left out", "call:btree.BTreeG.Ascend($0.BTreeG,* || call:btree.BTreeG.Descend($0.BTreeG,*", func(n *Node) bool {
				return n.E.K == KCall && n.E.Name == "builtin.append" && arg(n, 1) == "[each:0($0.BTreeG)]"
			}, 1, 1)
			r.Every(it, "the members of the set are not what is returned", kind(KReturn), 1, func(n *Node) bool {
				return globs("acc:* || make:*TopicPartition(0* || append(*", n.E.A[0].String())
			})
			lessOrder(r, "topicPartitionLess", "Partition", "Topic")
			r.Confined("the sets change elsewhere", "incrementalRebalancer.preparing || incrementalRebalancer.ready", "incrementalRebalancer.PartitionPrepared || incrementalRebalancer.PartitionPreparationFailed || incrementalRebalancer.PartitionsAssigned || incrementalRebalancer.ParseSyncAssignment || incrementalRebalancer.userData || incrementalRebalancer.JoinGroupMetadata || IncrementalRebalancer", false, false, 1)
		})

	rule("group.instructions", "C20 C19",
		"prepare instructions start one preparation per new partition, forget instructions end exactly the named ones before the group is rebalanced; an inactive member without partitions is released once",
		func(r *R) {
			g := r.g("incrementalRebalancer.ParseSyncAssignment")
			lock := "$0.statusLock"
			bad := []Atom{at("ok", "call:kmsg.ConsumerMemberAssignment.ReadFrom(*,$1)==nil")}
			todo := "*.Prepare"
			el := "elem(new:IncrGroupMemberInstructions.Prepare)"
			for _, n := range g.Find(call("btree.BTreeG.ReplaceOrInsert")) {
				el = arg(n, 1)
			}
			if !globs("elem(*.Prepare)", el) {
				r.fatal("prepare instructions are not carried out: %s", el)
				return
			}
			todo = strings.TrimSuffix(strings.TrimPrefix(el, "elem("), ")")
			inst := strings.TrimSuffix(todo, ".Prepare")
			forget := inst + ".Forget"
			fel := "elem(" + forget + ")"
			// what is decoded
			r.Every(g, "instructions are not taken from the assignment", call("*.Unmarshal"), 1, func(n *Node) bool {
				return globs("new:kmsg.ConsumerMemberAssignment.UserData || out:*.UserData", n.E.A[1].String()) && n.E.A[2].String() == inst
			})
			start := func(n *Node) bool {
				return launches(n, or(call("IncrRebalanceInstructionHandler.PrepareTopicPartition"), goEv("IncrRebalanceInstructionHandler.PrepareTopicPartition")))
			}
			asked := or(call("IncrRebalanceInstructionHandler.PrepareTopicPartition"), goEv("IncrRebalanceInstructionHandler.PrepareTopicPartition"))
			r.Every(g, "another partition is prepared than instructed", asked, 1, func(n *Node) bool {
				return arg(n, 0) == "$0.instructionHandler" && arg(n, 1) == el
			})
			r.ForEachIf(g, "an instruction to prepare is ignored", todo, setOp("ReplaceOrInsert", prep, el), 1, 1)
			ls, le := loopSpan(todo)
			r.Guard(g, "starting a preparation", ls, func(n *Node) bool { return n.E.K == KGo && start(n) }, le, []Atom{setHit("ReplaceOrInsert", prep, el)}, func(v V) int { return b2m(!v["ReplaceOrInsert"+prep]) })
			r.Never(g, "the instruction handler is blocked or called with the lock held", func(n *Node) bool {
				return n.E.K == KCall && n.E.Name == "IncrRebalanceInstructionHandler.PrepareTopicPartition" && n.E.Fr != nil && n.E.Fr.kind == "root"
			})
			// forget
			end := call("IncrRebalanceInstructionHandler.ForgetPreparedTopicPartition")
			r.Every(g, "another partition is forgotten than instructed", or(end, goEv("IncrRebalanceInstructionHandler.ForgetPreparedTopicPartition")), 1, func(n *Node) bool {
				return arg(n, 0) == "$0.instructionHandler" && arg(n, 1) == fel
			})
			r.ForEachIf(g, "a forgotten partition remains preparing", forget, setOp("Delete", prep, fel), 1, 1)
			r.ForEachIf(g, "a forgotten partition remains ready", forget, setOp("Delete", ready, fel), 1, 1)
			fs, fe := loopSpan(forget)
			endOrGo := func(n *Node) bool { return n.E.K != KFork && launches(n, end) }
			r.Guard(g, "forgetting a prepared partition", fs, endOrGo, fe, []Atom{setHit("Delete", prep, fel), setHit("Delete", ready, fel)}, func(v V) int {
				return b2m(v["Delete"+prep] || v["Delete"+ready])
			})
			forced := func(n *Node) bool { return n.E.K != KFork && rebalance(n) }
			r.Auto(g, "", func(s St, n *Node) (St, string) { // completion before the rebalance
				e := n.E
				if e.K == KFork {
					return s.add("in"), ""
				}
				if s.has("in") {
					switch {
					case end(n):
						return s.add("ended"), ""
					case call("sync.WaitGroup.Done")(n):
						if !s.has("ended") {
							return s, "a partition counts as forgotten before it is"
						}
						return s.add("done"), ""
					case e.K == KFEnd:
						if s.has("ended") && s.has("wg") && !s.has("done") {
							return s, "forgetting a partition is never reported, the member hangs"
						}
						return dead, ""
					}
					return s, ""
				}
				if _, more, ok := loopBranch(n); ok {
					c, _, _ := loopBranch(n)
					if c == forget {
						if s.has("el") && s.has("wg") && s.get("acc") != "1" {
							return s, "the number of forgotten partitions which is waited for is wrong"
						}
						s = s.del("el").set("acc", "")
						if more {
							s = s.add("el").add("many")
						} else {
							s = s.add("all")
						}
						return s, ""
					}
				}
				if e.K == KBranch && !e.Val && globs("len("+squash(forget)+")<1 || len("+squash(forget)+")==0", squash(e.X.String())) {
					s = s.add("many")
				}
				switch {
				case call("sync.WaitGroup.Add")(n):
					if s.has("el") && arg(n, 1) == "1" && !s.has("wg") || s.has("wg1") {
						return s.add("wg1").add("pend"), ""
					}
					if arg(n, 1) == "len("+forget+")" && !s.has("el") {
						return s.add("wg"), ""
					}
					return s, "the number of forgotten partitions which is waited for is wrong"
				case endOrGo(n):
					if e.K == KGo {
						if s.has("wg") && s.get("acc") != "" {
							return s, "the number of forgotten partitions which is waited for is wrong"
						}
						if !s.has("wg") && !s.has("pend") {
							return s, "a partition is forgotten without being waited for"
						}
						return s.set("acc", "1").del("pend").add("async"), ""
					}
				case call("sync.WaitGroup.Done")(n):
					if s.get("acc") != "" {
						return s, "the number of forgotten partitions which is waited for is wrong"
					}
					return s.set("acc", "1"), ""
				case call("sync.WaitGroup.Wait")(n):
					if !s.has("all") {
						return s, "it is not waited for every forgotten partition"
					}
					return s.add("waited"), ""
				case forced(n):
					if !s.has("all") || (s.has("async") || s.has("wg")) && !s.has("waited") {
						return s, "the group is rebalanced before the partitions are forgotten"
					}
					if !s.has("many") {
						return s, "every assignment makes the group rebalance again"
					}
					return s.add("forced"), ""
				case e.K == KReturn:
					if s.has("many") && !s.has("forced") {
						return s, "the group is not rebalanced after partitions were forgotten"
					}
				}
				return s, ""
			})
			r.insts += 4
			mut := or(setOp("Delete", prep, "*"), setOp("Delete", ready, "*"), setOp("ReplaceOrInsert", prep, "*"), setOp("ReplaceOrInsert", ready, "*"), store("incrementalRebalancer.memberStatus"), closeEv("incrementalRebalancer.gracefulChan"))
			r.Held(g, "the state of the member changes without its lock", mut, lock, true)
			// the assignment
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if n.E.K == KBranch {
					if ok, neg := bad[0].M(n.E.X); ok {
						s = s.set("ok", map[bool]string{true: "1", false: "0"}[n.E.Val != neg])
					}
				}
				if mut(n) && s.get("ok") == "0" {
					return s, "an unreadable assignment changes the state of the member"
				}
				if n.E.K == KReturn {
					res, err := n.E.A[0].String(), n.E.A[1].String()
					switch s.get("ok") {
					case "0":
						if !globs("call:kmsg.ConsumerMemberAssignment.ReadFrom(*", err) {
							return s, "an unreadable assignment is not reported"
						}
					case "1":
						if !globs("nil || call:kmsg.ConsumerMemberAssignment.ReadFrom(*", err) || !strings.HasPrefix(res, "make:map") {
							return s, "the assignment is not what is returned"
						}
					default:
						return s, "an assignment is accepted unread"
					}
				}
				return s, ""
			})
			released := closeEv("incrementalRebalancer.gracefulChan")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if c, more, ok := loopBranch(n); ok && !more {
					if c == todo {
						s = s.add("P")
					}
					if c == forget {
						s = s.add("F")
					}
				}
				if n.E.K == KBranch {
					if ok, neg := bad[0].M(n.E.X); ok && n.E.Val == neg {
						s = s.add("bad")
					}
					x := n.E.X.String()
					if n.E.Val && (x == "len("+forget+")<1" || x == "len("+forget+")==0") {
						s = s.add("F")
					}
					if n.E.Val && (x == "len("+todo+")<1" || x == "len("+todo+")==0") {
						s = s.add("P")
					}
				}
				if released(n) {
					s = s.add("free")
				}
				if n.E.K == KReturn && !s.has("bad") && !s.has("free") {
					if !s.has("P") {
						return s, "instructions to prepare are not carried out"
					}
					if !s.has("F") {
						return s, "instructions to forget are not carried out"
					}
				}
				return s, ""
			})
			r.insts++
			topics := "new:kmsg.ConsumerMemberAssignment.Topics || out:kmsg.ConsumerMemberAssignment.Topics"
			r.ForEachIf(g, "an assigned topic is lost", topics, func(n *Node) bool {
				return n.E.K == KMapSet && strings.HasPrefix(n.E.X.String(), "make:map") && globs("elem(*.Topics).Topic", n.E.A[0].String()) && globs("elem(*.Topics).Partitions", n.E.V.String())
			}, 1, 1)
			// release of a leaving member
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if e.K == KFork {
					return dead, ""
				}
				if branch("$0.memberStatus==1", true)(n) {
					s = s.set("inactive", "1")
				} else if branch("$0.memberStatus==1", false)(n) || branch("$0.memberStatus==0", true)(n) {
					s = s.set("inactive", "0")
				}
				if c, more, ok := loopBranch(n); ok && globs("make:map*", c) {
					if s.has("open") {
						s = s.add("some") // an element which was not looked at
					}
					s = s.del("open")
					if more {
						return s.add("open").add("in"), ""
					}
					s = s.del("in")
					if !s.has("some") {
						s = s.set("none", "1")
					}
					return s, ""
				}
				if e.K == KBranch {
					x := e.X.String()
					if globs("len(elem(make:map*))<1 || len(elem(make:map*))==0", x) {
						if e.Val {
							return s.del("open"), ""
						}
						return s.add("some").set("none", "0").del("open"), ""
					}
					if globs("mu(0;@+len(elem(make:map*)))<1 || mu(0;@+len(elem(make:map*)))==0", x) || e.Val && globs("len(make:map*)<1 || len(make:map*)==0", x) {
						return s.set("none", map[bool]string{true: "1", false: "0"}[e.Val]), ""
					}
				}
				switch {
				case store("incrementalRebalancer.memberStatus")(n):
					if e.V.String() != "2" {
						return s, "an assignment reactivates or deactivates the member"
					}
					if s.get("inactive") != "1" || s.get("none") != "1" {
						return s, "a member is defunct while it still has partitions, or never asked to leave"
					}
					return s.add("defunct"), ""
				case released(n):
					if s.get("inactive") != "1" || s.get("none") != "1" {
						return s, "a member is released while it still has partitions, or never asked to leave"
					}
					if s.has("free") {
						return s, "a leaving member is released twice"
					}
					return s.add("free"), ""
				case e.K == KReturn:
					if s.has("free") != s.has("defunct") {
						return s, "a released member is not defunct, it is released again, or never"
					}
					if s.get("inactive") == "1" && !s.has("free") && !s.has("some") && s.get("none") != "0" {
						return s, "a leaving member without partitions is not released"
					}
				}
				return s, ""
			})
			r.need(len(g.Find(released)), 1, "release of a leaving member")
			r.insts += 2
		})

	rule("group.leave", "C19",
		"asking to leave makes an active member inactive once, records when, and asks for a rebalance; nothing else changes the status; the longest leaving member is drained first",
		func(r *R) {
			g := r.g("incrementalRebalancer.GracefullyLeaveGroup")
			active := []Atom{at("active", "$0.memberStatus==0")}
			only := func(v V) int { return b2m(v["active"]) }
			status := store("incrementalRebalancer.memberStatus")
			r.Guard(g, "becoming inactive", nil, store("incrementalRebalancer.memberStatus", "1"), nil, active, only)
			r.Guard(g, "recording when the member left", nil, store("incrementalRebalancer.leaveTime"), nil, active, only)
			r.Guard(g, "asking the group to rebalance", nil, rebalance, nil, active, func(v V) int {
				if v["active"] {
					return must
				}
				return dontcare
			})
			r.Every(g, "the member gets another status", status, 1, func(n *Node) bool { return n.E.V.String() == "1" })
			r.Every(g, "the time is not the current one", store("incrementalRebalancer.leaveTime"), 1, func(n *Node) bool {
				return globs("call:time.Time.Unix*(call:time.Now())", n.E.V.String())
			})
			r.Held(g, "the status changes without its lock", or(status, store("incrementalRebalancer.leaveTime"), loadEv("incrementalRebalancer.memberStatus")), "$0.statusLock", true)
			r.Every(g, "the caller waits for something else than the release", kind(KReturn), 1, func(n *Node) bool { return n.E.A[0].String() == "$0.gracefulChan" })
			r.Confined("the status of the member changes elsewhere", "incrementalRebalancer.memberStatus || incrementalRebalancer.leaveTime", "incrementalRebalancer.GracefullyLeaveGroup || incrementalRebalancer.ParseSyncAssignment || IncrementalRebalancer", true, false, 1)
			c := r.gs("IncrementalRebalancer")
			r.Every(c, "a new member is not active, prepares for its instruction handler, or cannot be released", kind(KReturn), 1, func(n *Node) bool {
				x := n.E.A[0]
				return globs("0 || ", x.FS("memberStatus")) && x.FS("instructionHandler") == "$0" && strings.HasPrefix(x.FS("gracefulChan"), "make:chan") && x.F("preparing") != nil && x.F("ready") != nil
			})
			for _, s := range r.CloseSites("incrementalRebalancer.gracefulChan") {
				if bad := r.From(s.Fn, "incrementalRebalancer.ParseSyncAssignment", true); bad != "" {
					r.fail(s.Ins.Pos(), r.p.Name(s.Fn), "a leaving member is released elsewhere: by "+bad, nil)
				}
			}
			r.CalledFrom("a member leaves by something else than its own decision", "IncrementalGroupRebalancer.GracefullyLeaveGroup || incrementalRebalancer.GracefullyLeaveGroup", "eventSourceConsumer.leave", false, 1)
			lessOrder(r, "incrGroupInactiveLess", "meta.LeftAt", "member.MemberID")
			if r.constant("ActiveMember") != "0" || r.constant("InactiveMember") != "1" || r.constant("Defunct") != "2" {
				r.fail(0, "", "the advertised member states are not the agreed ones", nil)
			}
		})
}

// itemsOf: x are the items of the set.
func itemsOf(g *Graph, n *Node, x *X, set string) bool {
	if x == nil {
		return false
	}
	return globs("make:*TopicPartition(0,call:btree.BTreeG.Len("+set+")) || acc:* || append(*each:0("+set+")*", x.String())
}

// lessOrder: fn is the lexicographic order of the keys (of $0 and $1), decided for every combination
// of their relative order.
func lessOrder(r *R, fn string, keys ...string) {
	g := r.gs(fn)
	if g == nil {
		return
	}
	r.insts++
	n := 1
	for range keys {
		n *= 3
	}
	for c := 0; c < n; c++ {
		sign := make([]int, len(keys))
		want := 0
		for i, k := 0, c; i < len(keys); i, k = i+1, k/3 {
			sign[i] = k%3 - 1
			if want == 0 {
				want = sign[i]
			}
		}
		val := func(x string) (bool, bool) {
			neg := false
			for strings.HasPrefix(x, "!") {
				x, neg = x[1:], !neg
			}
			if x == "true" || x == "false" {
				return (x == "true") != neg, true
			}
			for i, k := range keys {
				a, b := k, strings.NewReplacer("$0", "$1").Replace(k)
				if !strings.Contains(k, "$0") {
					a, b = "$0."+k, "$1."+k
				}
				d := sign[i]
				for _, f := range []struct {
					x string
					v bool
				}{
					{minus(a, b) + "<0", d < 0}, {minus(b, a) + "<0", d > 0}, {minus(a, b) + "<1", d <= 0}, {minus(b, a) + "<1", d >= 0},
					{minus(a, b) + "==0", d == 0}, {minus(b, a) + "==0", d == 0},
					{a + "<" + b, d < 0}, {b + "<" + a, d > 0}, {a + "<=" + b, d <= 0}, {b + "<=" + a, d >= 0}, {a + ">" + b, d > 0}, {a + ">=" + b, d >= 0},
					{a + "==" + b, d == 0}, {b + "==" + a, d == 0},
				} {
					if f.x == x {
						return f.v != neg, true
					}
				}
			}
			return false, false
		}
		cur := g.Start
		for steps := 0; ; steps++ {
			if steps > 1000 {
				r.failN(g, cur, "the order cannot be decided", nil)
				return
			}
			if cur.E.K == KReturn {
				v, ok := val(cur.E.A[0].String())
				if !ok {
					r.failN(g, cur, "the result is not the order of "+strings.Join(keys, ", then ")+": "+cur.E.A[0].String(), nil)
					return
				}
				if v != (want < 0) {
					r.failN(g, cur, fn+" is not the order of "+strings.Join(keys, ", then "), nil)
					return
				}
				break
			}
			var next *Node
			for _, s := range cur.Succ {
				if s.E.K == KBranch {
					v, ok := val(s.E.X.String())
					if !ok {
						r.failN(g, s, "the result depends on something else than the order of "+strings.Join(keys, ", then ")+": "+s.E.X.String(), nil)
						return
					}
					if v != s.E.Val {
						continue
					}
				}
				if next != nil {
					r.failN(g, s, "the order cannot be decided", nil)
					return
				}
				next = s
			}
			if next == nil {
				r.failN(g, cur, "the order cannot be decided", nil)
				return
			}
			cur = next
		}
	}
}

// minus: how the difference of two sums (terms joined by +) is rendered.
func minus(a, b string) string {
	p, n := strings.Split(a, "+"), strings.Split(b, "+")
	sort.Strings(p)
	sort.Strings(n)
	return strings.Join(p, "+") + "-" + strings.Join(n, "-")
}
