package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The plan of the incremental balancer (C18, parts of C19).

// colls: the identities of the collections stored in the fields of a new object.
type colls map[string]map[string]bool

func fieldColls(g *Graph) colls {
	c := colls{}
	put := func(f string, x *X) {
		if i := strings.LastIndex(f, "."); i >= 0 {
			f = f[i+1:]
		}
		if c[f] == nil {
			c[f] = map[string]bool{}
		}
		c[f][identOf(x)] = true
	}
	for _, n := range g.Nodes {
		if n.E.K == KStore && n.E.Field != "" && n.E.V != nil {
			put(n.E.Field, n.E.V)
		}
	}
	return c
}

// is: x is the collection of the field.
func (c colls) is(x *X, field string) bool {
	return x != nil && (strings.HasSuffix(x.String(), "."+field) || c[field][identOf(x)])
}

// set: an operation on a set field with the element.
func (c colls) set(op, field, elem string) Pred {
	return func(n *Node) bool {
		return n.E.K == KCall && globs(op, strings.TrimPrefix(n.E.Name, "btree.BTreeG.")) && strings.HasPrefix(n.E.Name, "btree.BTreeG.") && len(n.E.A) > 1 && c.is(n.E.A[0], field) && globs(elem, arg(n, 1))
	}
}

// mp: a map operation on a field.
func (c colls) mp(k Kind, field, key string) Pred {
	return func(n *Node) bool { return n.E.K == k && c.is(n.E.X, field) && globs(key, n.E.A[0].String()) }
}

// each: the iteration over an ordered set.
func each(coll string) string {
	return "call:btree.BTreeG.Ascend(" + coll + ",* || call:btree.BTreeG.Descend(" + coll + ",*"
}

// ownerOf: the object whose field x is.
func ownerOf(x *X, field string) string { return strings.TrimSuffix(x.String(), "."+field) }

func init() {
	quiet := "groupState.printGroupState"
	rule("plan.build", "C18",
		"every topic is balanced when it has active members, every member of the group and every one of its partitions is put into the plan once, and the plan is made cooperative before it is distributed",
		func(r *R) {
			g := r.gn("incrementalBalanceController.Balance", false, "newGroupState", "groupState.balance", quiet)
			state := call("newGroupState", "$1", "elem($2)", "key($2)")
			r.Every(g, "the group is looked at for another topic", call("newGroupState"), 1, state)
			r.ForEach(g, "a topic is not balanced", "$2", state, 1, 1)
			gs := "call:newGroupState($1,elem($2),key($2))"
			plan := "call:kgo.ConsumerBalancer.NewPlan($1)"
			add := call("kgo.BalancePlan.AddPartitions")
			bal := call("groupState.balance")
			none := []Atom{at("none", "call:btree.BTreeG.Len("+gs+".activeMembers)<1", "call:btree.BTreeG.Len("+gs+".activeMembers)==0")}
			ls, le := loopSpan("$2")
			r.Guard(g, "balancing the topic", ls, bal, le, none, func(v V) int { return b2m(!v["none"]) })
			r.Every(g, "the number of partitions which may be moved is another one", bal, 1, func(n *Node) bool { return arg(n, 0) == gs && arg(n, 1) == "$0.budget" })
			act, inact := each(gs+".activeMembers"), each(gs+".inactiveMembers")
			// every member is in one of the two trees (plan.state)
			some := "each:0(" + gs + ".*ctiveMembers)"
			if len(g.Find(and(add, func(n *Node) bool { return arg(n, 1) == "elem("+gs+".members).member" }))) > 0 {
				act, inact, some = gs+".members", gs+".members", "elem("+gs+".members)"
			}
			la := r.Loop(g, "LA", act, add, 1, 1, 1)
			li := r.Loop(g, "LI", inact, add, 1, 1, 1)
			lp := r.Loop(g, "LP", "call:btree.BTreeG.Ascend("+some+".assignments,*", func(n *Node) bool {
				return n.E.K == KCall && n.E.Name == "builtin.append" && globs("[each:0("+some+".assignments)]", arg(n, 1))
			}, 1, 1, 1)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if ls(n) || le(n) {
					if s.has("on") {
						if s.get("LA") != "done" || s.get("LI") != "done" {
							return s, "the members of a balanced topic are not put into the plan"
						}
					}
					s = s.del("on").set("LA", "").set("LI", "").del("bal")
				}
				if e.K == KBranch {
					if ok, neg := none[0].M(e.X); ok && e.Val == neg {
						s = s.add("on")
					}
				}
				s = lp.step(li.step(la.step(s, n), n), n)
				if cc, more, ok := loopBranch(n); ok && globs("call:btree.BTreeG.Ascend("+some+".assignments,*", cc) {
					if more {
						s = s.add("some")
					}
				} else if ok {
					s = s.del("some")
				}
				for _, t := range []string{"LA", "LI"} {
					if m := s.loopBad(t); m != "" {
						return s, "a member is not put into the plan exactly once: " + m
					}
				}
				if m := s.loopBad("LP"); m != "" {
					return s, "a partition of a member is not put into the plan exactly once: " + m
				}
				switch {
				case bal(n):
					return s.add("bal"), ""
				case add(n):
					if !s.has("bal") {
						return s, "a member is put into the plan before the topic is balanced"
					}
					x := arg(n, 1)
					if !globs(some+".member", x) {
						return s, "partitions are assigned to something which is no member of the group"
					}
					if s.get("LP") != "done" {
						return s, "a member is put into the plan without its partitions"
					}
					m := strings.TrimSuffix(x, ".member")
					if arg(n, 0) != plan || arg(n, 2) != m+".topic" && arg(n, 2) != "key($2)" {
						return s, "a member is put into the plan with another topic"
					}
					if arg(n, 3) == "nil" && !s.has("some") {
						return s.set("LP", ""), "" // it has none
					}
					if !globs("make:*(0* || acc:* || append(*each:0("+m+".assignments)*", arg(n, 3)) {
						return s, "a member is put into the plan with other partitions"
					}
					return s.set("LP", ""), ""
				}
				return s, ""
			})
			coop := call("kgo.BalancePlan.AdjustCooperative", plan, "$1")
			into := call("kgo.BalancePlan.AsMemberIDMap", plan)
			r.Times(g, "the plan is made cooperative", coop, 1, 1, nil, nil)
			r.Precede(g, "the plan is distributed before it is cooperative", coop, into, nil)
			r.NotAfter(g, "the plan changes after it was made cooperative", coop, or(add, bal), nil)
			r.NotAfter(g, "the plan changes after it was taken", into, or(add, bal, coop), nil)
			r.Every(g, "another plan is distributed", kind(KReturn), 1, func(n *Node) bool {
				x := n.E.A[0]
				return x.FS("plan") == "call:kgo.BalancePlan.AsMemberIDMap("+plan+")" && strings.HasPrefix(x.FS("instructions"), "make:map")
			})
			mem := "elem(" + gs + ".members)"
			r.ForEach(g, "the instructions of a member are lost", gs+".members", func(n *Node) bool {
				if n.E.K == KMapSet && n.E.A[0].String() == "key("+gs+".members)" {
					return globs("*"+mem+".instructions*", n.E.V.String()) || strings.Contains(n.E.V.String(), mem+".instructions")
				}
				return n.E.K == KStore && globs("*[key("+gs+".members)].Prepare", n.E.R.String()) && strings.HasPrefix(n.E.V.String(), "append("+n.E.R.String()+",") && strings.Contains(n.E.V.String(), mem+".instructions.Prepare...")
			}, 1, 1)
			c := r.gs("IncrementalRebalancer")
			r.Every(c, "more than one partition may be moved at a time", kind(KReturn), 1, func(n *Node) bool {
				b := n.E.A[0].F("balancerController")
				return b != nil && b.FS("budget") == "1"
			})
			r.Ret("incrementalRebalancer.IsCooperative", "the balancer is cooperative", "true")
			// what was scheduled for a member by another topic is kept
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if cc, _, ok := loopBranch(n); ok && cc == gs+".members" {
					return s.set("has", ""), ""
				}
				if e.K == KBranch {
					x, val := e.X.String(), e.Val
					switch {
					case globs("has(make:map*,key("+gs+".members))", x):
						s = s.set("has", b01(val))
					case globs("make:map*[key("+gs+".members)]==nil", x):
						s = s.set("has", b01(!val))
					}
				}
				if e.K == KMapSet && e.A[0].String() == "key("+gs+".members)" && strings.HasPrefix(e.X.String(), "make:map") {
					if s.get("has") != "0" && !strings.Contains(e.V.String(), e.X.String()+"[") {
						return s, "the instructions of a member are replaced, what another topic scheduled is lost"
					}
					s = s.set("has", "1")
				}
				if e.K == KStore && globs("*[key("+gs+".members)].Prepare", e.R.String()) && s.get("has") == "0" {
					return s, "instructions are recorded for a member which has no record yet"
				}
				return s, ""
			})
			r.insts++
			cb := "call:kgo.NewConsumerBalancer($0.balancerController,$1)"
			r.Every(r.gs("incrementalRebalancer.MemberBalancer"), "another balancer, or other topics, are returned", kind(KReturn), 1, func(n *Node) bool {
				b, t, e := n.E.A[0], n.E.A[1], n.E.A[2].String()
				if b.isNil() {
					return e == cb+"#1"
				}
				return b.FS("consumerBalancer") == cb+"#0" && t.String() == "call:kgo.ConsumerBalancer.MemberTopics("+cb+"#0)" && globs("nil || "+cb+"#1", e)
			})
			mb := r.gs("incrementalRebalancer.MemberBalancer")
			okA := []Atom{at("ok", cb+"#1==nil")}
			r.Guard(mb, "returning the balancer", nil, func(n *Node) bool { return n.E.K == KReturn && !n.E.A[0].isNil() }, nil, okA, func(v V) int { return b2m(v["ok"]) })
			r.Ret("balanceWrapper.Balance", "the balance of the group", "call:kgo.ConsumerBalancer.Balance($0.consumerBalancer,$1)")
			m := r.gs("incrementalRebalancer.MemberBalancer")
			r.Every(m, "another balancer is used", call("kgo.NewConsumerBalancer"), 1, func(n *Node) bool {
				return arg(n, 0) == "$0.balancerController" && arg(n, 1) == "$1"
			})
		})

	rule("plan.state", "C18 C19 C20",
		"the state of the group which is balanced: every partition not claimed is unassigned, the first claimant of a partition keeps it, only active members hold preparations, members are ordered only once their order is final",
		func(r *R) {
			g := r.gn("newGroupState", false, quiet)
			c := fieldColls(g)
			r.ForEach(g, "a partition is not known", "count:$1", c.mp(KMapSet, "unassigned", "mu(0;@+1)"), 1, 1)
			members := "call:kgo.ConsumerBalancer.EachMember($0,*"
			r.ForEach(g, "a member is not known", members, c.mp(KMapSet, "members", "each:0($0).MemberID"), 1, 1)
			claim := "elem(elem(each:1($0).OwnedPartitions).Partitions)"
			owned := "elem(each:1($0).OwnedPartitions).Partitions"
			take := c.mp(KMapDel, "unassigned", claim)
			own := c.mp(KMapSet, "assigned", claim)
			r.ForEach(g, "a claimed partition remains unassigned", owned, take, 1, 1)
			os, oe := loopSpan(owned)
			has := Atom{Name: "owned", M: func(x *X) (bool, bool) {
				neg := false
				if x.Op == "not" {
					x, neg = x.A[0], true
				}
				if x.Op == "has" && len(x.A) == 2 && c.is(x.A[0], "assigned") && x.A[1].String() == claim {
					return true, neg
				}
				if x.Op == "eq" && len(x.A) == 2 && x.A[1].isNil() && x.A[0].Op == "lookup" && c.is(x.A[0].A[0], "assigned") {
					return true, !neg
				}
				return false, false
			}}
			first := func(v V) int { return b2m(!v["owned"]) }
			topic := []Atom{at("topic", "$2==elem(each:1($0).OwnedPartitions).Topic", "elem(each:1($0).OwnedPartitions).Topic==$2")}
			for what, ev := range map[string]Pred{
				"recording the owner of a claimed partition":      own,
				"counting a claimed partition to its owner":       c.set("ReplaceOrInsert", "assignments", claim),
				"a claimed partition may be donated by its owner": c.set("ReplaceOrInsert", "donatable", claim),
			} {
				r.Guard(g, what, os, ev, oe, []Atom{has}, first)
			}
			ts, te := loopSpan("each:1($0).OwnedPartitions")
			isClaim := func(n *Node) bool { cc, _, ok := loopBranch(n); return ok && cc == owned }
			r.Guard(g, "taking over the claims of a member for the topic", ts, isClaim, te, topic, func(v V) int { return b2m(v["topic"]) })
			// preparations
			active := []Atom{at("status", "out:incrGroupMember.meta.Status==0", "new:incrGroupMember.meta.Status==0", "*.meta.Status==0"),
				at("read", "call:jsoniter.API.Unmarshal(json,each:1($0).UserData,*.meta)==nil")}
			ms, me := loopSpan(members)
			only := func(v V) int {
				if v["status"] && v["read"] {
					return dontcare
				}
				return mustnot
			}
			prep := c.mp(KMapSet, "preparing", "elem(*.meta.Preparing)")
			rdy := c.mp(KMapSet, "ready", "elem(*.meta.Ready)")
			recv := c.set("ReplaceOrInsert", "inReceivership", "elem(*.meta.Preparing).Partition || elem(*.meta.Ready).Partition")
			r.Every(g, "another preparation is recorded", or(c.mp(KMapSet, "preparing", "*"), c.mp(KMapSet, "ready", "*")), 1, or(prep, rdy))
			r.Every(g, "another partition is in motion", c.set("ReplaceOrInsert", "inReceivership", "*"), 1, recv)
			r.Guard(g, "recording the preparations of a member", ms, or(prep, rdy, recv), me, active, only)
			l1 := r.Loop(g, "L1", "*.meta.Preparing", c.set("ReplaceOrInsert", "inReceivership", "elem(*.meta.Preparing).Partition"), 1, 9, 1)
			l2 := r.Loop(g, "L2", "*.meta.Ready", c.set("ReplaceOrInsert", "inReceivership", "elem(*.meta.Ready).Partition"), 1, 9, 1)
			l3 := r.Loop(g, "L3", "*.meta.Ready", rdy, 1, 9, 1)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if ms(n) || me(n) {
					if s.get("read") == "1" && s.get("status") == "1" && (s.get("L1") != "done" || s.get("L2") != "done" || s.get("L3") != "done") {
						return s, "the preparations of an active member are not counted as in motion"
					}
					if s.get("read") == "1" && s.get("status") == "0" && !(s.has("fp") && s.has("fr")) {
						return s, "a member which is not active keeps its preparations"
					}
					return "", ""
				}
				if e.K == KBranch {
					for _, a := range active {
						if ok, neg := a.M(e.X); ok {
							s = s.set(a.Name, map[bool]string{true: "1", false: "0"}[e.Val != neg])
						}
					}
				}
				s = l3.step(l2.step(l1.step(s, n), n), n)
				for _, t := range []string{"L1", "L2", "L3"} {
					if m := s.loopBad(t); m != "" {
						return s, "a preparation is not recorded: " + m
					}
				}
				if e.K == KStore && strings.HasSuffix(e.Field, "Instructions.Forget") {
					v := e.V.String()
					s = s.del("fp").del("fr")
					if strings.Contains(v, ".meta.Preparing...") {
						s = s.add("fp")
					}
					if strings.Contains(v, ".meta.Ready...") {
						s = s.add("fr")
					}
					if s.get("status") != "0" {
						return s, "an active member is told to forget its preparations"
					}
				}
				return s, ""
			})
			r.insts += 3
			// partitions in motion are not donated again
			moving := c.set("Delete", "donatable", "each:0(*)")
			counted := c.set("ReplaceOrInsert", "donating", "each:0(*)")
			tree := or(c.set("ReplaceOrInsert", "activeMembers", "*"), c.set("ReplaceOrInsert", "inactiveMembers", "*"))
			keys := or(moving, counted, c.set("*", "donatable", "*"), c.set("*", "donating", "*"), store("incrGroupMember.meta*"))
			lm := map[string]string{}
			for _, n := range g.Nodes {
				if coll, _, ok := loopBranch(n); ok && n.E.X.Op == "iter" && len(n.E.X.A) > 0 && strings.HasPrefix(coll, "call:btree.BTreeG.Ascend(") && len(n.E.X.A[0].A) > 0 && c.is(n.E.X.A[0].A[0], "inReceivership") {
					lm[coll] = identOf(n.E.X.A[0].A[0])
				}
			}
			r.need(len(lm), 1, "loop over the partitions in motion")
			isMoving := func(n *Node) (bool, bool) {
				coll, more, ok := loopBranch(n)
				return ok && lm[coll] != "", more
			}
			ownedBy := Atom{Name: "owned", M: func(x *X) (bool, bool) {
				if x.Op == "has" && len(x.A) == 2 && c.is(x.A[0], "assigned") && strings.HasPrefix(x.A[1].String(), "each:0(") {
					return true, false
				}
				if x.Op == "eq" && len(x.A) == 2 && x.A[1].isNil() && x.A[0].Op == "lookup" && c.is(x.A[0].A[0], "assigned") && strings.HasPrefix(x.A[0].A[1].String(), "each:0(") {
					return true, true
				}
				return false, false
			}}
			start := func(n *Node) bool { ok, more := isMoving(n); return ok && more }
			end := func(n *Node) bool { ok, _ := isMoving(n); return ok }
			r.Guard(g, "keeping a partition in motion from being donated", start, moving, end, []Atom{ownedBy}, func(v V) int { return b2m(v["owned"]) })
			r.Guard(g, "counting a partition in motion", start, counted, end, []Atom{ownedBy}, func(v V) int { return b2m(v["owned"]) })
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if coll, more, ok := loopBranch(n); ok && globs(members, coll) && !more {
					s = s.add("members")
				}
				if ok, more := isMoving(n); ok {
					if !s.has("members") {
						return s, "partitions in motion are looked at before every member is known"
					}
					if !more {
						s = s.add("moving")
					}
				}
				if tree(n) {
					if !s.has("moving") {
						return s, "members are ordered before their order is final"
					}
					return s.add("ordered"), ""
				}
				if keys(n) && s.has("ordered") {
					return s, "the order of a member changes after it was sorted in"
				}
				if n.E.K == KReturn && !s.has("moving") {
					return s, "partitions in motion may be donated again"
				}
				return s, ""
			})
			coll := ""
			for _, n := range g.Nodes {
				if cc, _, ok := loopBranch(n); ok && n.E.X.Op == "next" && c.is(n.E.X.A[0], "members") {
					coll = cc
				}
			}
			r.ForEach(g, "a member takes part exactly once", coll, tree, 1, 1)
			ns, ne := loopSpan(coll)
			gone := []Atom{at("inactive", "elem(*).meta.Status==1", "!elem(*).meta.Status==0")}
			r.Guard(g, "a member is active", ns, c.set("ReplaceOrInsert", "activeMembers", "elem(*)"), ne, gone, func(v V) int { return b2m(!v["inactive"]) })
			r.Guard(g, "a member is leaving", ns, c.set("ReplaceOrInsert", "inactiveMembers", "elem(*)"), ne, gone, func(v V) int { return b2m(v["inactive"]) })
			r.Every(g, "members without user data are not active", store("incrGroupMember.meta"), 0, func(n *Node) bool { return n.E.V.FS("Status") == "0" || n.E.V.FS("Status") == "" })
			r.Every(g, "the state is the one of another topic, or the members are ordered differently", kind(KReturn), 1, func(n *Node) bool {
				x := n.E.A[0]
				return x.FS("topic") == "$2" && x.FS("partitionCount") == "$1" &&
					globs("call:btree.NewG(*,func:incrGroupActiveLess)", x.FS("activeMembers")) && globs("call:btree.NewG(*,func:incrGroupInactiveLess)", x.FS("inactiveMembers"))
			})
			for _, f := range []string{"inReceivership", "inTransition", "unassigned", "assigned", "activeMembers", "inactiveMembers", "preparing", "ready", "members"} {
				r.Every(g, "the state has another "+f, kind(KReturn), 1, func(n *Node) bool { return c.is(n.E.A[0].F(f), f) })
			}
			// the sets of a member are its own
			for _, f := range []string{"assignments", "donatable", "donating"} {
				r.Every(g, "the partitions of a member are kept together with those of others: "+f, c.mp(KMapSet, "members", "*"), 1, func(n *Node) bool {
					x := n.E.V.F(f)
					return x != nil && globs("call:btree.NewOrderedG(*) || call:btree.NewG(*", x.String()) && !c.is(x, "inReceivership") && !c.is(x, "inTransition")
				})
			}
			r.Every(g, "a member is put into another status than the one it reported", store("IncrGroupMemberMeta.Status"), 0, func(n *Node) bool { return n.E.V.String() == "0" })
			// claims are looked for until the topic is found
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if cc, more, ok := loopBranch(n); ok && cc == "each:1($0).OwnedPartitions" {
					if more {
						return "L", ""
					}
					return "", ""
				}
				if s == "" {
					return s, ""
				}
				if n.E.K == KBranch {
					if ok, neg := topic[0].M(n.E.X); ok && n.E.Val != neg {
						return "", ""
					}
				}
				if me(n) || n.E.Fr != nil && n.E.K == KReturn {
					return s, "the claims of a member for the topic are not looked at"
				}
				return s, ""
			})
			lessOrder(r, "incrGroupActiveLess", "call:btree.BTreeG.Len($0.donatable)+call:btree.BTreeG.Len($0.donating)+len($0.meta.Preparing)+len($0.meta.Ready)", "call:btree.BTreeG.Len($0.donatable)+call:btree.BTreeG.Len($0.donating)", "member.MemberID")
		})

	rule("plan.moves", "C18 C19",
		"unassigned partitions go to active members, a move takes the partition from its donor first and gives it to a member ready for it, members change their place in the order only while taken out, the budget bounds what is moved, leaving members donate first",
		func(r *R) {
			g := r.gn("groupState.balance", false, quiet, "withoutPartition", "randomPartition", "incrGroupMember.String")
			c := fieldColls(g)
			un := "key($0.unassigned)"
			give := c.set("ReplaceOrInsert", "assignments", "*")
			takeOff := c.set("Delete", "assignments", "*")
			active := "$0.activeMembers"
			// every unassigned partition is given to exactly one member
			r.ForEachIf(g, "an unassigned partition is not given to exactly one member", "$0.unassigned", c.set("ReplaceOrInsert", "assignments", un), 1, 1)
			lu := r.Loop(g, "LU", "$0.unassigned", c.set("ReplaceOrInsert", "assignments", un), 1, 1, 1)
			ready := func(n *Node) (string, string, bool) { // member, partition for which n shows it to be ready or preparing
				x := n.E.X
				if n.E.K != KBranch || !n.E.Val || x.Op != "eq" || len(x.A) != 2 {
					return "", "", false
				}
				for i := range x.A {
					e := x.A[i].String()
					for _, f := range []string{".meta.Ready)", ".meta.Preparing)"} {
						if strings.HasPrefix(e, "elem(") && strings.HasSuffix(e, f) && x.A[1-i].FS("Topic") == "$0.topic" {
							return strings.TrimSuffix(strings.TrimPrefix(e, "elem("), f) + map[bool]string{true: "/ready"}[f[6] == 'R'], x.A[1-i].FS("Partition"), true
						}
					}
				}
				return "", "", false
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if branch("call:btree.BTreeG.Len($0.activeMembers)<1 || call:btree.BTreeG.Len($0.activeMembers)==0", true)(n) {
					s = s.add("none")
				}
				s = lu.step(s, n)
				if cc, _, ok := loopBranch(n); ok && (cc == "$0.unassigned" || cc == "$0.ready" || strings.HasPrefix(cc, "make:map[int32]")) {
					s = s.set("ready", "").set("for", "").set("taken", "")
				}
				if m, p, ok := ready(n); ok {
					return s.set("ready", m).set("for", p), ""
				}
				if st, m, p, ok := sameFields(s, n); ok {
					m = strings.TrimPrefix(m, "elem(")
					return st.set("ready", strings.TrimSuffix(strings.TrimSuffix(m, ".meta.Ready)"), ".meta.Preparing)")+map[bool]string{true: "/ready"}[strings.HasSuffix(m, ".meta.Ready)")]).set("for", p), ""
				} else if st != s {
					s = st
				}
				if branch("each:0($0.activeMembers)==nil", true)(n) {
					return dead, "" // the members of the group exist
				}
				if e.K == KMapSet && strings.HasPrefix(e.X.String(), "make:map[int32]") {
					if e.V.String() != "elem($0.ready)" || e.A[0].String() != "key($0.ready).Partition" {
						return s, "a partition is moved to another member than the one which is ready for it"
					}
					if s.get("ready") != "elem($0.ready)/ready" || s.get("for") != "key($0.ready).Partition" {
						return s, "a partition is moved to a member which is not ready for it"
					}
				}
				if call("btree.BTreeG.Min", active)(n) {
					return s.add("least"), ""
				}
				if takeOff(n) {
					p := arg(n, 1)
					if ownerOf(e.A[0], "assignments") != "$0.assigned["+p+"]" {
						return s, "a partition is taken from another member than its owner"
					}
					return s.set("taken", p), ""
				}
				if give(n) {
					p, m := arg(n, 1), ownerOf(e.A[0], "assignments")
					switch {
					case p == un:
						if s.get("ready") != "" && s.get("for") == un {
							if m != strings.TrimSuffix(s.get("ready"), "/ready") {
								return s, "an unassigned partition is not given to the member which prepares for it"
							}
						} else if m != "call:btree.BTreeG.Min("+active+")#0" || !s.has("least") {
							return s, "an unassigned partition is given to a member which is neither preferred nor the least loaded active one"
						}
						if !strings.Contains(m, active) {
							return s, "an unassigned partition is given to a member which is not active"
						}
					case p == "key($0.ready).Partition":
						if m != "elem($0.ready)" || s.get("ready") != "elem($0.ready)/ready" || s.get("for") != p {
							return s, "a partition is moved to a member which is not ready for it"
						}
						if s.get("taken") != p {
							return s, "a partition is given away before it is taken from its owner"
						}
					case p == "key(make:map[int32]incrGroupMember)":
						if coll := strings.TrimSuffix(strings.TrimPrefix(p, "key("), ")"); m != "elem("+coll+")" && m != coll+"["+p+"]" {
							return s, "a partition is moved to a member which is not ready for it"
						}
						if s.get("taken") != p {
							return s, "a partition is given away before it is taken from its owner"
						}
					default:
						return s, "a partition is moved which is neither unassigned nor ready to be moved"
					}
					return s.set("taken", "").del("least"), ""
				}
				if _, _, ok := loopBranch(n); (ok || e.K == KReturn) && s.get("taken") != "" && n.E.Fr != nil && n.E.K == KReturn {
					return s, "a partition is taken from its owner and not given to another member"
				}
				if e.K == KReturn && !s.has("none") && s.get("LU") != "done" {
					return s, "unassigned partitions remain unassigned"
				}
				return s, ""
			})
			r.need(sites(g.Find(give)), 1, "assignment of partitions")
			r.need(sites(g.Find(takeOff)), 1, "surrender of partitions")
			r.insts += 5
			r.Follow(g, "a partition is taken from its owner and not given to another member", takeOff, give, nil)
			known := []Atom{at("owned", "has($0.assigned,key(*))", "!$0.assigned[key(*)]==nil")}
			for _, coll := range []string{"make:map[int32]*"} {
				s, e := loopSpan(coll)
				r.Guard(g, "moving a partition only from its owner", s, or(takeOff, give), e, known, func(v V) int { return b2m(v["owned"]) })
			}
			// the order of the members
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if e.K == KCall && (e.Name == "btree.BTreeG.Delete" || e.Name == "btree.BTreeG.ReplaceOrInsert") && arg(n, 0) == active {
					if e.Name == "btree.BTreeG.Delete" {
						return s.set("out", squash(arg(n, 1))), ""
					}
					if s.get("out") != squash(arg(n, 1)) {
						return s, "a member is put back which was not taken out"
					}
					return s.set("out", ""), ""
				}
				m := ""
				for _, f := range []string{"assignments", "donatable", "donating"} {
					if c.set("ReplaceOrInsert", f, "*")(n) {
						m = ownerOf(e.A[0], f)
						if f == "donating" && strings.HasPrefix(m, "$0.assigned[") {
							m = "" // the partition leaves donatable at the same time
						}
					}
				}
				if e.K == KStore && globs("incrGroupMember.meta* || IncrGroupMemberMeta.*", e.Field) {
					m = e.R.String()
					m = m[:strings.Index(m+".meta", ".meta")]
				}
				if m != "" && s.get("out") != squash(m) {
					return s, "a member changes its place in the order without being taken out"
				}
				if (e.K == KReturn || give(n) && s.get("out") == "") && s.get("out") != "" {
					return s, "a member is taken out and not put back"
				}
				return s, ""
			})
			r.insts++
			r.Every(g, "a partition leaves the donatable ones of its owner only", c.set("Delete", "donatable", "*"), 0, func(n *Node) bool {
				return ownerOf(n.E.A[0], "donatable") == "$0.assigned["+arg(n, 1)+"]"
			})
			// in motion
			inMotion := or(c.set("ReplaceOrInsert", "inReceivership", "*"), c.set("ReplaceOrInsert", "inTransition", "*"))
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if give(n) {
					if s.get("p") != "" {
						return s, "a given partition does not count as in motion"
					}
					if s.get("m") == squash(arg(n, 1)) {
						return s.set("m", ""), ""
					}
					return s.set("p", squash(arg(n, 1))), ""
				}
				if inMotion(n) {
					if s.get("p") == squash(arg(n, 1)) {
						return s.set("p", ""), ""
					}
					return s, ""
				}
				if cc, _, ok := loopBranch(n); ok && s.get("p") != "" && (cc == "$0.unassigned" || cc == "$0.ready" || strings.HasPrefix(cc, "make:map[int32]")) {
					return s, "a given partition does not count as in motion"
				}
				return s, ""
			})
			r.insts++
			// scheduled moves
			instruct := func(n *Node) bool {
				return n.E.K == KStore && strings.HasSuffix(n.E.R.String(), ".instructions.Prepare") && !strings.HasPrefix(n.E.V.String(), "call:withoutPartition(")
			}
			budget := "$1-call:btree.BTreeG.Len($0.inReceivership)-call:btree.BTreeG.Len($0.inTransition)"
			rest := func(x *X) bool { // the remaining budget
				v := x.String()
				for strings.HasPrefix(v, "mu(") {
					v = v[3:]
				}
				return strings.HasPrefix(v, budget+";") || strings.HasPrefix(v, "$1-call:btree.BTreeG.Len($0.inReceivership);") || v == budget
			}
			spend := func(n *Node) (bool, bool) { // branch on the budget; some of it is left
				x := n.E.X
				if n.E.K != KBranch || x.Op != "lt" && x.Op != "eq" {
					return false, false
				}
				if x.Op == "lt" && rest(x.A[0]) && x.A[1].String() == "1" {
					return true, !n.E.Val
				}
				return false, false
			}
			from := func(n *Node) (p, donor string) {
				l := n.E.V
				if l.Op != "append" || len(l.A) != 2 || l.A[0].String() != n.E.R.String() {
					return "", ""
				}
				if l.A[1].FS("Topic") != "$0.topic" {
					return "", ""
				}
				p = l.A[1].FS("Partition")
				switch {
				case strings.HasPrefix(p, "call:randomPartition("):
					return p, strings.TrimSuffix(strings.TrimPrefix(p, "call:randomPartition("), ")")
				case strings.HasPrefix(p, "each:0(") && strings.HasSuffix(p, ".donatable)"):
					return p, strings.TrimSuffix(strings.TrimPrefix(p, "each:0("), ".donatable)")
				}
				return "", ""
			}
			leaver, top := "each:0($0.inactiveMembers)", "call:btree.BTreeG.Max("+active+")#0"
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if ok, left := spend(n); ok {
					s = s.del("left").del("has")
					if left {
						s = s.add("left")
					}
					return s, ""
				}
				if branch("call:btree.BTreeG.Len($0.inactiveMembers)<1", true)(n) || branch("iter:(call:btree.BTreeG.Ascend($0.inactiveMembers,*", false)(n) {
					s = s.add("leavers")
				}
				if n.E.K == KCall && n.E.Name == "btree.BTreeG.Descend" && arg(n, 0) == "$0.inactiveMembers" {
					return s, "the member which left last is drained first"
				}
				if n.E.K == KBranch && !n.E.Val && globs("call:btree.BTreeG.Len(*.donatable)<1 || call:btree.BTreeG.Len(*.donatable)<2 || call:btree.BTreeG.Len(*.donatable)==0", n.E.X.String()) {
					x := n.E.X.String()
					x = x[len("call:btree.BTreeG.Len("):strings.LastIndex(x, ".donatable)")]
					return s.set("can", squash(x)), ""
				}
				if branch("call:btree.BTreeG.Len($0.activeMembers)<2", false)(n) || branch("call:btree.BTreeG.Len($0.activeMembers)==1", false)(n) {
					return s.add("two"), ""
				}
				if instruct(n) {
					p, d := from(n)
					if p == "" {
						return s, "a member is told to prepare for a partition which is not donated"
					}
					m := strings.TrimSuffix(n.E.R.String(), ".instructions.Prepare")
					if !globs("call:btree.BTreeG.Min("+active+")#0", m) {
						return s, "a member which is not the least loaded active one receives a partition"
					}
					if !s.has("left") {
						return s, "a partition is moved although no more may be"
					}
					if s.has("has") {
						return s, "more partitions are moved than may be"
					}
					if s.get("can") != squash(d) {
						return s, "a member without partitions donates one"
					}
					switch d {
					case leaver:
						if s.has("balanced") {
							return s, "an active member donates before the leaving ones"
						}
					case top:
						if !s.has("two") {
							return s, "a partition is moved to its owner"
						}
						s = s.add("balanced")
					default:
						return s, "a partition is donated by a member which is neither leaving nor the most loaded one"
					}
					return s.add("has"), ""
				}
				return s, ""
			})
			r.need(sites(g.Find(instruct)), 1, "instruction to prepare")
			r.insts += 4
			nb := 0
			for _, n := range g.Nodes {
				if ok, _ := spend(n); ok {
					nb++
				}
			}
			r.need(nb, 1, "branches on the budget")
			spends(r, g, spend, instruct)
			// skipping a leaving member only when it has nothing to give
			rp := r.gs("randomPartition")
			r.Every(rp, "another partition is donated", kind(KReturn), 1, func(n *Node) bool {
				return globs("each:0($0.donatable) || 0", n.E.A[0].String())
			})
			r.need(len(rp.Find(func(n *Node) bool { return n.E.K == KReturn && n.E.A[0].String() == "each:0($0.donatable)" })), 1, "a donated partition")
			w := r.gs("withoutPartition")
			ws, we := loopSpan("$0")
			r.Guard(w, "keeping another partition", ws, func(n *Node) bool {
				return n.E.K == KCall && n.E.Name == "builtin.append" && arg(n, 1) == "[elem($0)]"
			}, we, []Atom{at("same", "elem($0).Partition-$1==0", "$1-elem($0).Partition==0")}, func(v V) int { return b2m(!v["same"]) })
		})

	rule("plan.sync", "C18 C20",
		"every member of the plan is sent exactly its partitions and its instructions",
		func(r *R) {
			g := r.gs("planWrapper.IntoSyncAssignment")
			el := "elem($0.plan)"
			out := func(n *Node) bool {
				return n.E.K == KCall && n.E.Name == "builtin.append" && len(n.E.A) == 2 && n.E.A[1].Op == "list" && n.E.A[1].A[0].FS("MemberID") == "key($0.plan)"
			}
			r.ForEach(g, "a member is not sent its assignment", "$0.plan", out, 1, 1)
			topic := func(n *Node) bool {
				return n.E.K == KCall && n.E.Name == "builtin.append" && len(n.E.A) == 2 && n.E.A[1].Op == "list" && n.E.A[1].A[0].FS("Topic") == "key("+el+")" && n.E.A[1].A[0].FS("Partitions") == "elem("+el+")"
			}
			r.ForEach(g, "a topic of an assignment is lost", el, topic, 1, 1)
			lt := r.Loop(g, "LT", el, topic, 1, 1, 1)
			ms, _ := loopSpan("$0.plan")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if ms(n) {
					return "", ""
				}
				s = lt.step(s, n)
				if n.E.K == KStore && strings.HasSuffix(n.E.Field, "ConsumerMemberAssignment.UserData") {
					if n.E.V.String() != "call:jsoniter.API.Marshal(json,$0.instructions[key($0.plan)])#0" {
						return s, "a member is sent other instructions"
					}
					return s.add("instr"), ""
				}
				if n.E.K == KCall && strings.HasSuffix(n.E.Name, "ConsumerMemberAssignment.AppendTo") {
					if s.get("LT") != "done" {
						return s, "an assignment is sent before it is complete"
					}
					if !s.has("instr") {
						return s, "an assignment is sent without the instructions"
					}
					return s.add("made"), ""
				}
				if out(n) {
					if !s.has("made") || !globs("call:kmsg.ConsumerMemberAssignment.AppendTo(*,nil)", n.E.A[1].A[0].FS("MemberAssignment")) {
						return s, "a member is sent another assignment"
					}
				}
				return s, ""
			})
			r.insts++
			r.Every(g, "the assignments are not what is sent", kind(KReturn), 1, func(n *Node) bool {
				return globs("nil || make:*(0* || acc:* || mu(nil*append(@* || mu(make:*(0*append(@* || append(*", n.E.A[0].String())
			})
			r.Every(g, "the assignments start with one for nobody", kind(KCall), 1, func(n *Node) bool {
				return n.E.Name != "builtin.append" || !out(n) || globs("nil || make:*(0* || acc:* || mu(nil* || mu(make:*(0* || append(*", arg(n, 0))
			})
		})
}

// sameFields follows the comparison of an element of meta.Ready or meta.Preparing with a
// partition of the topic, field by field; ok when both fields are known to be the same.
func sameFields(s St, n *Node) (st St, elem, part string, ok bool) {
	if c, _, is := loopBranch(n); is && globs("*.meta.Ready || *.meta.Preparing", c) {
		return s.set("fp", "").set("ft", ""), "", "", false
	}
	x := n.E.X
	if n.E.K != KBranch || !n.E.Val || x.Op != "eq" {
		return s, "", "", false
	}
	list := func(e string) bool { return strings.HasPrefix(e, "elem(") && globs("*.meta.Ready) || *.meta.Preparing)", e) }
	if len(x.A) == 2 && x.A[1].String() == "0" {
		t := strings.TrimSuffix(x.String(), "==0")
		if i := strings.LastIndex(t, "-elem("); i > 0 && strings.HasSuffix(t, ".Partition") && list(strings.TrimSuffix(t[i+1:], ".Partition")) {
			elem, part = strings.TrimSuffix(t[i+1:], ".Partition"), t[:i]
		} else if i := strings.Index(t, ".Partition-"); i > 0 && list(t[:i]) {
			elem, part = t[:i], t[i+len(".Partition-"):]
		}
		if elem != "" {
			s = s.set("fp", squash(elem)+"|"+squash(part))
		}
	} else {
		for i := range x.A {
			if e := strings.TrimSuffix(x.A[i].String(), ".Topic"); len(x.A) == 2 && list(e) && e != x.A[i].String() && x.A[1-i].String() == "$0.topic" {
				s, elem = s.set("ft", squash(e)), e
				if f := s.get("fp"); strings.HasPrefix(f, squash(e)+"|") {
					part = f[len(squash(e))+1:]
				}
			}
		}
	}
	return s, elem, part, elem != "" && part != "" && s.get("ft") == squash(elem) && strings.HasPrefix(s.get("fp"), squash(elem)+"|")
}

// squash: an expression as one token.
func squash(x string) string { return strings.ReplaceAll(x, " ", "_") }

// inBlocks: the event happens in (a call made in) one of the blocks of the frame.
func inBlocks(m *Node, fr *Frame, blocks map[int]bool) bool {
	ins := m.E.Ins
	for f := m.E.Fr; f != nil && ins != nil; f = f.parent {
		if f == fr {
			return blocks[ins.Block().Index]
		}
		ins = f.site
	}
	return false
}

// spends: in the loops guarded by the budget, an iteration which does ev spends one unit.
func spends(r *R, g *Graph, spend func(n *Node) (bool, bool), ev Pred) {
	type loop struct {
		phi *ssa.Phi
		fr  *Frame
	}
	seen := map[loop]bool{}
	for _, n := range g.Nodes {
		if ok, _ := spend(n); !ok {
			continue
		}
		iff, ok := n.E.Ins.(*ssa.If)
		if !ok {
			r.failN(g, n, "the budget is not decided by a branch", nil)
			continue
		}
		b, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			r.failN(g, n, "the budget is not decided by a comparison", nil)
			continue
		}
		var phi *ssa.Phi
		for _, v := range []ssa.Value{b.X, b.Y} {
			if p, ok := v.(*ssa.Phi); ok {
				phi = p
			}
		}
		if phi == nil {
			r.failN(g, n, "the budget is never spent", nil)
			continue
		}
		l := loop{phi, n.E.Fr}
		for _, body := range r.p.Info(n.E.Fr.fn).loopOf {
			if body[iff.Block().Index] && !body[phi.Block().Index] {
				for _, m := range g.Nodes {
					if ev(m) && inBlocks(m, n.E.Fr, body) {
						r.failN(g, n, "the budget is never spent", nil)
						break
					}
				}
			}
		}
		if seen[l] {
			continue
		}
		seen[l] = true
		r.insts++
		hdr := phi.Block()
		// the blocks of the iteration which (may) schedule a move
		evs := map[*ssa.BasicBlock]bool{}
		for _, m := range g.Nodes {
			if !ev(m) {
				continue
			}
			ins := m.E.Ins
			for f := m.E.Fr; f != nil && ins != nil; f = f.parent {
				if f == l.fr {
					evs[ins.Block()] = true
					break
				}
				ins = f.site
			}
		}
		reach := func(from, to *ssa.BasicBlock) bool { // within one iteration
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock) bool
			walk = func(b *ssa.BasicBlock) bool {
				if b == to {
					return true
				}
				if seen[b] {
					return false
				}
				seen[b] = true
				for _, s := range b.Succs {
					if s != hdr && walk(s) {
						return true
					}
				}
				return false
			}
			return walk(from)
		}
		var leaf func(v ssa.Value, at *ssa.BasicBlock, depth int)
		leaf = func(v ssa.Value, at *ssa.BasicBlock, depth int) {
			if p, ok := v.(*ssa.Phi); ok && p != phi && depth < 9 && hdr.Dominates(p.Block()) {
				for i, e := range p.Edges {
					leaf(e, p.Block().Preds[i], depth+1)
				}
				return
			}
			if v == ssa.Value(phi) {
				for b := range evs {
					if hdr.Dominates(b) && reach(b, at) {
						r.fail(b.Instrs[0].Pos(), r.p.Name(b.Parent()), "a partition is moved without reducing what may be moved", nil)
					}
				}
				return
			}
			if s, ok := v.(*ssa.BinOp); ok && s.Op.String() == "-" && s.X == ssa.Value(phi) {
				return
			}
			if s, ok := v.(*ssa.BinOp); ok && s.Op.String() == "+" && s.X == ssa.Value(phi) {
				if c, ok := s.Y.(*ssa.Const); ok && c.Int64() < 0 {
					return
				}
			}
			r.fail(v.Pos(), r.p.Name(at.Parent()), "what may be moved is set anew while partitions are moved", nil)
		}
		for i, e := range phi.Edges {
			if hdr.Dominates(hdr.Preds[i]) {
				leaf(e, hdr.Preds[i], 0)
			}
		}
	}
}
