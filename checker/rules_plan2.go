package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nth checks functions which find the i-th element of an iteration with a
// counter: the counter starts at 0, is increased once per element which is not
// the one, and the iteration ends with the element.
func nth(r *R, name string) {
	f := r.fn(name)
	intConst := func(v ssa.Value, n int64) bool {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return false
		}
		i, _ := constant.Int64Val(c.Value)
		return i == n
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			cl := mc.Fn.(*ssa.Function)
			cell := func(v ssa.Value) *ssa.FreeVar { // the captured variable v was read from
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fv, ok := u.X.(*ssa.FreeVar); ok {
						return fv
					}
				}
				if fv, ok := v.(*ssa.FreeVar); ok {
					return fv
				}
				return nil
			}
			outer := func(fv *ssa.FreeVar) ssa.Value {
				for i, x := range cl.FreeVars {
					if x == fv {
						return mc.Bindings[i]
					}
				}
				return nil
			}
			storesIn := func(fn *ssa.Function, addr ssa.Value) []*ssa.Store {
				var out []*ssa.Store
				for _, b := range fn.Blocks {
					for _, i := range b.Instrs {
						if s, ok := i.(*ssa.Store); ok && s.Addr == addr {
							out = append(out, s)
						}
					}
				}
				return out
			}
			for _, cb := range cl.Blocks {
				iff, ok := cb.Instrs[len(cb.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				cmp, ok := iff.Cond.(*ssa.BinOp)
				if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
					continue
				}
				x, y := cell(cmp.X), cell(cmp.Y)
				if x == nil || y == nil {
					continue
				}
				r.insts++
				bad := func(m string) { r.fail(cmp.Pos(), r.p.Name(f), m, nil) }
				ctr, idx := x, y
				if len(storesIn(cl, ctr)) == 0 {
					ctr, idx = y, x
				}
				if x == y || len(storesIn(cl, idx)) > 0 {
					bad("the position which is looked for changes while it is looked for")
					continue
				}
				ss := storesIn(cl, ctr)
				if len(ss) != 1 {
					bad("the elements which were passed are not counted")
					continue
				}
				add, ok := ss[0].Val.(*ssa.BinOp)
				if !ok || add.Op != token.ADD || cell(add.X) != ctr || !intConst(add.Y, 1) {
					bad("the elements which were passed are not counted one by one")
					continue
				}
				for _, s := range storesIn(f, outer(ctr)) {
					if !intConst(s.Val, 0) {
						bad("the elements are not counted from the first one")
					}
				}
				eq, ne := cb.Succs[0], cb.Succs[1]
				if cmp.Op == token.NEQ {
					eq, ne = ne, eq
				}
				goesOn := func(b *ssa.BasicBlock) (string, bool) { // what the iteration is told, and whether it is counted
					counted := false
					for i := 0; i < 6; i++ {
						for _, in := range b.Instrs {
							switch in := in.(type) {
							case *ssa.Store:
								if in == ss[0] {
									counted = true
								}
							case *ssa.Return:
								if c, ok := in.Results[0].(*ssa.Const); ok && c.Value != nil {
									return c.Value.String(), counted
								}
								return "?", counted
							}
						}
						if len(b.Succs) != 1 {
							break
						}
						b = b.Succs[0]
					}
					return "?", counted
				}
				if v, c := goesOn(eq); v != "false" && v != "?" || c && v != "?" {
					bad("the iteration does not end with the element which was looked for")
				}
				if v, c := goesOn(ne); v != "true" && v != "?" || !c && v != "?" {
					bad("the iteration ends with an element which was not looked for, or does not count it")
				}
			}
		}
	}
}

func init() {
	rule("plan.complete", "C18 C19",
		"a partition whose new owner is ready is moved, an unassigned one goes to a member preparing for it, and a move is scheduled as long as one may be made and a leaving member has partitions or the loads differ too much",
		func(r *R) {
			active, inactive := "$0.activeMembers", "$0.inactiveMembers"
			g := r.gn("groupState.balance", false, "groupState.printGroupState", "withoutPartition", "randomPartition", "incrGroupMember.String")
			c := fieldColls(g)
			un := "key($0.unassigned)"
			give := c.set("ReplaceOrInsert", "assignments", "*")
			takeOff := c.set("Delete", "assignments", "*")
			ready := func(n *Node) (m, p string, ok bool) {
				x := n.E.X
				if n.E.K != KBranch || !n.E.Val || x.Op != "eq" || len(x.A) != 2 {
					return
				}
				for i := range x.A {
					e := x.A[i].String()
					if strings.HasPrefix(e, "elem(") && globs("*.meta.Ready) || *.meta.Preparing)", e) && x.A[1-i].FS("Topic") == "$0.topic" {
						return e, x.A[1-i].FS("Partition"), true
					}
				}
				return
			}

			// moves which were prepared are made
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if cc, more, ok := loopBranch(n); ok && cc == "$0.ready" {
					if s.has("ready") && !s.has("done") {
						return s, "a partition whose new owner is ready for it is not moved"
					}
					s = s.del("ready").del("done")
					if !more {
						s = s.add("all")
					}
					return s, ""
				}
				m, p, ok := ready(n)
				if !ok {
					s, m, p, ok = sameFields(s, n)
				}
				if ok && m == "elem(elem($0.ready).meta.Ready)" && p == "key($0.ready).Partition" {
					return s.add("ready"), ""
				}
				if e.K == KBranch && globs("has($0.assigned,key($0.ready).Partition)", e.X.String()) && !e.Val {
					return s.add("done"), ""
				}
				if e.K == KMapSet && strings.HasPrefix(e.X.String(), "make:map[int32]") && e.V.String() == "elem($0.ready)" {
					return s.add("done").add("map"), ""
				}
				if give(n) && arg(n, 1) == "key($0.ready).Partition" {
					return s.add("done"), ""
				}
				if cc, more, ok := loopBranch(n); ok && strings.HasPrefix(cc, "make:map[int32]") {
					if !s.has("all") {
						return s, "partitions are moved before every member which is ready is known"
					}
					if !more {
						s = s.add("made")
					}
				}
				if e.K == KReturn && (!s.has("all") || s.has("map") && !s.has("made")) {
					return s, "a partition whose new owner is ready for it is not moved"
				}
				return s, ""
			})
			r.insts++

			// what a donor loses
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if takeOff(n) {
					if s.get("m") != "" {
						return s, "a partition remains counted to its previous owner"
					}
					return s.set("m", squash(ownerOf(e.A[0], "assignments"))).set("p", squash(arg(n, 1))).del("d").del("i"), ""
				}
				if s.get("m") == "" {
					return s, ""
				}
				for f, t := range map[string]string{"donatable": "d", "donating": "i"} {
					op := map[string]string{"d": "Delete", "i": "ReplaceOrInsert"}[t]
					if c.set(op, f, "*")(n) && squash(ownerOf(e.A[0], f)) == s.get("m") && squash(arg(n, 1)) == s.get("p") {
						s = s.add(t)
					}
				}
				if give(n) || e.K == KReturn {
					if !s.has("d") {
						return s, "a partition which was taken from a member may be donated by it again"
					}
					if !s.has("i") {
						return s, "the load of a member changes without it being sorted again"
					}
					return s.set("m", "").set("p", "").del("d").del("i"), ""
				}
				return s, ""
			})
			r.insts++
			counted := c.set("ReplaceOrInsert", "donatable", "*")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if cc, _, ok := loopBranch(n); ok && (cc == "$0.unassigned" || cc == "$0.ready" || strings.HasPrefix(cc, "make:map[int32]")) || e.K == KReturn {
					if s.get("g") != "" {
						return s, "a given partition is not counted to its new owner"
					}
					return s.set("c", ""), ""
				}
				if give(n) {
					id := squash(ownerOf(e.A[0], "assignments") + "/" + arg(n, 1))
					if s.get("c") == id {
						return s.set("c", ""), ""
					}
					return s.set("g", id), ""
				}
				if counted(n) {
					id := squash(ownerOf(e.A[0], "donatable") + "/" + arg(n, 1))
					if s.get("g") == id {
						return s.set("g", ""), ""
					}
					return s.set("c", id), ""
				}
				return s, ""
			})
			r.insts++
			r.Every(g, "another partition is counted to a new owner", c.set("ReplaceOrInsert", "donatable", "*"), 1, func(n *Node) bool {
				return globs(un+" || key($0.ready).Partition || key(make:map[int32]*)", arg(n, 1))
			})

			// preference for members which prepare
			cand := "each:0(" + active + ").meta."
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if cc, more, ok := loopBranch(n); ok {
					switch {
					case cc == "$0.unassigned":
						s = s.del("looked").del("u").del("c").del("r").del("p")
						if more {
							s = s.add("u")
						}
					case !s.has("u"):
					case globs(each(active), cc):
						if s.has("c") && !(s.has("r") && s.has("p")) {
							return s, "an unassigned partition is given away without looking whether a member is preparing for it, and whether it is ready"
						}
						s = s.del("c").del("r").del("p")
						if more {
							s = s.add("c")
						} else {
							s = s.add("looked")
						}
					case cc == cand+"Ready" && !more:
						s = s.add("r")
					case cc == cand+"Preparing" && !more:
						s = s.add("p")
					}
				}
				_, p, ok := ready(n)
				if !ok {
					s, _, p, ok = sameFields(s, n)
				}
				if ok && p == un {
					s = s.add("looked").del("c")
				}
				if give(n) && arg(n, 1) == un && !s.has("looked") {
					return s, "an unassigned partition is given away without looking for a member which prepares for it"
				}
				return s, ""
			})
			r.insts++

			// members are only put into the set they belong to
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if e.K == KBranch && globs("call:btree.BTreeG.Delete("+active+",*)#1", e.X.String()) {
					if !e.Val {
						return s.set("out", ""), ""
					}
					return s.add("was"), ""
				}
				if e.K == KBranch && e.X.Op == "eq" && globs("call:btree.BTreeG.Delete("+active+",*)#0==nil", e.X.String()) {
					if e.Val {
						return s.set("out", ""), ""
					}
					return s.add("was"), ""
				}
				if e.K != KCall {
					if e.K == KReturn && s.get("out") != "" {
						return s, "a member is taken out and not put back"
					}
					return s, ""
				}
				if globs("btree.BTreeG.Max || btree.BTreeG.Min || btree.BTreeG.Ascend || btree.BTreeG.Descend || btree.BTreeG.Len", e.Name) && arg(n, 0) == active && s.get("out") != "" {
					return s, "the members are looked at while one of them is taken out"
				}
				switch {
				case globs("btree.BTreeG.ReplaceOrInsert || btree.BTreeG.Delete || btree.BTreeG.DeleteMin || btree.BTreeG.DeleteMax", e.Name) && arg(n, 0) == inactive:
					return s, "the leaving members change while partitions are moved"
				case e.Name == "btree.BTreeG.Delete" && arg(n, 0) == active:
					if s.get("out") != "" {
						return s, "a member is taken out and not put back"
					}
					return s.set("out", squash(arg(n, 1))).del("was"), ""
				case e.Name == "btree.BTreeG.ReplaceOrInsert" && arg(n, 0) == active:
					if strings.Contains(arg(n, 1), inactive) && !s.has("was") {
						return s, "a leaving member becomes an active one"
					}
					return s.set("out", "").del("was"), ""
				}
				return s, ""
			})
			r.insts++

			// moves are scheduled as long as they may be
			sum := func(m string) string {
				return "-call:btree.BTreeG.Len(" + m + ".donatable)-call:btree.BTreeG.Len(" + m + ".donating)-len(" + m + ".meta.Preparing)-len(" + m + ".meta.Ready)"
			}
			lo, hi := "call:btree.BTreeG.Min("+active+")#0", "call:btree.BTreeG.Max("+active+")#0"
			target := "($0.partitionCount/call:btree.BTreeG.Len(" + active + "))"
			lessX, moreX := target+sum(lo)+"<1", target+sum(hi)+"<-1"
			instruct := func(n *Node) bool {
				return n.E.K == KStore && strings.HasSuffix(n.E.R.String(), ".instructions.Prepare") && !strings.HasPrefix(n.E.V.String(), "call:withoutPartition(")
			}
			budget := "$1-call:btree.BTreeG.Len($0.inReceivership)"
			spend := func(n *Node) (bool, bool) {
				x := n.E.X
				if n.E.K != KBranch || x.Op != "lt" || x.A[1].String() != "1" {
					return false, false
				}
				v := x.A[0].String()
				for strings.HasPrefix(v, "mu(") {
					v = v[3:]
				}
				if !strings.HasPrefix(v, budget) {
					return false, false
				}
				return true, !n.E.Val
			}
			balanced := func(s St) bool {
				return s.has("single") || s.has("nocan") || s.get("less") == "0" && s.get("more") == "0"
			}
			nl := 0
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				if ok, left := spend(n); ok {
					at := fmt.Sprintf("%p", n.E.Ins)
					if s.has("iter") && !s.has("moved") && !s.has("skip") {
						if s.get("at") == at {
							return s, "looking for something to move goes on without an end, or skips a leaving member which has partitions"
						}
						if !s.has("leavers") {
							return s, "a leaving member which has partitions is skipped"
						}
					}
					s = s.set("at", at)
					s = s.del("iter").del("moved").del("skip").del("single").del("nocan").set("less", "").set("more", "")
					if left {
						s = s.add("iter")
					} else {
						s = s.add("broke")
					}
					return s, ""
				}
				if e.K == KBranch {
					x := e.X.String()
					switch {
					case globs("call:btree.BTreeG.Len("+active+")<1 || call:btree.BTreeG.Len("+active+")==0", x) && e.Val:
						s = s.add("noactive")
					case globs("call:btree.BTreeG.Len("+inactive+")<1 || call:btree.BTreeG.Len("+inactive+")==0", x) && e.Val:
						s = s.add("leavers")
					case globs("iter:(call:btree.BTreeG.Ascend("+inactive+",*", x) && !e.Val:
						s = s.add("leavers")
					case globs("call:btree.BTreeG.Len(each:0("+inactive+").donatable)<1 || call:btree.BTreeG.Len(each:0("+inactive+").donatable)==0", x) && e.Val:
						s = s.add("skip")
					case globs("call:btree.BTreeG.Len("+active+")<2 || call:btree.BTreeG.Len("+active+")==1", x) && e.Val:
						s = s.add("single")
					case x == "call:btree.BTreeG.Len("+hi+".donatable)<2" && e.Val:
						s = s.add("nocan")
					case x == lessX:
						nl++
						s = s.set("less", b01(!e.Val))
					case x == moreX:
						nl++
						s = s.set("more", b01(e.Val))
					}
				}
				if instruct(n) {
					if s.has("iter") && strings.Contains(e.V.String(), hi) && s.get("less") != "1" && s.get("more") != "1" {
						return s, "a partition is moved between members although their loads are even"
					}
					return s.add("moved"), ""
				}
				if e.K == KReturn && !s.has("noactive") && !s.has("broke") {
					if !s.has("leavers") {
						return s, "no move is scheduled although one may be made and the leaving members were not all looked at"
					}
					if !balanced(s) {
						return s, "no move is scheduled although one may be made and the loads are uneven"
					}
				}
				return s, ""
			})
			r.need(nl, 1, "comparisons of the loads")
			r.insts++

			// choosing
			if f := r.p.Funcs["memberAt"]; f != nil {
				nth(r, "memberAt")
				q := r.gn("groupState.balance", false, "groupState.printGroupState", "memberAt", "groupState.donatePartition", "groupState.distributeUnassigned", "groupState.deliverScheduledPartitionMoves", "incrGroupMember.String")
				r.Every(q, "the leaving members are not looked at one after the other", call("memberAt"), 1, func(n *Node) bool {
					return arg(n, 0) == inactive && globs("mu(0;@+1) || mu(0;@|@+1) || mu(0;@+1|@)", arg(n, 1))
				})
				at := r.gs("memberAt")
				r.need(len(at.Find(kind(KReturn))), 1, "results of memberAt")
				r.insts++
				r.Auto(at, "", func(s St, n *Node) (St, string) {
					if _, _, ok := loopBranch(n); !ok && n.E.K == KBranch {
						return s.set("cond", squash(n.E.X.String())).set("val", b01(n.E.Val)), ""
					}
					if n.E.K != KReturn {
						return s, ""
					}
					ok := n.E.A[1].String()
					if squash(ok) == s.get("cond") { // the condition which was just tested
						ok = map[string]string{"1": "true", "0": "false"}[s.get("val")]
					}
					if !(n.E.A[0].String() == "each:0($0)" && ok == "true" || n.E.A[0].isNil() && ok == "false") {
						return s, "a member is reported which was not found, or one which was found is not reported"
					}
					return s, ""
				})
			}
			nth(r, "randomPartition")
			r.Every(r.gs("randomPartition"), "the partition is not chosen among those which may be donated", call("rand.Intn || rand.Int31n || rand.Int63n"), 0, func(n *Node) bool {
				return globs("call:btree.BTreeG.Len($0.donatable)", arg(n, 0))
			})

			// lists
			w := r.gs("withoutPartition")
			r.Auto(w, "", func(s St, n *Node) (St, string) {
				if n.E.K == KCall && n.E.Name == "builtin.append" && arg(n, 1) == "[elem($0)]" {
					s = s.add("kept")
				}
				if n.E.K == KReturn {
					x := n.E.A[0].String()
					if s.has("kept") && !globs("mu(*append(@,* || acc:* || append(*", x) {
						return s, "the remaining partitions are not returned"
					}
					if !globs("nil || make:*(0* || mu(make:*(0*append(@,* || mu(nil*append(@,* || acc:* || append(*,[elem($0)]) || $0[:0]", x) {
						return s, "something else than the remaining partitions is returned"
					}
				}
				return s, ""
			})
			r.insts++
		})

	rule("plan.members", "C18 C19 C20",
		"what a member reports is read whenever it reports something, and what is recorded about a partition is recorded for the member which reported it",
		func(r *R) {
			g := r.gn("newGroupState", false, "groupState.printGroupState")
			c := fieldColls(g)
			members := "call:kgo.ConsumerBalancer.EachMember($0,*"
			ms, me := loopSpan(members)
			read := call("jsoniter.API.Unmarshal || json.Unmarshal")
			r.Guard(g, "reading what a member reports", ms, read, me, []Atom{at("none", "len(each:1($0).UserData)<1", "len(each:1($0).UserData)==0")}, func(v V) int {
				if v["none"] {
					return dontcare
				}
				return must
			})
			// the member being looked at
			id := map[string]bool{}
			for _, n := range g.Find(c.mp(KMapSet, "members", "*")) {
				id[identOf(n.E.V)] = true
				r.insts++
				v := n.E.V
				if v.FS("member") != "each:0($0)" {
					r.failN(g, n, "another member is recorded", nil)
				}
				if v.FS("topic") != "$2" && v.FS("topic") != "zero" {
					r.failN(g, n, "a member is recorded for another topic", nil)
				}
				for _, f := range []string{"assignments", "donatable", "donating"} {
					if x := v.FS(f); !strings.HasPrefix(x, "call:btree.New") {
						r.failN(g, n, "a member is recorded without its "+f, nil)
					}
				}
			}
			r.need(len(id), 1, "members")
			own := func(x *X) bool { return id[identOf(x)] || strings.HasPrefix(x.String(), "elem(") }
			r.Every(g, "a partition is recorded for another member than the one which claims it", or(c.mp(KMapSet, "assigned", "*"), c.mp(KMapSet, "preparing", "*"), c.mp(KMapSet, "ready", "*")), 1, func(n *Node) bool { return own(n.E.V) })
			for _, n := range g.Nodes {
				if n.E.K != KCall || n.E.Name != "btree.BTreeG.ReplaceOrInsert" || !globs("elem(elem(each:1($0).OwnedPartitions).Partitions)", arg(n, 1)) {
					continue
				}
				r.insts++
				if !c.is(n.E.A[0], "assignments") && !c.is(n.E.A[0], "donatable") || globs("*assigned[*", n.E.A[0].String()) {
					r.failN(g, n, "a partition is counted to another member than the one which claims it", nil)
				}
			}
			// the topic of the plan
			b := r.gn("incrementalBalanceController.Balance", false, "newGroupState", "groupState.balance", "groupState.printGroupState")
			uses := false
			for _, n := range b.Find(call("kgo.BalancePlan.AddPartitions")) {
				if strings.HasSuffix(arg(n, 2), ".topic") {
					uses = true
				}
			}
			if uses {
				for _, n := range g.Find(c.mp(KMapSet, "members", "*")) {
					if n.E.V.FS("topic") != "$2" {
						r.failN(g, n, "the member's topic, which is the topic of its plan, is another one", nil)
					}
				}
			}
		})
}
