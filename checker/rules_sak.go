package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var linIn = newInterner()

// linLE: l <= 0 follows from the constants or from one fact known at n.
func linLE(n *Node, l linear) bool {
	if len(l.t) == 0 {
		return l.c.Sign() <= 0
	}
	for f, val := range n.Facts {
		if f.Op != "lt" || len(f.A) != 2 || f.A[1].Int == nil {
			continue
		}
		// A < k: A - k + 1 <= 0; otherwise k - A <= 0
		a, k := linIn.toLin(f.A[0]), linIn.toLin(f.A[1])
		var h linear
		if val {
			h = a.add(k, -1)
			h.c.Add(h.c, big.NewInt(1))
		} else {
			h = k.add(a, -1)
		}
		d := l.add(h, -1)
		sum := map[string]int64{}
		for x, c := range d.t {
			if sum[x.String()] += c; sum[x.String()] == 0 {
				delete(sum, x.String())
			}
		}
		if len(sum) == 0 && d.c.Sign() <= 0 {
			return true
		}
	}
	return false
}

// below: a < b is known at n.
func below(n *Node, a, b *X) bool {
	l := linIn.toLin(a).add(linIn.toLin(b), -1)
	l.c.Add(l.c, big.NewInt(1))
	return linLE(n, l)
}

// atLeast: a >= k is known at n.
func atLeast(n *Node, a *X, k int64) bool {
	l := linear{t: map[*X]int64{}, c: big.NewInt(k)}
	return linLE(n, l.add(linIn.toLin(a), -1))
}

// fieldStore: a store to the field itself, not to an element of it.
func fieldStore(field string, val ...string) Pred {
	return and(store(field, val...), func(n *Node) bool { return n.E.R.Op == "field" })
}

// term finds the value which prints as s in the conditions of the graph.
func (g *Graph) term(s string) *X {
	var found *X
	for _, n := range g.Nodes {
		if n.E.K == KBranch && n.E.X.Any(func(x *X) bool {
			if x.String() == s {
				found = x
				return true
			}
			return false
		}) {
			return found
		}
	}
	return nil
}

func heapItem(n *Node) (string, bool) {
	if n.E.K == KStore && n.E.R.Op == "index" && n.E.R.A[0].FieldName() == "stores.MinMaxHeap.items" {
		return n.E.R.A[1].String(), true
	}
	return "", false
}

// loadedAfter: the base of the field address stored to by n is loaded after
// the store made by m, in the same function or on either side of a call.
func loadedAfter(n, m *Node) bool {
	st, ok := n.E.Ins.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	ld, ok := fa.X.(*ssa.UnOp)
	if !ok || m.E.Ins == nil {
		return false
	}
	chain := func(fr *Frame, ins ssa.Instruction) (frs []*Frame, at []ssa.Instruction) {
		for ; fr != nil; fr = fr.parent {
			frs, at = append(frs, fr), append(at, ins)
			ins = fr.site
		}
		return
	}
	nf, ni := chain(n.E.Fr, ld)
	mf, mi := chain(m.E.Fr, m.E.Ins)
	for i, f := range nf {
		for j, h := range mf {
			if f != h {
				continue
			}
			a, b := mi[j], ni[i]
			if a == nil || b == nil || a == b {
				return false
			}
			if a.Block() != b.Block() {
				return a.Block().Dominates(b.Block())
			}
			for _, x := range a.Block().Instrs {
				if x == a {
					return true
				}
				if x == b {
					return false
				}
			}
			return false
		}
	}
	return false
}

// heapTrack: items are only exchanged in pairs, and every item stored at a
// position gets that position recorded.
func heapTrack(r *R, g *Graph) {
	byID := map[string]*Node{}
	n1 := 0
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		id := "n" + fmt.Sprint(n.ID)
		if i, ok := heapItem(n); ok && n.E.V.String() != "nil" {
			byID[id] = n
			items := n.E.R.A[0].String()
			if p := s.get("pend"); p != "" {
				m := byID[p]
				mi, _ := heapItem(m)
				if m.E.V.String() != items+"["+i+"]" || n.E.V.String() != items+"["+mi+"]" {
					return s, "two stores into the heap do not exchange two items: an item is lost or duplicated"
				}
				s = s.set("pend", "")
			} else {
				s = s.set("pend", id)
			}
			s = s.add("want:" + id)
			n1++
			return s, ""
		}
		if n.E.K == KStore && n.E.Field == "stores.MinMaxHeap.items" && n.E.V.String() == "append($0.items,$1)" {
			return s.add("grown"), ""
		}
		if n.E.K == KLoad && n.E.Field == "stores.MinMaxHeap.items" && s.has("grown") {
			return s.add("reload"), ""
		}
		if n.E.K == KStore && n.E.Field == "stores.PrioritizedItem.index" {
			ok := false
			for _, t := range strings.Fields(string(s)) {
				if !strings.HasPrefix(t, "want:") {
					continue
				}
				m := byID[t[5:]]
				i, _ := heapItem(m)
				if n.E.V.String() != i {
					continue
				}
				if n.E.X == m.E.V || n.E.X.String() == m.E.R.String() && loadedAfter(n, m) {
					s = s.del(t)
					ok = true
				}
			}
			if !ok && s.get("pend") == "" && n.E.X.String() == "$1" && n.E.V.String() == "len($0.items)" {
				return s.add("pushidx"), ""
			}
			if !ok && s.get("pend") == "" && s.has("reload") && n.E.X.String() == "$1" && n.E.V.String() == "len($0.items)-1" {
				return s.add("pushidx"), ""
			}
			if !ok {
				return s, "the recorded position of an item becomes something else than its position"
			}
			return s, ""
		}
		if n.E.K == KCall || n.E.K == KReturn {
			for _, t := range strings.Fields(string(s)) {
				if strings.HasPrefix(t, "want:") {
					return s, "an item was put at another position without recording that position"
				}
				if strings.HasPrefix(t, "pend=") {
					return s, "an item of the heap is overwritten without being exchanged"
				}
			}
		}
		return s, ""
	})
	r.insts += n1
}

func init() {
	rule("heap.track", "C34",
		"items of the heap change places in pairs, and the position recorded in each is its position",
		func(r *R) {
			for _, f := range []string{"stores.down", "stores.up"} {
				g := r.gn(f, false, "stores.MinMaxHeap.less")
				heapTrack(r, g)
				r.need(len(g.Find(func(n *Node) bool { _, ok := heapItem(n); return ok })), 1, "exchanged items in "+f)
				r.Never(g, "sifting changes the number of items", fieldStore("stores.MinMaxHeap.items"))
				// every compared position is inside of the heap
				cnt := 0
				tests := map[string]*Node{}
				bound := g.term("$2")
				if f == "stores.down" && bound == nil {
					r.fatal("the bound is never tested")
				}
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					if n.E.K == KBranch && n.E.X.Op == "lt" {
						id := fmt.Sprintf("t%d%v", n.E.X.id, n.E.Val)
						tests[id] = n
						return s.del(fmt.Sprintf("t%d%v", n.E.X.id, !n.E.Val)).add(id), ""
					}
					if !call("stores.MinMaxHeap.less")(n) {
						return s, ""
					}
					cnt++
					known := &Node{Facts: map[*X]bool{}}
					for _, t := range strings.Fields(string(s)) {
						known.Facts[tests[t].E.X] = tests[t].E.Val
					}
					i, j := n.E.A[1], n.E.A[2]
					if f == "stores.down" {
						// m stays inside, so one of the two was tested or the other is a parent
						if i.Op != "bin" && j.Op != "bin" && !below(known, i, bound) && !below(known, j, bound) {
							return s, "a position beyond the end of the heap is compared"
						}
					} else if !atLeast(known, argOf(i), 1) && !atLeast(known, argOf(j), 1) {
						return s, "the parent of the root is compared"
					}
					return s, ""
				})
				r.need(cnt, 1, "comparisons in "+f)
				r.insts += cnt
			}
			ni := []string{"stores.down", "stores.up", "stores.MinMaxHeap.less"}
			for _, f := range []string{"Push", "PopMin", "PopMax", "Remove", "Update", "Min", "Max"} {
				heapTrack(r, r.gn("stores.MinMaxHeap."+f, false, ni...))
			}
			r.Confined("heap items", "stores.MinMaxHeap.items || stores.PrioritizedItem.index", "stores.down || stores.up || stores.MinMaxHeap.* || stores.NewMinMaxHeap", true, false, 1)

			// the constructor
			c := r.gn("stores.NewMinMaxHeap", false, ni...)
			sizes, put, bare := []string{"len($0)"}, and(kind(KStore), func(n *Node) bool { return globs("elem(make:* || make:*[*]", n.E.R.String()) }), "stores.MinMaxHeap{items=make:*(len($0),len($0))}"
			add := fieldStore("stores.MinMaxHeap.items", "append(*,*)")
			if len(c.Find(add)) > 0 {
				// the items are added one by one
				sizes, put, bare = []string{"0", "len(acc:)"}, add, "stores.MinMaxHeap{items=make:*(0,*)} || stores.MinMaxHeap{items=acc:} || stores.MinMaxHeap{}"
				r.Every(c, "a new heap does not hold the given items at their recorded positions", fieldStore("stores.MinMaxHeap.items"), 1, func(n *Node) bool {
					return globs("nil || [] || make:*(0,*) || append(acc:,stores.PrioritizedItem{Value=elem($0),index=len(acc:)}) || append(make:*(0,*),stores.PrioritizedItem{Value=elem($0),index=0}) || append(nil,stores.PrioritizedItem{Value=elem($0),index=0})", n.E.V.String())
				})
			}
			var downs, ends []Pred
			for _, n := range sizes {
				h := "mu((" + n + "/2);@-1)"
				if n == "0" {
					h = "mu(0;@-1)"
				}
				downs = append(downs, call("stores.down", "*", h+"-1", n))
				ends = append(ends, branch(h+"<1", true), branch(h+"-1<0", true))
			}
			down := or(downs...)
			r.Auto(c, "", func(s St, n *Node) (St, string) {
				if n.E.K == KStore && globs("elem(make:* || make:*[*]", n.E.R.String()) {
					if !globs("stores.PrioritizedItem{Value=elem($0),index=mu(0;@+1)} || stores.PrioritizedItem{Value=$0[mu(0;@+1)],index=mu(0;@+1)}", n.E.V.String()) {
						return s, "a new heap does not hold the given items at their recorded positions"
					}
				}
				if n.E.K == KReturn && !globs(bare, n.E.A[0].String()) {
					return s, "a new heap has another size than the given items"
				}
				return s, ""
			})
			r.ForEach(c, "putting the given items into a new heap", "*$0*", put, 1, 1)
			r.Never(c, "a new heap is not ordered from its last parent down to the root", and(call("stores.down"), not(down)))
			r.need(len(c.Find(down)), 1, "ordering a new heap")
			r.Precede(c, "a new heap is returned before it was ordered down to the root", or(ends...), kind(KReturn), nil)
		})

	rule("heap.ops", "C34",
		"looking changes nothing, adding and removing change the size by one, changed positions are reordered in both directions",
		func(r *R) {
			ni := []string{"stores.down", "stores.up", "stores.MinMaxHeap.less"}
			op := func(f string) *Graph { return r.gn("stores.MinMaxHeap."+f, false, ni...) }
			up, down := call("stores.up"), call("stores.down")
			anyItem := func(n *Node) bool { _, ok := heapItem(n); return ok }
			for _, f := range []string{"Min", "Max", "Len"} {
				r.Never(op(f), "looking at the heap changes it", or(store("*"), anyItem, up, down))
			}
			empty := at("empty", "len($0.items)<1", "len($0.items)==0")
			one := at("one", "len($0.items)<2", "len($0.items)==1")
			r.Results(op("Len"), "Len", nil, func(V) []string { return []string{"len($0.items)"} })
			r.Results(op("Min"), "Min", []Atom{empty}, func(v V) []string {
				if v["empty"] {
					return []string{"nil"}
				}
				return []string{"$0.items[0]"}
			})
			// Max: one of the first three positions, by comparison
			r.Auto(op("Max"), "", func(s St, n *Node) (St, string) {
				if n.E.K != KReturn {
					return s, ""
				}
				res := n.E.A[0].String()
				if !globs("nil || $0.items[0] || $0.items[1] || $0.items[2]", res) {
					return s, "the maximum of the heap is none of the first three items"
				}
				return s, ""
			})
			_ = one
			for _, f := range []string{"Max", "PopMax"} {
				for _, n := range op(f).Find(call("stores.MinMaxHeap.less")) {
					r.insts++
					ok := true
					for _, i := range n.E.A[1:] {
						if i.Int != nil && i.Int.Int64() > 0 && !lenAbove(n, i.Int.Int64()) {
							ok = false
						}
					}
					if !ok {
						r.failN(op(f), n, "a position beyond the end of the heap is compared", nil)
					}
				}
			}
			shrink := fieldStore("stores.MinMaxHeap.items", "$0.items[0:len($0.items)-1] || $0.items[:len($0.items)-1]")
			grow := fieldStore("stores.MinMaxHeap.items", "append($0.items,$1)")
			other := and(fieldStore("stores.MinMaxHeap.items"), not(shrink), not(grow))
			for _, f := range []string{"PopMin", "PopMax", "Remove"} {
				g := op(f)
				r.Never(g, f+" changes the items in another way than dropping the last", or(other, grow))
				if f == "Remove" {
					r.Times(g, "removing an item", shrink, 1, 1, nil, nil)
				} else {
					r.Guard(g, f+" removes an item", nil, shrink, nil, []Atom{empty}, func(v V) int { return b2m(!v["empty"]) })
					r.Times(g, f, shrink, 0, 1, nil, nil)
				}
				// no slot is cleared but the last
				r.Never(g, f+" clears an item which is not the last", func(n *Node) bool {
					i, ok := heapItem(n)
					return ok && n.E.V.String() == "nil" && i != "len($0.items)-1"
				})
				// the removed one is at the end before the heap shrinks, and the rest is reordered without it
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					if i, ok := heapItem(n); ok && n.E.V.String() != "nil" {
						if i == "len($0.items)-1" {
							s = s.set("at", strings.ReplaceAll(n.E.V.String(), " ", ""))
						} else {
							s = s.set("from", i)
						}
					}
					if n.E.K == KBranch && n.E.Val && f == "Remove" && globs("$1.index-len($0.items)==-1 || len($0.items)-$1.index==1", n.E.X.String()) {
						s = s.set("at", "last")
					}
					if call("stores.down", "$0", "*", "len($0.items)-1")(n) {
						s = s.set("down", n.E.A[1].String())
					} else if down(n) {
						return s, f + " reorders beyond the remaining items"
					}
					if up(n) {
						s = s.set("up", n.E.A[1].String())
					}
					if shrink(n) {
						w := s.get("at")
						switch f {
						case "PopMin":
							if w != "$0.items[0]" {
								return s, "the item dropped is not the minimum"
							}
							if s.get("down") != "0" {
								return s, "the item put to the top is not reordered"
							}
						case "PopMax":
							if !globs("$0.items[0] || $0.items[1] || $0.items[2]", w) {
								return s, "the item dropped is not the maximum"
							}
							if "$0.items["+s.get("down")+"]" != w {
								return s, "the item put in place of the maximum is not reordered"
							}
						case "Remove":
							if w == "last" {
								break
							}
							if w != "$0.items[$1.index]" {
								return s, "the item dropped is not the one to be removed"
							}
							if s.get("down") != "$1.index" || s.get("up") != "$1.index" {
								return s, "the item put in place of the removed one is not reordered in both directions"
							}
						}
						s = s.add("shrunk")
					}
					if n.E.K == KReturn && f != "Remove" && s.has("shrunk") && n.E.A[0].String() != "$0.items[len($0.items)-1]" {
						return s, f + " returns something else than the dropped item"
					}
					if n.E.K == KReturn && f != "Remove" && !s.has("shrunk") && n.E.A[0].String() != "nil" {
						return s, f + " on an empty heap returns an item"
					}
					return s, ""
				})
			}
			g := op("Push")
			r.Never(g, "Push changes the items in another way than adding one", or(other, shrink, anyItem))
			r.Times(g, "adding an item", grow, 1, 1, nil, nil)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				switch {
				case grow(n):
					return s.add("grown"), ""
				case n.E.K == KLoad && n.E.Field == "stores.MinMaxHeap.items" && s.has("grown"):
					return s.add("reload"), ""
				case n.E.K == KStore && n.E.R.String() == "$1.index" && (n.E.V.String() == "len($0.items)" && !s.has("grown") || n.E.V.String() == "len($0.items)-1" && s.has("reload")):
					return s.add("rec"), ""
				case (up(n) || n.E.K == KReturn) && s.has("grown") && !s.has("rec"):
					return s, "an item is added without recording its position"
				}
				return s, ""
			})
			r.Times(g, "recording the position of an added item", store("stores.PrioritizedItem.index"), 1, 1, nil, nil)
			r.Follow(g, "an added item is not moved to its place", grow, call("stores.up", "$0", "len($0.items)-1"), nil)
			g = op("Update")
			r.Never(g, "updating an item changes the size", or(fieldStore("stores.MinMaxHeap.items"), anyItem))
			r.Times(g, "moving an updated item up", call("stores.up", "$0", "$1.index"), 1, 1, nil, nil)
			r.Times(g, "moving an updated item down", call("stores.down", "$0", "$1.index", "len($0.items)"), 1, 1, nil, nil)
		})

	rule("heap.layout", "C34",
		"the positions of parents and children are inverse to each other",
		func(r *R) {
			r.Ret("stores.lchild", "lchild", "2*$0+1")
			r.Ret("stores.rchild", "rchild", "2*$0+2")
			r.Ret("stores.parent", "parent", "($0-1/2)")
		})

	rule("sak.pool", "C31",
		"a pooled value has one borrower, is reset before it can be borrowed again, and the pool is bounded and locked",
		func(r *R) {
			fl := or(loadEv("sak.Pool.freelist"), fieldStore("sak.Pool.freelist"), and(kind(KStore), func(n *Node) bool { return strings.HasPrefix(n.E.R.String(), "$0.freelist[") }))
			for _, f := range []string{"sak.Pool.Borrow", "sak.Pool.Release"} {
				g := r.gs(f)
				r.Held(g, "the free list is used without holding the lock", fl, "$0.mu", true)
				r.Auto(g, "", lockBalance)
				// a factory or resetter may itself use the pool
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					if m, acq, _, ok := lockOp(n); ok && m == "$0.mu" {
						return St(map[bool]string{true: "held"}[acq]), ""
					}
					if n.E.K == KDyn && s == "held" {
						return s, "a function of the application runs while the pool is locked, it can not use the pool"
					}
					return s, ""
				})
			}
			for _, fn := range r.p.All {
				if !strings.HasPrefix(r.p.Name(fn), "sak.Pool.") {
					continue
				}
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						if sl, ok := ins.(*ssa.Slice); ok && sl.Max != nil {
							r.fail(sl.Pos(), r.p.Name(fn), "the capacity of the free list is cut, released values are not kept any more", nil)
						}
					}
				}
			}
			r.Confined("the free list", "sak.Pool.freelist", "sak.Pool.Borrow || sak.Pool.Release || sak.NewPool", true, false, 1)
			b := r.gs("sak.Pool.Borrow")
			empty := at("empty", "len($0.freelist)<1", "len($0.freelist)==0")
			take := fieldStore("sak.Pool.freelist", "$0.freelist[:len($0.freelist)-1] || $0.freelist[0:len($0.freelist)-1]")
			r.Guard(b, "taking a value from the free list", nil, take, nil, []Atom{empty}, func(v V) int { return b2m(!v["empty"]) })
			r.Times(b, "taking a value from the free list", take, 0, 1, nil, nil)
			r.Never(b, "the free list changes otherwise", and(fieldStore("sak.Pool.freelist"), not(take)))
			r.Results(b, "Borrow", []Atom{empty}, func(v V) []string {
				if v["empty"] {
					return []string{"call:$0.factory()"}
				}
				return []string{"$0.freelist[len($0.freelist)-1]"}
			})
			g := r.gs("sak.Pool.Release")
			put := fieldStore("sak.Pool.freelist", "append($0.freelist,call:$0.reset($1))")
			full := at("full", "cap($0.freelist)-len($0.freelist)<1", "cap($0.freelist)==len($0.freelist)", "cap($0.freelist)-len($0.freelist)==0")
			r.Guard(g, "keeping a released value", nil, put, nil, []Atom{full}, func(v V) int { return b2m(!v["full"]) })
			r.Times(g, "keeping a released value", put, 0, 1, nil, nil)
			r.Never(g, "a value that was not reset is kept", and(fieldStore("sak.Pool.freelist"), not(put)))
			r.Times(g, "resetting a released value", dyn("sak.Pool.reset || $0.reset"), 1, 1, nil, nil)
			r.Precede(g, "a value is kept before it was reset", dyn("sak.Pool.reset || $0.reset"), put, nil)
			r.Results(g, "Release", []Atom{full}, func(v V) []string {
				if v["full"] {
					return []string{"false"}
				}
				return []string{"true"}
			})
			n := r.gs("sak.NewPool")
			noReset := at("noReset", "$2==nil")
			ident := ""
			r.Auto(n, "", func(s St, x *Node) (St, string) {
				if noResetMatch, neg := noReset.M(branchX(x)); x.E.K == KBranch && noResetMatch {
					s = s.set("nil", map[bool]string{true: "y", false: "n"}[x.E.Val != neg])
				}
				if x.E.K != KReturn {
					return s, ""
				}
				o := x.E.A[0]
				if !globs("make:*(0,$0)", o.FS("freelist")) {
					return s, "a new pool does not start empty with the given size"
				}
				if o.FS("factory") != "$1" {
					return s, "a new pool does not use the given factory"
				}
				switch s.get("nil") {
				case "y":
					if !strings.HasPrefix(o.FS("reset"), "func:") {
						return s, "a new pool without a resetter can not release"
					}
					ident = o.FS("reset")[5:]
				case "n":
					if o.FS("reset") != "$2" {
						return s, "a new pool does not use the given resetter"
					}
				default:
					return s, "a missing resetter is not recognised"
				}
				return s, ""
			})
			if ident != "" {
				r.Ret(ident, "the default resetter", "$0")
			}
			r.insts += 4
		})

	rule("sak.helpers", "C31",
		"minimum, maximum, absolute value and the copying helpers return what their names say",
		func(r *R) {
			lt, gt := at("lt", "$0<$1"), at("gt", "$1<$0")
			r.Results(r.gs("sak.Min"), "Min", []Atom{lt, gt}, func(v V) []string {
				if v["lt"] && v["gt"] {
					return nil
				}
				if v["lt"] {
					return []string{"$0"}
				}
				if v["gt"] {
					return []string{"$1"}
				}
				return []string{"$0 || $1"}
			})
			r.Results(r.gs("sak.Max"), "Max", []Atom{lt, gt}, func(v V) []string {
				if v["lt"] && v["gt"] {
					return nil
				}
				if v["lt"] {
					return []string{"$1"}
				}
				if v["gt"] {
					return []string{"$0"}
				}
				return []string{"$0 || $1"}
			})
			r.Results(r.gs("sak.Abs"), "Abs", []Atom{at("neg", "$0<0"), at("pos", "0<$0")}, func(v V) []string {
				if v["neg"] && v["pos"] {
					return nil
				}
				if v["neg"] {
					return []string{"-$0 || -1*$0"}
				}
				if v["pos"] {
					return []string{"$0"}
				}
				return []string{"$0 || -$0 || -1*$0"}
			})
			r.fold("sak.MinN", true)
			r.fold("sak.MaxN", false)
			r.Results(r.gs("sak.Must"), "Must", []Atom{at("ok", "$1==nil")}, func(v V) []string {
				if v["ok"] {
					return []string{"$0"}
				}
				return []string{"(a panic)"}
			})
			r.Guard(r.gs("sak.Must"), "panicking with the error", nil, and(kind(KPanic), func(n *Node) bool { return n.E.V.String() == "$1" }), or(kind(KReturn), kind(KPanic)), []Atom{at("ok", "$1==nil")}, func(v V) int { return b2m(!v["ok"]) })
			if r.p.Funcs["sak.Noescape"] != nil {
				r.Ret("sak.Noescape", "the pointer hidden from escape analysis", "$0 || $0^0 || ($0^0)")
			}
			r.Results(r.gs("sak.Ptr"), "Ptr", nil, func(V) []string { return []string{"&$0"} })

			grown := "make:*(0,*) || mu(make:*(0,*);append(@,*)) || nil || mu(nil;append(@,*)) || append(*"
			put := func(n *Node) bool {
				return n.E.K == KStore && globs("elem(make:* || make:*[mu(0;@+1)]", n.E.R.String()) || n.E.K == KCall && call("builtin.append")(n)
			}
			for f, v := range map[string]string{"sak.ToPtrSlice": "&elem($0) || &$0[mu(0;@+1)]", "sak.ToStructSlice": "elem($0) || *elem($0) || $0[mu(0;@+1)]"} {
				g := r.gs(f)
				v := v
				r.Never(g, f+" puts something else than the element into the result", and(put, func(n *Node) bool {
					if n.E.K == KCall {
						x := n.E.A[1]
						return !globs(grown, n.E.A[0].String()) || len(x.A) != 1 || !globs(v, x.A[0].String())
					}
					return !globs(v, n.E.V.String())
				}))
				r.ForEach(g, f+" copying an element", "$0*", put, 1, 1)
				r.Results(g, f, nil, func(V) []string { return []string{"make:*(len($0),len($0)) || " + grown} })
			}
			g := r.gs("sak.MapCopy")
			set := func(n *Node) bool { return n.E.K == KMapSet }
			r.Every(g, "MapCopy copies something else than the entry", set, 1, func(n *Node) bool {
				return strings.HasPrefix(n.E.X.String(), "make:") && n.E.A[0].String() == "key($0)" && globs("elem($0) || $0[key($0)]", n.E.V.String())
			})
			r.ForEach(g, "MapCopy copying an entry", "$0*", set, 1, 1)
			r.Results(g, "MapCopy", nil, func(V) []string { return []string{"make:map*"} })
			for f, v := range map[string]string{"sak.MapValuesToSlice": "elem($0)", "sak.MapKeysToSlice": "key($0)"} {
				g := r.gs(f)
				v := v
				add := call("builtin.append")
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					if add(n) {
						s = s.add("some")
					}
					if n.E.K == KReturn && s.has("some") && n.E.A[0].String() == "nil" {
						return s, f + ": the elements are not returned"
					}
					return s, ""
				})
				r.Every(g, f+" adds something else than the element to the result", add, 1, func(n *Node) bool {
					return n.E.A[1].String() == "["+v+"]" && globs(grown, n.E.A[0].String())
				})
				r.ForEach(g, f+" copying an element", "$0*", add, 1, 1)
				r.Results(g, f, nil, func(V) []string {
					return []string{grown}
				})
			}
		})
}

// argOf: the position whose parent or grandparent x is, or x.
func argOf(x *X) *X {
	for x.Op == "bin" && len(x.A) == 2 {
		x = x.A[0]
		if x.Op == "lin" && len(x.A) == 1 {
			x = x.A[0]
		}
	}
	return x
}

func branchX(n *Node) *X {
	if n.E.K == KBranch {
		return n.E.X
	}
	return linIn.nilX()
}

// lenAbove: len($0.items) > k is known.
func lenAbove(n *Node, k int64) bool {
	for f, val := range n.Facts {
		if f.Op == "lt" && !val && f.A[0].Op == "len" && f.A[1].Int != nil && f.A[1].Int.Int64() >= k+1 {
			return true
		}
	}
	return false
}

// lockBalance: a mutex is not taken twice, and released before returning.
func lockBalance(s St, n *Node) (St, string) {
	if m, acq, sh, ok := lockOp(n); ok {
		t := "W:" + strings.ReplaceAll(m, " ", "")
		if sh {
			t = "R:" + strings.ReplaceAll(m, " ", "")
		}
		if acq {
			if s.has(t) || s.has("W"+t[1:]) {
				return s, "the lock is taken while it is held"
			}
			return s.add(t), ""
		}
		if !s.has(t) {
			return s, "the lock is released without being held"
		}
		return s.del(t), ""
	}
	if (n.E.K == KReturn || n.E.K == KFEnd) && s != "" {
		return s, "a lock is still held on return"
	}
	return s, ""
}

// fold: the function returns the smallest (largest) of its arguments.
func (r *R) fold(f string, min bool) {
	g := r.gs(f)
	isElem := func(x *X) bool {
		return globs("elem($0) || $0[mu(0;@+1)+1] || $0[mu(0;@+1)] || elem($0[1:]*)", x.String())
	}
	cmp := func(n *Node) bool {
		return n.E.K == KBranch && n.E.X.Op == "lt" && (isElem(n.E.X.A[0]) || isElem(n.E.X.A[1])) && !n.E.X.isNum()
	}
	l := r.Loop(g, "L", "$0* || less1:$0*", cmp, 1, 1, 1)
	r.Auto(g, St("").set("cur", "$0[0]"), func(s St, n *Node) (St, string) {
		if coll, _, ok := loopBranch(n); ok && strings.HasPrefix(coll, "less1:") {
			s = s.add("less1")
		}
		if s.has("less1") && cmp(n) && globs("*$0[mu(0;@+1)]<* || *<$0[mu(0;@+1)]", n.E.X.String()) {
			return s, f + ": the last element is not compared"
		}
		if !s.has("less1") && cmp(n) && globs("*$0[mu(0;@+1)+1]*", n.E.X.String()) {
			return s, f + ": an element beyond the last one is compared"
		}
		s = l.step(s, n)
		if m := s.loopBad("L"); m != "" {
			return s, f + ": " + m
		}
		if n.E.K == KBranch && n.E.Val && globs("len($0)<1 || len($0)==0", n.E.X.String()) {
			s = s.set("cur", "none")
		}
		if n.E.K == KBranch && !n.E.Val && globs("len($0)<1 || len($0)==0", n.E.X.String()) {
			s = s.add("some")
		}
		if n.E.K == KReturn && s.get("cur") != "none" && !s.has("some") {
			return s, f + ": an empty list of arguments is not considered"
		}
		if cmp(n) {
			a, b := n.E.X.A[0].String(), n.E.X.A[1].String()
			cur := s.get("cur")
			if a != cur && b != cur {
				return s, f + ": an element is not compared with the best one so far"
			}
			// the element replaces the best one when it is better
			el, better := n.E.X.A[0], min
			if a == cur && a != b {
				el, better = n.E.X.A[1], !min
			}
			if n.E.Val == better {
				s = s.set("cur", el.String())
			}
		}
		if n.E.K == KReturn && s.get("cur") == "none" && n.E.A[0].String() != "0" && !strings.HasPrefix(n.E.A[0].String(), "zero") {
			return s, f + ": something is returned for no elements"
		}
		if n.E.K == KReturn && s.get("cur") != "none" && n.E.A[0].String() != s.get("cur") {
			return s, f + ": the result is not the best element"
		}
		return s, ""
	})
	r.insts++
}
