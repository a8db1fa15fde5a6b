package main

import (
	"fmt"
	"strings"
)

func (e *Event) Desc(p *Prog) string {
	s := string(e.K)
	switch e.K {
	case KCall, KDyn, KEnter, KGo, KDefer:
		s += " " + e.Name + "(" + args(e.A) + ")"
	case KLeave, KReturn:
		s += " " + e.Name + " -> " + args(e.A)
	case KSend:
		s += " " + e.X.String() + " <- " + e.V.String() + altStr(e)
	case KRecv:
		s += " <-" + e.X.String() + altStr(e)
	case KSel:
		s += " " + e.Name + altStr(e)
	case KClose, KLoad, KMapGet:
		s += " " + e.X.String()
		if e.V != nil {
			s += " [" + e.V.String() + "]"
		}
	case KStore:
		s += " " + e.R.String() + " = " + e.V.String()
	case KMapSet:
		s += " " + e.X.String() + "[" + e.A[0].String() + "] = " + e.V.String()
	case KMapDel:
		s += " " + e.X.String() + "[" + e.V.String() + "]"
	case KBranch:
		s += fmt.Sprintf(" %s is %v", e.X, e.Val)
	case KPanic:
		s += " " + e.V.String()
	case KFork, KFEnd, KStart, KAlloc:
		s += " " + e.Name
	}
	return s
}

func altStr(e *Event) string {
	if len(e.Alts) < 2 && e.Block {
		return ""
	}
	var s []string
	for _, a := range e.Alts {
		d := "<-"
		if a.Send {
			d = "->"
		}
		s = append(s, d+a.Ch.String())
	}
	if !e.Block {
		s = append(s, "default")
	}
	return " {" + strings.Join(s, " | ") + "}"
}

// Dump prints the graph; join nodes are elided unless full.
func (g *Graph) Dump(full bool) {
	skip := func(n *Node) bool {
		return !full && (n.E.K == KJoin || n.E.K == KLoad || n.E.K == KAlloc || n.E.K == KMapGet)
	}
	var next func(n *Node, seen map[*Node]bool, out map[int]bool)
	next = func(n *Node, seen map[*Node]bool, out map[int]bool) {
		for _, s := range n.Succ {
			if seen[s] {
				continue
			}
			seen[s] = true
			if skip(s) {
				next(s, seen, out)
			} else {
				out[s.ID] = true
			}
		}
	}
	seen := map[*Node]bool{}
	var order []*Node
	var visit func(n *Node)
	visit = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		order = append(order, n)
		for _, s := range n.Succ {
			visit(s)
		}
	}
	visit(g.Start)
	for _, n := range order {
		if skip(n) {
			continue
		}
		out := map[int]bool{}
		next(n, map[*Node]bool{}, out)
		var o []string
		for id := range out {
			o = append(o, fmt.Sprint(id))
		}
		ind := ""
		if n.E.Fr != nil {
			ind = strings.Repeat("  ", n.E.Fr.depth)
		}
		fmt.Printf("%5d %s%s   @%s -> %s\n", n.ID, ind, n.E.Desc(g.P), g.P.posStr(n.E.Pos), strings.Join(o, ","))
	}
}
