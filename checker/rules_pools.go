package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Slices in pools (C06, C31): decided on the SSA form, by following where a slice comes from.

// sliceBases: the values whose array v may share.
func sliceBases(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Slice:
			walk(x.X)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				walk(x.Call.Args[0])
				return
			}
			out = append(out, v)
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				for _, u := range *a.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == a {
						walk(st.Val)
					}
				}
				return
			}
			out = append(out, v)
		default:
			out = append(out, v)
		}
	}
	walk(v)
	return out
}

// emptySlice: v has length 0.
func emptySlice(v ssa.Value) bool {
	zero := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil {
			return false
		}
		i, ok := constant.Int64Val(c.Value)
		return ok && i == 0
	}
	switch x := v.(type) {
	case *ssa.Slice:
		if x.High != nil && zero(x.High) {
			return true
		}
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok && x.High == nil {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && a.Len() == 0 {
				return true
			}
		}
		// s[len(s):] is not needed here
	case *ssa.MakeSlice:
		return zero(x.Len)
	case *ssa.Const:
		return x.IsNil()
	case *ssa.ChangeType:
		return emptySlice(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !emptySlice(e) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

// after: can b run after a (in the same call)?
func after(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	q := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		q = append(q, x.Succs...)
	}
	return false
}

func fieldOf(v ssa.Value) (string, *ssa.FieldAddr) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	if f, ok := v.(*ssa.FieldAddr); ok {
		_, n := fieldVar(f.X.Type(), f.Field)
		return n, f
	}
	return "", nil
}

func init() {
	rule("pool.slices", "C06 C31",
		"a slice which is borrowed from a pool is empty, and a slice which was given back is not used any more",
		func(r *R) {
			n := 0
			for _, c := range r.CallSites("sak.NewPool") {
				com := c.Ins.(ssa.CallInstruction).Common()
				for i, what := range map[int]string{1: "a new slice of a pool is not empty", 2: "a slice is kept in a pool without being emptied: it is borrowed with entries of its former user"} {
					if len(com.Args) <= i {
						continue
					}
					f, ok := com.Args[i].(*ssa.Function)
					if mc, ok2 := com.Args[i].(*ssa.MakeClosure); ok2 {
						f, ok = mc.Fn.(*ssa.Function), true
					}
					if !ok || f.Signature.Results().Len() != 1 {
						continue
					}
					if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok {
						continue
					}
					for _, b := range f.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							n++
							if !emptySlice(ret.Results[0]) {
								r.fail(ret.Pos(), r.p.Name(f), what, nil)
							}
						}
					}
				}
			}
			r.need(n, 1, "results of the functions of slice pools")
			m := 0
			for _, c := range r.CallSites("sak.Pool.Release") {
				if c.Kind != "call" {
					continue
				}
				com := c.Ins.(ssa.CallInstruction).Common()
				rel := com.Args[len(com.Args)-1]
				if _, ok := rel.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				m++
				rb := sliceBases(rel)
				for _, b := range c.Fn.Blocks {
					for _, ins := range b.Instrs {
						st, ok := ins.(*ssa.Store)
						if !ok {
							continue
						}
						name, _ := fieldOf(st.Addr)
						if name == "" {
							continue
						}
						for _, sb := range sliceBases(st.Val) {
							for _, x := range rb {
								same := sb == x
								xn, xf := fieldOf(x)
								sn, sf := fieldOf(sb)
								if xn != "" && xn == sn && xf.X == sf.X && after(sb.(ssa.Instruction), c.Ins) {
									same = true
								}
								if !same {
									continue
								}
								xi, _ := x.(ssa.Instruction)
								if after(c.Ins, st) || xi != nil && after(xi, st) && after(st, c.Ins) {
									r.fail(st.Pos(), r.p.Name(c.Fn), "a slice which is given back to its pool stays in use", nil)
								}
							}
						}
					}
				}
			}
			r.need(m, 1, "slices given back to a pool")
			r.insts += n + m
		})
}
