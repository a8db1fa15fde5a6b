package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// What is made once and changed in every iteration of a loop is one thing, however many elements
// of the loop keep it: an object declared before the loop (in Go 1.19 also the variable of the
// loop) which is stored to in the loop and kept by a collection, a channel or a callback which
// outlives the iteration, or which collects what is appended to it and is used in every iteration.

// base: the variable an address belongs to.
func allocOf(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// kept: what a value flows into by which it outlives the iteration; "" when by nothing.
func (r *R) kept(v ssa.Value, body map[int]bool, depth int) string {
	refs := v.Referrers()
	if refs == nil {
		return ""
	}
	for _, u := range *refs {
		if body != nil && !body[u.Block().Index] {
			continue
		}
		switch u := u.(type) {
		case *ssa.MapUpdate:
			if u.Value == v || u.Key == v {
				return "a map"
			}
		case *ssa.Send:
			if u.X == v {
				return "a channel"
			}
		case *ssa.Select:
			for _, s := range u.States {
				if s.Send == v {
					return "a channel"
				}
			}
		case *ssa.Store:
			if u.Val != v {
				continue
			}
			switch a := u.Addr.(type) {
			case *ssa.IndexAddr:
				if _, local := a.X.(*ssa.Alloc); !local || appended(a.X) {
					return "a list"
				}
			case *ssa.FieldAddr, *ssa.Global:
				return "an object"
			}
		case *ssa.Go:
			return "a goroutine"
		case *ssa.Defer:
			return "a deferred call"
		case *ssa.MakeClosure:
			if depth < 3 {
				if w := r.kept(u, body, depth+1); w != "" {
					return w
				}
			}
		case *ssa.MakeInterface:
			if depth < 3 {
				if w := r.kept(u, body, depth+1); w != "" {
					return w
				}
			}
		case *ssa.Call:
			if _, closure := v.(*ssa.MakeClosure); !closure {
				continue
			}
			fn := u.Call.StaticCallee()
			if fn == nil {
				continue
			}
			switch name := r.p.Name(fn); {
			case globs("time.AfterFunc || kgo.Client.Produce || kgo.Client.TryProduce || kgo.Client.*Transaction", name):
				return "a callback"
			}
			if fn.Origin() != nil {
				fn = fn.Origin()
			}
			if depth < 3 && len(fn.Blocks) > 0 {
				for i, a := range u.Call.Args {
					if a == v && i < len(fn.Params) {
						if w := r.kept(fn.Params[i], nil, depth+1); w != "" {
							return w
						}
					}
				}
			}
		}
	}
	return ""
}

// appended: the backing array of a variadic call is passed to append.
func appended(arr ssa.Value) bool {
	for _, u := range *arr.Referrers() {
		sl, ok := u.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, w := range *sl.Referrers() {
			if c, ok := w.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	rule("iteration.fresh", "C18 C05 C13 C33"+byFile,
		"what every iteration of a loop changes and hands on is its own: no object, loop variable or list is shared between the iterations which keep it",
		func(r *R) {
			for _, fn := range r.p.All {
				inf := r.p.Info(fn)
				seen := map[*ssa.Alloc]bool{}
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						st, ok := ins.(*ssa.Store)
						if !ok {
							continue
						}
						a := allocOf(st.Addr)
						if a == nil || a.Parent() != fn || seen[a] {
							continue
						}
						for _, body := range inf.loopOf {
							if !body[b.Index] || body[a.Block().Index] {
								continue
							}
							r.insts++
							if w := r.kept(a, body, 0); w != "" {
								seen[a] = true
								r.fail(at2(a, st), r.p.Name(fn), "a variable which every iteration changes is kept by "+w+", which the iterations share: "+a.Comment, nil)
								break
							}
							if f := accumulates(st); f != nil && !reset(a, f, body) && used(a, body) {
								seen[a] = true
								r.fail(at2(a, st), r.p.Name(fn), "what an iteration of the loop collects is also part of the next one: "+a.Comment, nil)
								break
							}
						}
					}
				}
			}
			r.note("%d stores to variables of an outer scope in loops", r.insts)
			if r.insts == 0 {
				r.insts = 1 // nothing is stored to in a loop: nothing is shared
			}
		})
}

func at2(a *ssa.Alloc, st *ssa.Store) token.Pos {
	if st.Pos().IsValid() {
		return st.Pos()
	}
	return a.Pos()
}

// accumulates: st appends to a field of a variable; the field address.
func accumulates(st *ssa.Store) *ssa.FieldAddr {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	if _, local := fa.X.(*ssa.Alloc); !local {
		return nil
	}
	c, ok := st.Val.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return nil
	}
	ld, ok := c.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return nil
	}
	if src, ok := ld.X.(*ssa.FieldAddr); !ok || src.X != fa.X || src.Field != fa.Field {
		return nil
	}
	return fa
}

// reset: in the loop the variable, or the field, is also set to something else.
func reset(a *ssa.Alloc, f *ssa.FieldAddr, body map[int]bool) bool {
	for b := range body {
		for _, ins := range a.Parent().Blocks[b].Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			if st.Addr == a {
				return true
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == a && fa.Field == f.Field && accumulates(st) == nil {
				return true
			}
		}
	}
	return false
}

// used: in the loop the variable as a whole is handed to someone.
func used(a *ssa.Alloc, body map[int]bool) bool {
	for _, u := range *a.Referrers() {
		if !body[u.Block().Index] {
			continue
		}
		switch u := u.(type) {
		case ssa.CallInstruction:
			return true
		case *ssa.UnOp:
			if u.X == a {
				return true
			}
		}
	}
	return false
}
