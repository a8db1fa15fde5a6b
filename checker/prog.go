package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole-program queries: who calls, starts or takes the value of a function; who touches a field.

type CallSite struct {
	Fn   *ssa.Function // the function containing the site
	Ins  ssa.Instruction
	Kind string // call, go, defer, invoke, ref, closure
}

type FieldSite struct {
	Fn    *ssa.Function
	Ins   ssa.Instruction
	Write bool // stored to (the field itself or a part of it)
	Addr  bool // its address goes elsewhere (a call argument, a stored pointer)
	Val   ssa.Value
}

type progIndex struct {
	callers map[*ssa.Function][]CallSite
	fields  map[string][]FieldSite
	ext     map[string][]CallSite // calls of functions without a body, by canonical name
}

func (p *Prog) index() *progIndex {
	if p.idx != nil {
		return p.idx
	}
	ix := &progIndex{map[*ssa.Function][]CallSite{}, map[string][]FieldSite{}, map[string][]CallSite{}}
	methods := map[string][]*ssa.Function{}
	for _, fn := range p.All {
		if fn.Signature.Recv() != nil {
			methods[fn.Name()] = append(methods[fn.Name()], fn)
		}
	}
	add := func(callee *ssa.Function, s CallSite) {
		callee = orig(callee)
		if wrapper(callee) {
			for _, b := range callee.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
						callee = orig(c.Call.StaticCallee())
					}
				}
			}
		}
		ix.callers[callee] = append(ix.callers[callee], s)
		ix.ext[p.Name(callee)] = append(ix.ext[p.Name(callee)], s)
	}
	for _, fn := range p.All {
		wrapped, goIns := p.goWrapper(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && c == wrapped { // go func() { f() }() is go f()
					add(c.Call.StaticCallee(), CallSite{fn.Parent(), goIns, "go"})
					continue
				}
				var com *ssa.CallCommon
				kind := "call"
				switch x := ins.(type) {
				case *ssa.Call:
					com = &x.Call
				case *ssa.Go:
					com, kind = &x.Call, "go"
				case *ssa.Defer:
					com, kind = &x.Call, "defer"
				}
				var direct *ssa.Function
				if com != nil {
					if com.IsInvoke() {
						k := "invoke"
						if kind != "call" {
							k = kind
						}
						ix.ext[objName(com.Method)] = append(ix.ext[objName(com.Method)], CallSite{fn, ins, k})
						for _, m := range methods[com.Method.Name()] {
							if m.Signature.Params().Len() == com.Method.Type().(*types.Signature).Params().Len() {
								add(m, CallSite{fn, ins, k})
							}
						}
					} else {
						switch v := com.Value.(type) {
						case *ssa.Function:
							direct = v
							add(v, CallSite{fn, ins, kind})
						case *ssa.MakeClosure:
							if kind != "call" {
								add(v.Fn.(*ssa.Function), CallSite{fn, ins, kind})
							}
						}
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function), CallSite{fn, ins, "closure"})
					continue
				}
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f != direct {
						add(f, CallSite{fn, ins, "ref"})
					} else if ok && f == direct && com != nil {
						for _, a := range com.Args {
							if a == *op {
								add(f, CallSite{fn, ins, "ref"})
							}
						}
					}
				}
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					_, name := fieldVar(x.X.Type(), x.Field)
					p.fieldAddrUses(ix, fn, name, x, x)
				case *ssa.Field:
					_, name := fieldVar(x.X.Type(), x.Field)
					ix.fields[name] = append(ix.fields[name], FieldSite{Fn: fn, Ins: ins})
				}
			}
		}
	}
	p.idx = ix
	return ix
}

func (p *Prog) fieldAddrUses(ix *progIndex, fn *ssa.Function, name string, at ssa.Instruction, addr ssa.Value) {
	for _, u := range *addr.Referrers() {
		s := FieldSite{Fn: fn, Ins: u}
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == addr {
				s.Write, s.Val = true, x.Val
			} else {
				s.Addr = true
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				s.Addr = true
			}
		case *ssa.FieldAddr:
			p.fieldAddrUses(ix, fn, name, u, x)
			continue
		case *ssa.IndexAddr:
			p.fieldAddrUses(ix, fn, name, u, x)
			continue
		case *ssa.DebugRef:
			continue
		default:
			s.Addr = true
		}
		if !s.Ins.Pos().IsValid() {
			s.Ins = u
		}
		ix.fields[name] = append(ix.fields[name], s)
	}
}

// CallSites of the functions with a canonical name (with or without a body).
func (r *R) CallSites(names string) []CallSite {
	ix := r.p.index()
	var out []CallSite
	var ks []string
	for k := range ix.ext {
		if globs(names, k) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, ix.ext[k]...)
	}
	return out
}

// FieldSites of the fields "Type.field".
func (r *R) FieldSites(names string) []FieldSite {
	ix := r.p.index()
	var ks []string
	for k := range ix.fields {
		if globs(names, k) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []FieldSite
	for _, k := range ks {
		out = append(out, ix.fields[k]...)
	}
	return out
}

// From walks up from fn through its callers (calls, closures, references). The walk stops at
// functions matching roots. It returns the first function outside of roots which nobody calls,
// or which is reached over a go statement when noGo is set ("" if there is none).
func (r *R) From(fn *ssa.Function, roots string, noGo bool) string {
	ix := r.p.index()
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, path string) string
	walk = func(f *ssa.Function, path string) string {
		f = orig(f)
		name := r.p.Name(f)
		if globs(roots, name) || seen[f] {
			return ""
		}
		seen[f] = true
		cs := ix.callers[f]
		if len(cs) == 0 {
			if path != "" && f.Parent() == nil && f.Object() != nil && !f.Object().Exported() && !r.p.implementsHidden(f) {
				return "" // dead code
			}
			return name + path
		}
		goClosure := map[ssa.Value]bool{}
		for _, c := range cs {
			if c.Kind == "go" || c.Kind == "closure" && goStarted(c.Ins) {
				if noGo {
					return name + " started as a goroutine at " + r.p.posStr(c.Ins.Pos()) + path
				}
			}
			_ = goClosure
			if bad := walk(c.Fn, " <- "+name+path); bad != "" {
				return bad
			}
		}
		return ""
	}
	return walk(fn, "")
}

func goStarted(ins ssa.Instruction) bool {
	mc, ok := ins.(*ssa.MakeClosure)
	if !ok {
		return false
	}
	for _, u := range *mc.Referrers() {
		if g, ok := u.(*ssa.Go); ok && g.Call.Value == mc {
			return true
		}
		if c, ok := u.(*ssa.Call); ok && strings.HasSuffix(c.Call.Value.Name(), "AfterFunc") {
			return true
		}
	}
	return false
}

// Confined: every access (write accesses only, if writes) to the fields happens in functions
// reached only from roots.
func (r *R) Confined(what, fields, roots string, writes, noGo bool, min int) {
	n := 0
	for _, s := range r.FieldSites(fields) {
		if writes && !s.Write && !s.Addr {
			continue
		}
		n++
		if bad := r.From(s.Fn, roots, noGo); bad != "" {
			r.fail(s.Ins.Pos(), r.p.Name(s.Fn), what+": reached from "+bad, nil)
		}
	}
	r.need(n, min, "accesses of "+fields)
	r.insts += n
}

// CalledFrom: the functions are called only from (functions reached only from) roots.
func (r *R) CalledFrom(what, names, roots string, noGo bool, min int) {
	cs := r.CallSites(names)
	for _, c := range cs {
		bad := ""
		if noGo && c.Kind == "go" {
			bad = "a goroutine"
		} else {
			bad = r.From(c.Fn, roots, noGo)
		}
		if bad != "" {
			r.fail(c.Ins.Pos(), r.p.Name(c.Fn), what+": reached from "+bad, nil)
		}
	}
	r.need(len(cs), min, "calls of "+names)
	r.insts += len(cs)
}

// implementsHidden: an unexported method which an interface of the program declares too.
func (p *Prog) implementsHidden(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return f.Name() == "init" || f.Name() == "main"
	}
	for _, pk := range p.TPkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == f.Name() {
					return true
				}
			}
		}
	}
	return false
}

// reached: fn is called, possibly through others, by a function matching root.
func (r *R) reached(fn *ssa.Function, root string) bool {
	ix := r.p.index()
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		f = orig(f)
		if globs(root, r.p.Name(f)) {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, c := range ix.callers[f] {
			if walk(c.Fn) {
				return true
			}
		}
		return false
	}
	return walk(fn)
}
