package main

// Loading and naming: both modules of the repository are type-checked and
// lowered to SSA with the compiler's own type information on every run.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/aws/go-kafka-event-source/"

// Prog is the analysed program.
type Prog struct {
	Fset    *token.FileSet
	Repo    string
	Pkgs    map[string]*ssa.Package // short name (streams, sak, stores, msk) -> package
	TPkgs   map[string]*packages.Package
	Funcs   map[string]*ssa.Function // canonical name -> function (origin, with body)
	All     []*ssa.Function          // every in-repo function with a body, closures included
	inRep   map[*types.Package]bool
	sprog   map[*ssa.Package]*ssa.Program
	info    map[*ssa.Function]*FnInfo
	names   map[*ssa.Function]string
	idx     *progIndex
	Renamed []string // names which differ from those of the reviewed tree
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
	return append(env, buildEnv...)
}

// buildEnv, buildTags: the build configuration analysed, if not that of the host.
var (
	buildEnv  []string
	buildTags []string
)

// overlay: file contents used instead of those on disk (development aid).
var overlay map[string][]byte

// Load type-checks the modules under repo.
func Load(repo string) (*Prog, error) {
	p := &Prog{Repo: repo, Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*packages.Package{}, Funcs: map[string]*ssa.Function{},
		inRep: map[*types.Package]bool{}, info: map[*ssa.Function]*FnInfo{}, names: map[*ssa.Function]string{}, sprog: map[*ssa.Package]*ssa.Program{}}
	fset := newFset()
	p.Fset = fset
	for _, mod := range []string{"streams", "msk"} {
		pkgs, err := loadModule(repo, mod, fset)
		if err != nil {
			return nil, err
		}
		var keep []*packages.Package
		for _, pk := range pkgs {
			if len(pk.Errors) > 0 {
				return nil, fmt.Errorf("%s does not type-check: %v", pk.PkgPath, pk.Errors[0])
			}
			rel := strings.TrimPrefix(pk.PkgPath, modPath)
			switch rel {
			case "streams", "streams/sak", "streams/stores", "msk":
				keep = append(keep, pk)
			default:
				keep = append(keep, pk)
			}
		}
		p.Renamed = append(p.Renamed, matchNames(keep)...)
		prog, spkgs := ssautil.Packages(keep, ssa.BuilderMode(0))
		prog.Build()
		for i, sp := range spkgs {
			if sp == nil {
				return nil, fmt.Errorf("no SSA for %s", keep[i].PkgPath)
			}
			short := keep[i].Name
			if !strings.HasPrefix(keep[i].PkgPath, modPath) {
				continue
			}
			if _, dup := p.Pkgs[short]; dup || short == "main" {
				continue
			}
			p.Pkgs[short] = sp
			p.TPkgs[short] = keep[i]
			p.inRep[sp.Pkg] = true
			p.sprog[sp] = prog
		}
		for fn := range ssautil.AllFunctions(prog) {
			if fn.Pkg == nil || !p.inRep[fn.Pkg.Pkg] || fn.Blocks == nil {
				continue
			}
			if fn.Origin() != nil && fn.Origin() != fn {
				continue
			}
			if fn.Synthetic != "" && fn.Parent() == nil && fn.Object() == nil && fn.Name() != "init" {
				continue
			}
			if strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") {
				continue
			}
			p.All = append(p.All, fn)
		}
		// methods of generic types are not reached by AllFunctions unless used
		for _, sp := range spkgs {
			for _, m := range sp.Members {
				t, ok := m.(*ssa.Type)
				if !ok {
					continue
				}
				n, ok := t.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if fn := prog.FuncValue(n.Method(i)); fn != nil && fn.Blocks != nil {
						p.All = append(p.All, fn)
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var all []*ssa.Function
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		all = append(all, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, fn := range p.All {
		add(fn)
	}
	sort.Slice(all, func(i, j int) bool {
		if all[i].Pos() != all[j].Pos() {
			return all[i].Pos() < all[j].Pos()
		}
		return p.Name(all[i]) < p.Name(all[j])
	})
	p.All = all
	for _, fn := range all {
		if _, dup := p.Funcs[p.Name(fn)]; !dup {
			p.Funcs[p.Name(fn)] = fn
		}
	}
	for _, want := range []string{"streams", "sak", "stores", "msk"} {
		if p.Pkgs[want] == nil {
			return nil, fmt.Errorf("package %s not found", want)
		}
	}
	return p, nil
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return p.inRep[fn.Pkg.Pkg]
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.inRep[o.Pkg()]
	}
	return false
}

func pkgShort(tp *types.Package) string {
	if tp == nil {
		return ""
	}
	path := tp.Path()
	if path == modPath+"streams" {
		return ""
	}
	return tp.Name() + "."
}

func typeName(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return typeName(u.Elem())
	case *types.Named:
		return pkgShort(u.Obj().Pkg()) + shown(u.Obj())
	case *types.TypeParam:
		return u.Obj().Name()
	case *types.Slice:
		return "[]" + typeName(u.Elem())
	case *types.Array:
		return "[]" + typeName(u.Elem())
	case *types.Map:
		return "map[" + typeName(u.Key()) + "]" + typeName(u.Elem())
	case *types.Chan:
		return "chan " + typeName(u.Elem())
	case *types.Signature:
		return "func"
	case *types.Struct:
		return "struct"
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "any"
		}
		return "interface"
	}
	return t.String()
}

// origin of a function (generic body)
func orig(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

// Name is the canonical name of a function: Type.method or pkg.Func.
func (p *Prog) Name(fn *ssa.Function) string {
	fn = orig(fn)
	if n, ok := p.names[fn]; ok {
		return n
	}
	n := p.name0(fn)
	p.names[fn] = n
	return n
}

func (p *Prog) name0(fn *ssa.Function) string {
	if fn.Parent() != nil {
		par := orig(fn.Parent())
		for i, a := range par.AnonFuncs {
			if a == fn {
				return fmt.Sprintf("%s$%d", p.Name(par), i+1)
			}
		}
		return p.Name(par) + "$" + fn.Name()
	}
	if o, ok := fn.Object().(*types.Func); ok {
		return objName(o)
	}
	if fn.Signature.Recv() != nil {
		return typeName(fn.Signature.Recv().Type()) + "." + fn.Name()
	}
	pre := ""
	if fn.Pkg != nil {
		pre = pkgShort(fn.Pkg.Pkg)
	}
	return pre + fn.Name()
}

func objName(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		n := typeName(t)
		if n == "interface" || n == "any" {
			n = "iface"
		}
		return n + "." + shown(o.Origin())
	}
	return pkgShort(o.Pkg()) + shown(o.Origin())
}

func (p *Prog) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---------------------------------------------------------------- per function facts

// FnInfo holds facts of one function: liveness of bound values, loops.
type FnInfo struct {
	live    []map[ssa.Value]bool // live-in bound values per block
	inLoop  []bool
	back    map[[2]int]bool // back edges (from,to)
	loopOf  map[int]map[int]bool
	mu      map[*ssa.Phi]bool // inductive loop phis
	deps    map[ssa.Value]map[ssa.Value]bool
	index   map[ssa.Instruction]int
	exitsTo []bool
	tests   map[ssa.Value]map[*ssa.BasicBlock]bool // registers of type bool and the blocks which test or pass them on
	nuses   map[ssa.Value]int
}

func isBound(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Phi, *ssa.Parameter, *ssa.FreeVar, *ssa.Call, *ssa.Alloc, *ssa.Select, *ssa.Next, *ssa.Lookup, *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeSlice, *ssa.TypeAssert, *ssa.Slice, *ssa.MakeClosure:
		return true
	case *ssa.UnOp:
		return x.Op == token.MUL || x.Op == token.ARROW
	case *ssa.Field:
		return true
	}
	return false
}

// localBool: a boolean variable which only its function reads and writes.
func localBool(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	if bt, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
		return false
	}
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (p *Prog) Info(fn *ssa.Function) *FnInfo {
	if i, ok := p.info[fn]; ok {
		return i
	}
	in := &FnInfo{back: map[[2]int]bool{}, loopOf: map[int]map[int]bool{}, mu: map[*ssa.Phi]bool{}, deps: map[ssa.Value]map[ssa.Value]bool{}, index: map[ssa.Instruction]int{}}
	p.info[fn] = in
	n := len(fn.Blocks)
	in.inLoop = make([]bool, n)
	in.tests = map[ssa.Value]map[*ssa.BasicBlock]bool{}
	in.nuses = map[ssa.Value]int{}
	use1 := func(v ssa.Value, b *ssa.BasicBlock) {
		if localBool(v) {
			in.nuses[v]++
			if in.tests[v] == nil {
				in.tests[v] = map[*ssa.BasicBlock]bool{}
			}
			in.tests[v][b] = true
			return
		}
		if bt, ok := v.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
			return
		}
		v, _ = regOf(v)
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		if in.tests[v] == nil {
			in.tests[v] = map[*ssa.BasicBlock]bool{}
		}
		in.tests[v][b] = true
		in.nuses[v]++
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.If:
				use1(x.Cond, b)
			case *ssa.Store:
				if localBool(x.Addr) {
					use1(x.Val, b)
				}
			case *ssa.UnOp:
				if localBool(x.X) {
					use1(x.X, b)
				}
			case *ssa.Return:
				for _, r := range x.Results {
					use1(r, b)
				}
			case *ssa.Call:
				if !x.Call.IsInvoke() {
					for _, a := range x.Call.Args {
						use1(a, b)
					}
				}
			case *ssa.Phi:
				for i, e := range x.Edges {
					use1(e, b.Preds[i])
				}
			}
		}
	}
	k := 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			k++
			in.index[ins] = k
		}
	}
	// loops: back edges are edges to dominators
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				in.back[[2]int{b.Index, s.Index}] = true
				body := in.loopOf[s.Index]
				if body == nil {
					body = map[int]bool{s.Index: true}
					in.loopOf[s.Index] = body
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if body[x.Index] {
						continue
					}
					body[x.Index] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	for _, body := range in.loopOf {
		for i := range body {
			in.inLoop[i] = true
		}
	}
	// inductive phis
	for h, body := range in.loopOf {
		for _, ins := range fn.Blocks[h].Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range phi.Edges {
				if in.back[[2]int{fn.Blocks[h].Preds[i].Index, h}] && inductive(e, phi, body, map[ssa.Value]bool{}, false) {
					in.mu[phi] = true
				}
			}
		}
	}
	// transitive deps on bound values
	var deps func(v ssa.Value) map[ssa.Value]bool
	deps = func(v ssa.Value) map[ssa.Value]bool {
		if d, ok := in.deps[v]; ok {
			return d
		}
		d := map[ssa.Value]bool{}
		in.deps[v] = d
		if isBound(v) {
			d[v] = true
			return d
		}
		if ins, ok := v.(ssa.Instruction); ok {
			for _, op := range ins.Operands(nil) {
				if *op != nil {
					for x := range deps(*op) {
						d[x] = true
					}
				}
			}
		}
		return d
	}
	// liveness
	use := make([]map[ssa.Value]bool, n)
	def := make([]map[ssa.Value]bool, n)
	phiUse := make([]map[ssa.Value]bool, n) // at end of pred
	for i := range use {
		use[i], def[i], phiUse[i] = map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				def[b.Index][phi] = true
				for i, e := range phi.Edges {
					for x := range deps(e) {
						phiUse[b.Preds[i].Index][x] = true
					}
				}
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					continue
				}
				for x := range deps(*op) {
					if !def[b.Index][x] {
						use[b.Index][x] = true
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok && isBound(v) {
				def[b.Index][v] = true
			}
		}
		for x := range phiUse[b.Index] {
			_ = x
		}
	}
	in.live = make([]map[ssa.Value]bool, n)
	for i := range in.live {
		in.live[i] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for x := range in.live[s.Index] {
					out[x] = true
				}
			}
			for x := range phiUse[i] {
				out[x] = true
			}
			for x := range use[i] {
				if !in.live[i][x] {
					in.live[i][x] = true
					ch = true
				}
			}
			for x := range out {
				if phi, ok := x.(*ssa.Phi); ok && phi.Block() == b {
					continue
				}
				if !def[i][x] && !in.live[i][x] {
					in.live[i][x] = true
					ch = true
				}
			}
		}
	}
	// phi values defined at block start are considered live there (they are bound on entry)
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if used := phi.Referrers(); used != nil && len(*used) > 0 {
				in.live[b.Index][phi] = true
				if in.mu[phi] { // keeps its value through the whole loop
					for i := range in.loopOf[b.Index] {
						in.live[i][phi] = true
					}
				}
			}
		}
	}
	return in
}

// inductive: does e depend on phi through a non-phi instruction?
func inductive(e ssa.Value, phi *ssa.Phi, body map[int]bool, seen map[ssa.Value]bool, via bool) bool {
	if e == ssa.Value(phi) {
		return via
	}
	ins, ok := e.(ssa.Instruction)
	if !ok || ins.Block() == nil || !body[ins.Block().Index] {
		return false
	}
	if seen[e] {
		return false
	}
	seen[e] = true
	defer delete(seen, e)
	_, isPhi := e.(*ssa.Phi)
	for _, op := range ins.Operands(nil) {
		if *op != nil && inductive(*op, phi, body, seen, via || !isPhi) {
			return true
		}
	}
	return false
}
