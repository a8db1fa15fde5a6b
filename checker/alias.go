package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Rules name functions, types, fields, variables and constants of the repository. A refactoring may
// give unexported ones another name, so the names in the analysed source are first matched with
// those of the reviewed tree (baseline.json): an unexported name of the baseline which is gone is
// taken to be a new one of the same kind, in the same place (type, receiver), with the same shape
// (type, signature, fields) and a similar body, when there is exactly one such pair.

//go:embed baseline.json
var baselineJSON []byte

type blField struct{ Name, Type string }

type blType struct {
	Under  string // of a type which is not a struct
	Fields []blField
}

type blFunc struct {
	Sig  string
	Toks map[string]int
}

type blPkg struct {
	Types  map[string]*blType
	Funcs  map[string]*blFunc // "f" or "T.m"
	Values map[string]string  // package level variables and constants: kind and type (and value)
}

var aliasObj = map[types.Object]string{}

// shown is the name the rules know an object by.
func shown(o types.Object) string {
	if n, ok := aliasObj[o]; ok {
		return n
	}
	return o.Name()
}

func describe(pk *packages.Package) *blPkg {
	d := &blPkg{map[string]*blType{}, map[string]*blFunc{}, map[string]string{}}
	q := func(p *types.Package) string {
		if p == pk.Types {
			return ""
		}
		return p.Name()
	}
	sc := pk.Types.Scope()
	for _, n := range sc.Names() {
		switch o := sc.Lookup(n).(type) {
		case *types.TypeName:
			t := &blType{}
			if st, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					t.Fields = append(t.Fields, blField{st.Field(i).Name(), types.TypeString(st.Field(i).Type(), q)})
				}
			} else {
				t.Under = types.TypeString(o.Type().Underlying(), q)
			}
			d.Types[n] = t
		case *types.Var:
			d.Values[n] = "var " + types.TypeString(o.Type(), q)
		case *types.Const:
			d.Values[n] = "const " + types.TypeString(o.Type(), q) + " " + o.Val().ExactString()
		}
	}
	for _, f := range pk.Syntax {
		for _, dc := range f.Decls {
			fd, ok := dc.(*ast.FuncDecl)
			if !ok {
				continue
			}
			o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func)
			if !ok {
				continue
			}
			fn := &blFunc{Toks: map[string]int{}}
			sig := o.Type().(*types.Signature)
			fn.Sig = sigTypes(sig, q)
			if fd.Body != nil {
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.SelectorExpr:
						fn.Toks[x.Sel.Name]++
					case *ast.CallExpr:
						if id, ok := x.Fun.(*ast.Ident); ok {
							fn.Toks[id.Name]++
						}
					case *ast.BasicLit:
						fn.Toks[x.Value]++
					case *ast.IfStmt:
						fn.Toks["if"]++
					case *ast.ForStmt, *ast.RangeStmt:
						fn.Toks["for"]++
					case *ast.ReturnStmt:
						fn.Toks["return"]++
					case *ast.GoStmt:
						fn.Toks["go"]++
					}
					return true
				})
			}
			name := fd.Name.Name
			if sig.Recv() != nil {
				name = recvName(sig) + "." + name
			}
			d.Funcs[name] = fn
		}
	}
	return d
}

func recvName(sig *types.Signature) string {
	t := sig.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return "?"
}

func sigTypes(sig *types.Signature, q types.Qualifier) string {
	var p, r []string
	for i := 0; i < sig.Params().Len(); i++ {
		p = append(p, types.TypeString(sig.Params().At(i).Type(), q))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, types.TypeString(sig.Results().At(i).Type(), q))
	}
	return strings.Join(p, ", ") + " -> " + strings.Join(r, ", ")
}

func writeBaseline(repo, to string) error {
	out := map[string]*blPkg{}
	for _, mod := range []string{"streams", "msk"} {
		pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: filepath.Join(repo, mod), Env: goEnv()}, "./...")
		if err != nil {
			return err
		}
		for _, pk := range pkgs {
			if strings.HasPrefix(pk.PkgPath, modPath) {
				out[pk.PkgPath] = describe(pk)
			}
		}
	}
	b, err := json.Marshal(out)
	if err != nil {
		return err
	}
	return os.WriteFile(to, append(b, '\n'), 0o644)
}

func similar(a, b map[string]int) float64 {
	in, all := 0, 0
	for k, n := range a {
		m := b[k]
		if m < n {
			n, m = m, n
		}
		in += n
		all += m
	}
	for k, m := range b {
		if _, ok := a[k]; !ok {
			all += m
		}
	}
	if all == 0 {
		return 1
	}
	return float64(in) / float64(all)
}

var wordRe = regexp.MustCompile(`[\pL_][\pL_0-9]*`)

// rename applies a renaming (new name -> baseline name) to the identifiers of a type string.
func rename(s string, m map[string]string) string {
	if len(m) == 0 {
		return s
	}
	return wordRe.ReplaceAllStringFunc(s, func(w string) string {
		if o, ok := m[w]; ok {
			return o
		}
		return w
	})
}

// matchNames fills aliasObj. It returns the renamings found.
func matchNames(pkgs []*packages.Package) []string {
	base := map[string]*blPkg{}
	if err := json.Unmarshal(baselineJSON, &base); err != nil {
		return nil
	}
	var notes []string
	exported := func(n string) bool { return ast.IsExported(n) }
	for _, pk := range pkgs {
		b := base[pk.PkgPath]
		if b == nil {
			continue
		}
		cur := describe(pk)
		tmap := map[string]string{} // new type name -> old
		// types
		type cand struct {
			old, new string
			score    float64
		}
		pick := func(cs []cand) map[string]string {
			sort.Slice(cs, func(i, j int) bool {
				if cs[i].score != cs[j].score {
					return cs[i].score > cs[j].score
				}
				return cs[i].old+cs[i].new < cs[j].old+cs[j].new
			})
			uo, un, out := map[string]bool{}, map[string]bool{}, map[string]string{}
			for _, c := range cs {
				if !uo[c.old] && !un[c.new] {
					uo[c.old], un[c.new] = true, true
					out[c.new] = c.old
				}
			}
			return out
		}
		methods := func(p *blPkg, t string) map[string]int {
			m := map[string]int{}
			for n := range p.Funcs {
				if strings.HasPrefix(n, t+".") {
					m[n[len(t)+1:]] = 1
				}
			}
			return m
		}
		var cs []cand
		for o, ot := range b.Types {
			if exported(o) || cur.Types[o] != nil {
				continue
			}
			for n, nt := range cur.Types {
				if exported(n) || b.Types[n] != nil {
					continue
				}
				fa, fb := methods(b, o), methods(cur, n)
				one := map[string]string{n: o}
				for _, f := range ot.Fields {
					fa["f:"+f.Name+" "+f.Type]++
				}
				for _, f := range nt.Fields {
					fb["f:"+f.Name+" "+rename(f.Type, one)]++
				}
				fa["u:"+ot.Under]++
				fb["u:"+rename(nt.Under, one)]++
				if s := similar(fa, fb); s > 0.5 {
					cs = append(cs, cand{o, n, s})
				}
			}
		}
		for n, o := range pick(cs) {
			tmap[n] = o
			ob := pk.Types.Scope().Lookup(n)
			aliasObj[ob] = o
			notes = append(notes, "type "+o+" is now "+n)
		}
		old := func(t string) string {
			if o, ok := tmap[t]; ok {
				return o
			}
			return t
		}
		// fields
		for n, nt := range cur.Types {
			ot := b.Types[old(n)]
			if ot == nil || len(nt.Fields) == 0 {
				continue
			}
			on, nn := map[string]bool{}, map[string]bool{}
			for _, f := range ot.Fields {
				on[f.Name] = true
			}
			for _, f := range nt.Fields {
				nn[f.Name] = true
			}
			var gone, added []int
			for i, f := range ot.Fields {
				if !nn[f.Name] && !exported(f.Name) {
					gone = append(gone, i)
				}
			}
			for i, f := range nt.Fields {
				if !on[f.Name] && !exported(f.Name) {
					added = append(added, i)
				}
			}
			var cs []cand
			for _, i := range gone {
				for _, j := range added {
					if rename(nt.Fields[j].Type, tmap) == ot.Fields[i].Type {
						s := 1.0
						if i != j {
							s = 0.5
						}
						cs = append(cs, cand{fmt.Sprint(i), fmt.Sprint(j), s})
					}
				}
			}
			st := pk.Types.Scope().Lookup(n).Type().Underlying().(*types.Struct)
			for j, i := range pick(cs) {
				var ii, jj int
				fmt.Sscan(i, &ii)
				fmt.Sscan(j, &jj)
				aliasObj[st.Field(jj).Origin()] = ot.Fields[ii].Name
				notes = append(notes, "field "+old(n)+"."+ot.Fields[ii].Name+" is now "+nt.Fields[jj].Name)
			}
		}
		// functions and methods
		canon := func(n string) string {
			if i := strings.Index(n, "."); i >= 0 {
				return old(n[:i]) + n[i:]
			}
			return n
		}
		have := map[string]string{}
		for n := range cur.Funcs {
			have[canon(n)] = n
		}
		// the names of methods may have changed together with those of an interface
		cs = nil
		for o, of := range b.Funcs {
			if _, ok := have[o]; ok || exported(o[strings.Index(o, ".")+1:]) {
				continue
			}
			for n, nf := range cur.Funcs {
				c := canon(n)
				if b.Funcs[c] != nil || exported(n[strings.Index(n, ".")+1:]) {
					continue
				}
				oi, ci := strings.Index(o, "."), strings.Index(c, ".")
				if oi < 0 != (ci < 0) || oi >= 0 && o[:oi] != c[:ci] || rename(nf.Sig, tmap) != of.Sig {
					continue
				}
				toks := map[string]int{}
				for k, v := range nf.Toks {
					toks[rename(k, tmap)] += v
				}
				if s := similar(of.Toks, toks); s > 0.4 {
					cs = append(cs, cand{o, n, s})
				}
			}
		}
		fm := pick(cs)
		for _, f := range pk.Syntax {
			for _, dc := range f.Decls {
				if fd, ok := dc.(*ast.FuncDecl); ok {
					o, _ := pk.TypesInfo.Defs[fd.Name].(*types.Func)
					if o == nil {
						continue
					}
					name := fd.Name.Name
					if sig := o.Type().(*types.Signature); sig.Recv() != nil {
						name = recvName(sig) + "." + name
					}
					if was, ok := fm[name]; ok {
						aliasObj[o] = was[strings.Index(was, ".")+1:]
						notes = append(notes, "function "+was+" is now "+name)
					}
				}
			}
		}
		// methods of interfaces
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || b.Types[old(n)] == nil {
				continue
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i)
				if exported(m.Name()) || strings.Contains(b.Types[old(n)].Under, m.Name()+"(") {
					continue
				}
				for nw, was := range fm {
					if strings.HasSuffix(nw, "."+m.Name()) {
						aliasObj[m] = was[strings.Index(was, ".")+1:]
					}
				}
			}
		}
		// variables and constants
		cs = nil
		for o, ot := range b.Values {
			if exported(o) || cur.Values[o] != "" {
				continue
			}
			for n, nt := range cur.Values {
				if exported(n) || b.Values[n] != "" || rename(nt, tmap) != ot {
					continue
				}
				cs = append(cs, cand{o, n, similar(map[string]int{o: 1}, map[string]int{n: 1})})
			}
		}
		for n, o := range pick(cs) {
			aliasObj[pk.Types.Scope().Lookup(n)] = o
			notes = append(notes, "value "+o+" is now "+n)
		}
	}
	sort.Strings(notes)
	return notes
}

func shownGlobal(g *ssa.Global) string {
	if o := g.Object(); o != nil {
		return shown(o)
	}
	return g.Name()
}

// lookup finds a package level object by the name the rules know it by.
func lookup(pk *types.Package, name string) types.Object {
	for _, n := range pk.Scope().Names() {
		if o := pk.Scope().Lookup(n); shown(o) == name {
			return o
		}
	}
	return nil
}
