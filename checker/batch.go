package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

// Batch mode (development aid): many variants of single files are analysed in one process, only the
// changed packages are type-checked again.

var (
	batchMode bool
	batchFset *token.FileSet
	batchPkgs = map[string][]*packages.Package{}
)

func newFset() *token.FileSet {
	if !batchMode {
		return token.NewFileSet()
	}
	if batchFset == nil {
		batchFset = token.NewFileSet()
	}
	return batchFset
}

func loadModule(repo, mod string, fset *token.FileSet) ([]*packages.Package, error) {
	if batchMode && batchPkgs[mod] != nil {
		return recheck(batchPkgs[mod], fset)
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: filepath.Join(repo, mod), Env: goEnv(), Fset: fset, Overlay: overlay, BuildFlags: buildTags}
	pkgs, err := packages.Load(cfg, "./...")
	if batchMode && err == nil {
		batchPkgs[mod] = pkgs
	}
	return pkgs, err
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

func recheck(pkgs []*packages.Package, fset *token.FileSet) ([]*packages.Package, error) {
	byPath := map[string]*packages.Package{}
	for _, pk := range pkgs {
		byPath[pk.PkgPath] = pk
	}
	done := map[string]*packages.Package{}
	var visit func(pk *packages.Package) (*packages.Package, error)
	visit = func(pk *packages.Package) (*packages.Package, error) {
		if n := done[pk.PkgPath]; n != nil {
			return n, nil
		}
		dirty := false
		n := *pk
		n.Imports = map[string]*packages.Package{}
		for k, im := range pk.Imports {
			n.Imports[k] = im
			if q := byPath[im.PkgPath]; q != nil {
				m, err := visit(q)
				if err != nil {
					return nil, err
				}
				if m != q {
					dirty = true
					n.Imports[k] = m
				}
			}
		}
		n.Syntax = append([]*ast.File(nil), pk.Syntax...)
		for i, f := range pk.CompiledGoFiles {
			if src, ok := overlay[f]; ok {
				dirty = true
				af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
				if err != nil {
					return nil, err
				}
				n.Syntax[i] = af
			}
		}
		if !dirty {
			done[pk.PkgPath] = pk
			return pk, nil
		}
		var first error
		cfg := types.Config{Importer: impFunc(func(p string) (*types.Package, error) {
			if p == "unsafe" {
				return types.Unsafe, nil
			}
			if im := n.Imports[p]; im != nil {
				return im.Types, nil
			}
			return nil, fmt.Errorf("no package %s", p)
		}), Error: func(err error) {
			if first == nil {
				first = err
			}
		}, Sizes: pk.TypesSizes}
		if pk.Module != nil && pk.Module.GoVersion != "" {
			cfg.GoVersion = "go" + pk.Module.GoVersion
		}
		n.TypesInfo = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
		n.Types = types.NewPackage(pk.PkgPath, pk.Name)
		types.NewChecker(&cfg, fset, n.Types, n.TypesInfo).Files(n.Syntax)
		if first != nil {
			return nil, first
		}
		done[pk.PkgPath] = &n
		return &n, nil
	}
	var out []*packages.Package
	for _, pk := range pkgs {
		n, err := visit(pk)
		if err != nil {
			return nil, err
		}
		out = append(out, n)
	}
	return out, nil
}

var closureSuffix = regexp.MustCompile(`\$.*`)

// batch reads names of overlay files and prints one line per file. With first, the rules which
// analyse the changed function are tried first and the first violation ends the run.
func batch(repo string, first bool) {
	batchMode = true
	slow := map[string]bool{} // expensive rules, skipped when they do not analyse the changed function
	run := func(pat map[string]bool, stop bool) (bad []string, det []string, err error) {
		graphCache = map[string]*Graph{}
		aliasObj = map[types.Object]string{}
		p, err := Load(repo)
		if err != nil {
			return nil, nil, err
		}
		order := append([]*Rule(nil), rules...)
		if pat != nil {
			sort.SliceStable(order, func(i, j int) bool { return pat[order[i].ID] && !pat[order[j].ID] })
		}
		for _, ru := range order {
			if pat != nil && slow[ru.ID] && !pat[ru.ID] {
				continue
			}
			r := runRule(p, ru)
			if len(r.viol) > 0 || r.insts == 0 {
				bad = append(bad, ru.ID+"["+propNames(ru.Props)+"]")
				for i, v := range r.viol {
					if i < 3 {
						det = append(det, ru.ID+" "+v.Where+" "+v.Func+": "+trunc(v.Msg, 230))
					}
				}
				if stop {
					break
				}
			}
		}
		return
	}
	rf := map[string]map[string]bool{}
	{
		graphCache = map[string]*Graph{}
		p, err := Load(repo)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(1)
		}
		for _, ru := range rules {
			t := time.Now()
			r := runRule(p, ru)
			slow[ru.ID] = time.Since(t) > 200*time.Millisecond
			for f := range r.funcs {
				if i := strings.Index(f, "."); i > 0 && (f[:i] == "sak" || f[:i] == "stores" || f[:i] == "msk") {
					f = f[i+1:]
				}
				f = closureSuffix.ReplaceAllString(f, "")
				if rf[f] == nil {
					rf[f] = map[string]bool{}
				}
				rf[f][ru.ID] = true
			}
		}
	}
	sc := bufio.NewScanner(os.Stdin)
	w := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		b, err := os.ReadFile(sc.Text())
		if err != nil {
			continue
		}
		m := map[string]string{}
		json.Unmarshal(b, &m)
		overlay = map[string][]byte{}
		for k, v := range m {
			overlay[k] = []byte(v)
		}
		var pat map[string]bool
		if ps := strings.Split(filepath.Base(sc.Text()), "~"); len(ps) > 2 {
			pat = rf[ps[2]]
		}
		bad, det, err := run(pat, first)
		switch {
		case err != nil:
			fmt.Fprintf(w, "%s\tnobuild\t%v\n", sc.Text(), err)
		case len(bad) > 0:
			fmt.Fprintf(w, "%s\tcaught\t%s\t%s\n", sc.Text(), strings.Join(bad, " "), strings.ReplaceAll(strings.Join(det, "\x01"), "\n", " "))
		default:
			fmt.Fprintf(w, "%s\tquiet\t\n", sc.Text())
		}
		w.Flush()
	}
}
