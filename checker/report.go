package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct{ prop, key, text string }

func readKnown(path string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		// known: property=C05 rule=<rule> func=<function> <text>
		k := knownFinding{}
		var rule, fn string
		var rest []string
		for _, w := range strings.Fields(strings.TrimPrefix(l, "known:")) {
			switch {
			case strings.HasPrefix(w, "property=") && k.prop == "":
				k.prop = w[9:]
			case strings.HasPrefix(w, "rule=") && rule == "":
				rule = w[5:]
			case strings.HasPrefix(w, "func=") && fn == "":
				fn = w[5:]
			default:
				rest = append(rest, w)
			}
		}
		k.key = rule + "|" + fn + "|"
		k.text = strings.Join(rest, " ")
		out = append(out, k)
	}
	return out
}

func runRule(p *Prog, ru *Rule) (r *R) {
	r = &R{p: p, rule: ru, funcs: map[string]bool{}, roots: map[string]bool{}}
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(abort); ok {
				r.viol = append(r.viol, Violation{Rule: ru.ID, Msg: "cannot be decided: " + a.msg, Where: "-", Func: "-", Key: ru.ID + "|-|" + a.msg})
				return
			}
			r.viol = append(r.viol, Violation{Rule: ru.ID, Msg: fmt.Sprintf("internal error: %v", e), Where: "-", Func: "-", Key: ru.ID + "|-|panic", Path: strings.Split(string(debug.Stack()), "\n")})
		}
	}()
	ru.Run(r)
	return r
}

// buildCfg: a build configuration; files and constants may depend on it.
type buildCfg struct {
	name       string
	env, flags []string
}

func (c buildCfg) String() string {
	if c.name == "" {
		return "host"
	}
	return c.name
}

func (c buildCfg) in() string {
	if c.name == "" {
		return ""
	}
	return "[" + c.name + "] "
}

// otherBuilds: what the thorough tier analyses besides the configuration of the host.
var otherBuilds = []buildCfg{
	{"linux/arm64", []string{"GOOS=linux", "GOARCH=arm64", "CGO_ENABLED=0"}, nil},
	{"darwin/arm64", []string{"GOOS=darwin", "GOARCH=arm64", "CGO_ENABLED=0"}, nil},
	{"windows/amd64", []string{"GOOS=windows", "GOARCH=amd64", "CGO_ENABLED=0"}, nil},
	{"host, tags verif race", nil, []string{"-tags=verif,race"}},
}

// toolchain: a configuration could not be loaded for reasons outside the repository.
func toolchain(err error) bool { return !strings.Contains(err.Error(), modPath) }

// check runs all rules of one property and returns the exit code.
func check(repo, home, id, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "other"}
	evdir := filepath.Join(home, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, id+".replay.txt")
	os.Remove(replay)
	var viol []Violation
	var samples []string
	var descs []string
	insts, nodes, nrules := 0, 0, 0
	funcs, roots, seen := map[string]bool{}, map[string]bool{}, map[string]bool{}
	cfgs := []buildCfg{{}}
	if tier == "thorough" {
		cfgs = append(cfgs, otherBuilds...)
	}
	var built []string
	for _, c := range cfgs {
		buildEnv, buildTags = c.env, c.flags
		p, err := Load(repo)
		if err != nil && c.name != "" && toolchain(err) {
			built = append(built, c.name+": not analysed, "+trunc(err.Error(), 200))
			continue
		}
		if err != nil {
			viol = append(viol, Violation{Rule: "load", Msg: c.in() + err.Error(), Where: "-", Func: "-", Key: "load|-|"})
			continue
		}
		n := 0
		for _, ru := range rules {
			in, scope := hasProp(ru.Props, id)
			if !in {
				continue
			}
			nrules++
			n++
			r := runRule(p, ru)
			for _, v := range r.viol {
				if inScope(v, scope) && !seen[v.Key+v.Where] {
					seen[v.Key+v.Where] = true
					v.Msg = c.in() + v.Msg
					viol = append(viol, v)
				}
			}
			insts += r.insts
			nodes += r.nodes
			if r.insts == 0 && len(r.viol) == 0 && scope == nil {
				viol = append(viol, Violation{Rule: ru.ID, Msg: c.in() + "the rule matched nothing (vacuous)", Where: "-", Func: "-", Key: ru.ID + "|-|vacuous"})
			}
			if c.name != "" {
				continue
			}
			for f := range r.funcs {
				funcs[f] = true
			}
			for f := range r.roots {
				roots[f] = true
			}
			descs = append(descs, fmt.Sprintf("%s: %s (%d instances)", ru.ID, ru.Desc, r.insts))
			for _, n := range r.notes {
				if len(samples) < 60 {
					samples = append(samples, ru.ID+": "+n)
				}
			}
		}
		if n == 0 {
			viol = append(viol, Violation{Rule: "none", Msg: "no rule is registered for " + id, Key: "none||"})
		}
		built = append(built, c.String())
	}
	buildEnv, buildTags = nil, nil
	known := readKnown(filepath.Join(home, "known_findings.txt"))
	var fresh []Violation
	nk := 0
	for _, v := range viol {
		listed := false
		for _, k := range known {
			if k.prop == id && strings.HasPrefix(v.Key, k.key) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				listed = true
				nk++
				break
			}
		}
		if !listed {
			fresh = append(fresh, v)
		}
	}
	rl := keys(roots)
	fl := keys(funcs)
	ev["coverage"] = map[string]interface{}{
		"explanation":       "Static rules decided over the exploded event graphs (virtually inlined SSA of the current source). Each rule below was evaluated on every abstract path of the listed roots.",
		"rules":             descs,
		"rules_evaluated":   nrules,
		"obligations":       insts,
		"violated":          len(fresh),
		"known_findings":    nk,
		"abstract_events":   nodes,
		"builds":            built,
		"roots":             rl,
		"functions_inlined": len(fl),
		"functions":         fl,
		"samples":           samples,
	}
	ev["assumptions"] = []string{
		"third-party packages (franz-go, btree, AWS SDK) and the Go runtime behave as documented; their bodies are not analysed",
		"two loads of the same field on one path yield the same value unless the path stores to it",
	}
	if tier == "" {
		ev["tier"] = "quick"
	}
	vs := []map[string]interface{}{}
	for _, v := range fresh {
		vs = append(vs, map[string]interface{}{"rule": v.Rule, "message": v.Msg, "where": v.Where, "function": v.Func})
	}
	if len(vs) > 0 {
		ev["violations"] = vs
	}
	ev["wall_s"] = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	if len(fresh) > 0 {
		var sb strings.Builder
		for _, v := range fresh {
			fmt.Fprintf(&sb, "property %s, rule %s\n  %s: in %s: %s\n", id, v.Rule, v.Where, v.Func, v.Msg)
			for _, l := range v.Path {
				fmt.Fprintf(&sb, "      %s\n", l)
			}
			fmt.Printf("%s: %s: %s: %s\n", v.Rule, v.Where, v.Func, trunc(v.Msg, 600))
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("ok property=%s rules=%d obligations=%d functions=%d %.1fs\n", id, nrules, insts, len(fl), time.Since(t0).Seconds())
	return 0
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
