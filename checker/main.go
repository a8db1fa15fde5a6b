package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

var (
	fRepo  = flag.String("repo", "/repo", "repository")
	fDump  = flag.String("dump", "", "print the exploded event graph of a function")
	fFork  = flag.Bool("fork", true, "fork goroutines in the dump")
	fNo    = flag.String("noinline", "", "comma separated functions the dump does not inline")
	fList  = flag.Bool("list", false, "list functions")
	fOver  = flag.String("overlay", "", "JSON file with file contents to use instead (development aid)")
	fBase  = flag.String("baseline", "", "write the names of the repository to this file")
	fFirst = flag.Bool("first", false, "stop at the first violated rule")
	fBatch = flag.Bool("batch", false, "read names of overlay files and analyse each (development aid)")
	fRules = flag.Bool("rules", false, "list the rules")
	fFull  = flag.Bool("full", false, "dump loads, joins")
)

var (
	fCheck = flag.String("check", "", "check a property (or all)")
	fTier  = flag.String("tier", "quick", "quick or thorough")
	fHome  = flag.String("home", "/verif", "where evidence and known findings live")
	fRule  = flag.String("rule", "", "run the rules whose id matches and print details")
)

func main() {
	flag.Parse()
	if *fOver != "" {
		b, err := os.ReadFile(*fOver)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		m := map[string]string{}
		if err := json.Unmarshal(b, &m); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		overlay = map[string][]byte{}
		for k, v := range m {
			overlay[k] = []byte(v)
		}
	}
	debug.SetMaxStack(128 << 20)
	t0 := time.Now()
	if *fCheck != "" && *fCheck != "all" {
		os.Exit(check(*fRepo, *fHome, *fCheck, *fTier))
	}
	if *fBatch {
		batch(*fRepo, *fFirst)
		return
	}
	if *fRules {
		for _, ru := range rules {
			fmt.Printf("%s\t%s\t%s\n", ru.ID, propNames(ru.Props), ru.Desc)
		}
		return
	}
	if *fBase != "" {
		if err := writeBaseline(*fRepo, *fBase); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		return
	}
	p, err := Load(*fRepo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	if *fCheck == "all" || *fRule != "" {
		bad := 0
		for _, ru := range rules {
			if *fRule != "" && !globs(*fRule, ru.ID) {
				continue
			}
			t := time.Now()
			r := runRule(p, ru)
			if len(r.viol) == 0 && r.insts == 0 {
				r.viol = append(r.viol, Violation{Rule: ru.ID, Msg: "vacuous"})
			}
			st := "ok"
			if len(r.viol) > 0 {
				st = "VIOL"
				bad++
			}
			if *fFirst && bad > 0 {
				fmt.Println("VIOL", ru.ID)
				os.Exit(1)
			}
			if *fRule != "" || st != "ok" || time.Since(t) > 2*time.Second {
				fmt.Printf("%-4s %-28s [%s] inst=%d nodes=%d %v\n", st, ru.ID, propNames(ru.Props), r.insts, r.nodes, time.Since(t).Round(time.Millisecond))
			}
			if *fFull {
				var fs []string
				for f := range r.funcs {
					fs = append(fs, f)
				}
				sort.Strings(fs)
				fmt.Println("funcs", ru.ID, strings.Join(fs, " "))
				for _, l := range r.notes {
					fmt.Println("     .", l)
				}
			}
			for _, v := range r.viol {
				fmt.Printf("     %s %s: %s\n", v.Where, v.Func, trunc(v.Msg, 700))
				if *fFull {
					for _, l := range v.Path {
						fmt.Println("         ", trunc(l, 220))
					}
				}
			}
		}
		fmt.Println(len(rules), "rules,", bad, "violated,", time.Since(t0).Round(time.Millisecond))
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	if *fList {
		var ns []string
		for n := range p.Funcs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	if *fDump != "" {
		if *fDump == "all" {
			for _, fn := range p.All {
				t := time.Now()
				g, err := p.Explore(fn, Opts{Fork: *fFork})
				if err != nil {
					fmt.Println("ERR", p.Name(fn), err)
					continue
				}
				fmt.Println(p.Name(fn), len(g.Nodes), g.Frames, time.Since(t))
			}
			fmt.Println(time.Since(t0))
			return
		}
		fn := p.Funcs[*fDump]
		if fn == nil {
			fmt.Println("no function", *fDump)
			os.Exit(1)
		}
		no := map[string]bool{}
		for _, x := range strings.Split(*fNo, ",") {
			no[x] = true
		}
		g, err := p.Explore(fn, Opts{Fork: *fFork, NoInline: func(n string) bool { return no[n] }})
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		g.Dump(*fFull)
		fmt.Println(len(g.Nodes), "nodes", g.Frames, "frames", time.Since(t0))
		return
	}
}
