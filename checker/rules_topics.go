package main

import (
	"strconv"
	"strings"
)

// Topic provisioning: topics.go, source.go, event_source.go (C21).

// errFlow follows the errors a function encounters to its result.
type errFlow struct {
	ids  map[string]int
	list []string
	// fine reports errors which need not be returned: handled by what.
	fine func(err, what string) bool
	// skip: errors which are not tracked
	skip func(err string) bool
	// must: calls whose error has to be examined
	must string
}

func (f *errFlow) id(e string) string {
	if f.ids == nil {
		f.ids = map[string]int{}
	}
	i, ok := f.ids[e]
	if !ok {
		i = len(f.list)
		f.ids[e] = i
		f.list = append(f.list, e)
	}
	return strconv.Itoa(i)
}

// step keeps track of e0..en: "1" an error is known to have occurred, "0" known not to.
func (f *errFlow) step(s St, n *Node) (St, string) {
	e := n.E
	switch e.K {
	case KFork:
		return dead, ""
	case KCall:
		// another attempt
		if e.R != nil && e.R.Op == "call" {
			b := e.R.String()
			for i, er := range f.list {
				if er == b || strings.HasPrefix(er, b+"#") {
					s = s.set("e"+strconv.Itoa(i), "").del("t" + strconv.Itoa(i))
				}
			}
			if f.must != "" && globs(f.must, e.Name) {
				s = s.add("q" + f.id(b+"#1"))
			}
		}
	case KBranch:
		x := e.X.String()
		if f.fine != nil && !e.Val {
			er := strings.TrimPrefix(x, "call:errors.Is(")
			if i := strings.LastIndex(er, "==kerr."); i >= 0 {
				er = er[:i]
			} else if i := strings.LastIndex(er, ",kerr."); i >= 0 {
				er = er[:i]
			}
			if er != x && f.fine(er, x) {
				s = s.add("t" + f.id(er))
			}
		}
		if strings.HasSuffix(x, "==nil") && len(e.X.A) > 0 && isErrorX(e.X) {
			er := strings.TrimSuffix(x, "==nil")
			if f.skip != nil && f.skip(er) {
				return s, ""
			}
			v := "1"
			if e.Val {
				v = "0"
			}
			return s.set("e"+f.id(er), v), ""
		}
		if e.Val && f.fine != nil {
			for i, er := range f.list {
				if s.get("e"+strconv.Itoa(i)) == "1" && f.fine(er, x) {
					s = s.set("e"+strconv.Itoa(i), "")
				}
			}
		}
	case KReturn:
		last := e.A[len(e.A)-1].String()
		for i, er := range f.list {
			if s.has("q"+strconv.Itoa(i)) && s.get("e"+strconv.Itoa(i)) == "" && last != er {
				return s, "the error " + short(er) + " is ignored"
			}
			if s.get("e"+strconv.Itoa(i)) != "1" {
				continue
			}
			if last == er && strings.HasSuffix(er, ".Err") && f.fine != nil && (f.fine(er, "call:errors.Is("+er+",kerr.UnknownTopicOrPartition)") || f.fine(er, "call:errors.Is("+er+",kerr.TopicAlreadyExists)")) && !s.has("t"+strconv.Itoa(i)) {
				return s, "the error " + short(er) + " is reported although a missing or existing topic is none"
			}
			if last == "nil" || last != er && !strings.Contains(last, er) && !strings.HasPrefix(last, "call:fmt.Errorf(") && !strings.HasPrefix(last, "call:errors.") {
				if i, ok := f.ids[last]; ok && s.get("e"+strconv.Itoa(i)) == "1" {
					continue
				}
				return s, "the error " + short(er) + " is not returned"
			}
		}
	}
	return s, ""
}

// failed reports whether the function returns an error it has found ("1"), none ("0"), or what a call gave ("").
func (f *errFlow) failed(s St, n *Node) string {
	last := n.E.A[len(n.E.A)-1].String()
	if last == "nil" {
		return "0"
	}
	if i, ok := f.ids[last]; ok {
		return s.get("e" + strconv.Itoa(i))
	}
	if strings.HasPrefix(last, "call:fmt.Errorf(") || strings.HasPrefix(last, "call:errors.New(") {
		return "1"
	}
	return ""
}

func short(s string) string {
	if len(s) > 60 {
		if i := strings.IndexByte(s, '('); i > 0 && i < 60 {
			return s[:i] + "(…" + s[len(s)-min(len(s), 12):]
		}
		return s[:60] + "…"
	}
	return s
}

// isErrorX: x compares an error with nil
func isErrorX(x *X) bool {
	for _, a := range x.A {
		if a.T != nil && a.T.String() == "error" {
			return true
		}
	}
	return false
}

func init() {
	rule("topics.resolve", "C21",
		"every topic is listed on its cluster, used as it is when it exists, created with the effective settings when it is missing, and everything else is reported; the change log must have as many partitions as the source topic",
		func(r *R) {
			g := r.gn("resolveOrCreateTopics", false, "replicationFactorConfig", "minInSyncConfig", "commitLogPartitionsConfig", "Source.StateStoreTopicName", "Source.CommitLogTopicNameForGroupId")
			type topic struct{ name, admin, parts, tok string }
			src := topic{"$0.config.Topic", "$1", "$0.config.NumPartitions", "s"}
			topics := []topic{
				src,
				{"call:Source.CommitLogTopicNameForGroupId($0)", "$2", "call:commitLogPartitionsConfig($0)", "c"},
				{"call:Source.StateStoreTopicName($0)", "$2", "$0.config.NumPartitions", "g"},
			}
			res := func(t topic) string { return "call:kadm.Client.ListTopics*(" + t.admin + ",*)#0" }
			resolved := func(s St, t topic) bool {
				switch s.get(t.tok) {
				case "have":
					switch t.tok {
					case "s":
						return s.has("parts") && s.has("repl")
					case "c":
						return s.has("cparts")
					}
					return s.has("equal")
				case "made", "none":
					return true
				}
				return false
			}
			f := &errFlow{must: "kadm.Client.ListTopics* || kadm.Client.CreateTopics", fine: func(er, what string) bool {
				return what == "call:errors.Is("+er+",kerr.UnknownTopicOrPartition)" && strings.HasSuffix(er, ".Err") && strings.Contains(er, "ListTopics") ||
					what == "call:errors.Is("+er+",kerr.TopicAlreadyExists)" && strings.Contains(er, "CreateTopics") ||
					what == er+"==kerr.UnknownTopicOrPartition" && strings.Contains(er, "ListTopics") ||
					what == er+"==kerr.TopicAlreadyExists" && strings.Contains(er, "CreateTopics")
			}}
			rets, creates := 0, map[string]bool{}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				s, m := f.step(s, n)
				if m != "" || s == dead {
					return s, m
				}
				e := n.E
				switch e.K {
				case KLoad:
					if e.Field == "EventSourceConfig.NumPartitions" && (resolved(s, src) || s.get("s") == "missing") {
						s = s.add("fresh")
					}
				case KCall:
					x := ""
					if e.R != nil {
						x = e.R.String()
					}
					switch {
					case globs("kadm.Client.ListTopics*", e.Name):
						for _, t := range topics {
							if e.A[0].String() != t.admin {
								continue
							}
							if len(e.A) > 2 && e.A[2].Op != "nil" && !listed(e.A[2], t.name) {
								if t.tok == "g" && s.get("g") == "none" {
									continue
								}
								return s, "the topic " + t.name + " is not among the topics which are listed"
							}
							s = s.add("l" + t.tok)
						}
					case e.Name == "replicationFactorConfig" || e.Name == "minInSyncConfig":
						if resolved(s, src) || s.get("s") == "missing" {
							s = s.add(e.Name)
						}
					case e.Name == "kadm.Client.CreateTopics":
						if len(e.A) != 6 {
							return s, "topics are created in an unknown way"
						}
						for _, t := range topics {
							if !listed(e.A[5], t.name) {
								continue
							}
							creates[t.tok] = true
							if t.tok == "g" && s.get("named") != "1" {
								return s, "the change log is created without a name"
							}
							if s.get(t.tok) != "missing" {
								return s, "the topic " + t.name + " is created although it may exist"
							}
							if e.A[0].String() != t.admin {
								return s, "the topic " + t.name + " is created on the wrong cluster"
							}
							if e.A[5].Op == "list" && len(e.A[5].A) != 1 {
								return s, "several topics are created with the settings of one"
							}
							if e.A[2].String() != t.parts || e.A[3].String() != "call:replicationFactorConfig($0)" {
								return s, "the topic " + t.name + " is not created with the effective partition count and replication factor"
							}
							if !s.has("replicationFactorConfig") || !s.has("minInSyncConfig") || t.tok == "g" && (!resolved(s, src) || !s.has("fresh")) {
								return s, "the settings of the topic " + t.name + " are determined before the source topic was listed"
							}
							min := s.get("k:" + e.A[4].String() + ":min")
							if min != "ok" {
								return s, "the topic " + t.name + " is not created with the effective in-sync minimum"
							}
							pol := s.get("k:" + e.A[4].String() + ":pol")
							if t.tok == "s" && pol != "" && pol != "delete" || t.tok != "s" && pol != "compact" {
								return s, "the topic " + t.name + " is created with the wrong cleanup policy"
							}
							s = s.set(t.tok, "made").set("k:"+e.A[4].String()+":min", "").set("k:"+e.A[4].String()+":pol", "").set("last", t.tok)
						}
					}
					_ = x
				case KMapSet:
					key := e.A[0].String()
					switch key {
					case `"min.insync.replicas"`:
						v := "bad"
						if globs("&call:strconv.Itoa(call:minInSyncConfig($0)) || &call:fmt.Sprintf(\"%d\",[call:minInSyncConfig($0)]) || &call:fmt.Sprint([call:minInSyncConfig($0)]) || &call:strconv.FormatInt(call:minInSyncConfig($0),10)", e.V.String()) {
							v = "ok"
						}
						s = s.set("k:"+e.X.String()+":min", v)
					case `"cleanup.policy"`:
						s = s.set("k:"+e.X.String()+":pol", strings.Trim(strings.TrimPrefix(e.V.String(), "&"), `"`))
					}
				case KStore:
					switch e.Field {
					case "EventSourceConfig.NumPartitions":
						if s.get("s") != "have" || !globs("len(call:kadm.PartitionDetails.Numbers("+res(src)+"[$0.config.Topic].Partitions)) || len("+res(src)+"[$0.config.Topic].Partitions)", e.V.String()) {
							return s, "the partition count in use is not the one of the existing source topic"
						}
						s = s.add("parts").del("fresh")
					case "EventSourceConfig.ReplicationFactor":
						if s.get("s") != "have" || !globs("call:kadm.PartitionDetails.NumReplicas("+res(src)+"[$0.config.Topic].Partitions)", e.V.String()) {
							return s, "the replication factor in use is not the one of the existing source topic"
						}
						s = s.add("repl")
					case "EventSourceConfig.CommitLogPartitions":
						c := topics[1]
						if s.get("c") != "have" || !globs("len(call:kadm.PartitionDetails.Numbers("+res(c)+"["+c.name+"].Partitions)) || len("+res(c)+"["+c.name+"].Partitions)", e.V.String()) {
							return s, "the commit log partition count in use is not the one of the existing commit log"
						}
						s = s.add("cparts")
					}
				case KBranch:
					x := e.X.String()
					for _, t := range topics {
						L := res(t)
						switch {
						case globs("has("+L+","+t.name+")", x):
							if !e.Val {
								s = s.set(t.tok, "missing")
							}
						case globs(L+"["+t.name+"].Err==nil", x):
							if e.Val && s.get(t.tok) == "" {
								s = s.set(t.tok, "have")
							}
						case globs("call:errors.Is("+L+"["+t.name+"].Err,kerr.UnknownTopicOrPartition) || "+L+"["+t.name+"].Err==kerr.UnknownTopicOrPartition", x):
							if e.Val {
								s = s.set(t.tok, "missing")
							}
						}
					}
					gl := topics[2]
					n1 := "len(call:kadm.PartitionDetails.Numbers(" + res(gl) + "[" + gl.name + "].Partitions))"
					n2 := "len(" + res(gl) + "[" + gl.name + "].Partitions)"
					p := "$0.config.NumPartitions"
					pl := "len(*(" + res(src) + "[$0.config.Topic].Partitions*)"
					if globs(p+"-"+n1+"==0 || "+n1+"-"+p+"==0 || "+p+"-"+n2+"==0 || "+n2+"-"+p+"==0 || "+pl+"-"+n1+"==0 || "+n1+"-"+pl+"==0", x) {
						if !resolved(s, src) || !globs("*"+pl+"*", x) && !s.has("fresh") {
							return s, "the partition count of the change log is compared before the source topic was listed"
						}
						if s.get("g") == "have" {
							if e.Val {
								s = s.add("equal")
							} else {
								s = s.add("differ")
							}
						}
					}
					if x == "len("+gl.name+")<1" || x == gl.name+"==\"\"" {
						s = s.set("named", b01(!e.Val))
						if e.Val {
							s = s.set("g", "none")
						}
					}
				case KReturn:
					rets++
					failed := f.failed(s, n)
					if failed != "1" && s.has("differ") {
						return s, "a change log whose partition count differs from the source topic's is accepted"
					}
					if failed != "1" {
						for _, t := range topics {
							if !resolved(s, t) {
								return s, "the topic " + t.name + " is neither checked nor created, or its partition count is not used or compared"
							}
						}
						if e.A[0].String() != "$0" {
							return s, "the resolved source is not returned"
						}
					} else if !s.has("differ") {
						any := false
						for i := range f.list {
							any = any || s.get("e"+strconv.Itoa(i)) == "1"
						}
						if !any {
							return s, "an error is returned although nothing failed"
						}
					}
				}
				return s, ""
			})
			r.need(rets, 1, "results")
			r.need(len(creates), 1, "topics created")
			r.insts += rets + len(creates)
		})

	rule("topics.create", "C21",
		"every topic of a creation request has to be created or to exist already, everything else is reported",
		func(r *R) {
			for _, root := range []string{"createTopicFromConfigMap", "createDestination"} {
				g := r.gn(root, false, "NewClient")
				f := &errFlow{must: "kadm.Client.CreateTopics || NewClient", fine: func(er, what string) bool {
					return globs("elem(call:kadm.Client.CreateTopics(*)#0).Err || call:kadm.Client.CreateTopics(*)#0[key(*)].Err", er) && (what == "call:errors.Is("+er+",kerr.TopicAlreadyExists)" || what == er+"==kerr.TopicAlreadyExists")
				}}
				el := []string{"elem(call:kadm.Client.CreateTopics(*)#0).Err", "call:kadm.Client.CreateTopics(*)#0[key(*)].Err"}
				ok := or(branch(el[0]+"==nil || "+el[1]+"==nil", true), branch("call:errors.Is("+el[0]+",kerr.TopicAlreadyExists) || call:errors.Is("+el[1]+",kerr.TopicAlreadyExists)", true))
				l := r.Loop(g, "L", "call:kadm.Client.CreateTopics(*)#0", ok, 1, 9, 1)
				rets := 0
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					s, m := f.step(s, n)
					if m != "" || s == dead {
						return s, m
					}
					s = l.step(s, n)
					switch n.E.K {
					case KCall:
						if n.E.Name == "kadm.Client.CreateTopics" {
							s = s.add("asked")
						}
					case KReturn:
						rets++
						if f.failed(s, n) == "1" {
							return s, ""
						}
						if !s.has("asked") {
							return s, "success is reported although the topic was not created"
						}
						if s.get("L") != "done" {
							return s, "success is reported although not every topic of the response was checked"
						}
						if m := s.loopBad("L"); m != "" {
							return s, "the error of a topic is ignored"
						}
					}
					return s, ""
				})
				r.need(rets, 1, "results of "+root)
			}
			g := r.gn("createDestination", false, "NewClient")
			r.NotAfter(g, "the client is closed before it was used", call("kgo.Client.Close"), call("kadm.Client.CreateTopics"), nil)
			r.Every(g, "the destination's topic is created with its own settings", call("kadm.Client.CreateTopics"), 1, func(n *Node) bool {
				return len(n.E.A) == 6 && globs("call:kadm.NewClient(call:NewClient($0.Cluster,*)#0)", n.E.A[0].String()) && n.E.A[2].String() == "$0.NumPartitions" && n.E.A[3].String() == "$0.ReplicationFactor" && listed(n.E.A[5], "$0.DefaultTopic")
			})
			r.Every(g, "the destination's in-sync minimum is used", and(kind(KMapSet), func(n *Node) bool { return n.E.A[0].String() == `"min.insync.replicas"` }), 1, func(n *Node) bool {
				return globs(`&call:fmt.Sprintf("%d",[$0.MinInSync]) || &call:strconv.Itoa($0.MinInSync)`, n.E.V.String())
			})
			r.Precede(g, "the in-sync minimum is not part of the request", and(kind(KMapSet), func(n *Node) bool { return n.E.A[0].String() == `"min.insync.replicas"` }), call("kadm.Client.CreateTopics"), nil)
		})

	rule("topics.retry", "C21",
		"an incomplete configuration is refused, and a source or destination is created again only after network errors, a bounded number of times",
		func(r *R) {
			for _, c := range []struct{ root, step string }{{"CreateSource", "createSource"}, {"CreateDestination", "createDestination"}} {
				g := r.gn(c.root, false, c.step, "isNetworkError", "newSource")
				step := call(c.step)
				r.need(len(g.Find(step)), 1, c.step)
				res := "call:" + c.step + "(*)#1"
				if c.root == "CreateSource" {
					r.Every(g, "the given configuration is used", step, 1, func(n *Node) bool { return n.E.A[0].String() == "call:newSource($0)" })
				} else {
					r.Every(g, "the given destination is used", step, 1, func(n *Node) bool { return n.E.A[0].String() == "$0" })
				}
				rets := 0
				incomplete := []string{`len($0.GroupId)<1 || $0.GroupId==""`, `len($0.Topic)<1 || $0.Topic==""`, "$0.SourceCluster==nil"}
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					e := n.E
					switch e.K {
					case KBranch:
						x := e.X.String()
						for i, in := range incomplete {
							if c.root == "CreateSource" && globs(in, x) {
								s = s.set("in"+strconv.Itoa(i), b01(e.Val))
							}
						}
						switch {
						case globs("call:isNetworkError("+res+")", x):
							if e.Val {
								s = s.set("last", "net")
							} else {
								s = s.set("last", "final")
							}
						case globs(res+"==nil", x):
							if e.Val {
								s = s.set("last", "final")
							}
						case globs("mu(0;@-1)<-*", x): // counted down
							if e.Val {
								if s.get("n") == "" {
									return dead, ""
								}
								s = s.add("over")
							} else {
								s = s.add("bound")
							}
						case strings.HasPrefix(x, "mu(0;@+1)<") && globs("mu(0;@+1)<*", x):
							k, err := strconv.Atoi(strings.TrimPrefix(x, "mu(0;@+1)<"))
							if err == nil && k > 0 {
								if !e.Val && s.get("n") == "" {
									return dead, "" // at least one attempt
								}
								if e.Val {
									s = s.add("bound")
								} else {
									s = s.add("over")
								}
							}
						}
					case KCall:
						if step(n) {
							for i := range incomplete {
								if c.root == "CreateSource" && s.get("in"+strconv.Itoa(i)) != "0" {
									return s, "a source without group id, topic or cluster is created"
								}
							}
							switch s.get("last") {
							case "":
								if s.get("n") != "" {
									return s, "created again without a network error"
								}
							case "final":
								return s, "created again although no network error occurred"
							}
							if s.get("n") == "1" && !s.has("bound") {
								return s, "the number of attempts is not bounded"
							}
							s = s.set("n", "1").set("last", "").del("bound").del("over")
						}
					case KReturn:
						rets++
						if s.get("n") == "" {
							some := c.root != "CreateSource"
							for i := range incomplete {
								some = some || s.get("in"+strconv.Itoa(i)) == "1"
							}
							if !some {
								return s, "a complete configuration is refused"
							}
							if globs("call:fmt.Errorf(*) || call:errors.New(*) || *Err*", e.A[1].String()) && (e.A[0].String() == "nil" || c.root == "CreateDestination") {
								return s, ""
							}
							return s, "an incomplete configuration is not reported"
						}
						if s.get("last") == "net" && !s.has("over") {
							return s, "no further attempt is made after a network error"
						}
						if !globs(res, e.A[1].String()) && !(e.A[1].String() == "nil" && s.get("last") == "final") {
							return s, "the error of the last attempt is not returned"
						}
						if !globs("call:"+c.step+"(*)#0", e.A[0].String()) {
							return s, "the result of the last attempt is not returned"
						}
					}
					return s, ""
				})
				r.need(rets, 1, "results of "+c.root)
			}
			r.Results(r.gs("isNetworkError"), "isNetworkError", []Atom{at("none", "$0==nil"), at("op", "call:errors.As($0,*)", "isT:*($0)*")}, func(v V) []string {
				if v["none"] && v["op"] {
					return nil
				}
				if v["op"] {
					return []string{"true || call:errors.As($0,*)"}
				}
				return []string{"false || call:errors.As($0,*)"}
			})
			r.Every(r.gs("isNetworkError"), "network operation errors are network errors", call("errors.As"), 1, func(n *Node) bool {
				return n.E.A[0].String() == "$0" && len(n.E.A) > 1 && strings.Contains(xType(n.E.A[1]), "net.OpError")
			})
		})

	rule("topics.source", "C21",
		"source topics are resolved on the source cluster and state topics on the state cluster, and errors of either are returned by CreateSource and NewEventSource",
		func(r *R) {
			g := r.gn("createSource", false, "resolveOrCreateTopics", "NewClient", "Source.stateCluster")
			f := &errFlow{must: "NewClient"}
			res := call("resolveOrCreateTopics", "$0")
			rets := 0
			r.Every(g, "the admin client of each cluster", res, 1, func(n *Node) bool {
				return globs("call:kadm.NewClient(call:NewClient($0.config.SourceCluster,*)#0)", n.E.A[1].String()) && globs("call:kadm.NewClient(call:NewClient(call:Source.stateCluster($0),*)#0)", n.E.A[2].String())
			})
			r.NotAfter(g, "the client is closed before it was used", call("kgo.Client.Close"), res, nil)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				s, m := f.step(s, n)
				if m != "" || s == dead {
					return s, m
				}
				if res(n) {
					s = s.add("r")
				}
				if n.E.K == KReturn {
					rets++
					switch {
					case s.has("r"):
						if !globs("call:resolveOrCreateTopics($0,*)#0 || $0", n.E.A[0].String()) || !globs("call:resolveOrCreateTopics($0,*)#1", n.E.A[1].String()) && f.failed(s, n) != "0" {
							return s, "the result of resolving the topics is not returned"
						}
						if f.failed(s, n) == "0" && n.E.A[1].String() == "nil" && !knownNil(f, s, "call:resolveOrCreateTopics(") {
							return s, "the result of resolving the topics is not returned"
						}
					case f.failed(s, n) != "1":
						return s, "success is reported although the topics were not resolved"
					}
				}
				return s, ""
			})
			r.need(rets, 1, "results")
			r.Results(r.gs("Source.stateCluster"), "the state cluster", []Atom{at("none", "$0.config.StateCluster==nil")}, func(v V) []string {
				if v["none"] {
					return []string{"$0.config.SourceCluster"}
				}
				return []string{"$0.config.StateCluster"}
			})
			g = r.gn("NewEventSource", false, "CreateSource", "newEventSourceConsumer", "sak.NewRunStatus")
			f2 := &errFlow{must: "CreateSource"}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				s, m := f2.step(s, n)
				if m != "" || s == dead {
					return s, m
				}
				if call("newEventSourceConsumer")(n) {
					if !knownNil(f2, s, "call:CreateSource(") {
						return s, "an event source is created although its topics could not be resolved"
					}
					s = s.add("c")
				}
				if n.E.K == KStore && n.E.Field == "EventSource.consumer" && !globs("call:newEventSourceConsumer(*)#0", n.E.V.String()) {
					return s, "the event source does not use the consumer made for it"
				}
				if n.E.K == KReturn && s.has("c") {
					if !globs("EventSource{*", n.E.A[0].String()) && f2.failed(s, n) != "1" {
						return s, "the event source is not returned"
					}
					if !globs("call:newEventSourceConsumer(*)#1", n.E.A[1].String()) && !knownNil(f2, s, "call:newEventSourceConsumer(") && f2.failed(s, n) != "1" {
						return s, "a failure to create the consumer is not returned"
					}
				}
				if n.E.K == KReturn && !s.has("c") && f2.failed(s, n) != "1" {
					return s, "success is reported although no event source was created"
				}
				return s, ""
			})
			r.Times(g, "the topics are resolved", call("CreateSource", "$0"), 1, 1, nil, nil)
			es := g.Find(store("EventSource.source"))
			r.need(len(es), 1, "source of the event source")
			for _, n := range es {
				if n.E.V.String() != "call:CreateSource($0)#0" {
					r.failN(g, n, "the event source does not use the resolved source", nil)
				}
			}
		})

	rule("topics.delete", "C21",
		"deleting a source removes its topic from the source cluster and its commit and change log from the state cluster; a cluster which cannot be reached is reported",
		func(r *R) {
			g := r.gn("DeleteSource", false, "NewClient", "Source.stateCluster", "newSource", "Source.StateStoreTopicName", "Source.CommitLogTopicNameForGroupId")
			const src = "call:newSource($0)"
			cl := map[string]string{
				"s": "call:kadm.NewClient(call:NewClient(" + src + ".config.SourceCluster,*)#0) || call:kadm.NewClient(call:NewClient($0.SourceCluster,*)#0)",
				"e": "call:kadm.NewClient(call:NewClient(call:Source.stateCluster(" + src + "),*)#0)",
			}
			names := map[string][]string{
				"s": {src + ".config.Topic", "call:Source.Topic(" + src + ")", "$0.Topic"},
				"c": {"call:Source.CommitLogTopicNameForGroupId(" + src + ")"},
				"g": {"call:Source.StateStoreTopicName(" + src + ")"},
			}
			f := &errFlow{must: "NewClient"}
			rets := 0
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				s, m := f.step(s, n)
				if m != "" || s == dead {
					return s, m
				}
				e := n.E
				switch e.K {
				case KCall:
					if e.Name != "kadm.Client.DeleteTopics" {
						break
					}
					on := ""
					for k, p := range cl {
						if globs(p, arg(n, 0)) {
							on = k
						}
					}
					if on == "" {
						return s, "topics are deleted on an unknown cluster"
					}
					for i, er := range f.list {
						if strings.Contains(arg(n, 0), strings.TrimSuffix(er, "#1")) && s.get("e"+strconv.Itoa(i)) != "0" {
							return s, "topics are deleted although the client may not exist"
						}
					}
					for k, ns := range names {
						for _, nm := range ns {
							if len(e.A) > 2 && listed(e.A[2], nm) {
								if (k == "s") != (on == "s") {
									return s, "a topic is deleted on the wrong cluster"
								}
								s = s.add("d" + k)
							}
						}
					}
				case KReturn:
					rets++
					if f.failed(s, n) == "1" {
						return s, ""
					}
					for k := range names {
						if !s.has("d" + k) {
							return s, "success is reported although a topic of the source is not deleted"
						}
					}
				}
				return s, ""
			})
			r.need(rets, 1, "results")
			r.insts += rets
		})

	rule("topics.settings", "C21",
		"the effective partition count, replication factor, in-sync minimum and topic names",
		func(r *R) {
			R := "$0.config.ReplicationFactor"
			pos := at("none", R+"<1", R+"<=0")
			r.Results(r.gs("replicationFactorConfig"), "the replication factor", []Atom{pos}, func(v V) []string {
				if v["none"] {
					return []string{"1"}
				}
				return []string{R + " || max(*)"}
			})
			r.Results(r.gs("commitLogPartitionsConfig"), "the commit log partition count", []Atom{at("none", "$0.config.CommitLogPartitions<1")}, func(v V) []string {
				if v["none"] {
					return nil // any positive default
				}
				return []string{"$0.config.CommitLogPartitions"}
			})
			g := r.gs("commitLogPartitionsConfig")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if branch("$0.config.CommitLogPartitions<1", false)(n) {
					return "some", ""
				}
				if n.E.K == KReturn {
					x := n.E.A[0]
					if x.Int != nil && x.Op == "const" && x.Int.Sign() <= 0 || x.Op != "const" && !globs("max(*", x.String()) && s == "" {
						return s, "the commit log is created without partitions"
					}
				}
				return s, ""
			})
			M := "$0.config.MinInSync"
			// the factor in use is at least two: R>1
			one := at("one", R+"<2")
			r.Results(r.gs("minInSyncConfig"), "the in-sync minimum", []Atom{pos, one, at("few", M+"<1"), at("many", M+"-"+R+"<0", R+"-"+M+"<1", "!"+M+"-"+R+"<0", M+"<"+R)}, func(v V) []string {
				return nil
			})
			r.Auto(r.gs("minInSyncConfig"), "", func(s St, n *Node) (St, string) {
				if n.E.K == KBranch {
					x, val := n.E.X.String(), n.E.Val
					switch x {
					case R + "<1":
						if val {
							s = s.set("one", "1")
						}
					case R + "<2":
						s = s.set("one", b01(val))
					case M + "<1":
						s = s.set("few", b01(val))
					case R + "-" + M + "<1", "-" + M + "+" + R + "<1":
						s = s.set("many", b01(val))
					case M + "-" + R + "<0", "-" + R + "+" + M + "<0":
						s = s.set("many", b01(!val))
					}
				}
				if n.E.K == KReturn {
					x := n.E.A[0].String()
					want := ""
					switch {
					case s.get("one") == "1" || s.get("few") == "1":
						want = "1"
					case s.get("one") == "0" && s.get("many") == "1":
						want = R + "-1"
					case s.get("few") == "0" && s.get("many") == "0": // 1 <= M < R
						want = M
					default:
						return s, "the in-sync minimum is determined without comparing it with the replication factor"
					}
					if x != want {
						return s, "the in-sync minimum is not " + want + ", where writes need more replicas than there are or fewer than configured"
					}
				}
				return s, ""
			})
			r.Ret("Source.CommitLogTopicNameForGroupId", "the commit log belongs to the group", `call:fmt.Sprintf("*%s*",[$0.config.GroupId]) || *$0.config.GroupId*`)
			r.Results(r.gs("Source.StateStoreTopicName"), "the change log belongs to the topic and the group", []Atom{at("none", "len($0.config.StateStoreTopic)<1", `$0.config.StateStoreTopic==""`)}, func(v V) []string {
				if v["none"] {
					return []string{"*$0.config.Topic,$0.config.GroupId* || *$0.config.GroupId,$0.config.Topic* || *$0.config.Topic*$0.config.GroupId*"}
				}
				return []string{"$0.config.StateStoreTopic"}
			})
			r.Results(r.gs("SimpleCluster.Config"), "a simple cluster", nil, func(V) []string {
				return []string{"[call:kgo.SeedBrokers($0)] || [call:kgo.SeedBrokers($0*)]", "nil"}
			})
			r.Ret("Source.NumPartitions", "the partition count", "$0.config.NumPartitions")
			r.Ret("Source.Topic", "the topic", "$0.config.Topic")
			r.Ret("Source.GroupId", "the group", "$0.config.GroupId")
		})
}

func b01(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func knownNil(f *errFlow, s St, prefix string) bool {
	for i, er := range f.list {
		if strings.HasPrefix(er, prefix) && s.get("e"+strconv.Itoa(i)) == "0" {
			return true
		}
	}
	return false
}

func xType(x *X) string {
	if x.T == nil {
		return ""
	}
	return x.T.String()
}

// listed: name is an element of the list x
func listed(x *X, name string) bool {
	if x.Op == "append" || x.Op == "list" {
		for _, a := range x.A {
			if a.String() == name || (a.Op == "list" || a.Op == "append" || a.Op == "spread") && listed(a, name) {
				return true
			}
		}
		return false
	}
	return x.String() == name
}
