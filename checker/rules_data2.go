package main

import (
	"go/types"

	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// poolFns finds the factory and the resetter of the package level pool.
func (r *R) poolFns(global string) (factory, reset string) {
	init := r.fn("NewRecord").Pkg.Func("init")
	fnName := func(v ssa.Value) string {
		switch x := v.(type) {
		case *ssa.Function:
			return r.p.Name(x)
		case *ssa.MakeClosure:
			return r.p.Name(x.Fn.(*ssa.Function))
		}
		return ""
	}
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				if gl, ok := s.Addr.(*ssa.Global); ok && shownGlobal(gl) == global {
					if c, ok := s.Val.(*ssa.Call); ok && len(c.Call.Args) == 3 {
						return fnName(c.Call.Args[1]), fnName(c.Call.Args[2])
					}
				}
			}
		}
	}
	r.fatal("the pool %s is not found", global)
	return
}

func init() {
	rule("record.map", "C23",
		"the produced (exported) record has exactly what was set, null for empty keys and values, and one type header",
		func(r *R) {
			kEmpty := at("keyEmpty", "call:bytes.Buffer.Len($0.keyBuffer)<1", "call:bytes.Buffer.Len($0.keyBuffer)==0", "len(call:bytes.Buffer.Bytes($0.keyBuffer))<1")
			vEmpty := at("valueEmpty", "call:bytes.Buffer.Len($0.valueBuffer)<1", "call:bytes.Buffer.Len($0.valueBuffer)==0", "len(call:bytes.Buffer.Bytes($0.valueBuffer))<1")
			g := r.gs("Record.toKafkaRecord")
			for _, f := range []struct {
				n, b string
				a    Atom
			}{{"Key", "$0.keyBuffer", kEmpty}, {"Value", "$0.valueBuffer", vEmpty}} {
				a := f.a
				set := store("kgo.Record."+f.n, "call:bytes.Buffer.Bytes("+f.b+")")
				r.Guard(g, "setting the "+f.n+" of the produced record", nil, set, nil, []Atom{a}, func(v V) int { return b2m(!v[a.Name]) })
				r.Never(g, "the "+f.n+" is set to something else", and(store("kgo.Record."+f.n), not(set), not(store("kgo.Record."+f.n, "nil"))))
			}
			r.Never(g, "a property of the record is changed when it is produced", store("kgo.Record.Topic || kgo.Record.Partition || kgo.Record.Timestamp || kgo.Record.Offset"))
			r.Results(g, "toKafkaRecord", nil, func(V) []string { return []string{"$0.kRecord"} })
			r.typeHeader(g, "$0.kRecord", "$0.recordType", "$0.kRecord.Headers")

			x := r.gs("Record.ToKafkaRecord")
			r.typeHeader(x, "new:kgo.Record", "$0.recordType", "*Headers* || *headers*")
			filled := "make:[]kgo.RecordHeader(len($0.kRecord.Headers),*)"
			r.Auto(x, "", func(s St, n *Node) (St, string) {
				if call("builtin.copy", filled, "$0.kRecord.Headers")(n) {
					s = s.add("hdr")
				}
				if n.E.K == KBranch {
					for i, a := range []Atom{kEmpty, vEmpty} {
						if ok, neg := a.M(n.E.X); ok {
							val := "0"
							if n.E.Val != neg {
								val = "1"
							}
							s = s.set([]string{"k", "v"}[i], val)
						}
					}
				}
				if n.E.K != KReturn {
					return s, ""
				}
				o := n.E.A[0]
				for _, f := range []string{"Topic", "Partition", "Timestamp", "Attrs", "ProducerEpoch", "LeaderEpoch", "Context"} {
					if o.FS(f) != "$0.kRecord."+f {
						return s, "the exported record does not have the " + f + " that was set"
					}
				}
				if n.E.K == KReturn && s.has("hdr") && globs(filled+" || append("+filled+",*", o.FS("Headers")) {
					// copied into a slice of the same length
				} else if !globs("append(nil,$0.kRecord.Headers...* || append([],$0.kRecord.Headers...* || append(make:*(0,*),$0.kRecord.Headers...* || call:slices.Clone($0.kRecord.Headers)*", o.FS("Headers")) {
					return s, "the exported record does not have a copy of the headers that were set: " + o.FS("Headers")
				}
				for i, f := range []string{"Key", "Value"} {
					b := "call:bytes.Buffer.Bytes($0." + strings.ToLower(f) + "Buffer)"
					v := o.FS(f)
					copied := globs("append(nil,"+b+"...) || append([],"+b+"...) || call:bytes.Clone("+b+") || call:slices.Clone("+b+")", v)
					k := s.get([]string{"k", "v"}[i])
					// append(nil, empty...) is nil as well
					if k == "1" && v != "nil" && v != "zero" && !globs("append(nil,"+b+"...)", v) {
						return s, "an empty " + f + " is not exported as null"
					}
					if k != "1" && !copied {
						return s, "the exported record does not have a copy of the " + f + ": " + v
					}
				}
				return s, ""
			})
			if r.p.Funcs["SetRecordType"] != nil {
				st := r.gs("SetRecordType")
				r.Times(st, "the record type becomes a header", store("kgo.Record.Headers", "append($0.Headers,*kgo.RecordHeader{Key=\"__grt__\",Value=$1})"), 1, 1, nil, nil)
				r.Never(st, "another part of the record is changed", and(kind(KStore), not(store("kgo.Record.Headers || kgo.RecordHeader.*"))))
			}
			a := r.gs("Record.AsIncomingRecord")
			r.Every(a, "the incoming record has the record type", kind(KReturn), 1, func(n *Node) bool {
				k := n.E.A[0].F("kRecord")
				return n.E.A[0].FS("recordType") == "$0.recordType" && k != nil && k.FS("Topic") == "$0.kRecord.Topic" && k.FS("Key") != "$0.kRecord.Key" && k.FS("Value") != "$0.kRecord.Value" ||
					glob("call:newIncomingRecord(*", n.E.A[0].String())
			})
			// readers
			in := r.gs("newIncomingRecord")
			hdr := branch("elem($0.Headers).Key==\"__grt__\"", true)
			r.Auto(in, "", func(s St, n *Node) (St, string) {
				switch {
				case hdr(n):
					s = s.add("typed").add("pend")
				case store("IncomingRecord.recordType")(n):
					if !glob("elem($0.Headers).Value", n.E.V.String()) && n.E.V.String() != `""` {
						return s, "the record type is not the value of the type header"
					}
					s = s.del("pend")
				case n.E.K == KReturn:
					if s.has("typed") && n.E.A[0].FS("recordType") != "elem($0.Headers).Value" {
						return s, "the type header does not become the record type"
					}
					if !s.has("typed") && n.E.A[0].FS("recordType") != "zero" && n.E.A[0].FS("recordType") != `""` {
						return s, "a record without type header has a record type"
					}
					if k := n.E.A[0].F("kRecord"); k == nil || k.String() != "$0" {
						return s, "the incoming record is not the one which was received"
					}
				}
				return s, ""
			})
			r.need(len(in.Find(hdr)), 1, "type header test")
			for fn, w := range map[string]string{
				"IncomingRecord.Offset": "$0.kRecord.Offset", "IncomingRecord.LeaderEpoch": "$0.kRecord.LeaderEpoch", "IncomingRecord.Timestamp": "$0.kRecord.Timestamp",
				"IncomingRecord.RecordType": "$0.recordType", "IncomingRecord.Key": "$0.kRecord.Key", "IncomingRecord.Value": "$0.kRecord.Value", "IncomingRecord.Headers": "$0.kRecord.Headers",
				"IncomingRecord.TopicPartition": "TopicPartition{Partition=$0.kRecord.Partition,Topic=$0.kRecord.Topic}",
				"Record.TopicPartition":         "TopicPartition{Partition=$0.kRecord.Partition,Topic=$0.kRecord.Topic}",
				"Record.Offset":                 "$0.kRecord.Offset", "Record.Error": "$0.err",
			} {
				r.Ret(fn, fn, w)
			}
			hv := r.gs("IncomingRecord.HeaderValue")
			r.Auto(hv, "", func(s St, n *Node) (St, string) {
				if branch("elem($0.kRecord.Headers).Key==$1", true)(n) {
					return "found", ""
				}
				if n.E.K == KReturn {
					v := n.E.A[0].String()
					if s == "found" && v != "elem($0.kRecord.Headers).Value" {
						return s, "the value of the header is not returned"
					}
					if s == "" && v != "nil" {
						return s, "a value is returned for an absent header"
					}
				}
				return s, ""
			})
			r.need(len(hv.Find(branch("elem($0.kRecord.Headers).Key==$1", true))), 1, "header name test")
		})

	rule("record.write", "C23",
		"writers and setters change exactly the part of the record they are named after",
		func(r *R) {
			for fn, w := range map[string][2]string{
				"Record.WriteKey": {"$0.keyBuffer", "Write"}, "Record.WriteKeyString": {"$0.keyBuffer", "WriteString"},
				"Record.WriteValue": {"$0.valueBuffer", "Write"}, "Record.WriteValueString": {"$0.valueBuffer", "WriteString"},
				"ChangeLogEntry.WriteKey": {"$0.record.keyBuffer", "Write"}, "ChangeLogEntry.WriteKeyString": {"$0.record.keyBuffer", "WriteString"},
				"ChangeLogEntry.WriteValue": {"$0.record.valueBuffer", "Write"}, "ChangeLogEntry.WriteValueString": {"$0.record.valueBuffer", "WriteString"},
				"Record.WithKey": {"$0.keyBuffer", "Write"}, "Record.WithKeyString": {"$0.keyBuffer", "WriteString"}, "Record.WithValue": {"$0.valueBuffer", "Write"},
				"ChangeLogEntry.WithKey": {"$0.record.keyBuffer", "Write"}, "ChangeLogEntry.WithKeyString": {"$0.record.keyBuffer", "WriteString"},
				"ChangeLogEntry.WithValue": {"$0.record.valueBuffer", "Write"},
			} {
				g := r.gs(fn)
				wr := call("bytes.Buffer."+w[1], w[0], "elem($1)")
				// an empty part may be passed over
				r.ForEach(g, fn+": a part is not written", "$1", or(wr, branch("len(elem($1))<1 || len(elem($1))==0", true)), 1, 1)
				r.need(len(g.Find(wr)), 1, "parts written by "+fn)
				r.Never(g, fn+" writes something else", and(call("bytes.Buffer.Write* || bytes.Buffer.Reset || bytes.Buffer.Truncate"), not(wr)))
				if strings.Contains(fn, ".With") {
					r.Results(g, fn, nil, func(V) []string { return []string{"$0"} })
				}
			}
			for fn, w := range map[string]string{"Record.KeyWriter": "$0.keyBuffer", "Record.ValueWriter": "$0.valueBuffer", "ChangeLogEntry.KeyWriter": "$0.record.keyBuffer", "ChangeLogEntry.ValueWriter": "$0.record.valueBuffer"} {
				r.Ret(fn, fn, w)
			}
			for fn, w := range map[string][2]string{"Record.WithTopic": {"kgo.Record.Topic", "$1"}, "Record.WithPartition": {"kgo.Record.Partition", "$1"}, "Record.WithRecordType": {"Record.recordType", "$1"},
				"ChangeLogEntry.WithEntryType": {"Record.recordType", "$1"}, "Record.WithHeader": {"kgo.Record.Headers", "append($0.kRecord.Headers,kgo.RecordHeader{Key=$1,Value=$2})"},
				"ChangeLogEntry.WithHeader": {"kgo.Record.Headers", "append($0.record.kRecord.Headers,kgo.RecordHeader{Key=$1,Value=$2})"}} {
				g := r.gs(fn)
				r.Times(g, fn+" sets the property", store(w[0], w[1]), 1, 1, nil, nil)
				r.Never(g, fn+" sets another property", and(store("kgo.Record.* || Record.*"), not(store(w[0], w[1]))))
				r.Results(g, fn, nil, func(V) []string { return []string{"$0 || ChangeLogEntry{record=$0.record}"} })
			}
			for _, fn := range r.p.All {
				if !r.reached(fn, "Record.WithPartition") {
					continue
				}
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						if c, ok := ins.(*ssa.Convert); ok {
							if t, ok := c.Type().Underlying().(*types.Basic); ok && (t.Kind() == types.Int8 || t.Kind() == types.Int16 || t.Kind() == types.Uint8 || t.Kind() == types.Uint16) {
								r.fail(c.Pos(), r.p.Name(fn), "the partition of a record is cut", nil)
							}
						}
					}
				}
			}
			// nothing else writes what the user set
			for _, s := range r.FieldSites("kgo.Record.Topic || kgo.Record.Partition || kgo.Record.Timestamp || kgo.Record.Headers || kgo.Record.Key || kgo.Record.Value") {
				if !s.Write {
					continue
				}
				r.insts++
				name := r.p.Name(s.Fn)
				fac, res := r.poolFns("recordPool")
				ok := "Record.* || ChangeLogEntry.* || SetRecordType || addRecordTypeHeader || BatchProducer.* || Producer.ProduceAsync || EventContext.* || producerNode.* || changeLogPartition.* || eosCommitLog.* || sendMarkerMessage || " + fac + " || " + res
				if bad := r.From(s.Fn, ok, false); bad != "" {
					r.fail(s.Ins.Pos(), name, "a property of a record is changed: reached from "+bad, nil)
				}
			}
			r.Confined("the record type is changed", "Record.recordType", "Record.* || ChangeLogEntry.* || JsonItemEncoder || EncodeJsonChangeLogEntryValue || init*", true, false, 1)
		})

	const emptyBuffer = "call:bytes.NewBuffer(nil) || bytes.Buffer{} || new:bytes.Buffer* || call:bytes.NewBuffer(make:*(0,*"
	rule("record.pool", "C23",
		"records taken from the pool are empty and they are returned to it exactly once, after their last use",
		func(r *R) {
			fac, res := r.poolFns("recordPool")
			fg := r.gs(fac)
			fresh := func(k *X) string {
				if k == nil {
					return "the record is not cleared"
				}
				for _, f := range []string{"Topic", "Key", "Value", "Headers", "Timestamp", "Offset", "Attrs", "ProducerEpoch", "ProducerID", "LeaderEpoch", "Context"} {
					if v := k.FS(f); v != "zero" && v != "nil" && v != `""` && v != "0" {
						return "the " + f + " of a pooled record is not empty: " + v
					}
				}
				if k.FS("Partition") != "-1" {
					return "a pooled record does not ask for automatic partitioning"
				}
				return ""
			}
			r.Auto(fg, "", func(s St, n *Node) (St, string) {
				if n.E.K != KReturn {
					return s, ""
				}
				o := n.E.A[0]
				if m := fresh(o.F("kRecord")); m != "" {
					return s, m
				}
				for _, f := range []string{"keyBuffer", "valueBuffer"} {
					if !globs(emptyBuffer, o.FS(f)) {
						return s, "a new record does not have an empty " + f
					}
				}
				return s, ""
			})
			g := r.gs(res)
			done := []string{"kRecord", "keyBuffer", "valueBuffer", "recordType", "err"}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if store("Record.kRecord")(n) && n.E.X.String() == "$0" {
					if m := fresh(n.E.V); m != "" {
						return s, m
					}
					s = s.add("kRecord")
				}
				if n.E.K == KStore && n.E.R.String() == "$0" && !s.has("kRecord") {
					// the whole record is replaced
					if m := fresh(n.E.V.F("kRecord")); m != "" {
						return s, m
					}
					s = s.add("kRecord")
					for _, f := range []string{"keyBuffer", "valueBuffer"} {
						if v := n.E.V.FS(f); !(v == "$0."+f && s.has(f)) && !globs(emptyBuffer, v) {
							return s, "the " + f + " of a record is not cleared when it is returned to the pool"
						}
					}
					for _, f := range []string{"recordType", "err"} {
						if v := n.E.V.FS(f); v == "zero" || v == "nil" || v == `""` {
							s = s.add(f)
						}
					}
				}
				if store("kgo.Record.*")(n) && n.E.X.String() == "$0.kRecord" && s.has("kRecord") && !glob("$0.kRecord.Headers*", n.E.V.String()) {
					if v := n.E.V.String(); !(v == "nil" || v == "0" || v == `""` || v == "-1" && strings.HasSuffix(n.E.Field, "Partition")) {
						return s, "the record is changed after it was cleared"
					}
				}
				switch {
				case or(call("bytes.Buffer.Reset", "$0.keyBuffer"), call("bytes.Buffer.Truncate", "$0.keyBuffer", "0"), store("Record.keyBuffer", emptyBuffer))(n):
					s = s.add("keyBuffer")
				case or(call("bytes.Buffer.Reset", "$0.valueBuffer"), call("bytes.Buffer.Truncate", "$0.valueBuffer", "0"), store("Record.valueBuffer", emptyBuffer))(n):
					s = s.add("valueBuffer")
				case store("Record.recordType", `""`)(n):
					s = s.add("recordType")
				case store("Record.err", "nil")(n):
					s = s.add("err")
				case n.E.K == KReturn:
					for _, d := range done {
						if !s.has(d) {
							return s, "the " + d + " of a record is not cleared when it is returned to the pool"
						}
					}
					if n.E.A[0].String() != "$0" {
						return s, "another record is returned to the pool"
					}
				}
				return s, ""
			})
			r.insts += len(done)
			r.Ret("NewRecord", "NewRecord", "call:sak.Pool.Borrow(recordPool)")
			rel := 0
			for _, c := range r.CallSites("sak.Pool.Release") {
				cc, ok := c.Ins.(ssa.CallInstruction)
				if !ok || len(cc.Common().Args) == 0 {
					continue
				}
				if r.globalOf(cc.Common().Args[0]) != "recordPool" {
					continue
				}
				rel++
				if n := r.From(c.Fn, "Record.Release", true); n != "" {
					r.fail(c.Ins.Pos(), r.p.Name(c.Fn), "a record is returned to the pool outside of Record.Release", nil)
				}
			}
			r.need(rel, 1, "releases of the record pool")
			r.CalledFrom("a record is returned to the pool", "Record.Release", "producerNode.produceKafkaRecord || produceBatcher.executeCallback || producerNode.produceRecord", false, 2)
			// transactional produce: released once per callback, after the user's callback and the last use
			pr := r.g("producerNode.produceKafkaRecord")
			in := func(n *Node) bool { return n.E.K == KFork }
			release := or(call("sak.Pool.Release", "recordPool", "$1"))
			r.Times(pr, "the record is returned to the pool once when it was produced", release, 1, 1, in, kind(KFEnd))
			r.Auto(pr, "", func(s St, n *Node) (St, string) {
				if release(n) {
					return "released", ""
				}
				if s == "released" && n.E.K != KReturn && n.E.K != KFEnd {
					if n.E.K == KDyn {
						return s, "the callback of the record runs after it was returned to the pool"
					}
					for _, a := range n.E.A {
						if a != nil && (a.String() == "$1" || strings.HasPrefix(a.String(), "$1.")) && n.E.K != KLeave && n.E.K != KEnter {
							return s, "the record is used after it was returned to the pool"
						}
					}
					if n.E.K == KBranch && strings.Contains(n.E.X.String(), "$1.") {
						return s, "the record is used after it was returned to the pool"
					}
				}
				return s, ""
			})
			// not released before the client is done with it
			r.Auto(pr, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return "in", ""
				}
				if s == "" && release(n) {
					return s, "the record is returned to the pool before it was acknowledged"
				}
				return s, ""
			})
		})

	rule("partitioner", "C25",
		"the optional partitioner uses the explicitly assigned partition, or the topic's (default) partitioner, and is what every client uses",
		func(r *R) {
			tp := "call:kgo.Partitioner.ForTopic($0.topicPartitioners[$1],$1)"
			r.Results(r.gs("OptionalPartitioner.ForTopic"), "ForTopic", []Atom{at("own", "has($0.topicPartitioners,$1)")}, func(v V) []string {
				k := "call:kgo.Partitioner.ForTopic($0.defaultPartitioner,$1)"
				if v["own"] {
					k = tp
				}
				return []string{"optionalTopicPartitioner{keyTopicPartitioner=" + k + ",manualTopicPartitioner=call:kgo.Partitioner.ForTopic($0.manualPartitioner,$1)}"}
			})
			r.Results(r.gs("optionalTopicPartitioner.Partition"), "Partition", []Atom{at("auto", "$1.Partition==-1")}, func(v V) []string {
				if v["auto"] {
					return []string{"call:kgo.TopicPartitioner.Partition($0.keyTopicPartitioner,$1,$2)"}
				}
				return []string{"call:kgo.TopicPartitioner.Partition($0.manualTopicPartitioner,$1,$2) || $1.Partition"}
			})
			r.Results(r.gs("optionalTopicPartitioner.RequiresConsistency"), "RequiresConsistency", []Atom{at("auto", "$1.Partition==-1")}, func(v V) []string {
				if v["auto"] {
					return []string{"true || call:kgo.TopicPartitioner.RequiresConsistency($0.keyTopicPartitioner,$1)"}
				}
				return []string{"true || $1.Partition!=-1 || !$1.Partition==-1"}
			})
			man := "call:kgo.ManualPartitioner()"
			r.Ret("NewOptionalPerTopicPartitioner", "NewOptionalPerTopicPartitioner", "OptionalPartitioner{defaultPartitioner=$0,manualPartitioner="+man+",topicPartitioners=$1}")
			r.Ret("NewOptionalPartitioner", "NewOptionalPartitioner", "OptionalPartitioner{defaultPartitioner=$0,manualPartitioner="+man+",topicPartitioners=make:map[string]kgo.Partitioner} || OptionalPartitioner{defaultPartitioner=$0,manualPartitioner="+man+",topicPartitioners=nil} || OptionalPartitioner{defaultPartitioner=$0,manualPartitioner="+man+"}")
			opt := "call:kgo.RecordPartitioner(OptionalPartitioner{*manualPartitioner=" + man + "*)"
			manOpt := "call:kgo.RecordPartitioner(" + man + ")"
			has := func(g *Graph, what, pats string) {
				r.Every(g, what, call("kgo.NewClient"), 1, func(n *Node) bool {
					last := ""
					for _, p := range splitTop(n.E.A[0].String()) {
						if strings.HasPrefix(p, "call:kgo.RecordPartitioner(") {
							last = p
						}
					}
					return globs(pats, last)
				})
			}
			has(r.gs("NewClient"), "the default partitioner does not honour assigned partitions", opt)
			has(r.gs("newProducerNode"), "the transactional producer does not honour assigned partitions", opt+" || "+manOpt)
			has(r.gn("newStateStoreConsumer", false), "the client which writes markers does not honour assigned partitions", opt+" || "+manOpt)
			has(r.gs("NewGlobalChangeLogWithRunStatus"), "the client which writes markers does not honour assigned partitions", opt+" || "+manOpt)
			r.CalledFrom("another client writes markers", "sendMarkerMessage", "stateStorePartition.* || stateStoreConsumer.* || eosCommitLog.*", false, 2)
			r.Every(r.gs("stateStorePartition.sync"), "the marker is not written by the change log client", or(call("sendMarkerMessage")), 1, func(n *Node) bool {
				return n.E.A[0].String() == "$0.client"
			})
			cl := 0
			for _, s := range r.FieldSites("stateStorePartition.client") {
				if s.Write {
					cl++
				}
			}
			r.need(cl, 1, "the client of a state store partition")
			r.Every(r.gs("eosCommitLog.lastProcessed"), "the marker is not written by the commit log's client", or(call("sendMarkerMessage")), 1, func(n *Node) bool {
				return globs("$0.changeLog.client || $0.changeLog*client", n.E.A[0].String())
			})
		})
}

// globalOf names the global a value was loaded from.
func (r *R) globalOf(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return shownGlobal(g)
		}
	}
	return ""
}

// splitTop splits the elements of append(…,…) / […] at the top level, nested appends flattened.
func splitTop(s string) []string {
	for _, p := range []string{"append(", "["} {
		if strings.HasPrefix(s, p) {
			var out []string
			depth, start := 0, len(p)
			for i := len(p); i < len(s); i++ {
				switch s[i] {
				case '(', '[', '{':
					depth++
				case ')', ']', '}':
					depth--
					if depth < 0 {
						return append(out, splitTop(s[start:i])...)
					}
				case ',':
					if depth == 0 {
						out = append(out, splitTop(s[start:i])...)
						start = i + 1
					}
				}
			}
			return out
		}
	}
	return []string{s}
}

// typeHeader: exactly one type header is appended when there is a type and no header yet.
func (r *R) typeHeader(g *Graph, rec, typ, headers string) {
	app := func(n *Node) bool {
		return store("kgo.Record.Headers", "append(*kgo.RecordHeader{Key=\"__grt__\",Value="+typ+"})")(n) && globs(rec, n.E.X.String())
	}
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		if n.E.K == KBranch {
			x := n.E.X.String()
			switch {
			case globs("len("+typ+")<1 || "+typ+`=="" || len(`+typ+")==0", x):
				if n.E.Val {
					s = s.add("notype")
				} else {
					s = s.add("type")
				}
			case glob("elem(*).Key==\"__grt__\"", x):
				s = s.del("it")
				if n.E.Val {
					s = s.add("found")
				}
			default:
				if c, cont, ok := loopBranch(n); ok && globs(headers+" || append(nil,"+headers+"...)", c) {
					if s.has("it") {
						s = s.add("skip")
					}
					s = s.del("it")
					if cont {
						s = s.add("it")
					} else {
						s = s.add("exh")
					}
				}
			}
		}
		if app(n) {
			switch {
			case s.has("found"):
				return s, "a second type header is added"
			case !s.has("type"):
				return s, "a type header is added without a type"
			case s.has("app"):
				return s, "the type header is added twice"
			case !s.has("exh") || s.has("skip"):
				return s, "a type header is added without looking at every existing header"
			}
			s = s.add("app")
		}
		if n.E.K == KReturn && !s.has("app") && !s.has("found") && !s.has("notype") {
			return s, "the type of the record is not added as a header"
		}
		return s, ""
	})
	r.need(len(g.Find(app)), 1, "type header")
	r.insts++
}

func init() {
	rule("produce.batch", "C13",
		"every record of a batch is produced once, counted down once with its own error, and the last one completes the event exactly once",
		func(r *R) {
			g := r.gs("BatchProducer.Produce")
			empty := at("empty", "len($2)<1", "len($2)==0")
			r.ForEach(g, "a record of the batch is not produced", "$2", call("kgo.Client.Produce", "$0.client", "*", "elem($2).kRecord"), 1, 1)
			r.Every(g, "something else is produced", call("kgo.Client.Produce*"), 1, func(n *Node) bool {
				return globs("elem($2).kRecord", arg(n, 2))
			})
			r.topicDefault(g, "elem($2)", "$0.destination.DefaultTopic", call("kgo.Client.Produce"), branch("len($2)-*", false))
			r.Guard(g, "running the callback right away", nil, dyn("$3 || produceBatcher.callback"), nil, []Atom{empty, at("nocb", "$3==nil")},
				func(v V) int { return b2m(v["empty"] && !v["nocb"]) })
			r.Results(g, "Produce", []Atom{empty, at("nocb", "$3==nil")}, func(v V) []string {
				switch {
				case !v["empty"]:
					return []string{"1"}
				case v["nocb"]:
					return []string{"0"}
				}
				return []string{"call:$3($1,$2,$4)"}
			})
			b := "produceBatcher{callback=$3,ctx=$1,pending=len($2),records=$2,userData=$4}"
			r.Every(g, "the batch does not carry the event, the records, the callback, its data and the number of records", call("BatchProducer.produceBatch || BatchProducer.produceRecord"), 1, func(n *Node) bool {
				return globs(b, arg(n, 1))
			})
			r.Confined("the batch is changed", "produceBatcher.pending || produceBatcher.ctx || produceBatcher.callback || produceBatcher.userData || produceBatcher.records",
				"BatchProducer.Produce || produceBatcher.recordComplete || produceBatcher.executeCallback", true, false, 5)

			// acknowledgement of one record
			root, rec, batch := "BatchProducer.produceRecord", "$2", "$1"
			if r.p.Funcs[root] == nil {
				root, rec, batch = "BatchProducer.Produce", "elem($2)", "*"
			}
			a := r.g(root)
			if rec == "$2" {
				r.Times(a, "a record is produced once", call("kgo.Client.Produce", "$0.client", "*", "$2.kRecord"), 1, 1, nil, nil)
			}
			down := call("atomic.AddInt64", batch+".pending", "-1")
			r.Auto(a, "", func(s St, n *Node) (St, string) {
				switch {
				case n.E.K == KFork:
					return "in", ""
				case batch == "*" && !s.has("in") && store("produceBatcher.pending", "len($2)")(n): // creation
				case down(n) || store("produceBatcher.pending")(n):
					if !s.has("in") {
						return s, "a record is counted as complete before it was acknowledged"
					}
					if !s.has("err") {
						return s, "a record is counted as complete before its error is known"
					}
					if s.has("down") || !down(n) {
						return s, "a record is counted as complete more than once"
					}
					s = s.add("down")
				case store("Record.err")(n):
					if !glob("cb:1(call:kgo.Client.Produce(*", n.E.V.String()) || n.E.X.String() != rec {
						return s, "the error of the record is not the one of its acknowledgement"
					}
					if s.has("down") {
						return s, "the error of a record is set after it was counted as complete"
					}
					s = s.add("err")
				case n.E.K == KFEnd:
					if !s.has("down") {
						return s, "an acknowledged record is not counted as complete"
					}
				}
				return s, ""
			})
			r.insts += 3
			r.need(len(a.Find(down)), 1, "countdown")
			// completion
			c := r.gs("produceBatcher.recordComplete")
			zero := at("last", "call:atomic.AddInt64($0.pending,-1)==0", "call:atomic.AddInt64($0.pending,-1)<1")
			r.Guard(c, "completing the event", nil, send("asyncCompleter.asyncJobs"), nil, []Atom{zero}, func(v V) int { return b2m(v["last"]) })
			r.Every(c, "the completion does not run the callback of the batch", send("asyncCompleter.asyncJobs"), 1, func(n *Node) bool {
				f := n.E.V.F("finalizer")
				if n.E.V.FS("ctx") != "$0.ctx" || f == nil {
					return false
				}
				if glob("closure:produceBatcher.executeCallback*", f.String()) {
					return true
				}
				// func() { return b.executeCallback() }
				if f.Op != "closure" || r.p.Funcs[f.S] == nil {
					return false
				}
				ok := true
				for _, m := range r.gn(f.S, true, "produceBatcher.executeCallback").Find(kind(KReturn)) {
					ok = ok && globs("call:produceBatcher.executeCallback(^*)", m.E.A[0].String())
				}
				return ok
			})
			r.Never(c, "the callback does not run through the asynchronous completion", dyn("produceBatcher.callback"))
			r.Times(c, "the countdown happens once", call("atomic.AddInt64"), 1, 1, nil, nil)
			// callback and cleanup
			e := r.gs("produceBatcher.executeCallback")
			nocb := at("nocb", "$0.callback==nil")
			cb := dyn("$0.callback || produceBatcher.callback")
			r.Guard(e, "running the callback", nil, cb, nil, []Atom{nocb}, func(v V) int { return b2m(!v["nocb"]) })
			r.Times(e, "the callback runs at most once", cb, 0, 1, nil, nil)
			r.Every(e, "the callback gets the event, all records and the user data", cb, 1, func(n *Node) bool {
				return arg(n, 0) == "$0.ctx" && arg(n, 1) == "$0.records" && arg(n, 2) == "$0.userData"
			})
			rel := call("sak.Pool.Release || Record.Release", "recordPool || elem($0.records)", "*")
			one := call("sak.Pool.Release", "recordPool", "elem($0.records)")
			r.NotAfter(e, "the callback runs after records were returned to the pool", rel, cb, nil)
			r.ForEach(e, "a record is not returned to the pool once", "$0.records", one, 1, 1)
			r.Results(e, "executeCallback", []Atom{nocb}, func(v V) []string {
				if v["nocb"] {
					return []string{"0"}
				}
				return []string{"call:$0.callback($0.ctx,$0.records,$0.userData)"}
			})
		})

	rule("produce.single", "C13",
		"the blocking producer waits for its own record and returns its error, the asynchronous one calls back exactly once",
		func(r *R) {
			g := r.g("Producer.Produce")
			// the waiter: a wait group, or a channel which is closed or gets the error
			wg := len(g.Find(call("sync.WaitGroup.Wait"))) > 0
			free := func(n *Node) bool {
				if n.E.K == KSend && globs("make:chan*", n.E.X.String()) {
					return !wg && glob("cb:1(call:kgo.Client.Produce(*", n.E.V.String())
				}
				return !wg && n.E.K == KClose && globs("make:chan*", n.E.X.String())
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				switch {
				case n.E.K == KFork:
					return s.add("in"), ""
				case call("sync.WaitGroup.Add", "*", "1")(n):
					s = s.add("add")
				case call("sync.WaitGroup.Add")(n):
					return s, "the producer does not wait for exactly one acknowledgement"
				case call("kgo.Client.Produce")(n):
					if wg && !s.has("add") {
						return s, "the record is produced before the waiter was armed"
					}
					if s.has("prod") {
						return s, "the record is produced twice"
					}
					s = s.add("prod")
				case call("sync.WaitGroup.Done")(n), free(n):
					if !s.has("in") || s.has("done") {
						return s, "the waiter is not released exactly once by the acknowledgement"
					}
					s = s.add("done")
				case n.E.K == KFEnd:
					if !s.has("done") {
						return s, "the acknowledgement does not release the waiter"
					}
				case call("sync.WaitGroup.Wait")(n), !wg && recvX("make:chan*")(n):
					if !s.has("prod") {
						return s, "the producer waits before it produced"
					}
					s = s.add("wait")
				case n.E.K == KReturn:
					if !s.has("wait") {
						return s, "the producer returns before the record was acknowledged"
					}
				}
				return s, ""
			})
			r.insts += 5
			r.errorCell("Producer.Produce")
			a := r.g("Producer.ProduceAsync")
			cb := dyn("$3")
			r.Times(a, "the record is produced once", call("kgo.Client.Produce", "$0.client", "$1", "$2.kRecord"), 1, 1, nil, nil)
			r.topicDefault(a, "$2", "$0.destination.DefaultTopic", call("kgo.Client.Produce"), kind(KStart))
			r.Auto(a, "", func(s St, n *Node) (St, string) {
				switch {
				case n.E.K == KFork:
					s = s.add("in")
				case branch("$3==nil", true)(n):
					s = s.add("nocb")
				case cb(n):
					if !s.has("in") || s.has("cb") {
						return s, "the callback does not run exactly once, when the record was acknowledged"
					}
					if arg(n, 0) != "$2" || !glob("cb:1(call:kgo.Client.Produce(*", arg(n, 1)) {
						return s, "the callback does not get its record and error"
					}
					if s.has("nocb") {
						return s, "an absent callback is called"
					}
					s = s.add("cb")
				case n.E.K == KFEnd:
					if !s.has("cb") && !s.has("nocb") {
						return s, "the callback does not run"
					}
				}
				return s, ""
			})
			r.insts += 2
			for _, fn := range []string{"NewProducer", "NewBatchProducer"} {
				n := r.gn(fn, false)
				r.Times(n, fn+" creates one client for the cluster of the destination", call("NewClient", "$0.Cluster", "$1*"), 1, 1, nil, nil)
				typ := strings.TrimPrefix(fn, "New")
				r.Results(r.gn(fn, false, "NewClient"), fn, []Atom{at("ok", "call:NewClient(*)#1==nil")}, func(v V) []string {
					if v["ok"] {
						return []string{typ + "{client=call:NewClient(*)#0,destination=$0}"}
					}
					return []string{"(a panic)"}
				})
				r.Confined("the client or destination of a producer changes", typ+".client || "+typ+".destination", fn, true, false, 1)
			}
			if r.p.Funcs["Producer.Close"] != nil {
				r.Times(r.gs("Producer.Close"), "closing the producer closes its client", call("kgo.Client.Close", "$0.client"), 1, 1, nil, nil)
			}
			r.Results(r.gs("Source.AsDestination"), "the destination of a source", nil, func(V) []string {
				return []string{"Destination{Cluster=$0.config.SourceCluster,DefaultTopic=$0.config.Topic,*NumPartitions=$0.config.NumPartitions*}"}
			})
			r.Results(r.gs("newSource"), "a new source", nil, func(V) []string {
				return []string{"Source{config=$0,failure=make:*}"}
			})
		})

	rule("client.options", "C27",
		"defaults, cluster options and construction options are applied in this order, and every client is created by NewClient",
		func(r *R) {
			g := r.gs("NewClient")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if call("Cluster.Config")(n) && arg(n, 0) != "$0" {
					return s, "the options of another cluster are used"
				}
				if branch("call:Cluster.Config($0)#1==nil", false)(n) {
					s = s.add("err")
				}
				if branch("call:Cluster.Config($0)#1==nil", true)(n) {
					s = s.add("ok")
				}
				if call("kgo.NewClient")(n) {
					if !s.has("ok") {
						return s, "a client is created although the cluster has no configuration"
					}
					ps := splitTop(arg(n, 0))
					rc, cl, op := -1, -1, -1
					for i, p := range ps {
						switch {
						case p == "call:kgo.FetchIsolationLevel(call:kgo.ReadCommitted())":
							rc = i
						case glob("call:kgo.FetchIsolationLevel(*", p):
							return s, "uncommitted records are read"
						case p == "call:Cluster.Config($0)#0...":
							cl = i
						case p == "$1...":
							op = i
						case cl >= 0:
							return s, "a default overrides the options of the cluster"
						}
					}
					if rc < 0 {
						return s, "the client does not read committed records only"
					}
					if cl < 0 || op < cl || cl < rc {
						return s, "the options are not applied in the order defaults, cluster, construction"
					}
				}
				if n.E.K == KReturn {
					if s.has("err") && n.E.A[1].String() != "call:Cluster.Config($0)#1" && !glob("call:fmt.Errorf(*call:Cluster.Config($0)#1*", n.E.A[1].String()) {
						return s, "the error of the cluster configuration is not returned"
					}
					if s.has("ok") && !glob("call:kgo.NewClient(*", n.E.A[0].String()) && !glob("call:kgo.NewClient(*)#0", n.E.A[0].String()) {
						return s, "the client is not returned"
					}
				}
				return s, ""
			})
			r.need(len(g.Find(call("kgo.NewClient"))), 1, "client creation")
			r.insts += 4
			r.CalledFrom("a client is created without the defaults", "kgo.NewClient", "NewClient", false, 1)

			p := r.gn("newProducerNode", false, "NewClient")
			r.Every(p, "a transactional producer has its own id, writes to the state cluster, and its transactions outlive the library's", call("NewClient"), 1, func(n *Node) bool {
				tx, to := 0, false
				for _, o := range splitTop(arg(n, 1)) {
					if o == "call:kgo.TransactionalID(call:uuid.NewString())" || o == "call:kgo.TransactionalID(call:uuid.UUID.String(call:uuid.New()))" {
						tx++
					} else if glob("call:kgo.TransactionalID(*", o) {
						return false
					}
					if glob("call:kgo.TransactionTimeout(*", o) {
						to = r.txnTimeout(o)
					}
				}
				return tx == 1 && to
			})
			r.stateCluster(p, "the producer does not write to the state cluster", "$1")
			r.Every(p, "the producer uses another client", kind(KReturn), 1, func(n *Node) bool {
				return globs("call:NewClient(*) || call:NewClient(*)#0 || call:sak.Must(call:NewClient(*", n.E.A[0].FS("client"))
			})
			r.Confined("the client of a producer is replaced", "producerNode.client", "newProducerNode", true, false, 1)
			for fn, src := range map[string]string{"newStateStoreConsumer": "$1"} {
				n := r.gn(fn, false, "NewClient")
				r.stateCluster(n, fn+": the client is not connected to the state cluster", src)
			}
			cl := r.gn("newEosCommitLog", false, "NewClient")
			r.stateCluster(cl, "the commit log is not read from the state cluster", "$1")
			gl := r.gn("NewGlobalChangeLogWithRunStatus", false, "NewClient")
			r.Every(gl, "the change log is not read from the given cluster", call("NewClient"), 1, func(n *Node) bool { return arg(n, 0) == "$1" })

			// the consumer
			c := r.gn("newEventSourceConsumer", false, "NewClient", "newEOSProducerPool", "newStateStoreConsumer", "newEosCommitLog", "toGroupBalancers")
			r.Auto(c, "", func(s St, n *Node) (St, string) {
				if n.E.K == KFork {
					return dead, ""
				}
				if n.E.K == KBranch && glob("*.config.CommitOffsets*", n.E.X.String()) {
					if n.E.Val {
						s = s.add("mark")
					} else {
						s = s.add("nomark")
					}
				}
				if branch("len($1)<1 || len($1)==0 || $1==nil", true)(n) {
					s = s.add("noopts")
				}
				if !call("NewClient")(n) {
					return s, ""
				}
				if !glob("*config.SourceCluster", arg(n, 0)) {
					return s, "the consumer is not connected to the source cluster"
				}
				want := map[string]string{
					"kgo.Balancers": "call:toGroupBalancers(*", "kgo.ConsumerGroup": "*config.GroupId", "kgo.ConsumeTopics": "*config.Topic*",
					"kgo.OnPartitionsAssigned": "closure:eventSourceConsumer.partitionsAssigned*", "kgo.OnPartitionsRevoked": "closure:eventSourceConsumer.partitionsRevoked*",
					"kgo.AdjustFetchOffsetsFn": "closure:eventSourceConsumer.adjustOffsetsBeforeAssign*",
				}
				auto, add := "", -1
				ps := splitTop(arg(n, 1))
				at := map[string]int{}
				for i, o := range ps {
					if o == "$1..." {
						add = i
						continue
					}
					if !strings.HasPrefix(o, "call:") {
						continue
					}
					name := strings.TrimPrefix(o[:strings.Index(o, "(")], "call:")
					at[name] = i + 1
					if name == "kgo.OnPartitionsLost" && !glob("call:kgo.OnPartitionsLost(closure:eventSourceConsumer.partitionsRevoked*", o) {
						return s, "partitions which are lost are not revoked"
					}
					if w, ok := want[name]; ok && !glob("call:"+name+"("+w+")", o) && !glob("call:"+name+"(["+w+"])", o) {
						return s, name + " is given something else: " + o
					}
					if glob("kgo.AutoCommitMarks || kgo.DisableAutoCommit", name) || name == "kgo.AutoCommitMarks" || name == "kgo.DisableAutoCommit" || name == "kgo.GreedyAutoCommit" {
						auto = name
						if add >= 0 && i < add {
							return s, "an option could switch automatic committing on"
						}
					}
				}
				for w := range want {
					if at[w] == 0 {
						return s, w + " is missing"
					}
				}
				if add < 0 && !s.has("noopts") {
					return s, "the application's client options are not used"
				}
				if s.has("mark") && auto != "kgo.AutoCommitMarks" {
					return s, "offsets are not committed although it was requested"
				}
				if !s.has("mark") && auto != "kgo.DisableAutoCommit" {
					return s, "automatic committing is not disabled"
				}
				return s, ""
			})
			r.need(len(c.Find(call("NewClient"))), 1, "client of the consumer")
			r.insts += 9
		})

	rule("changelog.global", "C35",
		"all partitions are consumed from the start, every fetched record is delivered, pausing and resuming name the given partition",
		func(r *R) {
			n := r.gn("NewGlobalChangeLogWithRunStatus", false, "NewClient")
			asg := "make:map[int32]kgo.Offset"
			start := "call:kgo.Offset.AtStart(call:kgo.NewOffset())"
			r.ForEach(n, "a partition is not consumed from the start", "count:$3", func(x *Node) bool {
				return x.E.K == KMapSet && x.E.X.String() == asg && x.E.A[0].String() == "mu(0;@+1)" && x.E.V.String() == start
			}, 1, 1)
			r.Never(n, "a partition starts elsewhere", func(x *Node) bool {
				return x.E.K == KMapSet && x.E.X.String() == asg && x.E.V.String() != start
			})
			cp := "make:map[string]map[int32]kgo.Offset"
			r.Times(n, "the topic is consumed", func(x *Node) bool {
				return x.E.K == KMapSet && x.E.X.String() == cp && x.E.A[0].String() == "$4" && x.E.V.String() == asg
			}, 1, 1, nil, nil)
			r.Every(n, "the assignments are not given to the client", call("NewClient"), 1, func(x *Node) bool {
				return strings.Contains(arg(x, 1), "call:kgo.ConsumePartitions("+cp+")")
			})
			r.Every(n, "the change log does not keep its arguments", kind(KReturn), 1, func(x *Node) bool {
				o := x.E.A[0]
				return o.FS("runStatus") == "$0" && o.FS("receiver") == "$2" && o.FS("numPartitions") == "$3" && o.FS("topic") == "$4" && glob("call:NewClient(*", o.FS("client"))
			})
			r.Auto(n, "", func(s St, x *Node) (St, string) {
				if x.E.K == KBranch && globs("call:NewClient(*)#1==nil", squash(x.E.X.String())) {
					s = s.set("ok", b01(x.E.Val))
				}
				if x.E.K == KReturn && s.get("ok") != "1" {
					return s, "a change log without a client is returned"
				}
				if x.E.K == KPanic && s.get("ok") != "0" {
					return s, "no change log is returned although its client was created"
				}
				return s, ""
			})
			c := r.gs("GlobalChangeLog.consume")
			rec := call("ChangeLogReceiver.ReceiveChange")
			r.Auto(c, "", func(s St, x *Node) (St, string) {
				switch {
				case call("kgo.Client.PollFetches || kgo.Client.PollRecords")(x):
					if s.has("pend") {
						return s, "fetched records are not delivered"
					}
					if arg(x, 0) != "$0.client" {
						return s, "another client is polled"
					}
					return s.add("pend").del("closed"), ""
				case branch("call:kgo.Fetches.IsClientClosed(*", true)(x):
					return s.add("closed").del("pend"), ""
				case call("kgo.Fetches.EachRecord || kgo.Fetches.RecordIter || kgo.Fetches.Records || kgo.Fetches.EachPartition || kgo.Fetches.EachTopic")(x):
					return s.del("pend"), ""
				case call("kgo.Client.Close", "$0.client")(x):
					if !s.has("halt") && !s.has("closed") {
						return s, "the client is closed while the change log is running"
					}
					return s.add("done"), ""
				case branch("call:sak.RunStatus.Running($0.runStatus) || *$0.runStatus*", false)(x):
					return s.add("halt"), ""
				case x.E.K == KReturn:
					if !s.has("halt") && !s.has("closed") {
						return s, "delivery stops although the change log was not stopped"
					}
					if s.has("halt") && !s.has("done") {
						return s, "the client is not closed when the change log is stopped"
					}
					if s.has("pend") {
						return s, "fetched records are not delivered"
					}
				case x.E.K == KPanic:
					return s, "an error stops delivery"
				}
				return s, ""
			})
			r.need(len(c.Find(call("kgo.Client.PollFetches || kgo.Client.PollRecords"))), 1, "poll")
			r.insts += 6
			r.ForEachNested(c, "a fetched record is not delivered", rec)
			r.Never(c, "the change log is stopped although the application did not ask for it", call("sak.RunStatus.Halt"))
			r.Every(c, "the receiver does not get the fetched record", rec, 1, func(x *Node) bool {
				return arg(x, 0) == "$0.receiver" && x.E.A[1].F("kRecord") != nil && globs("each:0(* || elem(* || call:kgo.FetchesRecordIter.Next(*", x.E.A[1].F("kRecord").String())
			})
			r.Never(c, "records are delivered concurrently", kind(KGo))
			// start, stop
			st := r.gs("GlobalChangeLog.Start")
			r.Times(st, "consuming starts once", goEv("GlobalChangeLog.consume"), 1, 1, nil, nil)
			r.CalledFrom("the change log is consumed more than once", "GlobalChangeLog.consume", "GlobalChangeLog.Start", false, 1)
			r.Times(r.gs("GlobalChangeLog.Stop"), "stopping halts the run status", call("sak.RunStatus.Halt", "$0.runStatus"), 1, 1, nil, nil)
			// pause, resume
			pm := "make:map[string][]int32"
			one := func(x *Node) bool {
				return x.E.K == KMapSet && x.E.X.String() == pm && x.E.A[0].String() == "$0.topic" && x.E.V.String() == "[$1]"
			}
			pa := r.gs("GlobalChangeLog.Pause")
			r.Times(pa, "the partition is paused", call("kgo.Client.PauseFetchPartitions", "$0.client", pm), 1, 1, nil, nil)
			r.Times(pa, "exactly the partition is named", one, 1, 1, nil, nil)
			r.Precede(pa, "the partition is named before pausing", one, call("kgo.Client.PauseFetchPartitions"), nil)
			re := r.gs("GlobalChangeLog.ResumePartitionAt")
			set := call("kgo.Client.SetOffsets", "$0.client", "make:map[string]map[int32]kgo.EpochOffset")
			res := call("kgo.Client.ResumeFetchPartitions", "$0.client", pm)
			r.Times(re, "the offset is set", set, 1, 1, nil, nil)
			r.Times(re, "the partition is resumed", res, 1, 1, nil, nil)
			r.Precede(re, "the partition is resumed only after its offset was set", set, res, nil)
			r.Times(re, "exactly the partition is named", one, 1, 1, nil, nil)
			r.Times(re, "the offset of the partition is the given one", func(x *Node) bool {
				return x.E.K == KMapSet && x.E.X.String() == "make:map[int32]kgo.EpochOffset" && x.E.A[0].String() == "$1" && x.E.V.FS("Offset") == "$2" && x.E.V.FS("Epoch") == "-1"
			}, 1, 1, nil, nil)
			r.Times(re, "the offset is set for the topic", func(x *Node) bool {
				return x.E.K == KMapSet && x.E.X.String() == "make:map[string]map[int32]kgo.EpochOffset" && x.E.A[0].String() == "$0.topic"
			}, 1, 1, nil, nil)
			al := r.gs("GlobalChangeLog.PauseAllPartitions")
			r.Times(al, "all partitions are paused", call("kgo.Client.PauseFetchPartitions", "$0.client", pm), 1, 1, nil, nil)
			r.Times(al, "all partitions of the topic are named", func(x *Node) bool {
				return x.E.K == KMapSet && x.E.X.String() == pm && x.E.A[0].String() == "$0.topic" && (globs("make:[]int32($0.numPartitions,$0.numPartitions)", x.E.V.String()) || strings.Contains(x.E.V.String(), "append("))
			}, 1, 1, nil, call("kgo.Client.PauseFetchPartitions"))
			r.ForEach(al, "a partition is not paused", "count:$0.numPartitions || make:[]int32*", func(x *Node) bool {
				return x.E.K == KStore && glob("elem(make:[]int32($0.numPartitions,$0.numPartitions))", x.E.X.String()) && x.E.V.String() == "mu(0;@+1)" ||
					call("builtin.append", "*", "*mu(0;@+1)*")(x)
			}, 1, 1)
		})
}

// topicDefault: the default topic is set on records without a topic, and only on those.
func (r *R) topicDefault(g *Graph, rec, topic string, end, start Pred) {
	r.Guard(g, "setting the default topic", start, and(store("kgo.Record.Topic", topic)), end,
		[]Atom{at("none", "len("+rec+".kRecord.Topic)<1", "len("+rec+".kRecord.Topic)==0", rec+`.kRecord.Topic==""`)}, func(v V) int { return b2m(v["none"]) })
	r.Never(g, "the topic is set to something else", and(store("kgo.Record.Topic"), not(store("kgo.Record.Topic", topic))))
}

// stateCluster: every client is created with the state cluster of the source, which is the
// source's own cluster exactly when there is none.
func (r *R) stateCluster(g *Graph, what, src string) {
	r.Every(g, what, call("NewClient"), 1, func(n *Node) bool {
		return arg(n, 0) == src+".config.StateCluster" || arg(n, 0) == src+".config.SourceCluster"
	})
	r.Guard(g, what, nil, call("NewClient", src+".config.SourceCluster"), kind(KReturn), []Atom{at("none", src+".config.StateCluster==nil")}, func(v V) int { return b2m(v["none"]) })
}

// txnTimeout: the transaction timeout is above the time the library waits.
func (r *R) txnTimeout(o string) bool {
	var ns int64
	for _, c := range o[strings.Index(o, "TransactionTimeout(")+len("TransactionTimeout("):] {
		if c < '0' || c > '9' {
			break
		}
		ns = ns*10 + int64(c-'0')
	}
	max := int64(0)
	for _, f := range []string{"producerNode.commit", "producerNode.finalizeEvents"} {
		if r.p.Funcs[f] == nil {
			continue
		}
		for _, n := range r.gs(f).Find(call("context.WithTimeout")) {
			if n.E.A[1].isNum() && n.E.A[1].Int.Int64() > max {
				max = n.E.A[1].Int.Int64()
			}
		}
	}
	return max > 0 && ns > max
}

// errorCell: the function returns the variable in which the callback stores the error it is
// given, and the callback stores it before it releases the waiter.
func (r *R) errorCell(fn string) {
	r.insts++
	r.errorCellOf(fn, r.fn(fn), 0)
}

func (r *R) errorCellOf(fn string, f *ssa.Function, depth int) {
	cells := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			cl := mc.Fn.(*ssa.Function)
			var st, done ssa.Instruction
			deferred := false
			var cell ssa.Value
			for _, cb := range cl.Blocks {
				for _, ci := range cb.Instrs {
					switch x := ci.(type) {
					case *ssa.Store:
						fv, ok := x.Addr.(*ssa.FreeVar)
						if _, isP := x.Val.(*ssa.Parameter); ok && isP {
							for i, v := range cl.FreeVars {
								if v == fv {
									cell, st = mc.Bindings[i], ci
								}
							}
						}
					case *ssa.Call:
						if releases(r.p, &x.Call) {
							done = ci
						}
					case *ssa.Defer:
						if releases(r.p, &x.Call) {
							deferred = true
						}
					}
				}
			}
			if cell != nil && (deferred && done == nil && st.Block() == cl.Blocks[0] || done != nil && (st.Block() == done.Block() && before(st, done) || st.Block() != done.Block() && st.Block().Dominates(done.Block()))) {
				cells[cell] = true
			}
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ret, ok := ins.(*ssa.Return)
			if !ok || len(ret.Results) != 1 {
				continue
			}
			if c, ok := ret.Results[0].(*ssa.Call); ok && depth < 4 {
				if g := c.Call.StaticCallee(); g != nil && orig(g).Blocks != nil && r.p.inRepo(orig(g)) {
					r.errorCellOf(fn, orig(g), depth+1)
					continue
				}
			}
			u, ok := ret.Results[0].(*ssa.UnOp)
			if !ok || !(cells[u.X] || u.Op == token.ARROW) {
				r.fail(ret.Pos(), fn, "the returned error is not the one stored by the acknowledgement before it released the waiter", nil)
			}
		}
	}
}

// releases: the call lets go who waits (WaitGroup.Done, close of a channel).
func releases(p *Prog, c *ssa.CallCommon) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name() == "close"
	}
	f := c.StaticCallee()
	return f != nil && p.Name(f) == "sync.WaitGroup.Done"
}

func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}
