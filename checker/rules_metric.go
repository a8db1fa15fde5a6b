package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Metrics: metric.go, event_source.go (C26).

func isMetricChan(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && strings.HasSuffix(c.Elem().String(), "/streams.Metric")
}

func init() {
	rule("metric.emit", "C26",
		"no metric is sent in a way which can block, channels of metrics are never closed, and there is no such channel unless there is a handler",
		func(r *R) {
			sends := 0
			for _, fn := range r.p.All {
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						switch x := ins.(type) {
						case *ssa.Send:
							if isMetricChan(x.Chan.Type()) {
								r.fail(x.Pos(), r.p.Name(fn), "emitting a metric blocks when the handler can not keep up", nil)
							}
						case *ssa.Select:
							for _, st := range x.States {
								if st.Dir == types.SendOnly && isMetricChan(st.Chan.Type()) {
									sends++
									if x.Blocking {
										r.fail(st.Pos, r.p.Name(fn), "emitting a metric blocks when the handler can not keep up", nil)
									}
								}
							}
						case ssa.CallInstruction:
							if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && isMetricChan(x.Common().Args[0].Type()) {
								r.fail(x.Pos(), r.p.Name(fn), "a metrics channel is closed, emitting a metric afterwards panics", nil)
							}
						case *ssa.MakeChan:
							if isMetricChan(x.Type()) && r.p.Name(fn) != "NewEventSource" {
								if m := r.From(fn, "NewEventSource", true); m != "" {
									r.fail(x.Pos(), r.p.Name(fn), "a metrics channel is created elsewhere, nobody delivers its metrics", nil)
								}
							}
						}
					}
				}
			}
			r.need(sends, 1, "emission of metrics")
			r.insts += sends
			g := r.gn("NewEventSource", false, "CreateSource", "newEventSourceConsumer", "sak.NewRunStatus")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				switch {
				case e.K == KBranch && globs("*.config.MetricsHandler==nil || *.MetricsHandler==nil", e.X.String()):
					s = s.set("none", b01(e.Val))
				case e.K == KStore && e.Field == "EventSource.metrics":
					made := strings.HasPrefix(e.V.String(), "make:chan Metric(")
					switch {
					case s.get("none") == "0" && (!made || chanCap(e.V) == 0):
						return s, "metrics get lost although there is a handler which keeps up"
					case s.get("none") == "" && made, s.get("none") == "1" && made:
						return s, "metrics are emitted without a handler"
					}
					if made {
						s = s.add("set")
					} else {
						s = s.del("set")
					}
				case call("newEventSourceConsumer")(n):
					if s.get("none") != "1" && !s.has("set") {
						return s, "the consumer is created before the metrics channel, it emits no metrics"
					}
				}
				return s, ""
			})
			r.Confined("another metrics channel is used", "EventSource.metrics || eventSourceConsumer.metrics || producerNode.metrics", "NewEventSource || newEventSourceConsumer || newProducerNode || newEOSProducerPool", true, false, 1)
			c := r.gn("newEventSourceConsumer", false, "NewClient", "newEOSProducerPool", "newStateStoreConsumer", "newEosCommitLog", "toGroupBalancers", "EosConfig.validate", "EosConfig.IsZero", "Source.shouldMarkCommit", "sak.NewRunStatus", "sak.RunStatus.Fork")
			r.Every(c, "the consumer emits to the event source's channel", store("eventSourceConsumer.metrics"), 1, func(n *Node) bool { return n.E.V.String() == "$0.metrics" })
			r.Every(c, "the producers emit to the event source's channel", call("newEOSProducerPool"), 1, func(n *Node) bool { return n.E.A[4].String() == "$0.metrics" })
			pl := r.gn("newEOSProducerPool", false, "newProducerNode")
			r.Every(pl, "the producers emit to the event source's channel", call("newProducerNode"), 1, func(n *Node) bool { return n.E.A[5].String() == "$4" })
			pn := r.gn("newProducerNode", false, "NewClient")
			r.Every(pn, "the producers emit to the event source's channel", store("producerNode.metrics"), 1, func(n *Node) bool { return n.E.V.String() == "$5" })
			em := r.gs("EventSource.EmitMetric")
			r.Every(em, "the application's metric is emitted", sendX("$0.metrics"), 1, func(n *Node) bool { return n.E.V.String() == "$1" })
			r.Guard(em, "emitting the application's metric", nil, or(sendX("$0.metrics"), func(n *Node) bool {
				return n.E.K == KSel && n.E.Name == "default" && strings.Contains(altStr(n.E), "$0.metrics")
			}), nil, []Atom{at("none", "$0.metrics==nil")}, func(v V) int {
				if v["none"] {
					return dontcare
				}
				return must
			})
		})

	rule("metric.deliver", "C26",
		"every metric received is given to the handler once and unchanged except for a missing execution time, until the event source has stopped",
		func(r *R) {
			g := r.gs("EventSource.emitMetrics")
			in := recvX("$0.metrics")
			h := func(n *Node) bool { return n.E.K == KDyn && strings.HasSuffix(n.E.Name, "MetricsHandler") }
			stop := recvX("call:context.Context.Done($0.runStatus.ctx)")
			r.need(len(g.Find(in)), 1, "reception of metrics")
			hs := g.Find(h)
			r.need(len(hs), 1, "invocation of the handler")
			r.insts += len(hs)
			fields := []string{"StartTime", "EndTime", "Count", "Bytes", "PartitionCount", "Partition", "Operation", "Topic", "GroupId"}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				switch {
				case e.K == KSel && s.has("stop"):
					return s, "metrics are waited for after the event source has stopped, which keeps a processor busy"
				case e.K == KSel && e.Name == "default":
					return s, "waiting for metrics keeps a processor busy"
				case e.K == KFork:
					return s, "metrics are delivered concurrently"
				case in(n):
					if len(e.Alts) < 2 {
						return s, "delivering metrics does not end when the event source has stopped"
					}
					if s.has("in") {
						return s, "a metric is not delivered"
					}
					return St("").add("in"), ""
				case e.K == KBranch && e.X.String() == "call:time.Time.IsZero(recv($0.metrics).ExecuteTime)":
					s = s.set("zero", b01(e.Val))
				case e.K == KBranch && strings.Contains(e.X.String(), "recv($0.metrics).ExecuteTime"):
					s = s.set("zero", "?")
				case e.K == KBranch && e.X.String() == "$0.metrics==nil" && e.Val:
					s = s.add("nil")
				case h(n):
					if !s.has("in") {
						return s, "the handler gets something which was not emitted, or a metric twice"
					}
					m := e.A[0]
					for _, f := range fields {
						if m.FS(f) != "recv($0.metrics)."+f {
							return s, "the handler does not get the metric's own " + f
						}
					}
					x := m.FS("ExecuteTime")
					if s.get("zero") == "0" && x != "recv($0.metrics).ExecuteTime" || s.get("zero") == "1" && x != "recv($0.metrics).StartTime" || s.get("zero") == "" && x != "recv($0.metrics).ExecuteTime" {
						return s, "the handler does not get the metric's own ExecuteTime"
					}
					if s.get("zero") == "" {
						return s, "the handler does not get the start time in place of a missing ExecuteTime"
					}
					return s.del("in"), ""
				case stop(n):
					s = s.add("stop")
				case e.K == KReturn:
					if s.has("in") {
						return s, "a metric is not delivered"
					}
					if !s.has("stop") && !s.has("nil") {
						return s, "metrics are no longer delivered although the event source is running"
					}
				}
				return s, ""
			})
			for _, n := range g.Find(kind(KSel)) {
				if strings.Contains(altStr(n.E), "$0.metrics") && !strings.Contains(altStr(n.E), "Context.Done($0.runStatus.ctx)") {
					r.failN(g, n, "delivering metrics does not end when the event source has stopped", nil)
				}
			}
			r.Confined("the handler is invoked elsewhere", "EventSourceConfig.MetricsHandler", "NewEventSource || EventSource.emitMetrics", false, false, 1)
			for f, w := range map[string]string{"Duration": "call:time.Time.Sub($0.EndTime,$0.StartTime)", "Linger": "call:time.Time.Sub($0.ExecuteTime,$0.StartTime)", "ExecuteDuration": "call:time.Time.Sub($0.EndTime,$0.ExecuteTime)"} {
				r.Ret("Metric."+f, "Metric."+f, w)
			}
		})

	rule("metric.prepared", "C26",
		"one metric is emitted for every prepared partition after it was prepared, with its own start, partition, group and the number and size of the records it took",
		func(r *R) {
			g := r.gn("eventSourceConsumer.PrepareTopicPartition", true, "stateStorePartition.prep")
			ssp := "$0.stateStoreConsumer.partitions[$1.Partition]"
			send := sendX("$0.metrics")
			want := map[string]string{
				"Operation": "\"PartitionPrepped\"", "PartitionCount": "1", "Partition": "$1.Partition", "GroupId": "$0.source.config.GroupId",
				"StartTime": "call:time.Now()", "EndTime": "call:time.Now()",
				"Count": "call:atomic.LoadUint64(" + ssp + ".count)", "Bytes": "call:atomic.LoadUint64(" + ssp + ".byteCount)",
			}
			dropped := func(n *Node) bool {
				return n.E.K == KSel && n.E.Name == "default" && strings.Contains(altStr(n.E), "$0.metrics")
			}
			for _, n := range g.Find(send) {
				for f, w := range want {
					r.insts++
					if got := n.E.V.FS(f); got != w {
						r.failN(g, n, "the metric of a prepared partition reports another "+f+": "+got, nil)
					}
				}
			}
			r.need(len(g.Find(send)), 1, "metric of a prepared partition")
			done := call("IncrementalGroupRebalancer.PartitionPrepared")
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				switch {
				case call("time.Now")(n) && e.Fr != nil && s.has("in"):
					if s.has("synced") {
						return s.add("end"), ""
					}
					return s.add("start"), ""
				case call("stateStorePartition.sync")(n) || n.E.K == KRecv && s.has("in"):
					return s.add("synced"), ""
				case e.K == KFork:
					return s.add("in"), ""
				case e.K == KBranch && e.X.String() == "$0.metrics==nil" && s.has("in"):
					return s.set("none", b01(e.Val)), ""
				case done(n):
					return s.add("done"), ""
				case send(n) || dropped(n):
					switch {
					case s.has("sent"):
						return s, "the metric of a prepared partition is emitted twice"
					case !s.has("synced"):
						return s, "the metric of a prepared partition is emitted before it is prepared"
					case send(n) && !s.has("start"):
						return s, "the start of a preparation is taken after it"
					case send(n) && !s.has("end"):
						return s, "the end of a preparation is taken before it"
					}
					return s.add("sent"), ""
				case e.K == KFEnd && s.has("done"):
					if !s.has("sent") && s.get("none") != "1" {
						return s, "no metric is emitted for a prepared partition"
					}
				}
				return s, ""
			})
			// what is counted
			p := r.gs("stateStorePartition.populate")
			rec := "elem(recv($2))"
			add := func(f string) Pred {
				return or(call("atomic.AddUint64", "$0."+f), store("stateStorePartition."+f))
			}
			dlv := call("StateStore.ReceiveChange")
			for _, f := range []string{"count", "byteCount"} {
				f := f
				r.need(len(p.Find(add(f))), 1, "counting of "+f)
				r.Every(p, "the "+f+" of a restoration is wrong", add(f), 1, func(n *Node) bool {
					v := n.E.V
					if n.E.K == KCall {
						v = n.E.A[1]
					}
					if v == nil {
						return false
					}
					if f == "count" {
						return v.String() == "1" || v.String() == "$0.count+1"
					}
					return globs("*len("+rec+".Key)*", v.String()) && globs("*len("+rec+".Value)*", v.String())
				})
				r.Auto(p, "", func(s St, n *Node) (St, string) {
					if c, more, ok := loopBranch(n); ok && c == "recv($2)" {
						if s.has("dlv") && !s.has("cnt") {
							return s, "a restored record is not counted in " + f
						}
						if more {
							return "in", ""
						}
						return "", ""
					}
					switch {
					case dlv(n):
						return s.add("dlv"), ""
					case add(f)(n):
						if s.has("cnt") {
							return s, "a restored record is counted twice in " + f
						}
						return s.add("cnt"), ""
					}
					return s, ""
				})
			}
			for _, f := range []string{"count", "byteCount"} {
				r.Times(r.gs("stateStorePartition.prep"), "the "+f+" of a restoration contains that of an earlier one", or(setTo("$0."+f, "0"), call("atomic.StoreUint64", "$0."+f, "0")), 1, 9, nil, nil)
			}
			r.Confined("the size of a restoration changes elsewhere", "stateStorePartition.count || stateStorePartition.byteCount", "stateStorePartition.* || stateStoreConsumer.*", true, false, 1)
		})
}
