package main

import "strings"

func init() {
	rule("context.api", "C42",
		"contexts report and forward what they were created from; the event source reports its source",
		func(r *R) {
			// accessors
			ij := at("ij", "$0.interjection!=nil", "!$0.interjection==nil")
			r.Results(r.gs("EventContext.Offset"), "the offset of an event", []Atom{ij}, func(v V) []string {
				if v["ij"] {
					return []string{"-1"}
				}
				return []string{"$0.input.kRecord.Offset"}
			})
			r.Results(r.gs("EventContext.IsInterjection"), "whether an event is an interjection", []Atom{ij}, func(v V) []string {
				if v["ij"] {
					return []string{"true || !$0.interjection==nil || $0.interjection!=nil"}
				}
				return []string{"false || !$0.interjection==nil || $0.interjection!=nil"}
			})
			r.Ret("EventContext.TopicPartition", "the partition of an event", "$0.topicPartition")
			r.Ret("EventContext.partition", "the partition of an event", "$0.topicPartition.Partition")
			r.Every(r.gs("EventContext.Input"), "the input of an event is not what was received, or that of an interjection is reported as present", kind(KReturn), 1, func(n *Node) bool {
				ok := n.E.A[1].String()
				return globs("$0.input", n.E.A[0].String()) && ok == "$0.interjection==nil"
			})

			// forwarding
			g := r.gn("EventContext.Forward", false, "producerNode.ProduceRecord", "producerNode.produceRecord")
			prod := call("producerNode.ProduceRecord || producerNode.produceRecord || EventContextProducer.ProduceRecord")
			r.ForEach(g, "a forwarded record is lost or produced twice", "$1", prod, 1, 1)
			r.Every(g, "a record is not forwarded in the transaction of its event", prod, 1, func(n *Node) bool {
				return arg(n, 0) == "$0.producer" && arg(n, 1) == "$0" && arg(n, 2) == "elem($1)"
			})
			r.Guard(g, "forwarding every record", func(n *Node) bool { c, cont, ok := loopBranch(n); return ok && cont && c == "$1" }, prod,
				func(n *Node) bool { c, _, ok := loopBranch(n); return ok && c == "$1" }, nil, func(v V) int { return must })

			// completions
			c := r.gn("EventContext.AsyncJobComplete", false, "asyncCompleter.AsyncComplete")
			done := call("asyncCompleter.AsyncComplete || AsyncCompleter.AsyncComplete")
			r.Times(c, "an asynchronous completion is reported once", done, 1, 1, nil, nil)
			r.Every(c, "an asynchronous completion is reported for another event, or with another finalizer", done, 1, func(n *Node) bool {
				a := n.E.A[1]
				return arg(n, 0) == "$0.asyncCompleter" && a.FS("ctx") == "$0" && a.FS("finalizer") == "$1"
			})

			// construction
			made := func(fn string, want map[string]string) {
				q := r.gs(fn)
				r.Every(q, "an event context made by "+fn+" does not carry what it was made from", kind(KReturn), 1, func(n *Node) bool {
					for f, w := range want {
						if !globs(w, n.E.A[0].FS(f)) {
							r.note("%s: %s = %s", fn, f, n.E.A[0].FS(f))
							return false
						}
					}
					return true
				})
			}
			made("newEventContext", map[string]string{
				"ctx": "$0", "interjection": "nil || zero*", "asyncCompleter": "$3.asyncCompleter", "revocationWaiter": "$3.revocationWaiter",
				"producerChan": "make:chan *(1)", "done": "make:chan struct(0)",
			})
			made("newInterjectionContext", map[string]string{
				"ctx": "$0", "interjection": "$1", "asyncCompleter": "$4.asyncCompleter", "revocationWaiter": "$4.revocationWaiter",
				"producerChan": "make:chan *(1)", "done": "make:chan struct(0)", "input": "zero*",
			})
			r.Every(r.gs("newEventContext"), "an event does not carry the received record", kind(KReturn), 1, func(n *Node) bool {
				x := n.E.A[0].F("input")
				return x != nil && x.FS("kRecord") == "$1"
			})
			mock := r.gn("MockEventContext", false, "Record.AsIncomingRecord", "Record.TopicPartition")
			none := at("none", "$1==nil")
			r.Guard(mock, "the input of a mocked event", nil, store("EventContext.input", "call:Record.AsIncomingRecord($1)"), nil, []Atom{none}, func(v V) int { return b2m(!v["none"]) })
			r.Guard(mock, "the partition of a mocked event", nil, store("EventContext.topicPartition", "call:Record.TopicPartition($1)"), nil, []Atom{none}, func(v V) int { return b2m(!v["none"]) })
			r.Every(mock, "a mocked event does not carry what it was made from", kind(KReturn), 1, func(n *Node) bool {
				o := n.E.A[0]
				cl := o.F("changeLog")
				return o.FS("ctx") == "$0" && cl != nil && cl.FS("topic") == "$2" && cl.FS("store") == "$3" &&
					o.FS("asyncCompleter") == "$4" && o.FS("producer") == "$5" && globs("zero* || nil", o.FS("interjection"))
			})
			r.Every(r.gs("MockInterjectionEventContext"), "a mocked interjection does not carry what it was made from", kind(KReturn), 1, func(n *Node) bool {
				o := n.E.A[0]
				cl := o.F("changeLog")
				return cl != nil && cl.FS("topic") == "$2" && cl.FS("store") == "$3" && o.FS("topicPartition") == "$1" &&
					o.FS("asyncCompleter") == "$4" && o.FS("producer") == "$5" && strings.HasPrefix(o.FS("interjection"), "new:")
			})

			// the event source and its source
			r.Ret("EventSource.Source", "the source of an event source", "$0.source")
			s := r.gn("EventSource.State", false, "Source.State")
			r.Every(s, "the state of another source is reported", kind(KReturn), 1, func(n *Node) bool {
				return n.E.A[0].String() == "call:Source.State($0.source)"
			})
		})
}
