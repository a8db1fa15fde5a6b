package main

import (
	"regexp"
	"strconv"
	"strings"
)

// blocks: the operation may wait for others.
func blocks(n *Node) string {
	switch n.E.K {
	case KSend, KRecv, KSel:
		if n.E.Block {
			return "waits for a channel"
		}
	case KCall:
		if globs("sync.*.Lock || sync.*.RLock || sync.*.Wait || time.Sleep || kgo.Client.Close* || kgo.Client.*Flush || kgo.Client.Poll* || kadm.*", n.E.Name) {
			return "waits in " + n.E.Name
		}
	}
	return ""
}

var makeCap = regexp.MustCompile(`^make:chan .*\((\d+)\)$`)

// chanCap: the capacity of a channel made at a known place, -1 when unknown.
func chanCap(x *X) int {
	if m := makeCap.FindStringSubmatch(x.String()); m != nil {
		n, _ := strconv.Atoi(m[1])
		return n
	}
	return -1
}

const (
	evOK    = "0" // Complete, Continue
	evFail  = "1" // Incomplete, FailConsumer
	evFatal = "2" // FatallyExit
	noType  = "3" // unknownType
)

// route checks the handling of one record, starting at the processor start.
func (r *R) route(root, start string) {
	g := r.gs(root)
	rec := "$2.recordType"
	handle := root == "EventSource.handleEvent"
	deflt := "call:$0.defaultProcessor($1,$2)"
	isCur := func(s St, x string) bool {
		c := s.get("cur")
		return x == c || x == "mu("+start+";@.next)"
	}
	n := 0
	r.Auto(g, St("cur="+start), func(s St, nd *Node) (St, string) {
		e := nd.E
		switch e.K {
		case KFork:
			return dead, ""
		case KBranch:
			for _, c := range conds(e.X) {
				if x := strings.TrimSuffix(c, ".eventType=="+rec); x != c {
					if !isCur(s, x) {
						return s, "the registered processors are not tried in the order of registration"
					}
					if s.get("m") != "" {
						return s, "a record which was matched is compared again"
					}
					n++
					if e.Val {
						return s.set("m", x), ""
					}
					if x == "mu("+start+";@.next)" {
						return s.set("cur", x), ""
					}
					return s.set("cur", x+".next"), ""
				}
				if x := strings.TrimSuffix(c, "==nil"); x != c && (isCur(s, x)) && s.get("m") == "" {
					if e.Val {
						return s.add("none"), ""
					}
				}
				if x := strings.TrimSuffix(c, "=="+noType); x != c && e.Val && (x == s.get("res") || x == s.get("rec")) {
					return s.add("none"), ""
				}
				if d := s.get("h"); d != "" {
					for _, v := range []string{evOK, evFail, evFatal} {
						if c == d+"=="+v {
							if e.Val {
								for _, w := range []string{evOK, evFail, evFatal} {
									if w != v {
										s = s.add("not" + w)
									}
								}
							} else {
								s = s.add("not" + v)
							}
							return s, ""
						}
					}
				}
				if d := s.get("d"); d != "" && c == "call:"+d+"($2)#1==nil" {
					if e.Val {
						return s.add("good"), ""
					}
					return s.add("bad"), ""
				}
			}
		case KDyn:
			nm := strings.TrimPrefix(e.Name, "dyn:")
			m := s.get("m")
			dec := "call:" + m + ".eventExecutor.decode($2)"
			switch {
			case strings.HasSuffix(nm, ".decode"):
				if m == "" || nm != m+".eventExecutor.decode" || arg(nd, 0) != "$2" {
					return s, "a record is decoded by another decoder than the one of its type"
				}
				if s.get("d") != "" {
					return s, "a record is decoded twice"
				}
				n++
				return s.set("d", nm), ""
			case strings.HasSuffix(nm, ".handleDeserializationError"):
				if !s.has("bad") || nm != m+".eventExecutor.handleDeserializationError" {
					return s, "the deserialization error handler is called without an error"
				}
				if s.get("h") != "" {
					return s, "an undecodable record is reported twice"
				}
				if arg(nd, 0) != "$1" || arg(nd, 1) != rec || arg(nd, 2) != dec+"#1" {
					return s, "the deserialization error handler is not told which record could not be decoded and why"
				}
				n++
				return s.set("h", "call:"+nm+"($1,"+rec+","+dec+"#1)"), ""
			case strings.HasSuffix(nm, ".process"):
				if !s.has("good") || nm != m+".eventExecutor.process" {
					return s, "a processor receives a record which was not decoded successfully for it"
				}
				if s.get("res") != "" {
					return s, "a record is processed twice"
				}
				if arg(nd, 0) != "$1" || arg(nd, 1) != dec+"#0" {
					return s, "a processor does not receive the event which was decoded"
				}
				n++
				return s.set("res", "call:"+nm+"($1,"+dec+"#0)"), ""
			case nm == "$0.defaultProcessor":
				if !s.has("none") {
					return s, "a record which has a processor is given to the default processor"
				}
				if s.has("def") {
					return s, "the default processor is called twice"
				}
				if arg(nd, 0) != "$1" || arg(nd, 1) != "$2" {
					return s, "the default processor does not receive the record"
				}
				n++
				return s.add("def"), ""
			}
		case KCall, KEnter:
			if e.Name == "eventProcessorWrapper.process" && e.K == KCall {
				if !isCur(s, arg(nd, 0)) || s.get("m") != "" || arg(nd, 1) != "$1" || arg(nd, 2) != "$2" {
					return s, "the record is not handed to the next registered processor"
				}
				n++
				return s.set("rec", "call:eventProcessorWrapper.process("+arg(nd, 0)+",$1,$2)"), ""
			}
			if e.Name == "Source.fail" {
				if s.get("h") == "" || s.has("not"+evFail) || !s.has("not"+evOK) {
					return s, "the event source is failed although the error handler did not ask for it"
				}
				if arg(nd, 0) != s.get("m")+".eventExecutor.source" || arg(nd, 1) != "call:"+s.get("d")+"($2)#1" {
					return s, "another source is failed, or for another reason"
				}
				return s.add("failed"), ""
			}
		case KPanic:
			if s.get("h") == "" || s.has("not"+evFatal) {
				return s, "the process panics although the error handler did not ask for it"
			}
			return dead, ""
		case KReturn:
			v := arg(nd, 0)
			if s.has("def") && v != deflt {
				return s, "the result of the default processor is not returned"
			}
			switch {
			case handle && s.has("none") && !s.has("def"):
				return s, "a record without a processor is not given to the default processor"
			case s.has("def"):
				return s, ""
			case s.has("none"):
				if v != noType {
					return s, "a record without a processor is not reported as such"
				}
			case s.get("rec") != "":
				if v != s.get("rec") {
					return s, "the result of the next processor is not returned"
				}
			case s.get("m") == "":
				return s, "a record is dropped"
			case s.get("res") != "":
				if v != s.get("res") {
					return s, "the result of the processor is not returned"
				}
			case !s.has("bad"):
				return s, "a record is neither processed nor reported as undecodable"
			case s.get("h") == "":
				return s, "an undecodable record is not reported to the error handler"
			case v == evOK:
				if s.has("failed") || !s.has("not"+evFail) || !s.has("not"+evFatal) {
					return s, "an undecodable record is completed although the error handler did not answer Continue"
				}
			case v == evFail:
				if !s.has("failed") {
					return s, "the event of an undecodable record is left open without failing the event source"
				}
				if !s.has("not" + evFatal) {
					return s, "FatallyExit does not panic"
				}
			default:
				return s, "an undecodable record is neither completed nor fails the event source"
			}
		}
		return s, ""
	})
	r.need(n, 1, "routing steps of "+root)
	r.insts += n
	if len(g.Find(func(n *Node) bool { return n.E.K == KCall && n.E.Name == "eventProcessorWrapper.process" })) > 0 && handle {
		r.route("eventProcessorWrapper.process", "$0")
	}
}

func init() {
	rule("source.route", "C16",
		"a record goes to the first registered processor of its type, decoded by that type's decoder, else to the default one; undecodable records are handled as the error handler answers",
		func(r *R) {
			r.route("EventSource.handleEvent", "$0.rootProcessor")
			r.Results(r.gs("Source.deserializationErrorHandler"), "the configured error handler", []Atom{at("nil", "$0.config.DeserializationErrorHandler==nil")}, func(v V) []string {
				if v["nil"] {
					return []string{"func:DefaultDeserializationErrorHandler"}
				}
				return []string{"$0.config.DeserializationErrorHandler"}
			})
			r.Ret("DefaultDeserializationErrorHandler", "the default answer to undecodable records", evOK)
		})

	rule("source.register", "C16",
		"registration appends the processor with its own decoder, type and error handler, and keeps the ones registered before",
		func(r *R) {
			g := r.gs("RegisterEventType")
			isNew := func(x *X) bool {
				if x == nil || x.Op != "obj" || x.FS("eventType") != "$3" {
					return false
				}
				ex := x.F("eventExecutor")
				if ex == nil || ex.FS("process") != "$2" || ex.FS("decode") != "$1" || ex.FS("source") != "$0.source" {
					return false
				}
				return globs("func:DefaultDeserializationErrorHandler || $0.source.config.DeserializationErrorHandler", ex.FS("handleDeserializationError"))
			}
			const nilRoot = "$0.rootProcessor==nil"
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				switch {
				case branch(nilRoot, true)(n), branch("$0.tailProcessor==nil", true)(n): // both or none are set
					return s.set("root", "nil"), ""
				case branch(nilRoot, false)(n), branch("$0.tailProcessor==nil", false)(n):
					return s.set("root", "set"), ""
				case branch("$0.source.config.DeserializationErrorHandler==nil", true)(n):
					return s.add("defl"), ""
				case n.E.K == KStore && globs("EventSource.rootProcessor || EventSource.tailProcessor || eventProcessorWrapper.next", n.E.Field):
					if n.E.Field == "eventProcessorWrapper.next" && n.E.V.isNil() && identOf(n.E.X) != identOf(g.term("$0.tailProcessor")) && strings.HasPrefix(n.E.X.String(), "new:") {
						return s, ""
					}
					if n.E.R.String() == "$0.tailProcessor" && n.E.V.String() == "$0.tailProcessor.next" && s.has("appended") && !s.has("tail") {
						return s.add("tail"), "" // the one just linked
					}
					if !isNew(n.E.V) {
						return s, "something else than the new processor is registered"
					}
					if h := n.E.V.F("eventExecutor").FS("handleDeserializationError"); s.has("defl") != (h == "func:DefaultDeserializationErrorHandler") {
						return s, "the configured error handler is not used"
					}
					switch n.E.R.String() {
					case "$0.rootProcessor":
						if s.get("root") != "nil" {
							return s, "the processors registered before are dropped"
						}
						return s.add("linked"), ""
					case "$0.tailProcessor.next":
						if s.has("tail") || s.get("root") != "set" {
							return s, "the new processor is not appended to the last one"
						}
						return s.add("linked").add("appended"), ""
					case "$0.tailProcessor":
						return s.add("tail"), ""
					}
					return s, "the new processor is linked at another place"
				case n.E.K == KReturn:
					if !s.has("linked") || !s.has("tail") {
						return s, "a processor is not registered, or the next one will not be linked behind it"
					}
				}
				return s, ""
			})
			r.need(len(g.Find(store("EventSource.rootProcessor"))), 1, "registration")
			r.need(len(g.Find(store("eventProcessorWrapper.next"))), 1, "linking")
			d := r.gs("RegisterDefaultHandler")
			r.Times(d, "the default handler is registered", store("EventSource.defaultProcessor", "$1"), 1, 1, nil, nil)
			for _, f := range []struct{ fields, fns string }{
				{"EventSource.rootProcessor || EventSource.tailProcessor || eventProcessorWrapper.next", "RegisterEventType"},
				{"EventSource.defaultProcessor", "RegisterDefaultHandler || NewEventSource"},
				{"eventProcessorWrapper.eventType || eventProcessorExecutor.process || eventProcessorExecutor.decode", "RegisterEventType"},
			} {
				r.Confined("the routing of records is changed after registration", f.fields, f.fns, true, false, 1)
			}
		})

	rule("source.fail", "C15 C16 C17",
		"failing marks the source unhealthy before the consumer is told, never blocks the caller, and the told consumer stops at once",
		func(r *R) {
			g := r.gs("Source.fail")
			set := or(call("atomic.StoreUint64", "$0.state", "1"), call("atomic.*.Store", "$0.state", "1"), setTo("$0.state", "1"))
			tell := sendX("$0.failure")
			r.need(len(g.Find(tell)), 1, "failure signal")
			r.Precede(g, "the consumer is told of a failure before the state says unhealthy", set, or(tell, kind(KReturn)), nil)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if b := blocks(n); b != "" && n.E.K != KCall {
					return s, "failing " + b
				}
				if tell(n) {
					if n.E.V.String() != "$1" {
						return s, "another error is reported"
					}
					return s.add("told"), ""
				}
				if n.E.K == KSel && n.E.Name == "default" {
					return s.add("told"), ""
				}
				if n.E.K == KReturn && !s.has("told") {
					return s, "the consumer is not told of a failure"
				}
				return s, ""
			})
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if n.E.K == KStore && n.E.Field == "Source.state" || n.E.K == KCall && len(n.E.A) > 1 && n.E.A[0].String() == "$0.state" && arg(n, 1) != "1" {
					if n.E.K == KCall || n.E.V.String() != "1" {
						return s, "a failed event source becomes healthy again"
					}
				}
				return s, ""
			})
			r.Every(r.gs("newSource"), "a failure signal can be lost: nobody listens yet and the channel does not keep it", kind(KReturn), 1, func(n *Node) bool {
				f := n.E.A[0].F("failure")
				return f != nil && chanCap(f) >= 1 && globs("0 || zero:*", n.E.A[0].FS("state"))
			})
			r.Results(r.gs("Source.State"), "the state", nil, func(V) []string { return []string{"call:atomic.LoadUint64($0.state) || call:atomic.*.Load($0.state)"} })
			c := r.gn("EventSource.closeOnFail", false, "EventSource.StopNow")
			r.Precede(c, "the event source stops without a failure", recvX("$0.source.failure"), call("EventSource.StopNow"), nil)
			r.Times(c, "a failure stops the event source", call("EventSource.StopNow", "$0"), 1, 1, nil, nil)
			s := r.gs("EventSource.ConsumeEvents")
			r.Times(s, "somebody waits for failures", goEv("EventSource.closeOnFail"), 1, 1, nil, nil)
			r.Times(s, "records are consumed by one loop", goEv("eventSourceConsumer.start"), 1, 1, nil, nil)
			r.Times(s, "metrics are delivered by one loop", goEv("EventSource.emitMetrics"), 1, 1, nil, nil)
			for _, nm := range []string{"eventSourceConsumer.start", "EventSource.emitMetrics", "EventSource.closeOnFail"} {
				for _, c := range r.CallSites(nm) {
					if c.Kind != "go" || r.From(c.Fn, "EventSource.ConsumeEvents", false) != "" {
						r.fail(c.Ins.Pos(), r.p.Name(c.Fn), nm+" is started somewhere else, or blocks the caller of ConsumeEvents", nil)
					}
				}
				r.insts++
			}
		})

	rule("source.stop", "C17 C19",
		"Stop never blocks and has an effect once; the group is left before the internal processes are halted, and these before Done is signalled, on every path and without blocking",
		func(r *R) {
			closeC := call("kgo.Client.Close*")
			halt := dyn("$0.runStatus.cancel")
			done := sendX("$0.done")
			quiet := func(n *Node) bool { // nobody has taken the signal given before
				return n.E.K == KSel && n.E.Name == "default" && len(n.E.Alts) == 1 && n.E.Alts[0].Send && n.E.Alts[0].Ch.String() == "$0.done"
			}

			seq := r.gs("EventSource.Stop")
			r.Auto(seq, "", func(s St, n *Node) (St, string) {
				if b := blocks(n); b != "" {
					return s, "Stop " + b
				}
				if call("eventSourceConsumer.leave || kgo.Client.Close*")(n) {
					return s, "Stop waits until the group is left"
				}
				return s, ""
			})
			g := r.g("EventSource.Stop")
			once := or(branch("onceDone:($0.stopOnce)", false), branch("call:atomic.*CompareAndSwap*($0.stop*", true))
			r.Precede(g, "the shutdown is started again by a second Stop", once, closeC, nil)
			r.need(len(g.Find(closeC)), 1, "leaving the group")
			r.need(len(g.Find(halt)), 1, "halting")
			r.need(len(g.Find(done)), 1, "completion signal")
			// channels on which the end of the leaving is awaited
			left := map[string]bool{}
			for _, n := range g.Find(kind(KRecv)) {
				if strings.HasPrefix(n.E.X.String(), "make:chan") {
					left[n.E.X.String()] = true
				}
			}
			isLeft := func(n *Node) bool { return left[n.E.X.String()] }
			sig := func(n *Node) bool { return (n.E.K == KSend || n.E.K == KClose) && isLeft(n) }
			r.Precede(g, "the group is reported as left before the client is closed", closeC, sig, nil)
			awaited := or(func(n *Node) bool { return n.E.K == KRecv && isLeft(n) }, closeC)
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				switch {
				case n.E.K == KFork:
					// a goroutine started by another one to do the leaving
					if s.has("in") {
						return "in2", ""
					}
					return "in", ""
				case awaited(n):
					s = s.add("left")
				case halt(n):
					if !s.has("left") {
						return s, "the internal processes are halted before the group was left"
					}
					return s.add("halted"), ""
				case done(n) || quiet(n):
					if n.E.Block {
						return s, "signalling Done blocks when it was signalled before"
					}
					if !s.has("halted") {
						return s, "Done is signalled before the internal processes were halted"
					}
					return s.add("done"), ""
				case closeX("$0.done")(n):
					return s, "Done is closed, a second signal panics"
				case n.E.K == KFEnd && s.has("in") && !s.has("done"):
					return s, "Done is never signalled"
				case n.E.K == KReturn && !s.has("in"):
					return s, ""
				}
				return s, ""
			})
			starts := seq.Find(kind(KGo))
			r.need(len(starts), 1, "shutdown goroutine")
			r.Auto(seq, "", func(s St, n *Node) (St, string) {
				if once(n) {
					s = s.add("first")
				}
				if n.E.K == KGo {
					if s.has("go") {
						return s, "two goroutines shut the event source down"
					}
					s = s.add("go")
				}
				if n.E.K == KReturn && s.has("first") && !s.has("go") {
					return s, "Stop does not start the shutdown"
				}
				return s, ""
			})
			r.insts += 6

			now := r.gs("EventSource.StopNow")
			r.need(len(now.Find(done)), 1, "completion signal of StopNow")
			r.Auto(now, "", func(s St, n *Node) (St, string) {
				switch {
				case halt(n):
					return s.add("halted"), ""
				case closeC(n):
					return s.add("closed"), ""
				case done(n) || quiet(n):
					if n.E.Block {
						return s, "StopNow blocks when Done was signalled before"
					}
					if !s.has("halted") || !s.has("closed") {
						return s, "Done is signalled before everything was stopped"
					}
					return s.add("done"), ""
				case closeX("$0.done")(n):
					return s, "Done is closed, a second signal panics"
				case branch("onceDone:($0.stopOnce)", true)(n):
					return s, "StopNow has no effect after Stop"
				case n.E.K == KSend || n.E.K == KRecv || n.E.K == KSel:
					if n.E.Block {
						return s, "StopNow waits"
					}
				case n.E.K == KReturn && !s.has("done"):
					return s, "StopNow does not signal Done"
				}
				return s, ""
			})
			r.insts += 3

			c := r.gn("NewEventSource", false, "CreateSource", "newEventSourceConsumer")
			r.Every(c, "a completion signal gets lost unless somebody waits for it at that moment, or a part of the event source is not initialized", kind(KReturn), 1, func(n *Node) bool {
				x := n.E.A[0]
				if x.isNil() {
					return true
				}
				d := x.F("done")
				return d != nil && chanCap(d) >= 1 && x.FS("defaultProcessor") == "$2" && x.FS("stateStoreFactory") == "$1" && glob("call:CreateSource($0)#0", x.FS("source"))
			})
			r.Results(r.gs("EventSource.Done"), "the completion signal", nil, func(V) []string { return []string{"$0.done"} })
		})

	rule("source.leave", "C17 C19",
		"leaving closes the client after the graceful departure when an incremental balancer is active, without it otherwise, and then says so without blocking",
		func(r *R) {
			g := r.g("eventSourceConsumer.leave")
			closeC := call("kgo.Client.Close*", "$0.client")
			bye := recvX("call:IncrementalGroupRebalancer.GracefullyLeaveGroup($0.incrBalancer)")
			r.need(len(g.Find(closeC)), 1, "closing the client")
			r.need(len(g.Find(bye)), 1, "graceful departure")
			const (
				nilB  = "$0.incrBalancer==nil"
				few   = "len($0.source.config.BalanceStrategies)<2"
				errD  = "call:kadm.Client.DescribeGroups(*)#1==nil"
				proto = "*[$0.source.config.GroupId].Protocol==\"incr_coop\""
			)
			atoms := []Atom{at("nil", nilB), at("few", few), at("fail", "!"+errD), at("incr", proto), at("none", "len(call:kadm.Client.DescribeGroups(*)#0)<1")}
			r.Guard2(g, "the graceful departure from the group before closing the client", bye, closeC, atoms, func(v V) int {
				switch {
				case v["nil"]:
					return mustnot
				case v["few"]:
					return must
				case v["fail"]:
					return mustnot
				case v["none"] && v["incr"]:
					return dontcare
				}
				return b2m(v["incr"])
			})
			var out []string
			for _, n := range g.Find(kind(KReturn)) {
				out = append(out, n.E.A[0].String())
				if chanCap(n.E.A[0]) < 0 {
					r.failN(g, n, "the returned channel is not made here", nil)
				}
			}
			isOut := func(x *X) bool {
				for _, o := range out {
					if x.String() == o {
						return true
					}
				}
				return false
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				switch {
				case n.E.K == KFork:
					return s.add("fork"), ""
				case n.E.K == KGo:
					return s.add("go"), ""
				case closeC(n):
					if s.has("closed") {
						return s, "the client is closed twice"
					}
					return s.add("closed"), ""
				case (n.E.K == KSend || n.E.K == KClose) && isOut(n.E.X):
					if !s.has("closed") {
						return s, "the group is reported as left before the client is closed"
					}
					if s.has("told") {
						return s, "the group is reported as left twice"
					}
					if n.E.K == KSend && !s.has("fork") && chanCap(n.E.X) < 1 {
						return s, "reporting the departure blocks forever"
					}
					return s.add("told"), ""
				case n.E.K == KFEnd && !s.has("told"), n.E.K == KReturn && !s.has("told") && !s.has("go"):
					return s, "the caller is never told that the group was left"
				}
				return s, ""
			})
			r.insts += 4
		})

	rule("source.wait", "C17",
		"waiting for signals or for a channel stops the event source when told, and returns after Done",
		func(r *R) {
			g := r.gn("EventSource.WaitForSignals", false, "EventSource.Stop")
			r.Every(g, "the signals the caller asked for, or SIGINT and SIGHUP, are not watched", call("signal.Notify"), 1, func(n *Node) bool {
				if chanCap(n.E.A[0]) < 1 {
					return false
				}
				return true
			})
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				switch {
				case branch("len($2)<1", true)(n):
					return s.add("dflt"), ""
				case branch("$1==nil", true)(n):
					if s.has("hook") {
						return dead, ""
					}
					return s.add("nohook"), ""
				case branch("$1==nil", false)(n):
					if s.has("nohook") {
						return dead, ""
					}
					return s.add("hook"), ""
				case dyn("$1")(n) && !s.has("hook"):
					return s, "a hook is called although there may be none"
				case call("signal.Notify")(n):
					a := strings.TrimSuffix(arg(n, 1), "...")
					if s.has("dflt") && a != "[2,1]" && a != "[1,2]" || !s.has("dflt") && a != "$2" {
						return s, "other signals are watched than those asked for"
					}
					return s.set("c", identOf(n.E.A[0])), ""
				case n.E.K == KRecv && s.get("c") == identOf(n.E.X):
					if s.has("sig") && (s.has("yes") || s.has("nohook")) {
						return s, "the signal which shall stop the event source does not"
					}
					return s.add("sig").del("yes"), ""
				case branch("call:$1(recv(*))", true)(n):
					return s.add("yes"), ""
				case branch("call:$1(recv(*))", false)(n):
					return s.del("sig"), ""
				case branch("recvok(*)", false)(n): // the channel is never closed
					return dead, ""
				case call("signal.Reset || signal.Stop || signal.Ignore")(n) && (!s.has("sig") || s.has("hook") && !s.has("yes")):
					return s, "signals are no longer watched although the event source goes on"
				case call("EventSource.Stop", "$0")(n):
					if !s.has("sig") || !s.has("yes") && !s.has("nohook") {
						return s, "the event source is stopped without a signal, or although the hook said no"
					}
					return s.add("stopped"), ""
				case recvX("$0.done")(n):
					if !s.has("stopped") {
						return s, "the end of the event source is awaited before it was stopped"
					}
					return s.add("done"), ""
				case n.E.K == KReturn && !s.has("done"):
					return s, "the call returns before the event source ended"
				}
				return s, ""
			})
			c := r.gn("EventSource.WaitForChannel", false, "EventSource.Stop")
			r.Auto(c, "0", func(s St, n *Node) (St, string) {
				switch {
				case recvX("$1")(n):
					return "1", ""
				case call("EventSource.Stop", "$0")(n):
					if s != "1" {
						return s, "the event source is stopped before the channel said so"
					}
					return "2", ""
				case recvX("$0.done")(n):
					if s != "2" {
						return s, "the end of the event source is awaited before it was stopped"
					}
					return "3", ""
				case branch("$2==nil", true)(n) && s.has("3"):
					return "3 4", ""
				case branch("$2==nil", true)(n):
					return s, ""
				case dyn("$2")(n):
					if s != "3" {
						return s, "the callback runs before the event source ended, or twice"
					}
					return "3 4", ""
				case n.E.K == KReturn && !s.has("4"):
					return s, "the call returns before the event source ended, or without calling back"
				}
				return s, ""
			})
			r.insts += 8
		})

	rule("source.status", "C17",
		"a fork of a run status ends with its parent and not the other way round; every part of an event source runs under a status derived from its own",
		func(r *R) {
			g := r.gs("sak.NewRunStatus")
			ok := func(x *X, parents string) bool {
				c := x.F("ctx")
				k := x.F("cancel")
				if c == nil || k == nil {
					return false
				}
				for _, p := range strings.Split(parents, " || ") {
					w := "call:context.WithCancel(" + p + ")"
					if c.String() == w+"#0" && k.String() == w+"#1" {
						return true
					}
				}
				return false
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if branch("$0==nil", true)(n) {
					s = s.add("nil")
				}
				if n.E.K == KReturn {
					want := "$0"
					if s.has("nil") {
						want = "call:context.Background()"
					}
					if !ok(n.E.A[0], want) {
						return s, "a run status can not be halted, or does not end with its parent"
					}
				}
				return s, ""
			})
			// forks: at every event the run status which get finds in it is a fork of own
			forks := func(g *Graph, what, own string, min int, ev Pred, get func(n *Node) *X) {
				k := 0
				r.Auto(g, "", func(s St, n *Node) (St, string) {
					if branch(own+"==nil", true)(n) {
						s = s.add("nil")
					}
					if ev(n) {
						k++
						x := get(n)
						if !ok(x, own) && !(s.has("nil") && ok(x, "call:context.Background()")) {
							return s, what
						}
					}
					return s, ""
				})
				r.need(k, min, what)
				r.insts += k
			}
			a0 := func(n *Node) *X { return n.E.A[0] }
			forks(r.gs("sak.RunStatus.Fork"), "a fork does not end with its parent, or halts it", "$0.ctx", 1, kind(KReturn), a0)
			forks(r.gs("EventSource.ForkRunStatus"), "the fork handed out does not end with the event source, or halts it", "$0.runStatus.ctx", 1, kind(KReturn), a0)
			r.Every(r.gs("sak.RunStatus.WithValue"), "adding a value changes the status", kind(KReturn), 1, func(n *Node) bool {
				return n.E.A[0].FS("ctx") == "call:context.WithValue($0.ctx,$1,$2)" && n.E.A[0].FS("cancel") == "$0.cancel"
			})
			r.Ret("sak.RunStatus.Running", "whether it is running", "call:context.Context.Err($0.ctx)==nil")
			r.Ret("sak.RunStatus.Err", "the error", "call:context.Context.Err($0.ctx)")
			r.Ret("sak.RunStatus.Ctx", "the context", "$0.ctx")
			r.Ret("sak.RunStatus.Done", "the end signal", "call:context.Context.Done($0.ctx)")
			r.Times(r.gs("sak.RunStatus.Halt"), "halting cancels the context", dyn("$0.cancel"), 1, 9, nil, nil)

			// every part is halted through its own status, which is a fork
			forks(r.gs("newPartitionWorker"), "revoking a partition halts the whole event source, or a partition goes on after the event source was halted", "$0.runStatus.ctx", 1,
				store("partitionWorker.runStatus"), func(n *Node) *X { return n.E.V })
			c := r.gn("newEventSourceConsumer", false, "NewClient", "newEOSProducerPool", "newStateStoreConsumer", "newEosCommitLog", "toGroupBalancers")
			forks(c, "a part of the event source is not halted with it, or halts it", "$0.runStatus.ctx", 2, call("newEosCommitLog || newStateStoreConsumer"), a0)
			a := r.gn("CreateAsyncJobScheduler", false, "NewAsyncJobScheduler")
			forks(a, "a scheduler is not halted with its event source, or halts it", "$0.runStatus.ctx", 1, call("NewAsyncJobScheduler"), a0)
			for _, f := range r.FieldSites("EventSource.runStatus") {
				if f.Write {
					if bad := r.From(f.Fn, "NewEventSource", false); bad != "" {
						r.fail(f.Ins.Pos(), r.p.Name(f.Fn), "the run status of an event source is replaced", nil)
					}
				}
			}
			r.CalledFrom("an event source or a part of it is halted from an unexpected place", "sak.RunStatus.Halt", "EventSource.Stop || EventSource.StopNow || partitionWorker.revoke || GlobalChangeLog.Stop", false, 3)
		})
}
