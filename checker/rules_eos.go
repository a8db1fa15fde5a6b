package main

// Producer pool configuration: eos_config.go, source_consumer.go (C22).

func init() {
	rule("eos.validate", "C22",
		"a pool configuration is rejected exactly when one of its values is out of range; it counts as unset exactly when all values are zero",
		func(r *R) {
			g := r.gs("EosConfig.validate")
			r.Guard(g, "the configuration is rejected", nil, kind(KPanic), nil,
				[]Atom{at("size", "$0.PoolSize<1"), at("pending", "$0.PendingTxnCount<1"), at("target", "$0.TargetBatchSize<1"), at("max", "$0.MaxBatchSize<1"), at("delay", "$0.BatchDelay<1000000"),
					at("order", "$0.MaxBatchSize-$0.TargetBatchSize<0", "!-$0.MaxBatchSize+$0.TargetBatchSize<1")},
				func(v V) int {
					if v["max"] && !v["target"] && !v["order"] {
						return dontcare // impossible
					}
					return b2m(v["size"] || v["pending"] || v["target"] || v["max"] || v["delay"] || v["order"])
				})
			var atoms []Atom
			fields := []string{"PoolSize", "PendingTxnCount", "TargetBatchSize", "MaxBatchSize", "BatchDelay"}
			for _, f := range fields {
				atoms = append(atoms, at(f, "$0."+f+"==0"))
			}
			z := r.gs("EosConfig.IsZero")
			r.Results(z, "whether the configuration is unset", atoms, func(v V) []string {
				all := true
				for _, f := range fields {
					all = all && v[f]
				}
				// comparing the whole configuration decides as well
				alt := " || $0==zero:EosConfig || $0==EosConfig{}"
				if all {
					return []string{"true" + alt}
				}
				return []string{"false" + alt}
			})
		})

	rule("eos.applied", "C22",
		"no producer is created before the configuration in use was validated, and the configuration in use is the configured one unless that is unset, the default one otherwise",
		func(r *R) {
			g := r.gn("newEventSourceConsumer", false, "NewClient", "newEOSProducerPool", "newStateStoreConsumer", "newEosCommitLog", "toGroupBalancers", "EosConfig.validate", "EosConfig.IsZero", "Source.shouldMarkCommit", "sak.NewRunStatus", "sak.RunStatus.Fork")
			pool := call("newEOSProducerPool")
			r.need(sites(g.Find(pool)), 1, "creation of the pool")
			conf := "*.config.EosConfig"
			inside := r.gn("newEOSProducerPool", false, "newProducerNode", "EosConfig.validate")
			within := len(inside.Find(call("EosConfig.validate", "$2"))) > 0
			if within {
				r.Precede(inside, "a producer is created before the configuration was validated", call("EosConfig.validate", "$2"), call("newProducerNode"), nil)
			}
			// the limits of the workers come from the configuration of the source
			elsewhere := false
			for _, s := range r.FieldSites("EventSourceConfig.EosConfig") {
				if r.reached(s.Fn, "newPartitionWorker") {
					elsewhere = true
				}
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				e := n.E
				switch e.K {
				case KFork:
					return dead, ""
				case KBranch:
					if globs("call:EosConfig.IsZero("+conf+") || "+conf+"==zero:EosConfig || "+conf+"==EosConfig{}", e.X.String()) {
						s = s.set("zero", b01(e.Val))
					}
				case KLoad:
					if e.Field == "EventSourceConfig.EosConfig" && s.has("stored") {
						s = s.add("fresh")
					}
				case KStore:
					if e.Field == "EventSourceConfig.EosConfig" {
						if s.get("zero") != "1" || e.V.String() != "DefaultEosConfig" {
							return s, "a configuration is replaced although it is not unset, or by another one than the default"
						}
						s = s.add("stored")
					}
				case KCall:
					if call("EosConfig.validate")(n) {
						s = s.set("valid", e.A[0].String())
					}
					if !pool(n) {
						break
					}
					cfg := e.A[2].String()
					switch s.get("zero") {
					case "1":
						if cfg != "DefaultEosConfig" && !(s.has("fresh") && globs(conf, cfg)) {
							return s, "an unset configuration is not replaced by the default one"
						}
					case "0":
						if !globs(conf, cfg) {
							return s, "a configuration is replaced although it is not unset"
						}
					default:
						return s, "whether the configuration is unset is not examined"
					}
					if !within && s.get("valid") != cfg {
						return s, "producers are created before their configuration was validated"
					}
					s = s.add("made")
				case KReturn:
					if !s.has("made") && e.A[len(e.A)-1].String() == "nil" {
						return s, "no pool is created"
					}
					if elsewhere && s.get("zero") == "1" && !s.has("stored") && e.A[len(e.A)-1].String() == "nil" {
						return s, "the default configuration is used for the pool only, the limits of the workers remain unset"
					}
				}
				return s, ""
			})
			if r.constant("DefaultPoolSize") < "1" || r.constant("DefaultPendingTxnCount") < "1" {
				r.fail(0, "EosConfig", "the default configuration is invalid", nil)
			}
			r.Confined("the configuration changes afterwards", "EosConfig.*", "init || init$*", true, false, 0)
			r.Confined("the configuration of a pool changes", "eosProducerPool.cfg", "newEOSProducerPool", true, false, 1)
			for _, c := range r.CallSites("newEOSProducerPool") {
				if r.From(c.Fn, "newEventSourceConsumer", true) != "" {
					r.fail(c.Ins.Pos(), r.p.Name(c.Fn), "a pool is created elsewhere, its configuration is not validated", nil)
				}
				r.insts++
			}
		})
}
