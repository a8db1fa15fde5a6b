package main

import (
	"go/types"
	"strconv"
	"strings"
)

// MSK clusters: msk/cluster.go (C30).

func (r *R) constIn(pkg, name string) string {
	for _, p := range r.p.Pkgs {
		if strings.HasSuffix(p.Pkg.Path(), pkg) {
			if c, ok := lookup(p.Pkg, name).(*types.Const); ok {
				return c.Val().ExactString()
			}
		}
	}
	r.fatal("constant %s not found", name)
	return "?"
}

func init() {
	rule("msk.config", "C30",
		"the cluster of exactly the configured name and the broker list of the configured authentication type are used, every failure is reported and nothing of it is kept; TLS settings and authentication are applied, the application's options come last",
		func(r *R) {
			g := r.gs("msk.MskCluster.Config")
			lists := map[string]string{}
			var auths []string
			for _, a := range [][2]string{{"None", ""}, {"MutualTLS", "Tls"}, {"SaslScram", "SaslScram"}, {"SaslIam", "SaslIam"}, {"PublicMutualTLS", "PublicTls"}, {"PublicSaslScram", "PublicSaslScram"}, {"PublicSaslIam", "PublicSaslIam"}} {
				k := r.constIn("/msk", a[0])
				lists[k] = "BootstrapBrokerString" + a[1]
				auths = append(auths, k)
			}
			none := r.constIn("/msk", "None")
			iam := map[string]bool{r.constIn("/msk", "SaslIam"): true, r.constIn("/msk", "PublicSaslIam"): true}
			scram := map[string]bool{r.constIn("/msk", "SaslScram"): true, r.constIn("/msk", "PublicSaslScram"): true}
			// the authentication types which are possible
			possible := func(s St) []string {
				if k := s.get("is"); k != "" {
					return []string{k}
				}
				var out []string
				for _, k := range auths {
					if !s.has("no" + k) {
						out = append(out, k)
					}
				}
				return out
			}
			f := &errFlow{must: "msk.MskClient.*"}
			const L = "call:msk.MskClient.ListClusters($0.client,*)#0.ClusterInfoList"
			const E = "elem(" + L + ")"
			const B = "call:msk.MskClient.GetBootstrapBrokers($0.client,*)#0."
			stores, rets := 0, 0
			closures := map[string]bool{}
			check := func(s St, v *X) string {
				if v.Op != "append" && v.Op != "list" {
					return "something else than a list of options is kept"
				}
				seeds, tls, sasl := 0, 0, 0
				for i, a := range v.A {
					x := a.String()
					switch {
					case x == "nil" && i == 0:
					case globs("spread*$0.clientOptions* || $0.clientOptions...", x) || a.Op == "spread" && len(a.A) == 1 && a.A[0].String() == "$0.clientOptions":
						if i != len(v.A)-1 {
							return "the application's options do not come last, they are overridden"
						}
					case globs("call:kgo.SeedBrokers(*)", x):
						if !strings.Contains(x, "call:strings.Split("+B[:20]) && !strings.Contains(x, "call:strings.Split(call:aws.ToString("+B[:20]) {
							return "other brokers are used than the ones of the cluster"
						}
						seeds++
					case x == "call:kgo.DialTLSConfig($0.tlsConfig)":
						tls++
					case globs("call:kgo.SASL([call:aws.ManagedStreamingIAM(*)])", x):
						for _, k := range possible(s) {
							if !iam[k] {
								return "IAM authentication is used for another authentication type"
							}
						}
						sasl++
					case globs("call:kgo.SASL([call:scram.Auth.AsSha512Mechanism($0.scram)]) || call:kgo.SASL([call:scram.Auth.AsSha512Mechanism(&$0.scram)])", x):
						for _, k := range possible(s) {
							if !scram[k] {
								return "SCRAM authentication is used for another authentication type"
							}
						}
						sasl++
					default:
						return "an unknown option is used: " + short(x)
					}
				}
				if len(v.A) == 0 {
					return "the application's options are ignored"
				}
				last := v.A[len(v.A)-1]
				if !strings.Contains(last.String(), "$0.clientOptions") {
					return "the application's options are ignored"
				}
				if seeds == 0 && !s.has("empty") {
					return "the broker list is not used"
				}
				if tls == 0 && s.get("notls") != "1" || tls > 0 && s.get("notls") != "0" {
					return "the TLS settings are not applied exactly when they are configured"
				}
				if sasl == 0 {
					for _, k := range possible(s) {
						if iam[k] || scram[k] {
							return "the configured authentication is not used"
						}
					}
				}
				return ""
			}
			r.Auto(g, "", func(s St, n *Node) (St, string) {
				if s.has("bad") && (n.E.K == KCall && strings.HasPrefix(n.E.Name, "msk.MskClient.") || n.E.K == KStore && n.E.Field == "msk.MskCluster.builtOptions") {
					return s, "a missing cluster or broker list is ignored"
				}
				s, m := f.step(s, n)
				if m != "" || s == dead {
					return s, m
				}
				e := n.E
				switch e.K {
				case KBranch:
					x := e.X.String()
					for i, er := range f.list {
						if strings.Contains(x, strings.TrimSuffix(er, "#1")+"#0.") && s.has("q"+strconv.Itoa(i)) && s.get("e"+strconv.Itoa(i)) != "0" {
							return s, "the response is used although the call may have failed"
						}
					}
					if e.Val && globs("call:kgo.SASL(*)==nil || call:kgo.SeedBrokers(*)==nil || call:kgo.DialTLSConfig(*)==nil", x) {
						return dead, "" // an option which was just made
					}
					switch {
					case strings.HasPrefix(x, "$0.authType=="):
						k := strings.TrimPrefix(x, "$0.authType==")
						if is := s.get("is"); is != "" && (is == k) != e.Val || e.Val && s.has("no"+k) {
							return dead, ""
						}
						if e.Val {
							s = s.set("is", k)
						} else {
							s = s.add("no" + k)
						}
					case x == "$0.tlsConfig==nil":
						s = s.set("notls", b01(e.Val))
					case x == "len($0.builtOptions)<1" || x == "$0.builtOptions==nil":
						s = s.set("fresh", b01(e.Val))
					case globs("$0.clusterName=="+"call:aws.ToString("+E+".ClusterName) || call:aws.ToString("+E+".ClusterName)==$0.clusterName || $0.clusterName=="+E+".ClusterName || "+E+".ClusterName==$0.clusterName", x):
						if e.Val {
							s = s.add("match")
						} else {
							s = s.del("match")
						}
					case globs(E+".ClusterArn==nil", x):
						if e.Val && s.has("match") {
							s = s.add("bad")
						} else if !e.Val {
							s = s.add("arn")
						}
					case globs(B+"*==nil", x) && !strings.HasSuffix(x, "#1==nil"):
						if e.Val {
							s = s.add("bad")
						} else {
							s = s.set("list", strings.TrimSuffix(x[strings.LastIndex(x, "#0.")+3:], "==nil"))
						}
					case globs("len(call:strings.Split("+B+"*))<1 || len(call:strings.Split(call:aws.ToString("+B+"*))<1", x) && e.Val:
						s = s.add("empty")
					default:
						if c, more, ok := loopBranch(n); ok && globs(L, c) {
							s = s.del("match").del("arn")
							if !more {
								s = s.add("bad")
							}
						}
					}
				case KCall:
					if e.R != nil && strings.HasPrefix(e.R.String(), "call:aws.ManagedStreamingIAM(") {
						closures[strings.TrimPrefix(e.A[0].String(), "closure:")] = true
					}
					if strings.HasPrefix(e.Name, "msk.MskClient.") && s.get("fresh") != "1" {
						return s, "the cluster is looked up again although its options are known"
					}
					switch {
					case e.Name == "msk.MskClient.ListClusters":
						flt := e.A[2].FS("ClusterNameFilter")
						if !globs("call:aws.String($0.clusterName) || &$0.clusterName", flt) {
							return s, "clusters of another name are looked up"
						}
					case e.Name == "msk.MskClient.GetBootstrapBrokers":
						if !s.has("match") {
							return s, "the cluster used may have another name than the configured one"
						}
						if !globs("call:aws.String("+E+".ClusterArn) || call:aws.String(call:aws.ToString("+E+".ClusterArn)) || &call:aws.ToString("+E+".ClusterArn) || "+E+".ClusterArn || &"+E+".ClusterArn", e.A[2].FS("ClusterArn")) {
							return s, "the brokers of another cluster are used"
						}
						if !s.has("arn") {
							return s, "a cluster without ARN is used"
						}
						s = s.add("asked")
					case e.Name == "strings.Split" && strings.Contains(e.A[0].String(), "GetBootstrapBrokers"):
						fld := e.A[0].String()
						if strings.HasPrefix(fld, "call:aws.ToString(") {
							fld = strings.TrimSuffix(fld, ")")
						}
						fld = fld[strings.LastIndex(fld, "#0.")+3:]
						for _, k := range possible(s) {
							if lists[k] != fld {
								return s, "the broker list " + fld + " is used for another authentication type"
							}
						}
						// unknown types use the plain list as well
						if s.get("is") == "" && fld != lists[none] || e.A[1].String() != `","` {
							return s, "the broker list " + fld + " is used for another authentication type"
						}
						if s.get("list") != fld {
							return s, "a missing broker list is used"
						}
						s = s.add("split")
					}
				case KStore:
					if e.Field != "msk.MskCluster.builtOptions" {
						break
					}
					stores++
					if !s.has("split") {
						return s, "options are kept although the brokers are unknown"
					}
					for i, er := range f.list {
						if s.get("e"+strconv.Itoa(i)) != "0" && s.has("q"+strconv.Itoa(i)) {
							return s, "options are kept after the error " + short(er)
						}
					}
					if m := check(s, e.V); m != "" {
						return s, m
					}
					s = s.add("kept")
				case KReturn:
					rets++
					opts, err := e.A[0].String(), f.failed(s, n)
					if s.has("bad") {
						if err != "1" {
							return s, "a missing cluster or broker list is not reported"
						}
						return s, ""
					}
					if err == "1" {
						any := false
						for i := range f.list {
							any = any || s.get("e"+strconv.Itoa(i)) == "1"
						}
						if !any {
							return s, "the cluster is refused although nothing failed"
						}
						return s, ""
					}
					if s.get("fresh") != "0" && !s.has("kept") {
						return s, "success is reported without options, or they are not kept"
					}
					if opts != "$0.builtOptions" && check(s, e.A[0]) != "" {
						return s, "other options are returned than the ones kept"
					}
				}
				return s, ""
			})
			r.need(stores, 1, "options kept")
			r.need(rets, 1, "results")
			r.insts += stores + rets
			r.Held(g, "the options kept are accessed without the lock", or(store("msk.MskCluster.builtOptions"), loadEv("msk.MskCluster.builtOptions")), "$0.mux", true)
			r.Confined("the options kept are accessed without the lock", "msk.MskCluster.builtOptions", "msk.MskCluster.Config", false, true, 1)
			r.need(len(closures), 1, "IAM authentication")
			for c := range closures {
				if i := strings.IndexByte(c, '('); i >= 0 {
					c = c[:i]
				}
				a := r.gs(c)
				ret := "call:aws.CredentialsProvider.Retrieve(*.awsConfig.Credentials,*)"
				r.Never(a, "credentials are retrieved without the context of the authentication", call("aws.CredentialsProvider.Retrieve", "*", "call:context.*"))
				r.Times(a, "credentials are retrieved for each authentication", call("aws.CredentialsProvider.Retrieve", "*.awsConfig.Credentials"), 1, 1, nil, nil)
				r.Results(a, "the credentials used for authentication", []Atom{at("ok", ret+"#1==nil")}, func(v V) []string {
					if v["ok"] {
						return []string{"aws.Auth{AccessKey=" + ret + "#0.AccessKeyID,SecretKey=" + ret + "#0.SecretAccessKey,SessionToken=" + ret + "#0.SessionToken}", "nil || " + ret + "#1"}
					}
					return []string{"*", ret + "#1 || call:fmt.Errorf(*" + ret + "#1*"}
				})
			}
		})

	rule("msk.settings", "C30",
		"clusters keep the settings they are given",
		func(r *R) {
			type set struct{ fn, field, val string }
			for _, x := range []set{
				{"msk.MskCluster.WithTlsConfig", "tlsConfig", "$1"}, {"msk.MskCluster.WithClientOptions", "clientOptions", "$1 || append(nil,$1...)"}, {"msk.MskCluster.WithScramUserPass", "scram", "scram.Auth{Pass=$2,User=$1}"},
			} {
				g := r.gs(x.fn)
				st := store("msk.MskCluster." + x.field)
				if x.field == "scram" && len(g.Find(st)) == 0 {
					r.Every(g, "the user is set", store("scram.Auth.User"), 1, func(n *Node) bool { return n.E.V.String() == "$1" && n.E.X.String() == "$0.scram" })
					r.Every(g, "the password is set", store("scram.Auth.Pass"), 1, func(n *Node) bool { return n.E.V.String() == "$2" && n.E.X.String() == "$0.scram" })
				} else {
					r.Times(g, x.fn+" sets "+x.field, st, 1, 1, nil, nil)
					r.Every(g, x.fn+" sets "+x.field, st, 1, func(n *Node) bool { return globs(x.val, n.E.V.String()) && n.E.X.String() == "$0" })
				}
				r.Results(g, x.fn, nil, func(V) []string { return []string{"$0"} })
			}
			r.Results(r.gs("msk.NewMskClusterWithClientConfig"), "a new cluster", nil, func(V) []string {
				return []string{"msk.MskCluster{authType=$1,awsConfig=$2,client=call:kafka.NewFromConfig($2,$3),clusterName=$0*}"}
			})
			d := r.gs("msk.DefaultClientConfig")
			r.Results(d, "the default configuration", []Atom{at("ok", "call:config.LoadDefaultConfig(*)#1==nil")}, func(v V) []string {
				if v["ok"] {
					return []string{"call:config.LoadDefaultConfig(*)#0"}
				}
				return []string{"(a panic)"}
			})
			r.Every(d, "the region is used", call("config.LoadDefaultConfig"), 1, func(n *Node) bool {
				return globs("*call:config.WithDefaultRegion($0)*", arg(n, 1))
			})
			g := r.gn("msk.NewMskCluster", false, "msk.NewMskClusterWithClientConfig", "msk.DefaultClientConfig")
			r.Results(g, "a new cluster", nil, func(V) []string {
				return []string{"call:msk.NewMskClusterWithClientConfig($0,$1,call:msk.DefaultClientConfig($2),$3)"}
			})
			r.Confined("settings change", "msk.MskCluster.clusterName || msk.MskCluster.authType || msk.MskCluster.client || msk.MskCluster.awsConfig", "msk.NewMskClusterWithClientConfig || msk.NewMskCluster", true, false, 1)
		})
}
