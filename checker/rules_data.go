package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Results: at every return the results are those the specification gives for
// the conditions which hold on the path (nil: no requirement; "" or "*": any value).
func (r *R) Results(g *Graph, what string, atoms []Atom, spec func(v V) []string) {
	names := make([]string, len(atoms))
	for i, a := range atoms {
		names[i] = a.Name
	}
	rets := 0
	r.Auto(g, "", func(s St, n *Node) (St, string) {
		if n.E.K == KFork {
			return dead, ""
		}
		if n.E.K == KBranch {
			for _, a := range atoms {
				if ok, neg := a.M(n.E.X); ok {
					val := "0"
					if n.E.Val != neg {
						val = "1"
					}
					s = s.set(a.Name, val)
				}
			}
		}
		if n.E.K != KReturn {
			return s, ""
		}
		rets++
		var free []string
		v := V{}
		for _, nm := range names {
			switch s.get(nm) {
			case "1":
				v[nm] = true
			case "0":
				v[nm] = false
			default:
				free = append(free, nm)
			}
		}
		for m := 0; m < 1<<len(free); m++ {
			for i, nm := range free {
				v[nm] = m>>i&1 == 1
			}
			want := spec(v)
			if want == nil {
				continue
			}
			bad := len(want) > len(n.E.A)
			for i, w := range want {
				if !bad && w != "" && w != "*" && !globs(w, n.E.A[i].String()) {
					bad = true
					for _, a := range atoms {
						if ok, neg := a.M(n.E.A[i]); ok {
							bad = !globs(w, map[bool]string{true: "true", false: "false"}[v[a.Name] != neg])
							break
						}
					}
				}
			}
			if bad {
				var c []string
				for _, nm := range names {
					if v[nm] {
						c = append(c, nm)
					} else {
						c = append(c, "not "+nm)
					}
				}
				return s, what + ": the result is not " + strings.Join(want, ", ") + " when " + strings.Join(c, ", ")
			}
		}
		return s, ""
	})
	r.need(rets, 1, what+" (return)")
	r.insts += rets
}

// Ret: the function has the one result, without conditions.
func (r *R) Ret(fn, what string, want ...string) {
	r.Results(r.gs(fn), what, nil, func(V) []string { return want })
}

// linOf splits t+c.
func linOf(x *X) (string, *big.Int) {
	s := x.String()
	if x.Op == "lin" && x.Int != nil {
		t := s
		if i := strings.LastIndexAny(s, "+-"); i > 0 {
			t = s[:i]
		}
		return t, x.Int
	}
	return s, new(big.Int)
}

// lossless: the chain of integer conversions which produces v keeps every value of
// its source; returns the source.
func lossless(v ssa.Value) (ssa.Value, bool) {
	ok := true
	for {
		var x ssa.Value
		switch c := v.(type) {
		case *ssa.Convert:
			x = c.X
		case *ssa.MultiConvert:
			x = c.X
		case *ssa.ChangeType:
			x = c.X
		default:
			return v, ok
		}
		if !isIntLike(x.Type()) {
			return v, ok
		}
		if intBits(v.Type()) < intBits(x.Type()) || intSigned(x.Type()) && !intSigned(v.Type()) && intBits(v.Type()) > intBits(x.Type()) {
			ok = false
		}
		v = x
	}
}

func isIntLike(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func intBits(t types.Type) int {
	if _, ok := t.(*types.TypeParam); ok {
		return 64
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func intSigned(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

// rawInt describes how a function stores (loads) a 64 bit integer in bytes: "raw" through
// an unsafe pointer in native order, "big"/"little" through encoding/binary; "" when it does not,
// "?" when bits are lost.
// pkgOf is the package a function is declared in, that of its origin for an instance.
func pkgOf(fn *ssa.Function) *ssa.Package {
	if fn.Pkg == nil && fn.Origin() != nil {
		return fn.Origin().Pkg
	}
	return fn.Pkg
}

func rawInt(fn *ssa.Function, write bool) string {
	out := ""
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if c, ok := x.Addr.(*ssa.Convert); ok && write && isPtr(c) {
					if _, ok := lossless(x.Val); !ok || intBits(elemT(c)) != 64 || intBits(x.Val.Type()) != 64 {
						return "?"
					}
					out = "raw"
				}
			case *ssa.UnOp:
				if c, ok := x.X.(*ssa.Convert); ok && !write && x.Op == token.MUL && isPtr(c) {
					if intBits(elemT(c)) != 64 {
						return "?"
					}
					out = "raw"
				}
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f != nil && pkgOf(f) != nil && pkgOf(f) == pkgOf(fn) && f != fn && f.Blocks != nil {
					if d := rawInt(f, write); d != "" {
						out = d
					}
				}
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "encoding/binary" {
					continue
				}
				end := "little"
				if strings.Contains(f.String(), "big") {
					end = "big"
				}
				if write && strings.HasSuffix(f.Name(), "Uint64") && (strings.HasPrefix(f.Name(), "Put") || strings.HasPrefix(f.Name(), "Append")) {
					if _, ok := lossless64(x.Call.Args[len(x.Call.Args)-1]); !ok {
						return "?"
					}
					out = end
				} else if !write && f.Name() == "Uint64" {
					out = end
				} else if write && strings.HasPrefix(f.Name(), "Put") {
					return "?"
				}
			}
		}
	}
	return out
}

// lossless64: like lossless, but a 64 bit value may be reinterpreted as unsigned.
func lossless64(v ssa.Value) (ssa.Value, bool) { return lossless(v) }

func isPtr(c *ssa.Convert) bool {
	p, ok := c.Type().Underlying().(*types.Pointer)
	return ok && isIntLike(p.Elem())
}
func elemT(c *ssa.Convert) types.Type { return c.Type().Underlying().(*types.Pointer).Elem() }

func init() {
	rule("codec.int", "C24",
		"integers are written and read as the same eight bytes, without losing bits, and reading checks the length first",
		func(r *R) {
			w := func(n string) string {
				s := rawInt(r.fn(n), true)
				if s == "?" || s == "" {
					r.fail(r.fn(n).Pos(), n, "the integer is not written as a whole 64 bit value", nil)
				}
				r.insts++
				return s
			}
			a, b := w("writeSignedIntToByteArray"), w("writeTopicPartitionToBytes")
			rd := rawInt(r.fn("readIntegerFromByteArray"), false)
			if rd != a || rd != b {
				r.fail(r.fn("readIntegerFromByteArray").Pos(), "readIntegerFromByteArray", "integers are not read the way they are written ("+a+", "+b+", "+rd+")", nil)
			}
			g := r.gs("intCodec.Decode")
			short := at("short", "len($1)<8", "!len($1)==8")
			r.Guard(g, "reading the integer", nil, call("readIntegerFromByteArray", "$1"), nil, []Atom{short},
				func(v V) int { return b2m(!v["short"]) })
			r.Results(g, "intCodec.Decode", []Atom{short}, func(v V) []string {
				if v["short"] {
					return []string{"*", "call:*"}
				}
				return []string{"$1[0]*", "nil"}
			})
			e := r.gs("intCodec.Encode")
			r.Times(e, "the integer is encoded once", call("writeSignedIntToByteArray", "$2", "$1"), 1, 1, nil, nil)
			t := r.gs("topicPartitionFromBytes")
			r.Results(t, "topicPartitionFromBytes", nil, func(V) []string { return []string{"TopicPartition{Partition=$0[0]*,Topic=$0[8:]}"} })
			wt := r.gs("writeTopicPartitionToBytes")
			r.Auto(wt, "", func(s St, n *Node) (St, string) {
				switch {
				case call("bytes.Buffer.Write", "$1", "[$0.Partition,*")(n):
					if s != "" {
						return s, "the partition is not what the key starts with"
					}
					return "p", ""
				case call("bytes.Buffer.WriteString", "$1", "$0.Topic")(n):
					if s != "p" {
						return s, "the topic does not follow the partition"
					}
					return "pt", ""
				case n.E.K == KReturn && s != "pt":
					return s, "the key does not consist of partition and topic"
				}
				return s, ""
			})
		})

	rule("codec.lexo", "C24",
		"lexicographic encodings are monotone as bytes (interval argument over the offsets used per sign) and the decoder inverts every case of the encoder",
		func(r *R) {
			type enc struct {
				lo, hi *big.Int // values of $2 on this path
				pre    string
				add    *big.Int
			}
			two63 := new(big.Int).Lsh(big.NewInt(1), 63)
			two64 := new(big.Int).Lsh(big.NewInt(1), 64)
			min := new(big.Int).Neg(two63)
			max := new(big.Int).Sub(two63, big.NewInt(1))
			var encs []enc
			g := r.gs("lexoInt64Codec.Encode")
			var walk func(n *Node, e enc)
			depth := 0
			walk = func(n *Node, e enc) {
				if depth++; depth > 2000 {
					r.fatal("lexoInt64Codec.Encode has too many paths")
				}
				switch {
				case n.E.K == KBranch:
					x := n.E.X
					if x.Op == "lt" && x.A[0].String() == "$2" && x.A[1].isNum() {
						b := x.A[1].Int
						if n.E.Val {
							h := new(big.Int).Sub(b, big.NewInt(1))
							if h.Cmp(e.hi) < 0 {
								e.hi = h
							}
						} else if b.Cmp(e.lo) > 0 {
							e.lo = b
						}
					} else if x.Op == "eq" && x.A[0].String() == "$2" && x.A[1].isNum() && n.E.Val {
						e.lo, e.hi = x.A[1].Int, x.A[1].Int
					}
				case call("binary.bigEndian.PutUint64", "", "*[1:]")(n):
					v := n.E.A[2]
					if t, c := linOf(v); t == "$2" {
						e.add = c
					} else {
						r.failN(g, n, "the encoded value is not the integer plus a constant", nil)
						return
					}
				case call("bytes.Buffer.Write", "$1")(n):
					a := n.E.A[1]
					if a.Op != "list" || len(a.A) != 9 || e.add == nil {
						r.failN(g, n, "the encoding does not have nine bytes with the value in the last eight", nil)
						return
					}
					e.pre = a.A[0].String()
					if !a.A[0].isNum() {
						e.pre = "0"
					}
					encs = append(encs, e)
					r.insts++
				}
				for _, s := range n.Succ {
					walk(s, e)
				}
			}
			walk(g.Start, enc{lo: min, hi: max})
			r.need(len(encs), 1, "encodings")
			key := func(e enc, x *big.Int) *big.Int {
				v := new(big.Int).Add(x, e.add)
				v.Mod(v, two64)
				p, _ := new(big.Int).SetString(e.pre, 10)
				return p.Mul(p, two64).Add(p, v)
			}
			for i, e := range encs {
				span := new(big.Int).Sub(e.hi, e.lo)
				if span.Sign() < 0 {
					continue
				}
				// no wrap around inside the interval
				d := new(big.Int).Sub(key(e, e.hi), key(e, e.lo))
				if d.Cmp(span) != 0 {
					r.fail(g.Root.Pos(), "lexoInt64Codec.Encode", "the encoding wraps around between "+e.lo.String()+" and "+e.hi.String(), nil)
				}
				for j, f := range encs {
					if i != j && e.hi.Cmp(f.lo) < 0 && key(e, e.hi).Cmp(key(f, f.lo)) >= 0 {
						r.fail(g.Root.Pos(), "lexoInt64Codec.Encode", "encodings do not sort: "+e.hi.String()+" is not below "+f.lo.String(), nil)
					}
				}
			}
			d := r.gs("lexoInt64Codec.Decode")
			r.Guard(d, "accepting the input", nil, and(kind(KReturn), func(n *Node) bool { return n.E.A[1].isNil() }), nil,
				[]Atom{at("nine", "len($1)==9")}, func(v V) int { return b2m(v["nine"]) })
			r.Guard(d, "reading the input", nil, call("binary.bigEndian.Uint64"), nil,
				[]Atom{at("nine", "len($1)==9")}, func(v V) int { return b2m(v["nine"]) })
			for _, e := range encs {
				found := false
				r.Auto(d, "", func(s St, n *Node) (St, string) {
					if n.E.K == KBranch && strings.HasPrefix(n.E.X.String(), "$1[0]") {
						x := n.E.X
						p, _ := new(big.Int).SetString(e.pre, 10)
						if len(x.A) == 2 && x.A[1].isNum() {
							c := p.Cmp(x.A[1].Int)
							if x.Op == "eq" && (c == 0) != n.E.Val || x.Op == "lt" && (c < 0) != n.E.Val {
								return dead, ""
							}
						}
					}
					if n.E.K == KReturn && n.E.A[1].isNil() {
						t, c := linOf(n.E.A[0])
						if !glob("call:binary.bigEndian.Uint64(*,$1[1:])", t) {
							return s, "the decoded value is not read from the last eight bytes"
						}
						sum := new(big.Int).Add(c, e.add)
						if sum.Mod(sum, two64).Sign() != 0 {
							return s, "decoding does not undo the encoding with prefix " + e.pre
						}
						found = true
					}
					return s, ""
				})
				if !found {
					r.fail(d.Root.Pos(), "lexoInt64Codec.Decode", "encodings with prefix "+e.pre+" are not decoded", nil)
				}
				r.insts++
			}
		})

	rule("codec.json", "C24",
		"values are encoded to the given buffer and decoded from the given input, and every error is returned",
		func(r *R) {
			e := r.gs("JsonCodec.Encode")
			st := "call:jsoniter.*BorrowStream(defaultJson,$1)"
			r.Auto(e, "", func(s St, n *Node) (St, string) {
				switch {
				case call("jsoniter.Stream.WriteVal", st, "$2")(n):
					if s != "" {
						return s, "the value is written twice"
					}
					return "w", ""
				case call("jsoniter.Stream.Flush", st)(n):
					if s != "w" {
						return s, "the stream is flushed before the value was written"
					}
					return "wf", ""
				case n.E.K == KReturn:
					if s != "wf" {
						return s, "the value is not encoded to the buffer"
					}
					if !glob("call:jsoniter.Stream.Flush("+st+")", n.E.A[0].String()) && !globs(st+".Error", n.E.A[0].String()) {
						return s, "the error of the encoder is not returned"
					}
				}
				return s, ""
			})
			r.NotAfter(e, "the stream is used after it was returned to its pool", call("jsoniter.*ReturnStream"), call("jsoniter.Stream.*"), nil)
			d := r.gs("JsonCodec.Decode")
			r.NotAfter(d, "the iterator is used after it was returned to its pool", call("jsoniter.*ReturnIterator"), or(call("jsoniter.Iterator.*"), func(n *Node) bool {
				return n.E.K == KLoad && glob("*BorrowIterator(*).Error*", n.E.X.String()+"."+n.E.Field)
			}), nil)
			it := "call:jsoniter.*BorrowIterator(defaultJson,$1)"
			r.Times(d, "the input is decoded once", call("jsoniter.Iterator.ReadVal", it), 1, 1, nil, nil)
			r.Results(d, "JsonCodec.Decode", []Atom{at("eof", it+".Error==io.EOF"), at("ok", it+".Error==nil")}, func(v V) []string {
				if v["eof"] && v["ok"] {
					return nil
				}
				if v["eof"] {
					return []string{"out:*", "nil"}
				}
				return []string{"out:*", it + ".Error" + map[bool]string{true: " || nil"}[v["ok"]]}
			})
			r.Ret("JsonItemDecoder", "JsonItemDecoder", "out:*", "*")
			r.Times(r.gs("JsonItemDecoder"), "the value of the record is decoded", call("JsonCodec.Decode", "", "$0.kRecord.Value"), 1, 1, nil, nil)
			r.Results(r.gs("JsonItemDecoder"), "JsonItemDecoder", []Atom{at("eof", "*.Error==io.EOF"), at("ok", "*.Error==nil")}, func(v V) []string {
				if v["eof"] && v["ok"] {
					return nil
				}
				if v["eof"] {
					return []string{"*", "nil"}
				}
				return []string{"*", "call:jsoniter.*.Error" + map[bool]string{true: " || nil"}[v["ok"]]}
			})
			rec := "call:sak.Pool.Borrow(recordPool)"
			for fn, t := range map[string]string{"JsonItemEncoder": rec, "EncodeJsonChangeLogEntryValue": "ChangeLogEntry{record=" + rec + "}"} {
				g := r.gs(fn)
				r.Times(g, "the item becomes the value of the record", call("JsonCodec.Encode", "", rec+".valueBuffer", "$1"), 1, 1, nil, nil)
				r.Times(g, "the type becomes the type of the record", store("Record.recordType", "$0"), 1, 1, nil, nil)
				r.Ret(fn, fn, t)
			}
			for fn, v := range map[string]string{"CreateRecordFromItem": "", "CreateChangeLogEntry": ""} {
				_ = v
				if r.p.Funcs[fn] == nil {
					continue
				}
				g := r.gs(fn)
				enc := "call:Codec.Encode($1," + rec + ".valueBuffer,$0)"
				r.Times(g, "the item becomes the value of the entry", call("Codec.Encode", "$1", rec+".valueBuffer", "$0"), 1, 1, nil, nil)
				r.Results(g, fn, nil, func(V) []string { return []string{"*", enc} })
			}
		})

	rule("codec.raw", "C24", "strings and bytes are written and returned unchanged",
		func(r *R) {
			r.Ret("stringCodec.Decode", "stringCodec.Decode", "$1", "nil")
			// a string must not change with the bytes it was decoded from
			for _, fn := range r.p.All {
				if r.reached(fn, "stringCodec.Decode") || r.p.Name(fn) == "stringCodec.Decode" {
					r.insts++
					for _, b := range fn.Blocks {
						for _, ins := range b.Instrs {
							if c, ok := ins.(*ssa.Convert); ok && c.X.Type().Underlying() == types.Typ[types.UnsafePointer] {
								r.fail(c.Pos(), r.p.Name(fn), "a decoded string shares memory with the bytes it was decoded from", nil)
							}
						}
					}
				}
			}
			r.Ret("byteCodec.Decode", "byteCodec.Decode", "$1 || append(nil,$1) || append([],$1) || call:bytes.Clone($1) || call:slices.Clone($1)", "nil")
			r.Times(r.gs("stringCodec.Encode"), "the string is written once", call("bytes.Buffer.WriteString", "$1", "$2"), 1, 1, nil, nil)
			r.Ret("stringCodec.Encode", "stringCodec.Encode", "call:bytes.Buffer.WriteString($1,$2)#1 || nil")
			r.Times(r.gs("byteCodec.Encode"), "the bytes are written once", call("bytes.Buffer.Write", "$1", "$2"), 1, 1, nil, nil)
			r.Ret("byteCodec.Encode", "byteCodec.Encode", "call:bytes.Buffer.Write($1,$2)#1 || nil")
		})

	rule("store.simple", "C28",
		"what put and delete report to the change log is what replaying does to the tree",
		func(r *R) {
			kv := func(k, v string) string { return "stores.keyedValue{key=" + k + ",value=" + v + "}" }
			rec := "call:sak.Pool.Borrow(recordPool)"
			cle := "ChangeLogEntry{record=" + rec + "}"
			key := "call:stores.Keyed.Key($1)"
			keyed := call("Record.WriteKeyString || Record.WriteKey", rec, "["+key+"]")
			g := r.gs("stores.SimpleStore.Put")
			r.Times(g, "put inserts the item under its key", call("btree.BTreeG.ReplaceOrInsert", "$0.tree", kv(key, "$1")), 1, 1, nil, nil)
			r.Times(g, "put reports the encoded item", call("Codec.Encode", "$0.codec", rec+".valueBuffer", "$1"), 1, 1, nil, nil)
			r.Times(g, "put reports the key", keyed, 1, 1, nil, nil)
			r.Results(g, "Put", nil, func(V) []string { return []string{cle} })
			r.Never(g, "put removes items", call("btree.BTreeG.Delete*"))
			t := r.gs("stores.SimpleStore.ToChangeLogEntry")
			r.Results(t, "ToChangeLogEntry", nil, func(V) []string { return []string{cle} })
			r.Times(t, "the entry has the item's key", keyed, 1, 1, nil, nil)
			r.Times(t, "the entry has the encoded item", call("Codec.Encode", "$0.codec", rec+".valueBuffer", "$1"), 1, 1, nil, nil)

			d := r.gs("stores.SimpleStore.Delete")
			del := call("btree.BTreeG.Delete", "$0.tree", "stores.keyedValue{key="+key+"}")
			r.Times(d, "delete removes the item with the key", call("btree.BTreeG.Delete*"), 1, 1, nil, nil)
			r.Times(d, "delete removes the item with the key", del, 1, 1, nil, nil)
			r.Never(d, "a delete entry carries a value", or(call("*Codec.Encode"), call("bytes.Buffer.Write*", rec+".valueBuffer")))
			found := at("found", "call:btree.BTreeG.Delete($0.tree,*)#1")
			r.Guard(d, "reporting the deletion with its key", nil, keyed, nil,
				[]Atom{found}, func(v V) int { return b2m(v["found"]) })
			r.Results(d, "Delete", []Atom{found}, func(v V) []string {
				if v["found"] {
					return []string{cle, "true || call:btree.BTreeG.Delete($0.tree,*)#1"}
				}
				return []string{"*", "false || call:btree.BTreeG.Delete($0.tree,*)#1"}
			})

			c := r.gs("stores.SimpleStore.ReceiveChange")
			dec := "call:Codec.Decode($0.codec,$1.kRecord.Value)"
			empty := at("empty", "len($1.kRecord.Value)<1", "len($1.kRecord.Value)==0")
			ok := at("decoded", dec+"#1==nil")
			as := []Atom{empty, ok}
			r.Guard(c, "removing the item", nil, call("btree.BTreeG.Delete", "$0.tree", "stores.keyedValue{key=$1.kRecord.Key}"), nil, as,
				func(v V) int { return b2m(v["empty"]) })
			r.Guard(c, "any removal", nil, call("btree.BTreeG.Delete* || btree.BTreeG.Clear"), nil, as, func(v V) int { return b2m(v["empty"]) })
			ins := call("btree.BTreeG.ReplaceOrInsert", "$0.tree", kv("call:stores.Keyed.Key("+dec+"#0)", dec+"#0")+" || "+kv("$1.kRecord.Key", dec+"#0"))
			spec := func(v V) int { return b2m(!v["empty"] && v["decoded"]) }
			r.Guard(c, "inserting the decoded item under its key", nil, ins, nil, as, spec)
			r.Guard(c, "any insertion", nil, call("btree.BTreeG.ReplaceOrInsert"), nil, as, spec)
			r.Results(c, "ReceiveChange", as, func(v V) []string {
				if v["empty"] || v["decoded"] {
					return []string{"nil || " + dec + "#1"}
				}
				return []string{dec + "#1 || call:fmt.Errorf(*" + dec + "#1*"}
			})
			r.Ret("stores.keyedLess", "keyedLess", "$0.key<$1.key")
			n := r.gs("stores.NewSimpleStore")
			r.Results(n, "NewSimpleStore", nil, func(V) []string {
				return []string{"stores.SimpleStore{codec=$1,topicPartition=$0,tree=call:btree.NewG(*,func:stores.keyedLess*)}"}
			})
			if r.p.Funcs["stores.NewJsonSimpleStore"] != nil {
				r.Results(r.gn("stores.NewJsonSimpleStore", false, "stores.NewSimpleStore"), "NewJsonSimpleStore", nil, func(V) []string {
					return []string{"call:stores.NewSimpleStore($0,*JsonCodec*)"}
				})
			}
			gt := r.gs("stores.SimpleStore.Get")
			get := "call:btree.BTreeG.Get($0.tree,*)"
			r.Times(gt, "the item is looked up by its key", call("btree.BTreeG.Get", "$0.tree", "stores.keyedValue{key=$1}"), 1, 1, nil, nil)
			r.Results(gt, "Get", []Atom{at("found", get+"#1")}, func(v V) []string {
				if v["found"] {
					return []string{get + "#0.value", "true || " + get + "#1"}
				}
				return []string{"*", "false || " + get + "#1"}
			})
			for _, s := range r.FieldSites("stores.SimpleStore.tree") {
				if bad := r.From(s.Fn, "stores.NewSimpleStore || stores.SimpleStore.Put || stores.SimpleStore.Get || stores.SimpleStore.Delete || stores.SimpleStore.ReceiveChange || stores.SimpleStore.Revoked", false); bad != "" {
					r.fail(s.Ins.Pos(), r.p.Name(s.Fn), "the tree is accessed elsewhere: "+bad, nil)
				}
			}
		})

	rule("store.sharded", "C29",
		"the shard of a key is trees[hash(key) & mask] and the mask is one less than the number of shards, a power of two",
		func(r *R) {
			r.Results(r.gs("stores.ShardedTree.For"), "For", nil, func(V) []string {
				return []string{"$0.trees[($0.mod&call:$0.hashFunc($1))] || $0.trees[(call:$0.hashFunc($1)&$0.mod)] || $0.trees[(call:$0.hashFunc($1)%len($0.trees))]"}
			})
			g := r.gs("stores.NewShardedTree")
			n := "(2<<$0)"
			n2 := "(1<<$0+1)"
			r.Auto(g, "", func(s St, nd *Node) (St, string) {
				if nd.E.K != KReturn {
					return s, ""
				}
				x := nd.E.A[0]
				okM, okT := false, false
				for _, c := range []string{n, n2} {
					if x.FS("mod") == c+"-1" {
						okM = true
					}
					if glob("make:[]btree.BTreeG("+c+",*)", x.FS("trees")) || glob("*append(*", x.FS("trees")) {
						okT = true
					}
				}
				if x.FS("mod") != "zero" && !okM {
					return s, "the shard mask is not one less than a power of two: " + x.FS("mod")
				}
				if !okT {
					return s, "the number of shards is not two to the power of one more than the exponent"
				}
				if x.FS("hashFunc") != "$1" {
					return s, "the hash function is not the given one"
				}
				return s, ""
			})
			tree := call("btree.NewWithFreeListG || btree.NewG", "", "$2")
			r.ForEach(g, "a shard is not created with the given order", "(2<<$0) || count:(2<<$0) || (1<<$0+1) || count:(1<<$0+1) || make:[]btree.BTreeG(*", tree, 1, 1)
			r.ForEach(g, "a shard is not stored", "(2<<$0) || count:(2<<$0) || (1<<$0+1) || count:(1<<$0+1) || make:[]btree.BTreeG(*", func(n *Node) bool {
				return n.E.K == KStore && glob("elem(make:[]btree.BTreeG*", n.E.X.String()) && glob("call:btree.New*,$2*", n.E.V.String()) ||
					n.E.K == KCall && n.E.Name == "builtin.append"
			}, 1, 1)
			r.Never(g, "a shard has another order", and(call("btree.NewWithFreeListG || btree.NewG"), not(tree)))
			l := r.gs("stores.ShardedTree.Len")
			r.ForEach(l, "the size of a shard is not counted", "$0.trees", call("btree.BTreeG.Len", "elem($0.trees)"), 1, 1)
			r.Results(l, "Len", nil, func(V) []string {
				return []string{"0 || mu(0;@+call:btree.BTreeG.Len(*)) || mu(0;call:btree.BTreeG.Len(*+@)"}
			})
			r.Confined("the shards are replaced after construction", "stores.ShardedTree.trees || stores.ShardedTree.mod || stores.ShardedTree.hashFunc", "stores.NewShardedTree", true, false, 1)
			r.Ret("stores.StringHash", "StringHash", "call:xxhash.Sum64String($0)")
			r.Ret("stores.ByteHash", "ByteHash", "call:xxhash.Sum64($0)")
			r.Ret("stores.StringLess", "StringLess", "$0<$1")
			r.Ret("stores.NumberLess", "NumberLess", "$0<$1")
		})
}
