package main

// Canonical value expressions. Two program values with the same Key are the
// same value in one abstract state; String() drops the identity of call sites
// so that rules can name values independent of where they are computed.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type X struct {
	Op   string // see below
	S    string
	UID  string // identity of opaque values
	A    []*X
	T    types.Type
	Int  *big.Int
	id   int
	uids []string // all UIDs contained
	str  string
	Var  *types.Var // field
	Fn   interface{}
}

/* Ops
param $i, free, const, global, func, closure(bindings), field(base), new, make,
index(x,i), elem(x), key(x), lookup(m,k), has(m,k), call(args), res#n, recv(ch), recvok,
lin (linear integer form), bin, not, eq, lt, isT, as, mu(init,step..), self, slice, append, list,
spread, len, cap, obj(fields), kv(name; v), zero, old(x), opaque
*/

type Interner struct {
	m map[string]*X
	n int
}

func newInterner() *Interner { return &Interner{m: map[string]*X{}} }

func (in *Interner) mk(x X) *X {
	var b strings.Builder
	b.WriteString(x.Op)
	b.WriteByte('|')
	b.WriteString(x.S)
	b.WriteByte('|')
	b.WriteString(x.UID)
	if x.Int != nil {
		b.WriteByte('#')
		b.WriteString(x.Int.String())
	}
	for _, a := range x.A {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if o, ok := in.m[k]; ok {
		if o.T == nil && x.T != nil {
			o.T = x.T
		}
		return o
	}
	in.n++
	x.id = in.n
	o := new(X)
	*o = x
	set := map[string]bool{}
	if x.UID != "" {
		set[x.UID] = true
	}
	for _, a := range x.A {
		for _, u := range a.uids {
			set[u] = true
		}
	}
	for u := range set {
		o.uids = append(o.uids, u)
	}
	sort.Strings(o.uids)
	in.m[k] = o
	return o
}

func (x *X) hasUID(u string) bool {
	i := sort.SearchStrings(x.uids, u)
	return i < len(x.uids) && x.uids[i] == u
}

func (x *X) depth() int {
	d := 0
	for _, a := range x.A {
		if k := a.depth(); k > d {
			d = k
		}
	}
	return d + 1
}

func (x *X) String() string {
	if x == nil {
		return "_"
	}
	if x.str == "" {
		x.str = x.render()
	}
	return x.str
}

func args(a []*X) string {
	s := make([]string, len(a))
	for i, y := range a {
		s[i] = y.String()
	}
	return strings.Join(s, ",")
}

func (x *X) render() string {
	a := func(i int) string { return x.A[i].String() }
	switch x.Op {
	case "param", "free", "const", "global", "zero":
		return x.S
	case "func":
		return "func:" + x.S
	case "closure":
		return "closure:" + x.S
	case "field":
		f := x.S
		if i := strings.LastIndex(f, "."); i >= 0 {
			f = f[i+1:]
		}
		return a(0) + "." + f
	case "new":
		return "new:" + x.S
	case "make":
		if len(x.A) > 0 {
			return "make:" + x.S + "(" + args(x.A) + ")"
		}
		return "make:" + x.S
	case "index":
		return a(0) + "[" + a(1) + "]"
	case "elem":
		return "elem(" + a(0) + ")"
	case "key":
		return "key(" + a(0) + ")"
	case "lookup":
		return a(0) + "[" + a(1) + "]"
	case "has":
		return "has(" + a(0) + "," + a(1) + ")"
	case "call":
		return "call:" + x.S + "(" + args(x.A) + ")"
	case "res":
		return a(0) + "#" + x.S
	case "recv":
		return "recv(" + a(0) + ")"
	case "recvok":
		return "recvok(" + a(0) + ")"
	case "next":
		return "next(" + a(0) + ")"
	case "lin":
		var b strings.Builder
		for i, t := range x.A {
			c := x.S
			_ = c
			co := coefs(x)[i]
			switch {
			case co == 1:
				if i > 0 {
					b.WriteByte('+')
				}
			case co == -1:
				b.WriteByte('-')
			default:
				if co > 0 && i > 0 {
					b.WriteByte('+')
				}
				fmt.Fprintf(&b, "%d*", co)
			}
			b.WriteString(t.String())
		}
		if x.Int != nil && x.Int.Sign() != 0 {
			if x.Int.Sign() > 0 {
				b.WriteByte('+')
			}
			b.WriteString(x.Int.String())
		}
		return b.String()
	case "bin":
		return "(" + a(0) + x.S + a(1) + ")"
	case "un":
		return x.S + a(0)
	case "not":
		return "!" + a(0)
	case "eq":
		return a(0) + "==" + a(1)
	case "lt":
		return a(0) + "<" + a(1)
	case "isT":
		return "is[" + x.S + "](" + a(0) + ")"
	case "as":
		return a(0)
	case "mu":
		s := make([]string, 0)
		for _, y := range x.A[1:] {
			s = append(s, y.String())
		}
		return "mu(" + a(0) + ";" + strings.Join(s, "|") + ")"
	case "self":
		return "@"
	case "slice":
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case "append":
		return "append(" + args(x.A) + ")"
	case "list":
		return "[" + args(x.A) + "]"
	case "spread":
		return a(0) + "..."
	case "len", "cap":
		return x.Op + "(" + a(0) + ")"
	case "obj":
		return x.S + "{" + args(x.A[1:]) + "}"
	case "ref":
		return "&" + a(0)
	case "kv":
		return x.S + "=" + a(0)
	case "old":
		return a(0)
	case "tuple":
		return "(" + args(x.A) + ")"
	case "conv":
		return x.S + "(" + a(0) + ")"
	}
	if len(x.A) > 0 {
		return x.Op + ":" + x.S + "(" + args(x.A) + ")"
	}
	return x.Op + ":" + x.S
}

// FieldName of the last field selection of an address path ("Type.field"), or "".
func (x *X) FieldName() string {
	for x != nil {
		switch x.Op {
		case "field":
			return x.S
		case "index", "elem", "lookup", "slice", "old", "as", "key":
			x = x.A[0]
			continue
		case "global":
			return x.S
		}
		return ""
	}
	return ""
}

// strip old()/as wrappers
func (x *X) bare() *X {
	for x != nil && (x.Op == "old" || x.Op == "as") {
		x = x.A[0]
	}
	return x
}

// Get the field of a composite value (obj), or nil.
func (x *X) F(name string) *X {
	x = x.bare()
	if x == nil || x.Op != "obj" {
		return nil
	}
	for _, kv := range x.A[1:] {
		if kv.S == name {
			return kv.A[0]
		}
	}
	return nil
}

// Contains reports whether sub occurs in x.
func (x *X) Contains(sub *X) bool {
	if x == sub {
		return true
	}
	for _, a := range x.A {
		if a.Contains(sub) {
			return true
		}
	}
	return false
}

// Any reports whether some subterm satisfies f.
func (x *X) Any(f func(*X) bool) bool {
	if x == nil {
		return false
	}
	if f(x) {
		return true
	}
	for _, a := range x.A {
		if a.Any(f) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- linear forms

func coefs(x *X) []int64 {
	var out []int64
	for _, s := range strings.Split(x.S, ",") {
		var v int64
		fmt.Sscan(s, &v)
		out = append(out, v)
	}
	return out
}

type linear struct {
	t map[*X]int64
	c *big.Int
}

func (in *Interner) toLin(x *X) linear {
	l := linear{t: map[*X]int64{}, c: new(big.Int)}
	switch x.Op {
	case "const":
		if x.Int != nil {
			l.c.Set(x.Int)
			return l
		}
	case "lin":
		for i, t := range x.A {
			l.t[t] = coefs(x)[i]
		}
		if x.Int != nil {
			l.c.Set(x.Int)
		}
		return l
	}
	l.t[x] = 1
	return l
}

func (l linear) add(o linear, k int64) linear {
	r := linear{t: map[*X]int64{}, c: new(big.Int).Set(l.c)}
	for x, c := range l.t {
		r.t[x] = c
	}
	for x, c := range o.t {
		r.t[x] += k * c
		if r.t[x] == 0 {
			delete(r.t, x)
		}
	}
	r.c.Add(r.c, new(big.Int).Mul(o.c, big.NewInt(k)))
	return r
}

func (in *Interner) fromLin(l linear) *X {
	if len(l.t) == 0 {
		return in.intConst(l.c)
	}
	var ts []*X
	for x := range l.t {
		ts = append(ts, x)
	}
	sort.Slice(ts, func(i, j int) bool {
		// positive terms first, then by name
		pi, pj := l.t[ts[i]] > 0, l.t[ts[j]] > 0
		if pi != pj {
			return pi
		}
		if ts[i].String() != ts[j].String() {
			return ts[i].String() < ts[j].String()
		}
		return ts[i].id < ts[j].id
	})
	if len(ts) == 1 && l.t[ts[0]] == 1 && l.c.Sign() == 0 {
		return ts[0]
	}
	cs := make([]string, len(ts))
	for i, t := range ts {
		cs[i] = fmt.Sprint(l.t[t])
	}
	return in.mk(X{Op: "lin", S: strings.Join(cs, ","), A: ts, Int: new(big.Int).Set(l.c)})
}

func (in *Interner) intConst(c *big.Int) *X {
	return in.mk(X{Op: "const", S: c.String(), Int: new(big.Int).Set(c)})
}
func (in *Interner) num(i int64) *X { return in.intConst(big.NewInt(i)) }

func (in *Interner) boolean(b bool) *X {
	return in.mk(X{Op: "const", S: fmt.Sprint(b), UID: "bool"})
}

func (x *X) isBool() (bool, bool) {
	if x.Op == "const" && x.UID == "bool" {
		return x.S == "true", true
	}
	return false, false
}
func (in *Interner) nilX() *X { return in.mk(X{Op: "const", S: "nil"}) }
func (x *X) isNil() bool      { return x.Op == "const" && x.S == "nil" }

func (in *Interner) not(x *X) *X {
	if b, ok := x.isBool(); ok {
		return in.boolean(!b)
	}
	if x.Op == "not" {
		return x.A[0]
	}
	return in.mk(X{Op: "not", A: []*X{x}})
}

// nonNil values
func (x *X) nonNil() bool {
	switch x.Op {
	case "new", "make", "closure", "func", "obj", "list":
		return true
	case "append":
		return len(x.A) > 1 && x.A[1].Op != "spread"
	case "old", "as":
		return x.A[0].nonNil()
	case "call":
		switch x.S {
		case "fmt.Errorf", "errors.New", "context.Background", "time.NewTimer", "time.AfterFunc", "time.NewTicker":
			return true
		}
	case "global":
		return strings.HasPrefix(x.S, "Err") || x.S == "io.EOF"
	case "const":
		return x.S != "nil"
	}
	return false
}

func (in *Interner) eq(a, b *X, isInt bool) *X {
	if a == b {
		return in.boolean(true)
	}
	if a.Op == "const" && b.Op == "const" {
		return in.boolean(a.S == b.S && a.UID == b.UID)
	}
	// booleans compared with constants
	if v, ok := b.isBool(); ok {
		if v {
			return a
		}
		return in.not(a)
	}
	if v, ok := a.isBool(); ok {
		if v {
			return b
		}
		return in.not(b)
	}
	if a.isNil() {
		a, b = b, a
	}
	if b.isNil() {
		if a.nonNil() {
			return in.boolean(false)
		}
		if a.Op == "append" { // append(x, ..)
			return in.mk(X{Op: "eq", A: []*X{a, b}})
		}
		return in.mk(X{Op: "eq", A: []*X{a, b}})
	}
	if isInt {
		l := in.toLin(a).add(in.toLin(b), -1)
		if len(l.t) == 0 {
			return in.boolean(l.c.Sign() == 0)
		}
		L, c, flip := in.splitLin(l)
		if flip {
			// leading sign made positive
		}
		// L + c == 0  <=> L == -c
		k := new(big.Int).Neg(c)
		if L.Op == "len" || L.Op == "cap" || isLenCall(L) {
			if k.Sign() == 0 {
				return in.mk(X{Op: "lt", A: []*X{L, in.num(1)}})
			}
			if k.Sign() < 0 {
				return in.boolean(false)
			}
		}
		return in.mk(X{Op: "eq", A: []*X{L, in.intConst(k)}})
	}
	if a.Op == "const" || (b.Op != "const" && (a.String() > b.String() || a.String() == b.String() && a.id > b.id)) {
		a, b = b, a
	}
	return in.mk(X{Op: "eq", A: []*X{a, b}})
}

func isLenCall(x *X) bool {
	return x.Op == "call" && (strings.HasSuffix(x.S, ".Len") || strings.HasSuffix(x.S, ".Size"))
}

// splitLin separates the constant and makes the leading coefficient positive.
func (in *Interner) splitLin(l linear) (*X, *big.Int, bool) {
	c := l.c
	z := linear{t: l.t, c: new(big.Int)}
	var ts []*X
	for x := range l.t {
		ts = append(ts, x)
	}
	sort.Slice(ts, func(i, j int) bool {
		if ts[i].String() != ts[j].String() {
			return ts[i].String() < ts[j].String()
		}
		return ts[i].id < ts[j].id
	})
	flip := l.t[ts[0]] < 0
	if flip {
		n := linear{t: map[*X]int64{}, c: new(big.Int)}
		for x, k := range l.t {
			n.t[x] = -k
		}
		z = n
		c = new(big.Int).Neg(c)
	}
	return in.fromLin(z), c, flip
}

// lt: a < b
func (in *Interner) lt(a, b *X, isInt bool) *X {
	if !isInt {
		if a.Op == "const" && b.Op == "const" {
			return in.mk(X{Op: "lt", A: []*X{a, b}})
		}
		return in.mk(X{Op: "lt", A: []*X{a, b}})
	}
	l := in.toLin(a).add(in.toLin(b), -1) // a-b < 0
	if len(l.t) == 0 {
		return in.boolean(l.c.Sign() < 0)
	}
	L, c, flip := in.splitLin(l)
	if !flip {
		// L + c < 0 <=> L < -c
		k := new(big.Int).Neg(c)
		if (L.Op == "len" || L.Op == "cap" || isLenCall(L)) && k.Sign() <= 0 {
			return in.boolean(false)
		}
		return in.mk(X{Op: "lt", A: []*X{L, in.intConst(k)}})
	}
	// -(L + c) < 0 <=> L + c > 0 <=> L > -c <=> !(L < -c+1)
	k := new(big.Int).Neg(c)
	k.Add(k, big.NewInt(1))
	if (L.Op == "len" || L.Op == "cap" || isLenCall(L)) && k.Sign() <= 0 {
		return in.boolean(true)
	}
	return in.not(in.mk(X{Op: "lt", A: []*X{L, in.intConst(k)}}))
}

// replaceUID wraps every subterm which carries uid (as its own identity) in old().
func (in *Interner) aged(x *X, uid string, memo map[*X]*X) *X {
	if !x.hasUID(uid) {
		return x
	}
	if r, ok := memo[x]; ok {
		return r
	}
	var r *X
	if x.Op == "old" && x.UID == "" && len(x.A) == 1 && x.A[0].UID == uid {
		r = x
	} else if x.UID == uid {
		r = in.mk(X{Op: "old", A: []*X{x}, T: x.T})
	} else {
		n := *x
		n.A = make([]*X, len(x.A))
		for i, a := range x.A {
			n.A[i] = in.aged(a, uid, memo)
		}
		n.str, n.uids, n.id = "", nil, 0
		r = in.mk(n)
	}
	memo[x] = r
	return r
}

// hasFresh: contains an un-aged occurrence of uid
func (x *X) hasFresh(uid string) bool {
	if !x.hasUID(uid) {
		return false
	}
	if x.UID == uid {
		return true
	}
	if x.Op == "old" && len(x.A) == 1 && x.A[0].UID == uid {
		return false
	}
	for _, a := range x.A {
		if a.hasFresh(uid) {
			return true
		}
	}
	return false
}

// FS renders the value of a field of x: its overridden value, the field of the
// base value, or "zero" for an untouched field of a fresh object.
func (x *X) FS(name string) string {
	if f := x.F(name); f != nil {
		return f.String()
	}
	b := x.bare()
	if b.Op == "obj" {
		b = b.A[0].bare()
	}
	if b.Op == "new" || b.Op == "zero" {
		return "zero"
	}
	return b.String() + "." + name
}

// isNum: an integer constant (a linear form carries its constant term in Int too).
func (x *X) isNum() bool { return x.Op == "const" && x.Int != nil }
