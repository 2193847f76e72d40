package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"time"

	"database/sql/driver"

	"github.com/ulule/loukoum/v3/format"

	"verif/harness/gen"
	"verif/harness/pg"
	"verif/harness/plan"
)

// C17: the literals of the inlined rendering denote the values.

// lits splits a tree into its shape, in which every literal is masked, and its
// literals in document order. get resolves placeholders (model side only).
func lits(n *pg.N, get func(key string) interface{}) (*pg.N, []interface{}) {
	var out []interface{}
	var rec func(n *pg.N) *pg.N
	leaf := func(v interface{}) *pg.N {
		out = append(out, v)
		return pg.Mk("lit")
	}
	rec = func(n *pg.N) *pg.N {
		switch n.T {
		case "param":
			if get != nil {
				return leaf(get(n.S))
			}
		case "null":
			return leaf(nil)
		case "true":
			return leaf(true)
		case "false":
			return leaf(false)
		case "str":
			return leaf(textLit(n.S))
		case "num":
			return leaf(numLit(n.S))
		case "unary":
			if len(n.K) == 1 && n.K[0].T == "num" {
				return leaf(numLit(n.S + n.K[0].S))
			}
		case "call":
			if b, ok := decoded(n); ok {
				return leaf(b)
			}
		}
		c := &pg.N{T: n.T, S: n.S}
		for _, k := range n.K {
			c.K = append(c.K, rec(k))
		}
		return c
	}
	return rec(n), out
}

type (
	textLit string // a string literal
	numLit  string // a numeric literal with its sign
)

// decoded recognises decode('..', 'hex').
func decoded(n *pg.N) ([]byte, bool) {
	if len(n.K) != 3 || n.K[1].T != "str" || n.K[2].T != "str" || n.K[2].S != "hex" {
		return nil, false
	}
	if n.K[0].String() != decodeName {
		return nil, false
	}
	b, err := hex.DecodeString(n.K[1].S)
	return b, err == nil
}

var decodeName = func() string {
	p, err := pg.ParseExpr("decode", pg.Mode{})
	if err != nil {
		panic(err)
	}
	return p.Tree.String()
}()

var timeLayouts = []string{
	"2006-01-02 15:04:05.999999999Z07", "2006-01-02 15:04:05.999999999Z07:00",
	"2006-01-02T15:04:05.999999999Z07", "2006-01-02T15:04:05.999999999Z07:00",
}

// denotes checks that literal got denotes the Go value want.
func denotes(want, got interface{}) string {
	bad := func(how string) string {
		return fmt.Sprintf("the literal %#v does not denote the value %s%s", got, plan.Key(want), how)
	}
	for depth := 0; ; depth++ {
		v, ok := want.(driver.Valuer)
		if !ok {
			break
		}
		if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr && rv.IsNil() {
			want = nil
			break
		}
		x, err := v.Value()
		if err != nil || depth > 3 {
			fatal("valuer: %v", err)
		}
		want = x
	}
	integer := func(w *big.Int) string {
		n, ok := got.(numLit)
		if !ok {
			return bad("")
		}
		x, ok := new(big.Rat).SetString(string(n))
		if !ok || !x.IsInt() || x.Num().Cmp(w) != 0 {
			return bad("")
		}
		return ""
	}
	switch w := want.(type) {
	case nil:
		if got != nil {
			return bad("")
		}
		return ""
	case textLit:
		if got != w {
			return bad("")
		}
		return ""
	case numLit:
		n, ok := got.(numLit)
		if !ok {
			return bad("")
		}
		a, _ := new(big.Rat).SetString(string(w))
		b, ok := new(big.Rat).SetString(string(n))
		if !ok || a.Cmp(b) != 0 {
			return bad("")
		}
		return ""
	case string:
		if got != textLit(w) {
			return bad("")
		}
		return ""
	case bool:
		if got != w {
			return bad("")
		}
		return ""
	case []byte:
		b, ok := got.([]byte)
		if !ok || string(b) != string(w) {
			return bad("")
		}
		return ""
	case time.Time:
		s, ok := got.(textLit)
		if !ok {
			return bad("")
		}
		for _, l := range timeLayouts {
			if t, err := time.Parse(l, string(s)); err == nil {
				if d := t.Sub(w); d <= -time.Microsecond || d >= time.Microsecond {
					return bad(fmt.Sprintf(" (%v apart)", d))
				}
				return ""
			}
		}
		return bad(" (not a timestamp with its offset)")
	case float64, float32:
		n, ok := got.(numLit)
		if f := reflect.ValueOf(w).Float(); math.IsNaN(f) || math.IsInf(f, 0) { // 'NaN', 'Infinity'
			s, ok := got.(textLit)
			x, err := strconv.ParseFloat(string(s), 64)
			if !ok || err != nil || math.Float64bits(x) != math.Float64bits(f) && !(x != x && f != f) {
				return bad("")
			}
			return ""
		}
		if !ok {
			return bad("")
		}
		bits, f := 64, reflect.ValueOf(w).Float()
		if _, ok := w.(float32); ok {
			bits = 32
		}
		x, err := strconv.ParseFloat(string(n), bits)
		if err != nil || x != f {
			return bad("")
		}
		return ""
	}
	switch rv := reflect.ValueOf(want); rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return integer(big.NewInt(rv.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return integer(new(big.Int).SetUint64(rv.Uint()))
	}
	fatal("no literal for %T", want)
	return ""
}

// basic are the kinds of values whose literal is specified.
var basic = append(append([]string{}, gen.ScalarKinds...), "nil", "ptime", "nilptime", "nullstring", "nullint64", "pqnulltime", "valuer", "pvaluer", "nilpvaluer", "valuerstr", "valuerall", "valuerof", "strenc", "status", "pstrenc", "penc", "intenc", "boolenc", "timeenc", "intstr", "boolstr", "timestr", "pqstrings",
	"vint", "vstr", "vbool", "vbytes", "vslice", "vmap", "errval", "money", "stamp", "level", "iint", "bbool", "pint", "pbool", "ptimeenc", "duration", "ip", "bigint", "jsonnumber", "pnullstring", "nilpnullstring", "nullbool", "nullfloat", "nulltime", "pgtext", "pgint8", "pgbool")

func isBasic(kind string) bool { return gen.Has(basic, kind) }

// wide draws a value with more extreme numbers than statements use.
func wide(g *gen.G) plan.Val {
	v := g.ValOf(gen.Pick(g, basic))
	if v.K == "valuerof" && g.Coin() {
		extreme(g, &v.L[0])
	}
	extreme(g, &v)
	return v
}

func extreme(g *gen.G, v *plan.Val) {
	switch v.K {
	case "float64", "nullfloat":
		if g.OneIn(12) {
			v.U = math.Float64bits(gen.Pick(g, []float64{math.NaN(), math.Inf(1), math.Inf(-1)}))
		} else if g.Coin() {
			f := math.Float64frombits(uint64(g.N(1<<31))<<33 ^ uint64(g.N(1<<31))<<2 ^ uint64(g.N(4)))
			v.U = math.Float64bits(f)
		}
	case "float32":
		if g.Coin() {
			f := math.Float32frombits(uint32(g.N(1<<16))<<16 | uint32(g.N(1<<16)))
			v.U = uint64(math.Float32bits(f))
		}
	case "uint", "uint64":
		v.U = gen.Pick(g, []uint64{0, 1, 9, 10, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, math.MaxUint64 - 1, 1 << 53, v.U})
	case "int", "int64":
		v.I = gen.Pick(g, []int64{0, -1, 9, 10, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1 << 53, v.I, -v.I})
	case "time":
		if g.Coin() {
			v.I = int64(g.N(1<<20))*299000 - 62135510400
			v.U = uint64(g.N(1e9))
		}
	}
}

type litCase struct{ V plan.Val }

func checkLiteral(c *litCase, r *Rec) string {
	r.Label("value " + c.V.K)
	r.NonTrivial = true
	v := c.V.Bound()
	read := func(name, s string, want interface{}) string {
		n, err := pg.ParseExpr(s, pg.Mode{Backslash: true})
		if err != nil {
			return fmt.Sprintf("%s renders %q for %s, which is not a literal: %v", name, s, plan.Key(v), err)
		}
		m, ls := lits(n.Tree, nil)
		if m.T != "lit" || len(ls) != 1 {
			return fmt.Sprintf("%s renders %q for %s, which is not a literal", name, s, plan.Key(v))
		}
		if d := denotes(want, ls[0]); d != "" {
			return fmt.Sprintf("%s: %s\n  text: %s", name, d, s)
		}
		return ""
	}
	var s string
	if p := guard(func() { s = format.Value(v) }); p != nil {
		return fmt.Sprintf("formatting %s panics: %s", plan.Key(v), p)
	}
	r.Detail["literal"] = s
	if d := read("format.Value", s, v); d != "" {
		return d
	}
	name := ""
	p := guard(func() {
		switch x := v.(type) {
		case string:
			name, s = "format.String", format.String(x)
		case []byte:
			name, s = "format.Bytes", format.Bytes(x)
		case int64:
			name, s = "format.Int", format.Int(x)
		case uint64:
			name, s = "format.Uint", format.Uint(x)
		case bool:
			name, s = "format.Bool", format.Bool(x)
		case float64:
			name, s = "format.Float", format.Float(x)
		case time.Time:
			name, s = "format.Time", format.Time(x)
		}
	})
	if p != nil {
		return fmt.Sprintf("formatting %s panics: %s", plan.Key(v), p)
	}
	if name == "" {
		return ""
	}
	return read(name, s, v)
}

// checkFailing renders a statement one value of which is a valuer that fails.
func checkFailing(s *plan.Stmt, r *Rec) string {
	failing := false
	s.EachExpr(func(e *plan.Expr) { failing = failing || e.V != nil && e.V.K == "failing" })
	if !failing {
		return ""
	}
	classify(s, r)
	var b plan.B
	if p := guard(func() { b = s.Build() }); p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	var args []interface{}
	if p := guard(func() { b.Builder().NamedQuery(); _, args = b.Builder().Query() }); p != nil {
		return "an argument is passed on unchanged, whatever it is: " + p.String()
	}
	bound := false // not overwritten by a later pair
	for _, a := range args {
		_, is := a.(plan.Failing)
		bound = bound || is
	}
	if !bound {
		return ""
	}
	text := ""
	p := guard(func() { text = b.Builder().String() })
	r.NonTrivial = true
	if p == nil {
		return "a value that cannot be had is rendered as another one\n  sql: " + text
	}
	if p.Runtime {
		return "a value that cannot be had ends in a Go runtime error: " + p.Text
	}
	return ""
}

func checkInlined(s *plan.Stmt, r *Rec) string {
	classify(s, r)
	vals := map[string]interface{}{}
	s.EachExpr(func(e *plan.Expr) {
		if e.V == nil {
			return
		}
		v := e.V.Go()
		if e.K == "val" {
			v = e.V.Bound()
		}
		vals[plan.Key(v)] = v
		if e.K == "val" && e.V.Slice() { // spread by a list
			for _, x := range e.V.L {
				vals[plan.Key(x.Go())] = x.Go()
			}
		}
	})
	var raw string
	if p := guard(func() { raw = s.Build().Builder().String() }); p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	r.Detail["sql"] = raw
	parsed, err := pg.ParseStatement(raw, pg.Mode{Backslash: true})
	if err != nil {
		return fmt.Sprintf("String renders text that is not the statement: %v\n  sql: %s", err, raw)
	}
	want, wl := lits(s.N(), func(key string) interface{} {
		v, ok := vals[key]
		if !ok {
			fatal("no value for %s", key)
		}
		return v
	})
	got, gl := lits(parsed.Tree, nil)
	if d := pg.Diff(want, got); d != "" {
		return fmt.Sprintf("String renders another statement: %s\n  sql: %s", d, raw)
	}
	if len(wl) != len(gl) {
		return fmt.Sprintf("String renders %d literals for %d values\n  sql: %s", len(gl), len(wl), raw)
	}
	r.NonTrivial = len(wl) >= 2
	r.Count("literals", len(wl))
	for i := range wl {
		if d := denotes(wl[i], gl[i]); d != "" {
			return fmt.Sprintf("literal %d of String: %s\n  sql: %s", i+1, d, raw)
		}
	}
	return ""
}

// literalOnly replaces the values of kinds without a specified literal.
func literalOnly(g *gen.G, s *plan.Stmt) {
	spread := homogeneous(s)
	s.EachExpr(func(e *plan.Expr) {
		switch {
		case e.V == nil || e.K != "value" && e.K != "val":
		case e.K == "value" && e.V.K != "nil", e.V.Slice() && !spread[e], !isBasic(e.V.K) && !e.V.Slice():
			if gen.Has(gen.ScalarKinds, e.V.K) {
				return
			}
			v := g.ValOf(gen.Pick(g, gen.ScalarKinds))
			e.V = &v
		}
	})
}

func init() {
	add("C17", "literals", 60000, 1500000, gen.Cfg{Big: true},
		"values of every kind with a specified literal (strings over quotes, backslashes, control and non-ASCII characters; extreme integers and floats; bytes; times over years 1 to 9999 and offsets; valuers; nil and nil pointers), formatted alone; the literal, read by the harness's own lexer, must denote the value; every case is non-trivial",
		func(g *gen.G) *litCase { return &litCase{wide(g)} }, checkLiteral)
	add("C17", "failing", 2000, 30000, gen.Cfg{Depth: 2, Big: true},
		"random statements one value of which is a valuer that returns an error; the inlined rendering must be rejected, the others pass the value on; non-trivial: the statement has such a value",
		func(g *gen.G) *plan.Stmt {
			s := g.Any()
			var es []*plan.Expr
			for _, e := range free(s) {
				if e.V.Go() != nil && (e.K != "val" || e.V.Bound() != nil) {
					es = append(es, e)
				}
			}
			if len(es) > 0 {
				e := gen.Pick(g, es)
				e.V = &plan.Val{K: "failing", L: []plan.Val{g.ValOf(gen.Pick(g, gen.ScalarKinds))}}
			}
			return s
		}, checkFailing)
	add("C17", "inlined", 16000, 250000, gen.Cfg{Depth: 2, Big: true, NoRaw: true},
		"random statements over those values, rendered with the values inlined and parsed back; the tree must be the statement's, and each literal must denote the value given at its place; non-trivial: at least 2 literals",
		func(g *gen.G) *plan.Stmt {
			s := g.Any()
			for _, e := range free(s) {
				if !isBasic(e.V.K) || g.OneIn(3) {
					v := wide(g)
					e.V = &v
				}
			}
			literalOnly(g, s)
			return s
		}, checkInlined)
}
