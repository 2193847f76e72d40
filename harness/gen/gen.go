package gen

import (
	"math"
	"strconv"
	"strings"

	"verif/harness/plan"
)

var intKinds = []string{"int", "int64", "int32", "int16", "int8"}
var uintKinds = []string{"uint", "uint64", "uint32", "uint16", "uint8"}

func (g *G) int64() int64 {
	if n, ok := g.freshInt(); ok {
		return n
	}
	switch g.Weighted(4, 3, 2, 1) {
	case 0:
		return int64(g.In(0, 20))
	case 1:
		return Pick(g, []int64{-1, 0, 1, 127, -128, 255, 256, 32767, -32768, 65535, 2147483647, -2147483648, 4294967295, math.MaxInt64, math.MinInt64, 1e15})
	case 2:
		if len(Mined.Ints) > 0 {
			return Pick(g, Mined.Ints) + int64(g.In(-1, 1))
		}
		return 7
	default:
		return int64(g.N(1<<20))*4294967 - 1<<40
	}
}

// ValOf draws a value of a given kind.
func (g *G) ValOf(kind string) plan.Val {
	v := plan.Val{K: kind}
	if plan.NilKinds[kind] && g.OneIn(8) {
		v.I = -1 // a nil slice or map
		return v
	}
	switch kind {
	case "nil", "nilptime", "nilpvaluer":
	case "nilpnullstring", "emptyrange":
	case "string", "strenc", "status", "pstrenc", "penc", "valuer", "pvaluer", "vstr", "vbytes", "errval":
		v.S = plan.Str(g.Text())
		if g.Cfg.Wild && g.OneIn(12) {
			v.S = plan.Str(Pick(g, []string{"\x00", "a\x00b", "\x00\x00", "\xff", "a\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "ok\x80'", "\x1a"}))
		}
	case "bytes":
		s := g.Text()
		if g.OneIn(4) {
			s += "\x00\xff\xfe"
		}
		if g.OneIn(10) {
			s = Pick(g, []string{"\x00", "\xff", "\x00\x00", "\n", " ", "'", "\\", "\\x", "\x00a", "a\x00", "\x80"})
		}
		v.S = plan.Str(s)
	case "bool", "boolenc", "boolstr", "vbool", "pbool", "bbool":
		v.I = int64(g.N(2))
	case "iint":
		v.S = plan.Str(strings.Repeat("i", g.N(5)))
	case "level", "ip":
		v.I = int64(g.N(1 << 20))
	case "int", "int64", "intenc", "intstr", "valuerstr", "valuerall", "range", "vint", "pint", "duration", "bigint", "jsonnumber":
		v.I = g.int64()
		if kind == "range" && v.I > math.MaxInt64-8 {
			v.I = 0
		}
	case "int8":
		v.I = int64(int8(g.int64()))
	case "int16":
		v.I = int64(int16(g.int64()))
	case "int32":
		v.I = int64(int32(g.int64()))
	case "uint", "uint64":
		v.U = uint64(g.int64())
	case "uint8":
		v.U = uint64(uint8(g.int64()))
	case "uint16":
		v.U = uint64(uint16(g.int64()))
	case "uint32":
		v.U = uint64(uint32(g.int64()))
	case "float32":
		v.U = uint64(math.Float32bits(float32(g.float())))
	case "float64":
		v.U = math.Float64bits(g.float())
	case "time", "ptime", "timeenc", "timestr", "ptimeenc", "stamp", "trange":
		g.time(&v)
	case "valuerof":
		v.L = []plan.Val{g.ValOf(Pick(g, []string{"nil", "string", "int64", "float64", "bool", "bytes", "time"}))}
	case "pqnulltime", "nulltime":
		g.time(&v)
		if g.OneIn(3) {
			v.L = []plan.Val{{K: "nil"}}
		}
	case "nullfloat":
		v.U, v.I = math.Float64bits(g.float()), int64(g.N(2))
	case "nullbool", "pgbool":
		v.U, v.I = uint64(g.N(2)), int64(g.N(2))
	case "nullstring", "pnullstring", "pgtext":
		v.S, v.I = plan.Str(g.Text()), int64(g.N(2))
	case "nullint64", "money", "pgint8":
		v.U, v.I = uint64(g.int64()), int64(g.N(2))
	case "int64s", "flatint64s", "vslice":
		for i := g.short(); i > 0; i-- {
			v.L = append(v.L, g.ValOf("int64"))
		}
	case "strings", "flatstrings", "pqstrings":
		for i := g.short(); i > 0; i-- {
			v.L = append(v.L, g.ValOf("string"))
		}
	case "mapss", "mapsi", "vmap":
		for i := g.short(); i > 0; i-- {
			e := g.ValOf("string")
			if kind == "mapsi" && g.Coin() {
				e = g.ValOf("int64")
			}
			v.M = append(v.M, plan.KV{K: plan.Str(g.word() + strconv.Itoa(i)), V: e})
		}
	default:
		panic("gen: kind " + kind)
	}
	return v
}

// short draws the length of a list: mostly a few, now and then more.
func (g *G) short() int {
	if g.OneIn(10) {
		return g.In(4, 12)
	}
	return g.In(0, 3)
}

func (g *G) float() float64 {
	switch g.Weighted(3, 3, 2, 2) {
	case 0:
		return float64(g.In(-1000, 1000)) / 8
	case 3:
		f := math.Float64frombits(uint64(g.int64()) * 0x9e3779b97f4a7c15)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return -math.MaxFloat64
		}
		return f
	case 1:
		return Pick(g, []float64{-math.MaxFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat32, -math.MaxFloat32, 1 << 53, 1<<53 + 2, math.MaxInt64, math.MinInt64, -1e21, 1e-6, 1e-5, -1e-7, 1e15, 1e16, 1e17, 0, 1, -1, 0.1, 1e21, 1e-7, 123456789.123456789, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e6, 5e20, 3.4e38, math.Copysign(0, -1), 0.30000000000000004, 1e20, 16777217})
	default:
		return float64(g.int64()) * 1.1
	}
}

func (g *G) time(v *plan.Val) {
	v.I = Pick(g, []int64{0, 1, -1, 1136214245, 951782400, 1709164800, -62135596800, 4102444800, 1700000000, -2208988800})
	if g.Coin() {
		v.I += int64(g.N(100000))
	}
	if g.Cfg.Wild && g.OneIn(12) {
		v.I = Pick(g, []int64{253402300799, 253402300800, -62135596801, -62167219200, -62167219201, 1 << 40, -1 << 40, 1 << 50, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32 - 1})
	}
	v.U = uint64(Pick(g, []int{0, 1000, 999999000, 500000000, 120000000, 1, 999999999, 1500, 123456789}))
	if g.OneIn(3) {
		v.S = plan.Str(strconv.Itoa(Pick(g, []int{-720, -330, -1, 60, 120, 345, 840})))
		if g.OneIn(4) { // local mean times
			v.S = Pick(g, []plan.Str{"561s", "1172s", "-17762s", "-1s", "59s", "0s", "30s"})
		}
	}
}

// ScalarKinds are kinds loukoum binds as they are and lists do not spread.
var ScalarKinds = []string{"string", "int", "int64", "bool", "float64", "int32", "uint64", "time", "bytes", "int8", "int16", "uint", "uint8", "uint16", "uint32", "float32"}

var extraKinds = []string{"ptime", "nullstring", "nullint64", "pqnulltime", "valuer", "pvaluer", "nilpvaluer", "valuerstr", "strenc", "status", "pstrenc", "intenc", "boolenc", "timeenc", "flatstrings", "flatint64s", "range", "mapss", "mapsi", "pqstrings", "nilptime", "intstr", "boolstr", "timestr", "penc", "valuerall", "valuerof",
	"vint", "vstr", "vbool", "vbytes", "vslice", "vmap", "errval", "money", "stamp", "level", "iint", "bbool", "pint", "pbool", "ptimeenc", "duration", "ip", "bigint", "jsonnumber", "pnullstring", "nilpnullstring", "nullbool", "nullfloat", "nulltime", "pgtext", "pgint8", "pgbool", "trange", "emptyrange"}

// AllKinds are the kinds of values loukoum can bind.
var AllKinds = append(append([]string{"nil", "int64s", "strings"}, ScalarKinds...), extraKinds...)

// Val draws a value for a position that binds one value.
func (g *G) Val() plan.Val {
	k := g.Weighted(10, 4, 2, 1)
	if g.Cfg.NoEnc && k > 0 && k < 3 {
		k = 0
	}
	switch k {
	case 0:
		return g.ValOf(Pick(g, ScalarKinds))
	case 1:
		return g.ValOf(Pick(g, extraKinds))
	case 2:
		return g.ValOf(Pick(g, []string{"int64s", "strings"}))
	default:
		return plan.Val{K: "nil"}
	}
}

func valE(v plan.Val) *plan.Expr { return &plan.Expr{K: "val", V: &v} }

func (g *G) deeper() *G {
	c := *g
	c.Cfg.Depth--
	return &c
}

func (g *G) sync(c *G) { g.seq = c.seq }

// sub draws a nested SELECT.
func (g *G) sub() *plan.Stmt {
	c := g.deeper()
	defer func() { g.sync(c) }()
	return c.Select(true)
}

func (g *G) canSub() bool { return !g.Cfg.NoSub && g.Cfg.Depth > 0 }

// operand is a raw-safe right-hand side.
func (g *G) rawOperand() *plan.Expr { return &plan.Expr{K: "raw", S: g.fill(rawOperand)} }

// Arg draws an argument for a comparison, BETWEEN, LIKE...
func (g *G) Arg() *plan.Expr {
	w := []int{12, 2, 2, 2, 3, 2, 1}
	if g.Cfg.NoRaw {
		w[1] = 0
	}
	if !g.canSub() {
		w[4], w[6] = 0, 0
	} else if g.Cfg.Subs {
		w[4], w[6] = 8, 4
	}
	switch g.Weighted(w...) {
	case 0:
		return valE(g.Val())
	case 1:
		return g.rawOperand()
	case 2:
		id := g.Ident()
		return &plan.Expr{K: "ident", Id: &id}
	case 3:
		return g.call()
	case 4:
		return &plan.Expr{K: "sub", Q: g.sub(), F: g.N(3)}
	case 5:
		if g.Coin() {
			v := g.Val()
			return &plan.Expr{K: "value", V: &v}
		}
		return &plan.Expr{K: "enc", X: []*plan.Expr{g.simpleArg()}}
	default:
		return &plan.Expr{K: Pick(g, []string{"exists", "notexists"}), Q: g.sub(), F: g.N(3)}
	}
}

func (g *G) simpleArg() *plan.Expr {
	if g.Coin() {
		v := g.Val()
		return &plan.Expr{K: "value", V: &v}
	}
	id := g.Ident()
	return &plan.Expr{K: "ident", Id: &id}
}

func (g *G) call() *plan.Expr {
	e := &plan.Expr{K: "call", S: g.fill(funcs)}
	for i := g.In(0, 2); i > 0; i-- {
		switch n := g.N(8); {
		case n == 7 && g.canSub():
			e.X = append(e.X, &plan.Expr{K: "sub", Q: g.sub(), F: 1})
		case n == 6 && g.Cfg.Depth > 0:
			c := g.deeper()
			if g.Coin() {
				e.X = append(e.X, c.call())
			} else {
				e.X = append(e.X, c.compare())
			}
			g.sync(c)
		case n < 3:
			id := g.Ident()
			e.X = append(e.X, &plan.Expr{K: "ident", Id: &id})
		case n < 5:
			v := g.Val()
			e.X = append(e.X, &plan.Expr{K: "value", V: &v})
		default:
			if g.Cfg.NoRaw {
				v := g.Val()
				e.X = append(e.X, &plan.Expr{K: "value", V: &v})
			} else {
				e.X = append(e.X, &plan.Expr{K: "raw", S: g.fill(rawOperand)})
			}
		}
	}
	if len(e.X) == 0 && g.Coin() {
		e.X = append(e.X, &plan.Expr{K: "raw", S: "*"})
	}
	return e
}

// lhs draws a left-hand side that is an identifier.
func (g *G) lhsIdent() *plan.Expr {
	if !g.Cfg.NoRaw && g.OneIn(8) {
		return &plan.Expr{K: "rawident", S: g.fill(rawOperand[:7])}
	}
	id := g.Ident()
	return &plan.Expr{K: "ident", Id: &id}
}

var identOps = []string{"=", "<>", ">", ">=", "<", "<=", "@>", "<@", "&&", "like", "notlike", "ilike", "notilike", "is", "isnot", "isdistinct", "isnotdistinct"}
var valueOps = []string{"=", "<>", "@>", "<@", "&&"}
var callOps = []string{"=", ">", "<", "like", "ilike", "&&"}

func (g *G) compare() *plan.Expr {
	e := &plan.Expr{K: "cmp"}
	switch g.Weighted(8, 1, 2) {
	case 0:
		e.Op = Pick(g, identOps)
		e.X = []*plan.Expr{g.lhsIdent(), nil}
	case 1:
		v := g.Val()
		e.Op = Pick(g, valueOps)
		e.X = []*plan.Expr{{K: "value", V: &v}, nil}
	default:
		e.Op = Pick(g, callOps)
		e.X = []*plan.Expr{g.call(), nil}
	}
	e.X[1] = g.Arg()
	return e
}

// In draws an IN condition.
func (g *G) InList() *plan.Expr {
	e := &plan.Expr{K: "in", Op: Pick(g, []string{"in", "notin"})}
	if g.OneIn(6) {
		e.X = []*plan.Expr{g.call()}
		e.Op = "in"
	} else {
		e.X = []*plan.Expr{g.lhsIdent()}
	}
	if g.canSub() && g.OneIn(5) {
		e.X = append(e.X, &plan.Expr{K: "sub", Q: g.sub(), F: g.N(3)})
		return e
	}
	g.list(e, g.Len(0, 4))
	return e
}

// list appends n list elements and picks how they are passed.
func (g *G) list(e *plan.Expr, n int) {
	switch g.Weighted(3, 3, 3, 1) {
	case 2:
		e.F = 2
		kind := Pick(g, plan.Elem)
		if n == 0 && kind == "bytes" {
			kind = "int"
		}
		for i := 0; i < n; i++ {
			e.X = append(e.X, valE(g.ValOf(kind)))
		}
		return
	case 1:
		e.F = 1
	case 3:
		e.F = 3
	}
	for i := 0; i < n; i++ {
		switch {
		case n < 6 && g.OneIn(6):
			a := g.Arg()
			if e.F == 3 && (a.K == "enc" || a.K == "sub") {
				a = valE(g.Val())
			}
			if n == 1 && (a.K == "sub" || a.K == "enc") {
				a = valE(g.ValOf("int"))
			}
			e.X = append(e.X, a)
		default:
			v := g.Val()
			if n == 1 && e.F == 0 && (v.K == "nil" || v.Slice()) {
				v = g.ValOf("int")
			}
			e.X = append(e.X, valE(v))
		}
	}
}

// Cond draws a condition.
func (g *G) Cond() *plan.Expr {
	w := []int{8, 3, 2, 2, 4, 2, 2, 1, 1, 1}
	if g.Cfg.Depth <= 0 {
		w[4] = 0
	}
	if !g.canSub() {
		w[5], w[9] = 0, 0
	}
	if g.Cfg.NoRaw {
		w[6] = 0
	}
	switch g.Weighted(w...) {
	case 0:
		return g.compare()
	case 1:
		return g.InList()
	case 2:
		a, b := g.Arg(), g.Arg()
		return &plan.Expr{K: "between", Op: Pick(g, []string{"between", "notbetween"}), X: []*plan.Expr{g.lhsIdent(), a, b}}
	case 3:
		return &plan.Expr{K: "null", Op: Pick(g, []string{"null", "notnull"}), F: g.N(2), X: []*plan.Expr{g.lhsIdent()}}
	case 4:
		c := g.deeper()
		l := c.Cond()
		var r *plan.Expr
		if g.OneIn(10) { // a condition may be combined with itself
			r = l.Clone()
		} else {
			r = c.Cond()
		}
		g.sync(c)
		return &plan.Expr{K: Pick(g, []string{"and", "or"}), F: g.N(2), X: []*plan.Expr{l, r}}
	case 5:
		return &plan.Expr{K: Pick(g, []string{"exists", "notexists"}), Q: g.sub(), F: g.N(3)}
	case 6:
		return &plan.Expr{K: "raw", S: g.fill(rawCond)}
	case 7:
		id := g.Ident()
		return &plan.Expr{K: "ident", Id: &id}
	case 8:
		v := g.ValOf("bool")
		return &plan.Expr{K: "value", V: &v}
	default:
		return &plan.Expr{K: "sub", Q: g.sub(), F: 1}
	}
}

// Target draws a select-list item.
func (g *G) Target() plan.Target {
	w := []int{8, 2, 2, 1}
	if g.Cfg.NoRaw {
		w[1] = 0
	}
	if !g.canSub() {
		w[3] = 0
	}
	switch g.Weighted(w...) {
	case 0:
		id := g.Ident()
		t := plan.Target{K: "col", Id: &id}
		if g.OneIn(12) { // table.*
			id.P = append(id.P, "*")
		} else if g.OneIn(4) {
			t.Alias = g.Alias()
			if g.OneIn(5) { // an alias like the name
				t.Alias = id.P[len(id.P)-1]
			}
		}
		return t
	case 1:
		return plan.Target{K: "raw", S: g.fill(rawTarget)}
	case 2:
		t := plan.Target{K: Pick(g, []string{"count", "max", "min", "sum"}), S: g.fill(aggArgs)}
		if t.K == "count" && t.S != "*" && g.Coin() {
			t.Distinct = true
		}
		if t.K == "count" {
			t.F = g.N(2)
		}
		if g.OneIn(8) {
			t.F = 2
		}
		if t.K != "count" && t.S == "*" {
			t.S = "id"
		}
		if g.OneIn(3) {
			t.Alias = plan.Str(g.word())
		}
		return t
	default:
		return plan.Target{K: Pick(g, []string{"exists", "notexists"}), Q: g.sub(), F: g.N(3)}
	}
}

// Targets draws a select list and how it is passed.
func (g *G) Targets(lo, hi int) ([]plan.Target, int) {
	f := g.Weighted(6, 1, 1, 1, 1)
	if f >= 1 && f <= 3 {
		ids, _ := g.Idents(max(lo, 1), hi)
		if g.OneIn(6) { // a column may be selected twice
			ids = append(ids, Pick(g, ids))
		}
		out := make([]plan.Target, len(ids))
		for i := range ids {
			if !clean(ids[i].Name()) && f < 3 {
				f = 3
			}
			out[i] = plan.Target{K: "col", Id: &ids[i]}
		}
		if f == 3 && g.OneIn(3) {
			out[0].Alias = g.Alias()
		}
		return out, f
	}
	n := g.Len(lo, hi)
	out := make([]plan.Target, n)
	for i := range out {
		if i > 0 && g.OneIn(12) {
			out[i] = out[g.N(i)]
			continue
		}
		out[i] = g.Target()
	}
	return out, f
}

// Table draws a FROM item.
func (g *G) Table(raw bool) plan.Table {
	if raw && !g.Cfg.NoRaw && g.OneIn(8) {
		return plan.Table{Raw: g.fill(rawFrom)}
	}
	id := g.Ident()
	t := plan.Table{Id: &id}
	if g.OneIn(4) {
		t.Alias = g.Alias()
		if last := id.P[len(id.P)-1]; g.OneIn(5) { // an alias like the name
			t.Alias = Pick(g, []plan.Str{last, "old_" + last, last + "2", plan.Str(strings.ToUpper(string(last))), plan.Str(id.Name())})
		}
	}
	if g.OneIn(8) {
		t.Only = true
		t.OnlyFirst = g.Coin()
	}
	return t
}

func (g *G) on(depth int) *plan.On {
	if depth <= 0 || g.N(3) < 2 {
		l, r := g.Ident(), g.Ident()
		return &plan.On{K: "on", L: &l, R: &r}
	}
	return &plan.On{K: Pick(g, []string{"and", "or"}), F: g.N(2), X: []*plan.On{g.on(depth - 1), g.on(depth - 1)}}
}

var joinTypes = []string{"", "INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN"}

// loukoum's own key words: join strings cannot use them as names.
var joinKeywords = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`SELECT UPDATE INSERT DELETE FROM WHERE AND OR LIMIT OFFSET SET AS INNER CROSS LEFT RIGHT JOIN ON GROUP BY HAVING ORDER DISTINCT ONLY USING RETURNING VALUES INTO CONFLICT DO NOTHING WITH NOT EXISTS COUNT MAX MIN SUM OUTER FULL`) {
		joinKeywords[w] = true
	}
}

// bareIdent draws an identifier that can be written in a join string.
func (g *G) bareIdent(parts int) plan.Ident {
	id := plan.Ident{}
	for i := 0; i < parts; i++ {
		w := g.word()
		switch g.N(8) {
		case 6:
			w = strings.ToUpper(w[:1]) + w[1:]
		case 7:
			w = "_" + w + strconv.Itoa(g.N(10))
		}
		if g.OneIn(8) {
			// names that merely start or end like a key word
			w = Pick(g, []string{"on", "and", "or", "join", "left", "inner", "right", "order", "set", "as", "by"}) + Pick(g, []string{"_id", "1", "x", "s", "_", "ly"})
		}
		if joinKeywords[strings.ToUpper(w)] {
			w += "_"
		}
		id.P = append(id.P, plan.Str(w))
	}
	if parts == 1 && joinKeywords[strings.ToUpper(id.Name())] {
		id.P[0] += "_"
	}
	return id
}

func (g *G) kw(s string) string {
	switch g.N(3) {
	case 1:
		return strings.ToLower(s)
	case 2:
		b := []byte(strings.ToLower(s))
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'z' && g.Coin() {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

func (g *G) ws() string {
	if g.N(4) < 3 {
		return " "
	}
	return Pick(g, []string{"  ", "\t", "\n", " \r\n ", "   \t"})
}

func (g *G) opt() string {
	if g.Coin() {
		return g.ws()
	}
	return ""
}

// CondText draws a join condition string and its tree: comparisons joined by
// AND and OR, read from left to right.
func (g *G) CondText(n int) (*plan.On, string) {
	var on *plan.On
	var sb strings.Builder
	for i := 0; i < n; i++ {
		l, r := g.bareIdent(g.In(1, 2)), g.bareIdent(g.In(1, 2))
		leaf := &plan.On{K: "on", L: &l, R: &r}
		if i == 0 {
			on = leaf
		} else {
			op := Pick(g, []string{"and", "or"})
			on = &plan.On{K: op, X: []*plan.On{on, leaf}}
			sb.WriteString(g.ws() + g.kw(strings.ToUpper(op)) + g.ws())
		}
		sb.WriteString(l.Name() + g.opt() + "=" + g.opt() + r.Name())
	}
	return on, sb.String()
}

// Join draws a JOIN clause.
func (g *G) Join() *plan.Join { return g.join(g.Weighted(3, 2, 2, 1)) }

func (g *G) join(form int) *plan.Join {
	j := &plan.Join{F: form}
	switch j.F {
	case 0, 3:
		j.Table = g.Table(false)
		j.On = g.on(2)
		j.Type = Pick(g, joinTypes)
		if j.F == 3 {
			if g.OneIn(4) {
				j.On = g.on(3)
			} else if g.N(3) == 0 {
				c := g.deeper()
				j.On = &plan.On{K: "cond", E: c.Cond()}
				g.sync(c)
			}
		}
	case 1:
		j.Table = g.Table(false)
		on, text := g.CondText(g.condN())
		j.On = on
		j.Type = Pick(g, joinTypes)
		j.Text = plan.Str(g.condWrap(text))
	case 2:
		id := g.bareIdent(g.In(1, 2))
		j.Table = plan.Table{Id: &id}
		j.Type = Pick(g, []string{"", "JOIN", "INNER JOIN", "LEFT JOIN", "RIGHT JOIN"})
		on, text := g.CondText(g.condN())
		j.On = on
		s := ""
		for _, w := range strings.Fields(j.Type) {
			s += g.kw(w) + g.ws()
		}
		open, end := "", ""
		if g.OneIn(5) {
			open, end = "("+g.opt(), g.opt()+")"
		}
		s += id.Name() + g.ws() + g.kw("ON") + g.ws() + open + text + end + g.tail()
		j.Text = plan.Str(g.opt() + s)
		if j.Type == "JOIN" {
			j.Type = ""
		}
	}
	return j
}

func (g *G) condN() int {
	if g.Cfg.Big && g.OneIn(20) {
		return g.In(5, 80)
	}
	return g.In(1, 4)
}

func (g *G) tail() string {
	if g.OneIn(6) {
		return g.opt() + ";" + g.opt()
	}
	return g.opt()
}

func (g *G) condWrap(text string) string {
	s := text
	if g.OneIn(5) {
		s = "(" + g.opt() + s + g.opt() + ")"
	}
	if g.Coin() {
		s = g.kw("ON") + g.ws() + s
	}
	return g.opt() + s + g.tail()
}

func (g *G) num(lo int64) (*plan.Val, int) {
	n := lo + int64(g.In(0, 30))
	switch g.Weighted(3, 1, 1) {
	case 1:
		n = max(lo, Pick(g, []int64{100, 127, 128, 255, 256, 32767, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt64, 1 << 40}))
	case 2:
		if len(Mined.Ints) > 0 {
			n = max(lo, Pick(g, Mined.Ints)+int64(g.In(-1, 1)))
		}
	}
	if v, ok := g.freshInt(); ok {
		n = max(lo, v)
	}
	if g.OneIn(5) {
		return &plan.Val{K: "int64", I: n}, 1
	}
	v := plan.Val{K: Pick(g, []string{"int", "int64", "string", "uint64", "int32", "int16", "int8", "uint", "uint8", "uint16", "uint32"})}
	switch v.K {
	case "string":
		s := strconv.FormatInt(n, 10)
		if g.OneIn(4) {
			s = Pick(g, []string{"+", "0", "00"}) + s
		}
		v.S = plan.Str(s)
	case "int", "int64":
		v.I = n
	case "int32":
		v.I = min(n, math.MaxInt32)
	case "int16":
		v.I = min(n, math.MaxInt16)
	case "int8":
		v.I = min(n, math.MaxInt8)
	case "uint", "uint64":
		v.U = uint64(n)
	case "uint32":
		v.U = uint64(min(n, math.MaxUint32))
	case "uint16":
		v.U = uint64(min(n, math.MaxUint16))
	case "uint8":
		v.U = uint64(min(n, math.MaxUint8))
	}
	return &v, 0
}

// Where draws a WHERE chain: where, then and/or/where.
func (g *G) Where(lo int) []plan.Op {
	n := g.Weighted(4, 4, 3, 2, 1)
	if g.Cfg.Big && g.OneIn(40) {
		n = g.In(5, 40)
	}
	n = max(n, lo)
	var ops []plan.Op
	for i := 0; i < n; i++ {
		name := "where"
		if i > 0 {
			name = Pick(g, []string{"and", "or", "where"})
		}
		e := g.Cond
		if i > 0 && g.OneIn(10) { // the same condition again
			e = func() *plan.Expr { return Pick(g, ops).E.Clone() }
		}
		ops = append(ops, plan.Op{N: name, E: e()})
	}
	return ops
}

// CTEs draws WITH queries.
func (g *G) ctes() []plan.Op {
	var ops []plan.Op
	for i := g.In(1, 2); i > 0; i-- {
		o := plan.Op{N: "with"}
		for j := g.In(1, 2); j > 0; j-- {
			g.seq++
			name := "w" + strconv.Itoa(g.seq)
			if g.OneIn(8) { // the name of another one
				name = "w" + strconv.Itoa(g.In(1, g.seq))
			}
			o.CTEs = append(o.CTEs, plan.CTE{Name: plan.Str(name), Q: g.sub(), F: g.N(3)})
		}
		ops = append(ops, o)
	}
	return ops
}

// CommentText draws a comment that stays on one line.
func (g *G) CommentText() string {
	s := g.Text()
	s = strings.NewReplacer("\n", " ", "\r", " ").Replace(s)
	return s
}

func (g *G) comment(nested bool) []plan.Op {
	if g.Cfg.Comments && g.OneIn(6) {
		out := []plan.Op{{N: "comment", S: plan.Str(g.CommentText())}}
		if g.OneIn(6) { // the last one counts
			out = append(out, plan.Op{N: "comment", S: plan.Str(Pick(g, []string{"", "", g.CommentText()}))})
		}
		return out
	}
	return nil
}

// Select draws a SELECT. Nested ones are smaller.
func (g *G) Select(nested bool) *plan.Stmt {
	var groups [][]plan.Op
	add := func(ops ...plan.Op) {
		if len(ops) > 0 {
			groups = append(groups, ops)
		}
	}
	p := 3 // one in p for optional clauses
	if nested {
		p = 6
	}
	lo := 1
	if !nested && g.OneIn(12) {
		lo = 0
	}
	ts, f := g.Targets(lo, 4)
	if lo == 0 && f == 0 && g.Coin() {
		ts = nil
	}
	if len(ts) == 0 {
		f = 0
	}
	if g.OneIn(16) {
		ts, f = append(ts, plan.Target{K: "col", Id: &plan.Ident{P: []plan.Str{"*"}}}), 0
	}
	first := plan.Op{N: "select", Targets: ts, F: f}
	if g.OneIn(14) { // another select list replaces it
		ts, f := g.Targets(0, 3)
		if len(ts) == 0 {
			f = 0
		}
		add(plan.Op{N: "reselect", Targets: ts, F: f})
	}
	switch g.Weighted(6, 1, 1) {
	case 1:
		add(plan.Op{N: "distinct"})
		if g.OneIn(4) { // asking twice
			add(plan.Op{N: "distinct"})
		}
	case 2:
		ids, f := g.Columns(1, 3)
		add(plan.Op{N: "distincton", Ids: ids, F: f})
		if g.Cfg.Both && g.Coin() {
			add(plan.Op{N: "distinct"})
		}
	}
	from := g.N(8) > 0
	if from {
		n := 1
		if g.OneIn(5) {
			n = g.In(2, 3)
		}
		o := plan.Op{N: "from"}
		for i := 0; i < n; i++ {
			o.Tables = append(o.Tables, g.Table(true))
		}
		if g.OneIn(6) {
			o.F = g.In(1, 2)
		}
		add(o)
		if g.OneIn(p) {
			n := g.In(1, 3)
			if g.Cfg.Big && g.OneIn(20) {
				n = g.In(4, 20)
			}
			var js []plan.Op
			for i := 0; i < n; i++ {
				js = append(js, plan.Op{N: "join", Join: g.Join()})
			}
			add(js...)
		}
	}
	if g.canSub() && g.OneIn(p*2) {
		add(g.ctes()...)
	}
	add(g.Where(0)...)
	if g.OneIn(p) {
		ids, f := g.Columns(1, 3)
		add(plan.Op{N: "groupby", Ids: ids, F: f})
	}
	if g.OneIn(p) {
		add(plan.Op{N: "having", E: g.Cond()})
	}
	if g.OneIn(p) {
		var os []plan.Op
		for i := g.In(1, 2); i > 0; i-- {
			o := plan.Op{N: "orderby"}
			for j := g.Len(1, 3); j > 0; j-- {
				x := plan.Order{S: g.fill(orderExprs), Dir: Pick(g, []string{"", "ASC", "DESC"}), F: g.N(5)}
				o.Orders = append(o.Orders, x)
			}
			os = append(os, o)
		}
		add(os...)
	}
	fetch := false
	if !nested && g.OneIn(p) || nested && g.OneIn(20) {
		s := g.fill(suffixes)
		fetch = strings.HasPrefix(string(s), "FETCH")
		add(plan.Op{N: "suffix", S: s, F: g.N(2)})
	}
	if !fetch && g.OneIn(p) {
		v, f := g.num(1)
		add(plan.Op{N: "limit", Num: v, F: f})
	}
	if g.OneIn(p) {
		v, f := g.num(0)
		add(plan.Op{N: "offset", Num: v, F: f})
	}
	if !nested && g.OneIn(p*2) {
		add(plan.Op{N: "prefix", S: g.fill(prefixes), F: g.N(2)})
	}
	add(g.comment(nested)...)
	return &plan.Stmt{Kind: "select", Ops: append([]plan.Op{first}, g.merge(groups)...)}
}

// merge keeps the order within each group; half of the time the groups are
// interleaved at random.
func (g *G) merge(groups [][]plan.Op) []plan.Op {
	var out []plan.Op
	if !g.Coin() {
		for _, x := range groups {
			out = append(out, x...)
		}
		return out
	}
	return g.Shuffle(groups)
}

// Shuffle interleaves the groups at random.
func (g *G) Shuffle(groups [][]plan.Op) []plan.Op {
	var out []plan.Op
	gs := append([][]plan.Op{}, groups...)
	for len(gs) > 0 {
		i := g.N(len(gs))
		out = append(out, gs[i][0])
		if gs[i] = gs[i][1:]; len(gs[i]) == 0 {
			gs = append(gs[:i:i], gs[i+1:]...)
		}
	}
	return out
}

// SetValue draws a value for SET and VALUES positions.
func (g *G) SetValue() *plan.Expr {
	if !g.Cfg.NoRaw && g.OneIn(8) {
		return &plan.Expr{K: "raw", S: g.fill(rawValue)}
	}
	return g.Arg()
}

// Pairs draws column/value pairs and how they are passed.
func (g *G) Pairs(lo, hi int, dup bool) ([]plan.Pair, int) {
	ids, _ := g.Idents(lo, hi)
	f := g.Weighted(4, 2, 2, 1, 1, 1)
	var out []plan.Pair
	for i := range ids {
		id := ids[i]
		if !clean(id.Name()) {
			if f == 2 || f == 5 {
				f = 1
			}
			id.F = 1
		}
		out = append(out, plan.Pair{Id: id, E: g.SetValue()})
	}
	if dup && f == 0 && g.OneIn(4) {
		for i := g.In(1, 2); i > 0; i-- {
			p := plan.Pair{Id: out[g.N(len(out))].Id, E: g.SetValue()}
			out = append(out, p)
		}
	}
	return out, f
}

// Rows draws VALUES rows, all of one width, and how they are passed.
func (g *G) Rows(width int) ([][]*plan.Expr, int) {
	f := g.N(7)
	nrows := 1
	if f >= 3 && f <= 5 {
		nrows = g.Len(1, 4)
		if nrows*width > 2000 {
			nrows = 2000/width + 1
		}
	}
	var rows [][]*plan.Expr
	kind := ""
	switch f {
	case 2:
		kind = Pick(g, plan.Elem)
	case 4:
		kind = Pick(g, []string{"string", "int", "int64", "bool"})
	}
	ragged := nrows > 1 && g.OneIn(6)
	full := width
	for i := 0; i < nrows; i++ {
		var row []*plan.Expr
		if ragged { // the database rejects it, but the text says what was built
			width = g.In(1, full+1)
		}
		for j := 0; j < width; j++ {
			if kind != "" {
				row = append(row, valE(g.ValOf(kind)))
				continue
			}
			e := g.SetValue()
			if nrows*width > 40 {
				e = valE(g.Val())
			}
			if (f == 5 || f == 6) && e.K == "enc" {
				e = e.X[0]
			}
			if f == 0 && width == 1 && (e.K == "val" && e.V.Slice()) {
				e = valE(g.ValOf("string"))
			}
			row = append(row, e)
		}
		rows = append(rows, row)
	}
	return rows, f
}

// Insert draws an INSERT.
func (g *G) Insert() *plan.Stmt {
	t := g.Table(false)
	t.Only = false
	var groups [][]plan.Op
	switch g.Weighted(6, 4, 1) {
	case 0:
		p, f := g.Pairs(1, 4, true)
		groups = append(groups, []plan.Op{{N: "set", Pairs: p, F: f}})
	case 1:
		ids, f := g.Columns(1, 4)
		groups = append(groups, []plan.Op{{N: "columns", Ids: ids, F: f}})
		rows, f := g.Rows(len(ids))
		groups = append(groups, []plan.Op{{N: "values", Rows: rows, F: f}})
	default:
		rows, f := g.Rows(g.In(1, 4))
		groups = append(groups, []plan.Op{{N: "values", Rows: rows, F: f}})
	}
	if g.OneIn(2) {
		groups = append(groups, []plan.Op{g.Conflict()})
	}
	groups = append(groups, g.returning()...)
	if c := g.comment(false); c != nil {
		groups = append(groups, c)
	}
	return &plan.Stmt{Kind: "insert", Ops: append([]plan.Op{{N: "insert", Tables: []plan.Table{t}}}, g.merge(groups)...)}
}

// Conflict draws an ON CONFLICT clause.
func (g *G) Conflict() plan.Op {
	o := plan.Op{N: "onconflict"}
	if g.Coin() {
		o.Nothing = true
		if g.Coin() {
			o.Ids, _ = g.Columns(1, 2)
		}
		return o
	}
	o.Ids, _ = g.Columns(1, 3)
	o.Pairs, o.F = g.Pairs(1, 4, true)
	return o
}

func (g *G) returning() [][]plan.Op {
	if !g.OneIn(3) {
		return nil
	}
	ts, f := g.Targets(1, 3)
	if g.OneIn(10) {
		star := plan.Target{K: "col", Id: &plan.Ident{P: []plan.Str{"*"}}}
		if g.Coin() {
			ts, f = []plan.Target{star}, 0
		} else {
			at := g.N(len(ts) + 1)
			ts = append(ts[:at:at], append([]plan.Target{star}, ts[at:]...)...)
			if f == 1 || f == 2 || f == 3 {
				f = 0
			}
		}
	}
	return [][]plan.Op{{{N: "returning", Targets: ts, F: f}}}
}

// Update draws an UPDATE.
func (g *G) Update() *plan.Stmt {
	t := g.Table(false)
	var groups [][]plan.Op
	if g.N(4) < 3 {
		var ops []plan.Op
		for i := g.In(1, 3); i > 0; i-- {
			p, f := g.Pairs(1, 3, true)
			ops = append(ops, plan.Op{N: "set", Pairs: p, F: f})
		}
		if g.OneIn(6) && len(ops) > 1 { // overwrite an earlier column
			ops[len(ops)-1] = plan.Op{N: "set", Pairs: []plan.Pair{{Id: ops[0].Pairs[0].Id, E: g.SetValue()}}}
		}
		groups = append(groups, ops)
	} else {
		ids, f := g.Columns(1, 4)
		if f > 1 {
			f = 0
		}
		for i := range ids {
			if !clean(ids[i].Name()) {
				f = 0
			}
		}
		var ops []plan.Op
		if len(ids) > 1 && g.Coin() {
			k := g.In(1, len(ids)-1)
			ops = append(ops, plan.Op{N: "setcols", Ids: ids[:k], F: f}, plan.Op{N: "setcols", Ids: ids[k:], F: f})
		} else {
			ops = append(ops, plan.Op{N: "setcols", Ids: ids, F: f})
		}
		if g.canSub() && g.Coin() {
			ops = append(ops, plan.Op{N: "using", Es: []*plan.Expr{{K: "sub", Q: g.sub(), F: g.N(3)}}})
		} else {
			var es []*plan.Expr
			for range ids {
				es = append(es, g.SetValue())
			}
			if len(es) == 1 && es[0].K == "sub" {
				es[0] = valE(g.Val())
			}
			if len(es) > 1 && g.OneIn(3) {
				k := g.In(1, len(es)-1)
				ops = append(ops, plan.Op{N: "using", Es: es[:k]}, plan.Op{N: "using", Es: es[k:]})
			} else {
				ops = append(ops, plan.Op{N: "using", Es: es})
			}
		}
		groups = append(groups, ops)
	}
	if g.OneIn(5) {
		groups = append(groups, []plan.Op{{N: "only"}})
	}
	if g.OneIn(4) {
		groups = append(groups, []plan.Op{{N: "from", Tables: []plan.Table{g.Table(true)}}})
	}
	if g.canSub() && g.OneIn(6) {
		groups = append(groups, g.ctes())
	}
	if w := g.Where(0); w != nil {
		groups = append(groups, w)
	}
	groups = append(groups, g.returning()...)
	if c := g.comment(false); c != nil {
		groups = append(groups, c)
	}
	return &plan.Stmt{Kind: "update", Ops: append([]plan.Op{{N: "update", Tables: []plan.Table{t}}}, g.merge(groups)...)}
}

// Delete draws a DELETE.
func (g *G) Delete() *plan.Stmt {
	t := g.Table(false)
	var groups [][]plan.Op
	if g.OneIn(3) {
		o := plan.Op{N: "using"}
		for i := g.Len(1, 3); i > 0; i-- {
			o.Tables = append(o.Tables, g.Table(false))
		}
		groups = append(groups, []plan.Op{o})
	}
	if w := g.Where(0); w != nil {
		groups = append(groups, w)
	}
	groups = append(groups, g.returning()...)
	if c := g.comment(false); c != nil {
		groups = append(groups, c)
	}
	return &plan.Stmt{Kind: "delete", Ops: append([]plan.Op{{N: "delete", Tables: []plan.Table{t}}}, g.merge(groups)...)}
}

// Any draws a statement of any kind.
func (g *G) Any() *plan.Stmt {
	switch g.Weighted(4, 2, 2, 2) {
	case 1:
		return g.Insert()
	case 2:
		return g.Update()
	case 3:
		return g.Delete()
	}
	return g.Select(false)
}

// BigIn draws a SELECT with one long IN list between other conditions.
func (g *G) BigIn(n int) *plan.Stmt {
	e := &plan.Expr{K: "in", Op: Pick(g, []string{"in", "notin"}), X: []*plan.Expr{g.lhsIdent()}}
	e.F = g.N(3)
	kind := Pick(g, plan.Elem)
	for i := 0; i < n; i++ {
		v := plan.Val{K: "int64", I: int64(i)}
		if i%7 == 0 || e.F == 2 {
			v = g.ValOf(kind)
		}
		e.X = append(e.X, valE(v))
	}
	t := g.Table(false)
	ops := []plan.Op{{N: "select", Targets: []plan.Target{g.Target()}}, {N: "from", Tables: []plan.Table{t}}}
	if g.Coin() {
		ops = append(ops, plan.Op{N: "where", E: g.Cond()}, plan.Op{N: Pick(g, []string{"and", "or"}), E: e})
	} else {
		ops = append(ops, plan.Op{N: "where", E: e}, plan.Op{N: Pick(g, []string{"and", "or"}), E: g.Cond()})
	}
	return &plan.Stmt{Kind: "select", Ops: ops}
}

// BigValues draws an INSERT with many values.
func (g *G) BigValues(n int) *plan.Stmt {
	width := g.In(1, 12)
	ids, f := g.Idents(width, width)
	width = len(ids)
	o := plan.Op{N: "values", F: Pick(g, []int{3, 4, 5})}
	kind := Pick(g, []string{"string", "int", "int64", "bool"})
	for i := 0; i < n/width+1; i++ {
		var row []*plan.Expr
		for j := 0; j < width; j++ {
			if o.F == 4 {
				row = append(row, valE(g.ValOf(kind)))
				continue
			}
			row = append(row, valE(plan.Val{K: "int64", I: int64(i*width + j)}))
		}
		o.Rows = append(o.Rows, row)
	}
	t := g.Table(false)
	t.Only = false
	ops := []plan.Op{{N: "insert", Tables: []plan.Table{t}}, {N: "columns", Ids: ids, F: f}, o}
	if g.Coin() {
		ops = append(ops, g.Conflict())
	}
	return &plan.Stmt{Kind: "insert", Ops: ops}
}
