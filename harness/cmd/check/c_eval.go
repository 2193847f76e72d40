package main

import (
	"database/sql/driver"
	"fmt"
	"strings"

	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/types"

	"verif/harness/gen"
	"verif/harness/pg"
	"verif/harness/plan"
)

// C25: a condition selects the rows the program means. Conditions over a small
// table are evaluated twice on generated rows: once as the program built them,
// once as the rendered SQL reads, both in SQL's three-valued logic.

// truth is a truth value; unknown is NULL.
type truth int8

const (
	no truth = iota
	unknown
	yes
)

func (t truth) String() string { return [...]string{"false", "unknown", "true"}[t] }

func (t truth) not() truth { return yes - t }

func (t truth) and(u truth) truth { return min(t, u) }

func (t truth) or(u truth) truth { return max(t, u) }

func truthOf(b bool) truth {
	if b {
		return yes
	}
	return no
}

// A row gives each column its value: nil, an int64, a string or []int64.
type row map[string]interface{}

var evalInts = []string{"i0", "i1", "i2"}
var evalTexts = []string{"s0", "s1"}
var evalSets = []string{"r0", "r1"}

// RowJSON is a row of a case.
type RowJSON struct {
	I []*int64  `json:"i"`
	S []*string `json:"s"`
	R [][]int64 `json:"r"` // nil is NULL
}

func (j RowJSON) row() row {
	r := row{}
	for k, v := range j.I {
		r[evalInts[k]] = nil
		if v != nil {
			r[evalInts[k]] = *v
		}
	}
	for k, v := range j.S {
		r[evalTexts[k]] = nil
		if v != nil {
			r[evalTexts[k]] = *v
		}
	}
	for k, v := range j.R {
		r[evalSets[k]] = nil
		if v != nil {
			r[evalSets[k]] = v
		}
	}
	return r
}

type evalCase struct {
	S      *plan.Stmt `json:"s"`
	Clause string     `json:"clause,omitempty"` // the chain as a "where" or "having" object
	Rows   []RowJSON  `json:"rows"`
}

// --- the meaning of operators, shared by both sides ---

func order(a, b interface{}) (int, bool) {
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if !ok {
			fatal("eval: %T against %T", a, b)
		}
		switch {
		case x < y:
			return -1, true
		case x > y:
			return 1, true
		}
		return 0, true
	case string:
		y, ok := b.(string)
		if !ok {
			fatal("eval: %T against %T", a, b)
		}
		return strings.Compare(x, y), true
	case []int64:
		y, ok := b.([]int64)
		if !ok {
			fatal("eval: %T against %T", a, b)
		}
		for i := range x {
			if i >= len(y) || x[i] > y[i] {
				return 1, true
			}
			if x[i] < y[i] {
				return -1, true
			}
		}
		return -truthInt(len(y) > len(x)), true
	}
	fatal("eval: a value of type %T", a)
	return 0, false
}

func truthInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func compareValues(op string, a, b interface{}) truth {
	if a == nil || b == nil {
		return unknown
	}
	switch op {
	case "@>":
		return truthOf(holds(a.([]int64), b.([]int64)))
	case "<@":
		return truthOf(holds(b.([]int64), a.([]int64)))
	case "&&":
		for _, x := range a.([]int64) {
			if holds(b.([]int64), []int64{x}) {
				return yes
			}
		}
		return no
	}
	c, _ := order(a, b)
	switch op {
	case "=":
		return truthOf(c == 0)
	case "<>":
		return truthOf(c != 0)
	case "<":
		return truthOf(c < 0)
	case "<=":
		return truthOf(c <= 0)
	case ">":
		return truthOf(c > 0)
	case ">=":
		return truthOf(c >= 0)
	}
	fatal("eval: operator %s", op)
	return unknown
}

func holds(a, b []int64) bool {
	for _, x := range b {
		found := false
		for _, y := range a {
			found = found || x == y
		}
		if !found {
			return false
		}
	}
	return true
}

func like(s, pattern string) bool {
	p := []rune(pattern)
	t := []rune(s)
	var match func(i, j int) bool
	match = func(i, j int) bool {
		for ; i < len(p); i++ {
			switch {
			case p[i] == '%':
				for k := j; k <= len(t); k++ {
					if match(i+1, k) {
						return true
					}
				}
				return false
			case j >= len(t) || p[i] != '_' && p[i] != t[j]:
				return false
			}
			j++
		}
		return j == len(t)
	}
	return match(0, 0)
}

func likeValues(a, b interface{}, fold bool) truth {
	if a == nil || b == nil {
		return unknown
	}
	x, y := a.(string), b.(string)
	if fold {
		x, y = strings.ToLower(x), strings.ToLower(y)
	}
	return truthOf(like(x, y))
}

func distinctValues(a, b interface{}) truth {
	if a == nil || b == nil {
		return truthOf((a == nil) != (b == nil))
	}
	c, _ := order(a, b)
	return truthOf(c != 0)
}

func inValues(x interface{}, list []interface{}) truth {
	t := no
	for _, v := range list {
		t = t.or(compareValues("=", x, v))
	}
	return t
}

// --- the program's side ---

type progEval struct{ rows []row }

func (p progEval) value(e *plan.Expr, r row) interface{} {
	switch e.K {
	case "ident":
		v, ok := r[string(e.Id.P[len(e.Id.P)-1])]
		if !ok {
			fatal("eval: column %s", e.Id.Name())
		}
		return v
	case "val", "value":
		return valueOf(*e.V)
	case "enc":
		return p.value(e.X[0], r)
	case "call":
		var args []interface{}
		for _, a := range e.X {
			args = append(args, p.value(a, r))
		}
		if v, ok := function(string(e.S), args); ok {
			return v
		}
	}
	fatal("eval: value %s", e.K)
	return nil
}

// valueOf is a literal's value.
func valueOf(v plan.Val) interface{} {
	switch v.K {
	case "nil":
		return nil
	case "int", "int64", "int32", "intenc", "vint":
		return v.I
	case "string", "strenc", "vstr", "pvaluer":
		return string(v.S)
	case "int64s":
		out := []int64{}
		for _, x := range v.L {
			out = append(out, x.I)
		}
		return out
	}
	fatal("eval: value of kind %s", v.K)
	return nil
}

func (p progEval) rowsOf(q *plan.Stmt) []row {
	var out []row
	for _, r := range p.rows {
		if p.statement(q, r) == yes {
			out = append(out, r)
		}
	}
	return out
}

func (p progEval) cond(e *plan.Expr, r row) truth {
	switch e.K {
	case "cmp":
		a, b := p.value(e.X[0], r), p.value(e.X[1], r)
		switch e.Op {
		case "like", "ilike":
			return likeValues(a, b, e.Op == "ilike")
		case "notlike", "notilike":
			return likeValues(a, b, e.Op == "notilike").not()
		case "isdistinct":
			return distinctValues(a, b)
		case "isnotdistinct":
			return distinctValues(a, b).not()
		case "is":
			return truthOf(a == nil)
		case "isnot":
			return truthOf(a != nil)
		}
		return compareValues(e.Op, a, b)
	case "null":
		return truthOf((p.value(e.X[0], r) == nil) == (e.Op == "null"))
	case "in":
		x := p.value(e.X[0], r)
		var list []interface{}
		if len(e.X) == 2 && e.X[1].K == "sub" {
			q := e.X[1].Q
			for _, s := range p.rowsOf(q) {
				list = append(list, s[string(q.Ops[0].Targets[0].Id.P[0])])
			}
		} else {
			for _, v := range e.X[1:] {
				list = append(list, p.value(v, r))
			}
		}
		if t := inValues(x, list); e.Op == "in" {
			return t
		} else {
			return t.not()
		}
	case "between":
		x := p.value(e.X[0], r)
		t := compareValues(">=", x, p.value(e.X[1], r)).and(compareValues("<=", x, p.value(e.X[2], r)))
		if e.Op == "notbetween" {
			return t.not()
		}
		return t
	case "exists":
		return truthOf(len(p.rowsOf(e.Q)) > 0)
	case "notexists":
		return truthOf(len(p.rowsOf(e.Q)) == 0)
	case "and":
		return p.cond(e.X[0], r).and(p.cond(e.X[1], r))
	case "or":
		return p.cond(e.X[0], r).or(p.cond(e.X[1], r))
	}
	fatal("eval: condition %s", e.K)
	return unknown
}

// statement is the truth of the statement's chain of conditions.
func (p progEval) statement(s *plan.Stmt, r row) truth {
	t := yes
	first := true
	for _, o := range s.Ops {
		switch o.N {
		case "where", "and", "having":
			c := p.cond(o.E, r)
			if first {
				t = c
			} else {
				t = t.and(c)
			}
			first = false
		case "or":
			t = t.or(p.cond(o.E, r))
		}
	}
	return t
}

// --- the SQL's side ---

type sqlEval struct {
	rows []row
	arg  func(string) (interface{}, bool)
}

func (s sqlEval) bad(n *pg.N) {
	panic(fmt.Sprintf("cannot evaluate %s", n))
}

func (s sqlEval) value(n *pg.N, r row) interface{} {
	switch n.T {
	case "col":
		v, ok := r[n.K[len(n.K)-1].S]
		if !ok {
			s.bad(n)
		}
		return v
	case "null":
		return nil
	case "num":
		var i int64
		if _, err := fmt.Sscan(n.S, &i); err != nil || fmt.Sprint(i) != n.S {
			s.bad(n)
		}
		return i
	case "unary":
		i, ok := s.value(n.K[0], r).(int64)
		if !ok || n.S != "-" {
			s.bad(n)
		}
		return -i
	case "str":
		return n.S
	case "call":
		var args []interface{}
		for _, k := range n.K[1:] {
			args = append(args, s.value(k, r))
		}
		v, ok := function(n.K[0].K[0].S, args)
		if !ok {
			s.bad(n)
		}
		return v
	case "param":
		v, ok := s.arg(n.S)
		if !ok {
			s.bad(n)
		}
		switch x := v.(type) {
		case int64, string, []int64:
			return x
		case nil:
			return nil
		case int:
			return int64(x)
		case int32:
			return int64(x)
		case driver.Valuer:
			y, err := x.Value()
			if err != nil {
				s.bad(n)
			}
			return y
		}
	}
	s.bad(n)
	return nil
}

func (s sqlEval) selected(q *pg.N) []row {
	if q.T != "select" {
		s.bad(q)
	}
	var out []row
	for _, r := range s.rows {
		t := yes
		for _, k := range q.K {
			if k.T == "where" || k.T == "having" {
				t = t.and(s.cond(k.K[0], r))
			}
		}
		if t == yes {
			out = append(out, r)
		}
	}
	return out
}

func (s sqlEval) cond(n *pg.N, r row) truth {
	neg := func(t truth, is bool) truth {
		if is {
			return t.not()
		}
		return t
	}
	switch n.T {
	case "and":
		return s.cond(n.K[0], r).and(s.cond(n.K[1], r))
	case "or":
		return s.cond(n.K[0], r).or(s.cond(n.K[1], r))
	case "not":
		return s.cond(n.K[0], r).not()
	case "op":
		return compareValues(n.S, s.value(n.K[0], r), s.value(n.K[1], r))
	case "like", "ilike", "notlike", "notilike":
		return neg(likeValues(s.value(n.K[0], r), s.value(n.K[1], r), strings.HasSuffix(n.T, "ilike")), n.T[0] == 'n')
	case "isdistinct", "isnotdistinct":
		return neg(distinctValues(s.value(n.K[0], r), s.value(n.K[1], r)), n.T == "isnotdistinct")
	case "is", "isnot":
		if n.K[1].T != "null" {
			s.bad(n)
		}
		return truthOf((s.value(n.K[0], r) == nil) == (n.T == "is"))
	case "between", "notbetween":
		x := s.value(n.K[0], r)
		return neg(compareValues(">=", x, s.value(n.K[1], r)).and(compareValues("<=", x, s.value(n.K[2], r))), n.T[0] == 'n')
	case "in", "notin":
		x := s.value(n.K[0], r)
		var list []interface{}
		for _, k := range n.K[1:] {
			list = append(list, s.value(k, r))
		}
		return neg(inValues(x, list), n.T[0] == 'n')
	case "insub", "notinsub":
		x := s.value(n.K[0], r)
		q := n.K[1]
		var list []interface{}
		for _, i := range s.selected(q) {
			list = append(list, s.value(q.K[0].K[0].K[0], i))
		}
		return neg(inValues(x, list), n.T[0] == 'n')
	case "exists":
		return truthOf(len(s.selected(n.K[0])) > 0)
	}
	s.bad(n)
	return unknown
}

func (s sqlEval) statement(n *pg.N, r row) truth {
	t := yes
	for _, k := range n.K {
		if k.T == "where" || k.T == "having" {
			t = t.and(s.cond(k.K[0], r))
		}
	}
	return t
}

// --- the check ---

func checkEval(c *evalCase, r *Rec) string {
	var b builder.Builder
	var o Out
	var p *Panic
	if c.Clause != "" {
		p = guard(func() { o = c.clause() })
		r.Label("clause object " + c.Clause)
	} else {
		if p := guard(func() { b = c.S.Build().Builder() }); p != nil {
			return "a legitimate statement is rejected: " + p.String()
		}
		o, p = render(b)
	}
	if p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	r.Detail["sql"] = o.Q
	r.Label("kind " + c.S.Kind)
	var rows []row
	for _, j := range c.Rows {
		rows = append(rows, j.row())
	}
	prog := progEval{rows}
	want := make([]truth, len(rows))
	seen := map[truth]bool{}
	for i, x := range rows {
		want[i] = prog.statement(c.S, x)
		seen[want[i]] = true
		r.Count("rows evaluated", 1)
		r.Count("rows "+want[i].String(), 1)
	}
	conds, sets := 0, false
	c.S.EachExpr(func(e *plan.Expr) {
		switch e.K {
		case "cmp":
			r.Label("operator " + e.Op)
			conds++
		case "null", "in", "between", "exists", "notexists":
			r.Label("operator " + e.K + " " + e.Op)
			conds++
		case "val", "value":
			sets = sets || e.V.K == "int64s"
		}
	})
	r.NonTrivial = conds >= 1 && len(seen) >= 2
	r.LabelIf(conds >= 4, "four conditions or more")
	r.LabelIf(len(seen) == 3, "true, false and unknown rows")

	texts := []struct {
		name string
		q    string
		mode pg.Mode
		arg  func(string) (interface{}, bool)
	}{
		{"positional", o.Q, pg.Mode{}, func(s string) (interface{}, bool) {
			var i int
			if _, err := fmt.Sscanf(strings.TrimPrefix(s, "$"), "%d", &i); err != nil || i < 1 || i > len(o.Args) {
				return nil, false
			}
			return o.Args[i-1], true
		}},
		{"named", o.NQ, pg.Mode{Named: true}, func(s string) (interface{}, bool) {
			v, ok := o.NArgs[strings.TrimPrefix(s, ":")]
			return v, ok
		}},
	}
	if !sets {
		texts = append(texts, struct {
			name string
			q    string
			mode pg.Mode
			arg  func(string) (interface{}, bool)
		}{"inlined", o.Raw, pg.Mode{Backslash: true}, func(string) (interface{}, bool) { return nil, false }})
	}
	for _, t := range texts {
		parsed, err := pg.ParseStatement(t.q, t.mode)
		if err != nil {
			return fmt.Sprintf("the %s rendering is no statement: %v\n  sql: %s", t.name, err, t.q)
		}
		got, msg := evalSQL(parsed.Tree, sqlEval{rows, t.arg}, rows)
		if msg != "" {
			return fmt.Sprintf("the %s rendering %s\n  sql: %s", t.name, msg, t.q)
		}
		for i := range rows {
			if got[i] != want[i] {
				return fmt.Sprintf("the condition is %s for row %d %s, but the program's is %s (%s rendering)\n  sql: %s", got[i], i, plan.JSON(rows[i]), want[i], t.name, t.q)
			}
		}
	}
	return ""
}

// clause renders the statement with its chain of conditions as a clause object.
func (c *evalCase) clause() Out {
	var ops []plan.Op
	for _, o := range c.S.Ops {
		if o.E != nil {
			ops = append(ops, o)
		}
	}
	write := func(ctx types.Context) {
		ctx.Write(`SELECT "i0" FROM "t" `)
		writeClause(ctx, c.Clause == "having", ops)
	}
	std, nam, raw := &types.StdContext{}, &types.NamedContext{}, &types.RawContext{}
	write(std)
	write(nam)
	write(raw)
	return Out{Q: std.Query(), Args: std.Values(), NQ: nam.Query(), NArgs: nam.Values(), Raw: raw.Query()}
}

func evalSQL(n *pg.N, s sqlEval, rows []row) (out []truth, msg string) {
	defer func() {
		if r := recover(); r != nil {
			// The program's side has been evaluated, so this is the text's fault.
			msg = fmt.Sprintf("has no meaning on these rows: %v", r)
		}
	}()
	for _, r := range rows {
		out = append(out, s.statement(n, r))
	}
	return out, ""
}

// --- generation ---

type evalGen struct {
	g *gen.G
}

func (x evalGen) num() int64 { return int64(x.g.In(-2, 4)) }

var evalWords = []string{"", "a", "b", "A", "ab", "aB", "ba", "é", "a%", "_", "a'b", `a\b`, "abc"}
var evalPatterns = []string{"", "%", "_", "a%", "%b", "A_", "%a%", "a'%", "__", "ab", "É"}

func (x evalGen) ident(name string) *plan.Expr {
	id := plan.Ident{P: []plan.Str{plan.Str(name)}, F: x.g.N(2)}
	return &plan.Expr{K: "ident", Id: &id}
}

func (x evalGen) intArg() *plan.Expr {
	if x.g.OneIn(4) {
		return x.ident(gen.Pick(x.g, evalInts))
	}
	if x.g.OneIn(12) {
		return &plan.Expr{K: "val", V: &plan.Val{K: "nil"}}
	}
	return &plan.Expr{K: "val", V: &plan.Val{K: gen.Pick(x.g, []string{"int", "int64", "int32", "intenc", "vint"}), I: x.num()}}
}

func (x evalGen) textArg(words []string) *plan.Expr {
	if x.g.OneIn(5) {
		return x.ident(gen.Pick(x.g, evalTexts))
	}
	if x.g.OneIn(12) {
		return &plan.Expr{K: "val", V: &plan.Val{K: "nil"}}
	}
	return &plan.Expr{K: "val", V: &plan.Val{K: gen.Pick(x.g, []string{"string", "string", "strenc", "vstr"}), S: plan.Str(gen.Pick(x.g, words))}}
}

func (x evalGen) setArg() *plan.Expr {
	if x.g.OneIn(5) {
		return x.ident(gen.Pick(x.g, evalSets))
	}
	v := plan.Val{K: "int64s"}
	for i := x.g.N(4); i > 0; i-- {
		v.L = append(v.L, plan.Val{K: "int64", I: x.num()})
	}
	return &plan.Expr{K: "val", V: &v}
}

// call compares what a function gives: abs, lower or coalesce.
func (x evalGen) call(text bool, arg func() *plan.Expr) *plan.Expr {
	g := x.g
	name, cols := gen.Pick(g, []string{"abs", "coalesce"}), evalInts
	if text {
		name, cols = gen.Pick(g, []string{"lower", "coalesce"}), evalTexts
	}
	l := &plan.Expr{K: "call", S: plan.Str(name), X: []*plan.Expr{x.ident(gen.Pick(g, cols))}}
	if name == "coalesce" {
		for i := g.In(1, 2); i > 0; i-- {
			a := arg()
			if a.K == "val" {
				a.K = "value"
				if !isPlain(*a.V) {
					a = x.ident(gen.Pick(g, cols))
				}
			}
			l.X = append(l.X, a)
		}
	}
	if g.OneIn(4) {
		e := &plan.Expr{K: "in", Op: "in", X: []*plan.Expr{l}}
		for i := g.In(2, 3); i > 0; i-- {
			e.X = append(e.X, arg())
		}
		return e
	}
	ops := []string{"=", "<", ">"}
	if text {
		ops = append(ops, "like", "ilike")
	}
	return &plan.Expr{K: "cmp", Op: gen.Pick(g, ops), X: []*plan.Expr{l, arg()}}
}

// isPlain tells that the value is given as it is, not encoded.
func isPlain(v plan.Val) bool {
	switch v.K {
	case "nil", "int", "int32", "int64", "string":
		return true
	}
	return false
}

// function is the value of a function call.
func function(name string, args []interface{}) (interface{}, bool) {
	switch {
	case name == "abs" && len(args) == 1:
		if i, ok := args[0].(int64); ok {
			return max(i, -i), true
		}
		return nil, args[0] == nil
	case name == "lower" && len(args) == 1:
		if s, ok := args[0].(string); ok {
			return strings.ToLower(s), true
		}
		return nil, args[0] == nil
	case name == "coalesce":
		for _, a := range args {
			if a != nil {
				return a, true
			}
		}
		return nil, true
	}
	return nil, false
}

func (x evalGen) atom(depth int) *plan.Expr {
	g := x.g
	var col string
	var arg func() *plan.Expr
	text := g.OneIn(4)
	if text {
		col, arg = gen.Pick(g, evalTexts), func() *plan.Expr { return x.textArg(evalWords) }
	} else {
		col, arg = gen.Pick(g, evalInts), x.intArg
	}
	l := x.ident(col)
	switch {
	case g.OneIn(8): // a value on the left
		for l = arg(); l.K != "val" || !isPlain(*l.V); l = arg() {
		}
		l.K = "value"
		if g.OneIn(5) {
			l.V = &plan.Val{K: "nil"}
		}
		r := arg()
		if r.K == "val" && isPlain(*r.V) && g.OneIn(3) {
			r.K = "value"
		}
		return &plan.Expr{K: "cmp", Op: gen.Pick(g, []string{"=", "<>"}), X: []*plan.Expr{l, r}}
	case g.OneIn(8): // a function call on the left
		return x.call(text, arg)
	}
	sub := 0
	if depth > 0 {
		sub = 2
	}
	switch g.Weighted(8, 3, 3, 3, 2, 2, sub, sub) {
	case 0:
		return &plan.Expr{K: "cmp", Op: gen.Pick(g, []string{"=", "<>", "<", "<=", ">", ">=", "isdistinct", "isnotdistinct"}), X: []*plan.Expr{l, arg()}}
	case 1:
		return &plan.Expr{K: "between", Op: gen.Pick(g, []string{"between", "notbetween"}), X: []*plan.Expr{l, arg(), arg()}}
	case 2:
		e := &plan.Expr{K: "in", Op: gen.Pick(g, []string{"in", "notin"}), X: []*plan.Expr{l}, F: g.N(2)}
		for i := g.Weighted(0, 2, 3, 3, 2); i > 0; i-- {
			e.X = append(e.X, arg())
		}
		if len(e.X) == 2 && (e.X[1].K == "val" && e.X[1].V.K == "nil") {
			e.F = 1
		}
		return e
	case 3:
		if g.Coin() {
			return &plan.Expr{K: "null", Op: gen.Pick(g, []string{"null", "notnull"}), F: g.N(2), X: []*plan.Expr{l}}
		}
		return &plan.Expr{K: "cmp", Op: gen.Pick(g, []string{"is", "isnot"}), X: []*plan.Expr{l, {K: "val", V: &plan.Val{K: "nil"}}}}
	case 4:
		return &plan.Expr{K: "cmp", Op: gen.Pick(g, []string{"like", "notlike", "ilike", "notilike"}), X: []*plan.Expr{x.ident(gen.Pick(g, evalTexts)), x.textArg(evalPatterns)}}
	case 5:
		l := x.ident(gen.Pick(g, evalSets))
		if g.OneIn(3) {
			for l = x.setArg(); l.K != "val"; l = x.setArg() {
			}
			l.K = "value"
		}
		return &plan.Expr{K: "cmp", Op: gen.Pick(g, []string{"@>", "<@", "&&"}), X: []*plan.Expr{l, x.setArg()}}
	case 6:
		return &plan.Expr{K: "in", Op: gen.Pick(g, []string{"in", "notin"}), X: []*plan.Expr{l, {K: "sub", F: g.N(3), Q: x.query(col, text, depth-1)}}}
	default:
		return &plan.Expr{K: gen.Pick(g, []string{"exists", "notexists"}), F: g.N(3), Q: x.query(col, text, depth-1)}
	}
}

// query selects a column of the table, of the kind of col.
func (x evalGen) query(col string, text bool, depth int) *plan.Stmt {
	pool := evalInts
	if text {
		pool = evalTexts
	}
	id := x.ident(gen.Pick(x.g, pool)).Id
	id.F = 0
	s := &plan.Stmt{Kind: "select", Ops: []plan.Op{
		{N: "select", Targets: []plan.Target{{K: "col", Id: id}}},
		{N: "from", Tables: []plan.Table{x.table()}},
	}}
	if x.g.N(4) > 0 {
		s.Ops = append(s.Ops, x.chain(2, depth)...)
	}
	return s
}

func (x evalGen) table() plan.Table {
	return plan.Table{Id: &plan.Ident{P: []plan.Str{"t"}, F: x.g.N(2)}}
}

func (x evalGen) cond(depth int) *plan.Expr {
	g := x.g
	if depth <= 0 || g.N(5) < 2 {
		return x.atom(depth)
	}
	l := x.cond(depth - 1)
	r := l
	if g.OneIn(15) {
		r = l.Clone()
	} else {
		r = x.cond(depth - 1)
	}
	return &plan.Expr{K: gen.Pick(g, []string{"and", "or"}), F: g.N(2), X: []*plan.Expr{l, r}}
}

func (x evalGen) chain(most, depth int) []plan.Op {
	var ops []plan.Op
	for i := x.g.In(1, most); i > 0; i-- {
		name := "where"
		if len(ops) > 0 {
			name = gen.Pick(x.g, []string{"and", "or", "where"})
		}
		ops = append(ops, plan.Op{N: name, E: x.cond(depth)})
	}
	return ops
}

func (x evalGen) rows() []RowJSON {
	g := x.g
	var out []RowJSON
	for i := g.In(4, 10); i > 0; i-- {
		j := RowJSON{}
		for range evalInts {
			var p *int64
			if !g.OneIn(5) {
				n := x.num()
				p = &n
			}
			j.I = append(j.I, p)
		}
		for range evalTexts {
			var p *string
			if !g.OneIn(5) {
				s := gen.Pick(g, evalWords)
				p = &s
			}
			j.S = append(j.S, p)
		}
		for range evalSets {
			var s []int64
			if !g.OneIn(5) {
				s = []int64{}
				for k := g.N(3); k > 0; k-- {
					s = append(s, x.num())
				}
			}
			j.R = append(j.R, s)
		}
		out = append(out, j)
	}
	return out
}

func evaluated(g *gen.G) *evalCase {
	x := evalGen{g}
	depth := g.Cfg.Depth
	chain := x.chain(4, depth)
	t := x.table()
	var s *plan.Stmt
	switch g.Weighted(4, 1, 1, 1) {
	case 0:
		s = x.query("i0", false, 0)
		s.Ops = append(s.Ops[:2:2], chain...)
	case 1: // everything in HAVING
		s = x.query("i0", false, 0)
		s.Ops = append(s.Ops[:2:2], plan.Op{N: "having", E: x.cond(depth)})
	case 2:
		s = &plan.Stmt{Kind: "delete", Ops: append([]plan.Op{{N: "delete", Tables: []plan.Table{t}}}, chain...)}
	default:
		pair := plan.Pair{Id: plan.Ident{P: []plan.Str{"i0"}}, E: &plan.Expr{K: "val", V: &plan.Val{K: "int", I: 1}}}
		s = &plan.Stmt{Kind: "update", Ops: append([]plan.Op{{N: "update", Tables: []plan.Table{t}}, {N: "set", Pairs: []plan.Pair{pair}}}, chain...)}
	}
	c := &evalCase{S: s, Rows: x.rows()}
	if s.Kind == "select" && s.Ops[len(s.Ops)-1].N != "having" && g.OneIn(4) {
		c.Clause = gen.Pick(g, []string{"where", "having"})
	}
	return c
}

func init() {
	add("C25", "evaluated", 20000, 400000, gen.Cfg{Depth: 3},
		"conditions of every operator over integer, text and array columns, combined to depth 3 and chained, with IN and EXISTS over nested queries, in SELECT (WHERE, HAVING), UPDATE and DELETE, and in WHERE and HAVING clause objects; evaluated on 4 to 10 random rows with NULLs as the program built them and as each rendering reads; non-trivial: the rows have at least two different truth values",
		evaluated, checkEval)
}
