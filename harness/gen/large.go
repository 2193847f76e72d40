package gen

import (
	"fmt"
	"strings"

	"verif/harness/plan"
)

// Sizes around which code that works for ordinary statements stops working:
// spare capacities, digits, byte and buffer sizes.
var sizes = []int{9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 400}

// Size draws a size of at most max; a tenth of the time one beyond the usual.
func (g *G) Size(max int) int {
	n := Pick(g, sizes)
	if v, ok := g.freshInt(); ok && v >= 2 && v <= int64(max) {
		return int(v)
	}
	if g.OneIn(10) {
		n = Pick(g, []int{511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2049})
	}
	for n > max {
		n /= 2
	}
	if n < 2 {
		n = 2
	}
	return n
}

func col(f string, a ...interface{}) plan.Ident {
	return plan.Ident{P: []plan.Str{plan.Str(fmt.Sprintf(f, a...))}}
}

func (g *G) num64(i int) *plan.Expr { return valE(plan.Val{K: "int64", I: int64(i)}) }

// atom is the i-th small condition.
func (g *G) atom(i int) *plan.Expr {
	id := col("c%d", i)
	return &plan.Expr{K: "cmp", Op: "=", X: []*plan.Expr{{K: "ident", Id: &id}, g.num64(i)}}
}

// deep is a condition of n atoms: a comb to the left, to the right, or halves.
func (g *G) deep(n int) *plan.Expr {
	shape := g.N(3)
	alt := g.In(1, 4) // how often AND and OR change
	ops := []string{"and", "or"}
	if g.Coin() {
		ops = []string{"or", "and"}
	}
	op := func(i int) string { return ops[i/alt%2] }
	f := g.N(2)
	var build func(lo, hi, d int) *plan.Expr
	build = func(lo, hi, d int) *plan.Expr {
		if hi-lo == 1 {
			return g.atom(lo)
		}
		cut := lo + (hi-lo)/2
		switch shape {
		case 0:
			cut = hi - 1
		case 1:
			cut = lo + 1
		}
		return &plan.Expr{K: op(d), F: f, X: []*plan.Expr{build(lo, cut, d+1), build(cut, hi, d+1)}}
	}
	return build(0, n, 0)
}

func (g *G) deepOn(n int) *plan.On {
	left := g.Coin()
	alt := g.In(1, 4)
	var on *plan.On
	for i := 0; i < n; i++ {
		l, r := plan.Ident{P: []plan.Str{"t", plan.Str(fmt.Sprint("l", i))}}, plan.Ident{P: []plan.Str{"u", plan.Str(fmt.Sprint("r", i))}}
		a := &plan.On{K: "on", L: &l, R: &r}
		if on == nil {
			on = a
			continue
		}
		k := []string{"and", "or"}[i/alt%2]
		if left {
			on = &plan.On{K: k, F: i % 2, X: []*plan.On{on, a}}
		} else {
			on = &plan.On{K: k, F: i % 2, X: []*plan.On{a, on}}
		}
	}
	return on
}

// nest is a SELECT with n levels of subqueries below it.
func (g *G) nest(n int) *plan.Stmt {
	how := g.N(6)
	form := g.N(3)
	var q *plan.Stmt
	for i := 0; i <= n; i++ {
		c := col("c%d", i)
		s := &plan.Stmt{Kind: "select", Ops: []plan.Op{
			{N: "select", Targets: []plan.Target{{K: "col", Id: &c}}},
			{N: "from", Tables: []plan.Table{{Id: &plan.Ident{P: []plan.Str{plan.Str(fmt.Sprint("t", i))}}}}},
		}}
		if q != nil {
			id := &plan.Expr{K: "ident", Id: &c}
			k := how
			if how == 5 {
				k = i % 5
			}
			switch k {
			case 0:
				s.Ops = append(s.Ops, plan.Op{N: "where", E: &plan.Expr{K: "in", Op: "in", X: []*plan.Expr{id, {K: "sub", Q: q, F: form}}}})
			case 1:
				s.Ops = append(s.Ops, plan.Op{N: "where", E: &plan.Expr{K: "exists", Q: q, F: form}})
			case 2:
				s.Ops = append(s.Ops, plan.Op{N: "where", E: &plan.Expr{K: "cmp", Op: ">", X: []*plan.Expr{id, {K: "sub", Q: q, F: form}}}})
			case 3:
				s.Ops = append(s.Ops, plan.Op{N: "with", CTEs: []plan.CTE{{Name: plan.Str(fmt.Sprint("w", i)), Q: q, F: form}}})
			case 4:
				s.Ops = append(s.Ops, plan.Op{N: "having", E: &plan.Expr{K: "notexists", Q: q, F: form}})
			}
		}
		op := "where"
		if len(s.Ops) > 2 && s.Ops[2].N == "where" {
			op = Pick(g, []string{"and", "or"})
		}
		s.Ops = append(s.Ops, plan.Op{N: op, E: g.atom(i)})
		q = s
	}
	return q
}

// spread gives n things in some number of calls.
func (g *G) spread(n int, f func(lo, hi int) plan.Op) []plan.Op {
	per := Pick(g, []int{n, n, 1, 1, 2, 3, 7})
	var ops []plan.Op
	for lo := 0; lo < n; lo += per {
		ops = append(ops, f(lo, min(n, lo+per)))
	}
	return ops
}

func (g *G) manyIds(n int) []plan.Ident {
	ids := make([]plan.Ident, n)
	f := g.N(2)
	rev := g.Coin()
	for i := range ids {
		k := i
		if rev {
			k = n - i
		}
		ids[i] = col("c%d", k)
		ids[i].F = f
	}
	return ids
}

func (g *G) manyTargets(n int) []plan.Target {
	ids := g.manyIds(n)
	ts := make([]plan.Target, n)
	for i := range ts {
		ts[i] = plan.Target{K: "col", Id: &ids[i]}
	}
	return ts
}

func (g *G) manyPairs(n int) []plan.Pair {
	var ps []plan.Pair
	for i, id := range g.manyIds(n) {
		ps = append(ps, plan.Pair{Id: id, E: g.num64(i)})
	}
	return ps
}

func (g *G) longText(n int) string {
	unit := Pick(g, []string{"a", "ab ", "é", "'", `\`, `"`, "x;", "日本"})
	return strings.Repeat(unit, n/len(unit)+1)
}

// LargeWhat lists the dimensions for each kind of statement.
var LargeWhat = map[string][]string{
	"select": {"columns", "from", "joins", "join condition", "join string", "with", "where", "condition", "function", "group by", "having", "order by", "distinct on", "in", "nested", "text", "name"},
	"insert": {"columns", "width", "rows", "pairs", "targets", "updates", "returning", "text", "name", "nested"},
	"update": {"pairs", "columns", "where", "condition", "with", "returning", "text", "name", "nested"},
	"delete": {"using", "where", "condition", "returning", "text", "name", "nested"},
}

// Large draws a statement of the kind that is small but for one dimension.
func (g *G) Large(kind string) (*plan.Stmt, string) {
	what := Pick(g, LargeWhat[kind])
	t := plan.Table{Id: &plan.Ident{P: []plan.Str{"t"}}}
	id := col("id")
	idE := &plan.Expr{K: "ident", Id: &id}
	s := &plan.Stmt{Kind: kind}
	switch kind {
	case "select":
		s.Ops = []plan.Op{{N: "select", Targets: []plan.Target{{K: "col", Id: &id}}}, {N: "from", Tables: []plan.Table{t}}}
	default:
		s.Ops = []plan.Op{{N: kind, Tables: []plan.Table{t}}}
	}
	add := func(ops ...plan.Op) { s.Ops = append(s.Ops, ops...) }
	one := []plan.Pair{{Id: id, E: g.num64(1)}}
	switch {
	case kind == "insert" && what != "columns" && what != "width" && what != "rows" && what != "pairs":
		add(plan.Op{N: "set", Pairs: one})
	case kind == "update" && what != "columns" && what != "pairs":
		add(plan.Op{N: "set", Pairs: one})
	}
	switch kind + " " + what {
	case "select columns":
		s.Ops[0].Targets, s.Ops[0].F = g.manyTargets(g.Size(2048)), g.N(5)
	case "select from":
		s.Ops[1].Tables = nil
		for i := g.Size(400); i > 0; i-- {
			id := col("t%d", i)
			s.Ops[1].Tables = append(s.Ops[1].Tables, plan.Table{Id: &id})
		}
		s.Ops[1].F = g.N(3)
	case "select joins":
		for i := g.Size(300); i > 0; i-- {
			add(plan.Op{N: "join", Join: g.Join()})
		}
	case "select join condition":
		u := plan.Table{Id: &plan.Ident{P: []plan.Str{"u"}}}
		add(plan.Op{N: "join", Join: &plan.Join{F: Pick(g, []int{0, 3}), Type: Pick(g, joinTypes), Table: u, On: g.deepOn(g.Size(512))}})
	case "select join string":
		j := &plan.Join{F: 2, Table: plan.Table{Id: &plan.Ident{P: []plan.Str{"u"}}}}
		on, text := g.CondText(g.Size(400))
		j.On, j.Text = on, plan.Str("JOIN u ON "+text)
		add(plan.Op{N: "join", Join: j})
	case "select with", "update with":
		add(g.spread(g.Size(256), func(lo, hi int) plan.Op {
			o := plan.Op{N: "with"}
			for i := lo; i < hi; i++ {
				o.CTEs = append(o.CTEs, plan.CTE{Name: plan.Str(fmt.Sprint("w", i)), Q: g.nest(0), F: i % 3})
			}
			return o
		})...)
	case "select where", "update where", "delete where":
		alt := g.In(1, 4)
		for i, n := 0, g.Size(1024); i < n; i++ {
			op := []string{"and", "or"}[i/alt%2]
			if i == 0 || i%7 == 3 {
				op = "where"
			}
			add(plan.Op{N: op, E: g.atom(i)})
		}
	case "select condition", "update condition", "delete condition":
		add(plan.Op{N: "where", E: g.deep(g.Size(1024))})
	case "select having":
		add(plan.Op{N: "having", E: g.deep(g.Size(1024))})
	case "select function":
		c := &plan.Expr{K: "call", S: "f"}
		for i := g.Size(512); i > 0; i-- {
			id := col("c%d", i)
			c.X = append(c.X, &plan.Expr{K: "ident", Id: &id})
		}
		add(plan.Op{N: "where", E: &plan.Expr{K: "cmp", Op: "=", X: []*plan.Expr{c, g.num64(1)}}})
	case "select group by":
		add(plan.Op{N: "groupby", Ids: g.manyIds(g.Size(1024)), F: g.N(4)})
	case "select distinct on":
		add(plan.Op{N: "distincton", Ids: g.manyIds(g.Size(1024)), F: g.N(4)})
	case "select order by":
		add(g.spread(g.Size(512), func(lo, hi int) plan.Op {
			o := plan.Op{N: "orderby"}
			for i := lo; i < hi; i++ {
				o.Orders = append(o.Orders, plan.Order{S: plan.Str(fmt.Sprint("o", i)), Dir: []string{"", "ASC", "DESC"}[i%3], F: i / 3 % 3})
			}
			return o
		})...)
	case "select in":
		e := &plan.Expr{K: "in", Op: Pick(g, []string{"in", "notin"}), F: g.N(3), X: []*plan.Expr{idE}}
		for i, n := 0, g.Size(2048); i < n; i++ {
			e.X = append(e.X, g.num64(i))
		}
		add(plan.Op{N: "where", E: e}, plan.Op{N: "and", E: g.atom(1)})
	case "select nested":
		return g.nest(g.Size(100)), what
	case "insert nested":
		e := &plan.Expr{K: "sub", Q: g.nest(g.Size(64)), F: g.N(3)}
		s.Ops[1].Pairs = append(s.Ops[1].Pairs, plan.Pair{Id: col("q"), E: e})
	case "update nested":
		e := &plan.Expr{K: "sub", Q: g.nest(g.Size(64)), F: g.N(3)}
		s.Ops[1].Pairs = append(s.Ops[1].Pairs, plan.Pair{Id: col("q"), E: e})
	case "delete nested":
		add(plan.Op{N: "where", E: &plan.Expr{K: "exists", Q: g.nest(g.Size(64)), F: g.N(3)}}, plan.Op{N: "and", E: g.atom(0)})
	case "insert columns", "insert width":
		n := g.Size(1024)
		if what == "columns" {
			add(plan.Op{N: "columns", Ids: g.manyIds(n), F: g.N(4)})
		}
		var row []*plan.Expr
		for i := 0; i < n; i++ {
			row = append(row, g.num64(i))
		}
		add(plan.Op{N: "values", Rows: [][]*plan.Expr{row}, F: Pick(g, []int{0, 1, 2, 3, 4, 5, 6})})
	case "insert rows":
		w := g.In(1, 3)
		add(plan.Op{N: "columns", Ids: g.manyIds(w)})
		o := plan.Op{N: "values", F: Pick(g, []int{3, 4, 5})}
		for i, n := 0, g.Size(2048); i < n; i++ {
			var row []*plan.Expr
			for j := 0; j < w; j++ {
				row = append(row, g.num64(i*w+j))
			}
			o.Rows = append(o.Rows, row)
		}
		add(o)
	case "insert pairs":
		add(plan.Op{N: "set", Pairs: g.manyPairs(g.Size(1024)), F: g.N(6)})
	case "insert targets":
		o := plan.Op{N: "onconflict", Ids: g.manyIds(g.Size(512)), Pairs: one}
		if g.Coin() {
			o.Pairs, o.Nothing = nil, true
		}
		add(o)
	case "insert updates":
		add(plan.Op{N: "onconflict", Ids: g.manyIds(1), Pairs: g.manyPairs(g.Size(512)), F: g.N(6)})
	case "insert returning", "update returning", "delete returning":
		add(plan.Op{N: "returning", Targets: g.manyTargets(g.Size(1024)), F: g.N(5)})
	case "update pairs":
		ps := g.manyPairs(g.Size(1024))
		f := g.N(4)
		add(g.spread(len(ps), func(lo, hi int) plan.Op { return plan.Op{N: "set", Pairs: ps[lo:hi], F: f} })...)
	case "update columns":
		ids := g.manyIds(g.Size(512))
		add(g.spread(len(ids), func(lo, hi int) plan.Op { return plan.Op{N: "setcols", Ids: ids[lo:hi]} })...)
		if g.OneIn(3) {
			add(plan.Op{N: "using", Es: []*plan.Expr{{K: "sub", Q: g.nest(0)}}})
			break
		}
		var es []*plan.Expr
		for i := range ids {
			es = append(es, g.num64(i))
		}
		add(plan.Op{N: "using", Es: es})
	case "delete using":
		var ts []plan.Table
		for i := g.Size(400); i > 0; i-- {
			id := col("u%d", i)
			ts = append(ts, plan.Table{Id: &id})
		}
		add(plan.Op{N: "using", Tables: ts})
	default:
		text := g.longText(Pick(g, []int{1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537}))
		if what == "name" {
			long := plan.Ident{P: []plan.Str{plan.Str(strings.ReplaceAll(text, " ", "_")), plan.Str(fmt.Sprint("n", len(text)))}, F: 1}
			switch kind {
			case "select":
				s.Ops[0].Targets = append(s.Ops[0].Targets, plan.Target{K: "col", Id: &long, Alias: long.P[0] + "a"})
			case "insert", "update":
				add(plan.Op{N: "returning", Targets: []plan.Target{{K: "col", Id: &long}}})
			case "delete":
				s.Ops[0].Tables[0].Id = &long
			}
			break
		}
		v := valE(plan.Val{K: Pick(g, []string{"string", "string", "bytes"}), S: plan.Str(text)})
		switch kind {
		case "insert", "update":
			s.Ops[1].Pairs = append(s.Ops[1].Pairs, plan.Pair{Id: col("q"), E: v})
		default:
			add(plan.Op{N: "where", E: &plan.Expr{K: "cmp", Op: "=", X: []*plan.Expr{idE, v}}}, plan.Op{N: "or", E: g.atom(0)})
		}
	}
	return s, what
}

// LargeAny draws a large statement of any kind.
func (g *G) LargeAny() (*plan.Stmt, string) {
	return g.Large(Pick(g, []string{"select", "select", "insert", "update", "delete"}))
}
