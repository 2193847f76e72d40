package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C21: misuse of the builders is rejected.

// Arguments of direct calls.
func xv(v plan.Val) *plan.Expr                      { return &plan.Expr{K: "val", V: &v} }
func xs(s string) *plan.Expr                        { return xv(plan.Val{K: "string", S: plan.Str(s)}) }
func xn(n int64) *plan.Expr                         { return xv(plan.Val{K: "int", I: n}) }
func xo(kind, s string, x ...*plan.Expr) *plan.Expr { return &plan.Expr{K: kind, S: plan.Str(s), X: x} }

func call(method string, args ...*plan.Expr) plan.Op {
	return plan.Op{N: "call", S: plan.Str(method), Es: args}
}

func create(kind string, args ...*plan.Expr) plan.Op {
	return plan.Op{N: "new", S: plan.Str(kind), Es: args}
}

// junk is an argument no clause accepts.
func junk(g *gen.G) *plan.Expr {
	k := gen.Pick(g, []string{"nil", "int", "int64", "uint8", "float64", "bool", "bytes", "time", "ptime", "badstruct", "badpstruct", "badpstring", "badmap", "badfunc", "badchan", "badints", "badcomplex", "badpp", "badnilpstring", "badstructs", "badfloats", "badnamed"})
	v := plan.Val{K: k, I: int64(g.In(1, 9)), S: "x"}
	if len(k) < 3 || k[:3] != "bad" {
		v = g.ValOf(k)
	}
	return xv(v)
}

// nameless is an empty column name, or a list holding one.
func nameless(g *gen.G) *plan.Expr {
	switch g.N(6) {
	case 0, 1:
		return xs(gen.Pick(g, []string{"", " ", ",", "a,", ",a", "a,,b", "a, ,b", "a,b,", "\t", " , ", "a, b, ", " , a", "a,\n", "a ,\t,b", ", ,", "a, b ,", "a,b,,"}))
	case 2:
		return xo("column", "")
	case 3:
		return xo("columns", "", g.Shuffled(xo("column", ""), xo("column", "a"))...)
	case 4:
		return xo("names", "", g.Shuffled(xs2(""), xs2("a"))...)
	default:
		return xo("columns", "", xo("column", ""))
	}
}

func xs2(s string) *plan.Expr { return &plan.Expr{K: "name", S: plan.Str(s)} }

func name(g *gen.G) string { return gen.Pick(g, []string{"a", "b.c", "name", "x1"}) }

// among puts an argument among n valid ones.
func among(g *gen.G, bad *plan.Expr, n int) []*plan.Expr {
	out := []*plan.Expr{bad}
	for i := g.In(0, n); i > 0; i-- {
		out = append(out, xs(name(g)))
	}
	return g.Shuffled(out...)
}

// list is what a list argument may wrongly hold: a column-list type is only
// understood as the only argument.
func badColumns(g *gen.G) []*plan.Expr {
	switch g.Weighted(3, 3, 1) {
	case 2:
		return listAmong(g)
	case 0:
		e := nameless(g)
		if e.K == "names" || e.K == "columns" {
			return []*plan.Expr{e}
		}
		return among(g, e, 2)
	default:
		return among(g, junk(g), 2)
	}
}

// splitColumns are wrong column lists where every string is split on commas.
func splitColumns(g *gen.G) []*plan.Expr {
	if g.OneIn(4) {
		bad := gen.Pick(g, []string{",", "a,", ",a", "a,,b", "a, ,b", "a,b,", " ,", "a, "})
		return []*plan.Expr{xo("names", "", g.Shuffled(append([]*plan.Expr{xs2(bad)}, gen.Pick(g, [][]*plan.Expr{nil, {xs2("a")}, {xs2("a"), xs2("b.c")}})...)...)...)}
	}
	return badColumns(g)
}

// listAmong is a list given together with other arguments.
func listAmong(g *gen.G) []*plan.Expr {
	list := gen.Pick(g, []*plan.Expr{
		xo("columns", "", xo("column", name(g)), xo("column", name(g))),
		xo("names", "", xs2(name(g))),
		xo("items", "", xo("column", name(g))),
	})
	return append(among(g, list, 1), xs(name(g)))
}

// badItems are wrong select-list or RETURNING items.
func badItems(g *gen.G) []*plan.Expr {
	switch g.Weighted(4, 1, 1, 4) {
	case 0:
		return badColumns(g)
	case 1:
		return []*plan.Expr{xo("items", "", g.Shuffled(&plan.Expr{K: "nilexpr"}, xo("column", "a"))...)}
	case 2:
		return []*plan.Expr{xo("items", "", g.Shuffled(xo("column", ""), xo("column", "a"))...)}
	default:
		return among(g, gen.Pick(g, []*plan.Expr{xo("count", ""), xo("max", ""), xo("rawitem", ""), xo("column", ""), junk(g)}), 2)
	}
}

func badTable(g *gen.G) *plan.Expr {
	switch g.N(3) {
	case 0:
		return xs("")
	case 1:
		return xo("table", "")
	}
	return junk(g)
}

func badFrom(g *gen.G) []*plan.Expr {
	switch g.N(5) {
	case 0:
		return nil
	case 1:
		return among(g, xo("rawitem", ""), 2)
	case 2:
		return among(g, gen.Pick(g, []*plan.Expr{xo("from", ""), xo("fromnil", ""), xo("fromsome", name(g))}), 2)
	}
	return among(g, badTable(g), 2)
}

func badSet(g *gen.G) *plan.Expr {
	key := func() *plan.Expr {
		if g.Coin() {
			return xs(gen.Pick(g, []string{"", " "}))
		}
		if g.Coin() {
			return xo("column", "")
		}
		return xv(g.ValOf(gen.Pick(g, []string{"nil", "int", "bool", "float64"})))
	}
	switch g.N(4) {
	case 0:
		return xo("pair", "", key(), xn(1))
	case 1:
		return xo("map", "", key(), xn(1))
	case 2:
		return xo("mapsi", "", xs(""), xn(1))
	}
	return junk(g)
}

func goodSet(g *gen.G) *plan.Expr {
	if g.Coin() {
		return xo("pair", "", xs(name(g)), xn(2))
	}
	return xo("map", "", xo("column", name(g)), xn(2))
}

func goodTable(g *gen.G) *plan.Expr {
	if g.Coin() {
		return xs(name(g))
	}
	return xo("table", name(g))
}

// misuse is a way of calling the builders wrongly.
type misuse struct {
	kind string
	what string
	drop []string // calls the base must not have
	need func(g *gen.G) []plan.Op
	bad  func(g *gen.G) []plan.Op // rejected anywhere after the base's first call
	ctor func(g *gen.G) plan.Op   // replaces the constructor
}

func one(f func(g *gen.G) plan.Op) func(*gen.G) []plan.Op {
	return func(g *gen.G) []plan.Op { return []plan.Op{f(g)} }
}

func args(method string, f func(g *gen.G) []*plan.Expr) func(*gen.G) []plan.Op {
	return func(g *gen.G) []plan.Op { return []plan.Op{call(method, f(g)...)} }
}

func setPairs(g *gen.G) []plan.Op { return []plan.Op{call("Set", goodSet(g))} }

var noSet = []string{"set", "setcols", "using", "columns", "values"}

var misuses = []misuse{
	// Arguments.
	{kind: "select", what: "bad select list", ctor: func(g *gen.G) plan.Op { return create("select", badItems(g)...) }},
	{kind: "select", what: "bad select list", bad: args("Columns", badItems)},
	{kind: "select", what: "bad distinct on", drop: []string{"distincton", "distinct"}, bad: args("DistinctOn", splitColumns)},
	{kind: "select", what: "empty distinct on", drop: []string{"distincton", "distinct"}, bad: args("DistinctOn", emptyList)},
	{kind: "select", what: "bad from", drop: []string{"from"}, bad: args("From", badFrom)},
	{kind: "select", what: "bad group by", drop: []string{"groupby"}, bad: args("GroupBy", splitColumns)},
	{kind: "select", what: "empty group by", drop: []string{"groupby"}, bad: args("GroupBy", emptyList)},
	{kind: "select", what: "bad order by", bad: args("OrderBy", func(g *gen.G) []*plan.Expr {
		return g.Shuffled(xo("order", ""), xo("order", name(g)))
	})},
	{kind: "select", what: "bad with", bad: args("With", func(g *gen.G) []*plan.Expr {
		q := &plan.Expr{K: "sub", Q: g.Select(true)}
		return g.Shuffled(xo("with", "", q), xo("with", "w", q))
	})},
	{kind: "update", what: "bad with", bad: args("With", func(g *gen.G) []*plan.Expr {
		q := &plan.Expr{K: "sub", Q: g.Select(true)}
		return g.Shuffled(xo("with", "", q), xo("with", "w", q))
	})},
	{kind: "select", what: "bad prefix", drop: []string{"prefix"}, bad: args("Prefix", badAffix("prefix"))},
	{kind: "select", what: "bad suffix", drop: []string{"suffix"}, bad: args("Suffix", badAffix("suffix"))},
	{kind: "select", what: "bad join", bad: args("Join", badJoin)},
	{kind: "insert", what: "bad table", ctor: func(g *gen.G) plan.Op { return create("insert", badTable(g)) }},
	{kind: "insert", what: "bad columns", drop: noSet, bad: args("Columns", splitColumns)},
	{kind: "insert", what: "bad values", drop: noSet, bad: args("Values", func(g *gen.G) []*plan.Expr {
		typed := func(x ...*plan.Expr) *plan.Expr { return xo("introws", gen.Pick(g, plan.RowKinds), x...) }
		some := func() *plan.Expr { // rows
			x := []*plan.Expr{xo("list", "", xn(1), xn(2))}
			for g.OneIn(3) {
				x = append(x, x[0])
			}
			return typed(x...)
		}
		switch g.N(9) {
		case 6: // rows among other arguments
			return g.Shuffled(some(), gen.Pick(g, []*plan.Expr{xn(1), xs("x"), xv(plan.Val{K: "nil"}), some(), xo("list", "", xn(1)), xo("rows", "")}))
		case 7:
			return []*plan.Expr{some(), some(), some()}
		case 8:
			x := []*plan.Expr{xo("list", "")}
			for i := g.In(1, 5); i > 0; i-- {
				x = append(x, xo("list", "", xn(1), xn(2)))
			}
			return []*plan.Expr{typed(g.Shuffled(x...)...)}
		case 0:
			return nil
		case 1:
			return []*plan.Expr{gen.Pick(g, []*plan.Expr{xo("rows", ""), typed()})}
		case 2: // a row without values among rows
			return []*plan.Expr{xo("rows", "", g.Shuffled(xo("list", ""), xo("list", "", xn(1)))...)}
		case 3:
			return []*plan.Expr{xo("introws", "", g.Shuffled(xo("list", ""), xo("list", "", xn(1)))...)}
		case 4:
			return []*plan.Expr{xo("list", "")}
		default:
			return []*plan.Expr{xo("names", "")}
		}
	})},
	{kind: "insert", what: "bad set", drop: noSet, bad: args("Set", func(g *gen.G) []*plan.Expr {
		return g.Shuffled(badSet(g), goodSet(g))
	})},
	{kind: "insert", what: "bad set", drop: noSet, bad: args("Set", func(g *gen.G) []*plan.Expr {
		return gen.Pick(g, [][]*plan.Expr{nil, {xs("a")}, {xo("column", "a")}, {goodSet(g), xs("a")}, {xo("map", "")}})
	})},
	{kind: "insert", what: "bad returning", drop: []string{"returning"}, bad: args("Returning", badItems)},
	{kind: "insert", what: "bad on conflict", drop: []string{"onconflict"}, bad: args("OnConflict", badConflict)},
	{kind: "update", what: "bad table", ctor: func(g *gen.G) plan.Op { return create("update", badTable(g)) }},
	{kind: "update", what: "bad set", drop: noSet, need: setPairs, bad: args("Set", func(g *gen.G) []*plan.Expr {
		return g.Shuffled(badSet(g), goodSet(g))
	})},
	{kind: "update", what: "empty set", drop: noSet, need: setPairs, bad: args("Set", func(g *gen.G) []*plan.Expr { return nil })},
	{kind: "update", what: "bad from", drop: []string{"from"}, bad: args("From", func(g *gen.G) []*plan.Expr {
		return []*plan.Expr{gen.Pick(g, []*plan.Expr{xo("rawitem", ""), xo("from", ""), badTable(g), badTable(g)})}
	})},
	{kind: "update", what: "bad returning", drop: []string{"returning"}, bad: args("Returning", badItems)},
	{kind: "delete", what: "bad table", ctor: func(g *gen.G) plan.Op {
		return create("delete", gen.Pick(g, []*plan.Expr{xo("rawitem", ""), xo("from", ""), badTable(g), badTable(g)}))
	}},
	{kind: "delete", what: "bad using", drop: []string{"using"}, bad: args("Using", func(g *gen.G) []*plan.Expr { return among(g, badTable(g), 2) })},
	{kind: "delete", what: "bad returning", drop: []string{"returning"}, bad: args("Returning", badItems)},

	// Clauses that exclude each other.
	{kind: "insert", what: "set with columns or values", drop: noSet, need: setPairs, bad: one(func(g *gen.G) plan.Op {
		return gen.Pick(g, []plan.Op{call("Columns", xs(name(g))), call("Values", xn(1)), call("Set", goodSet(g))})
	})},
	{kind: "insert", what: "set with columns or values", drop: noSet, need: one(func(g *gen.G) plan.Op {
		return gen.Pick(g, []plan.Op{call("Columns", xs(name(g))), call("Values", xn(1), xn(2))})
	}), bad: setPairs},
	{kind: "update", what: "pairs with a column list", drop: noSet, need: setPairs, bad: one(func(g *gen.G) plan.Op {
		return gen.Pick(g, []plan.Op{call("Set", xs(name(g))), call("Set", xo("column", name(g))), call("Set", goodSet(g), xs(name(g))), call("Using", xn(1))})
	})},
	{kind: "update", what: "pairs with a column list", drop: noSet, need: func(g *gen.G) []plan.Op {
		return []plan.Op{call("Set", xs("a"), xs("b")), call("Using", xn(1), xn(2))}
	}, bad: setPairs},
	{kind: "update", what: "using without arguments", drop: noSet, need: func(g *gen.G) []plan.Op {
		return []plan.Op{call("Set", xs("a"), xs("b")), call("Using", xn(1), xn(2))}
	}, bad: args("Using", func(*gen.G) []*plan.Expr { return nil })},

	// A condition combined with no condition.
	{kind: "select", what: "and, or without where", drop: []string{"where", "and", "or"}, bad: andOr},
	{kind: "update", what: "and, or without where", drop: []string{"where", "and", "or"}, bad: andOr},
	{kind: "delete", what: "and, or without where", drop: []string{"where", "and", "or"}, bad: andOr},

	// Clauses given twice.
	{kind: "select", what: "distinct on twice", drop: []string{"distincton", "distinct"}, need: args("DistinctOn", goodNames), bad: args("DistinctOn", goodNames)},
	{kind: "select", what: "from twice", drop: []string{"from"}, need: args("From", goodNames), bad: args("From", goodNames)},
	{kind: "select", what: "group by twice", drop: []string{"groupby"}, need: args("GroupBy", goodNames), bad: args("GroupBy", goodNames)},
	{kind: "select", what: "having twice", drop: []string{"having"}, need: having, bad: having},
	{kind: "select", what: "limit twice", drop: []string{"limit"}, need: args("Limit", goodNumber), bad: args("Limit", goodNumber)},
	{kind: "select", what: "offset twice", drop: []string{"offset"}, need: args("Offset", goodNumber), bad: args("Offset", goodNumber)},
	{kind: "select", what: "prefix twice", drop: []string{"prefix"}, need: args("Prefix", goodName), bad: args("Prefix", goodName)},
	{kind: "select", what: "suffix twice", drop: []string{"suffix"}, need: args("Suffix", goodName), bad: args("Suffix", goodName)},
	{kind: "insert", what: "table twice", bad: args("Into", goodName)},
	{kind: "insert", what: "columns twice", drop: noSet, need: args("Columns", goodNames), bad: args("Columns", goodNames)},
	{kind: "insert", what: "values twice", drop: noSet, need: args("Values", goodNames), bad: args("Values", goodNames)},
	{kind: "insert", what: "on conflict twice", drop: []string{"onconflict"}, need: args("OnConflict", goodConflict), bad: args("OnConflict", goodConflict)},
	{kind: "insert", what: "returning twice", drop: []string{"returning"}, need: args("Returning", goodNames), bad: args("Returning", goodNames)},
	{kind: "update", what: "from twice", drop: []string{"from"}, need: args("From", goodName), bad: args("From", goodName)},
	{kind: "update", what: "returning twice", drop: []string{"returning"}, need: args("Returning", goodNames), bad: args("Returning", goodNames)},
	{kind: "delete", what: "table twice", bad: args("From", goodNames)},
	{kind: "delete", what: "using twice", drop: []string{"using"}, need: args("Using", goodNames), bad: args("Using", goodNames)},
	{kind: "delete", what: "returning twice", drop: []string{"returning"}, need: args("Returning", goodNames), bad: args("Returning", goodNames)},
}

func emptyList(g *gen.G) []*plan.Expr {
	return gen.Pick(g, [][]*plan.Expr{nil, {xo("columns", "")}, {xo("names", "")}})
}

func goodName(g *gen.G) []*plan.Expr { return []*plan.Expr{xs(name(g))} }

func goodNames(g *gen.G) []*plan.Expr {
	return [][]*plan.Expr{{xs(name(g))}, {xs(name(g)), xs(name(g))}}[g.N(2)]
}

func goodNumber(g *gen.G) []*plan.Expr { return []*plan.Expr{xn(int64(g.In(1, 100)))} }

func andOr(g *gen.G) []plan.Op {
	return []plan.Op{{N: gen.Pick(g, []string{"and", "or"}), E: g.Cond()}}
}

func having(g *gen.G) []plan.Op { return []plan.Op{{N: "having", E: g.Cond()}} }

func goodConflict(g *gen.G) []*plan.Expr {
	if g.Coin() {
		return []*plan.Expr{xo("nothing", "")}
	}
	return []*plan.Expr{xs(name(g)), xo("update", "", goodSet(g))}
}

func badConflict(g *gen.G) []*plan.Expr {
	up := xo("update", "", goodSet(g))
	no := xo("nothing", "")
	act := gen.Pick(g, []*plan.Expr{up, no})
	switch g.N(8) {
	case 0:
		return nil
	case 1: // no action
		return among(g, xs(name(g)), 2)
	case 2: // the action is not last
		return []*plan.Expr{xs(name(g)), act, xs(name(g))}
	case 3: // two actions
		return []*plan.Expr{xs(name(g)), gen.Pick(g, []*plan.Expr{up, no}), act}
	case 4: // an update without target
		return []*plan.Expr{up}
	case 5: // an update of nothing
		return []*plan.Expr{xs(name(g)), xo("update", "")}
	case 6:
		return append(among(g, gen.Pick(g, []*plan.Expr{xs(""), xo("column", ""), junk(g)}), 2), act)
	default: // a bad pair in the update
		return []*plan.Expr{xs(name(g)), xo("update", "", g.Shuffled(badSet(g), goodSet(g))...)}
	}
}

func badAffix(kind string) func(*gen.G) []*plan.Expr {
	return func(g *gen.G) []*plan.Expr {
		return []*plan.Expr{gen.Pick(g, []*plan.Expr{xs(""), xo(kind, ""), junk(g), junk(g)})}
	}
}

// badJoin are wrong arguments of a join, other than strings that cannot be
// read (C14).
func badJoin(g *gen.G) []*plan.Expr {
	on := xo("on", "")
	typ := xo("jointype", gen.Pick(g, []string{"INNER JOIN", "LEFT JOIN", "RIGHT JOIN"}))
	cond := gen.Pick(g, []*plan.Expr{on, xs("ON a = b"), xs("a = b")})
	switch g.N(9) {
	case 8:
		none := xo("onempty", "")
		none.F = g.N(plan.EmptyOns)
		if g.OneIn(4) {
			none.K, none.S = "joinempty", plan.Str(name(g))
			return []*plan.Expr{none}
		}
		if g.Coin() {
			return []*plan.Expr{goodTable(g), none}
		}
		return []*plan.Expr{goodTable(g), none, typ}
	case 0:
		return nil
	case 1:
		return []*plan.Expr{goodTable(g), on, typ, gen.Pick(g, []*plan.Expr{typ, on, xs("x"), junk(g)})}
	case 2:
		return []*plan.Expr{gen.Pick(g, []*plan.Expr{junk(g), xo("table", name(g)), xo("joinobj", name(g)), on, xo("joinobj", ""),
			xo("joinnotype", name(g)), xo("joincond", "")})}
	case 3:
		return []*plan.Expr{badTable(g), cond}
	case 4:
		return []*plan.Expr{goodTable(g), gen.Pick(g, []*plan.Expr{junk(g), xo("table", "t"), xo("column", "c"), typ})}
	case 5:
		return []*plan.Expr{badTable(g), cond, typ}
	case 6:
		return []*plan.Expr{goodTable(g), gen.Pick(g, []*plan.Expr{junk(g), xo("table", "t")}), typ}
	default:
		return []*plan.Expr{goodTable(g), cond, gen.Pick(g, []*plan.Expr{junk(g), xs("LEFT JOIN"), on, xo("jointype", "")})}
	}
}

func without(s *plan.Stmt, names []string) *plan.Stmt {
	out := &plan.Stmt{Kind: s.Kind}
	for _, o := range s.Ops {
		if !gen.Has(names, o.N) {
			out.Ops = append(out.Ops, o)
		}
	}
	return out
}

func ofKind(g *gen.G, kind string) *plan.Stmt {
	switch kind {
	case "select":
		return g.Select(false)
	case "insert":
		return g.Insert()
	case "update":
		return g.Update()
	}
	return g.Delete()
}

// misused draws a legitimate statement and the same with one misuse.
func misused(g *gen.G) *badCase {
	m := gen.Pick(g, misuses)
	base := without(ofKind(g, m.kind), m.drop)
	if m.need != nil { // in order, at random places
		at := 0
		for _, o := range m.need(g) {
			at += g.N(len(base.Ops) - at)
			insertOp(base, at, o)
			at++
		}
	}
	bad := base.Clone()
	what := m.kind + ": " + m.what
	if m.ctor != nil {
		bad.Ops[0] = m.ctor(g)
		return &badCase{Base: base, Bad: bad, What: what}
	}
	for _, o := range m.bad(g) {
		insertOp(bad, g.N(len(bad.Ops)), o)
	}
	return &badCase{Base: base, Bad: bad, What: what}
}

func init() {
	add("C21", "misuse", 60000, 800000, gen.Cfg{Depth: 1},
		"legitimate random statements plus one misuse at a random place: an argument of an unsupported type, an empty name, table, list, row or object, a wrong number of arguments, a clause defined twice, or clauses that exclude each other, over every builder method; the statement without it must be accepted and the one with it rejected, by a panic that is not a Go runtime error; every case is non-trivial",
		misused, func(c *badCase, r *Rec) string {
			if d := checkBad(c, r); d != "" {
				return fmt.Sprintf("%s; call %s", d, plan.JSON(c.Bad.Ops))
			}
			return ""
		})
	add("C21", "incomplete", 8000, 100000, gen.Cfg{Depth: 1},
		"updates and inserts that were legitimate but for a missing part: an update without a value, or with columns but no values for them; empty builders; they must be rejected; every case is non-trivial",
		func(g *gen.G) *badCase {
			base := g.Update()
			bad := without(base, []string{"set", "setcols", "using"})
			what := "update: no value"
			if g.Coin() {
				insertOp(bad, g.N(len(bad.Ops)), call("Set", goodNames(g)...))
				what = "update: columns without values"
			}
			if g.OneIn(6) {
				kind := gen.Pick(g, []string{"select", "insert", "update", "delete"})
				bad = &plan.Stmt{Kind: kind, Ops: []plan.Op{{N: "zero", S: plan.Str(kind)}}}
				what = kind + ": empty builder"
			}
			return &badCase{Base: base, Bad: bad, What: what}
		}, checkBad)
}
