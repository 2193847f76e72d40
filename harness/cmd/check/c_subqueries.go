package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/ulule/loukoum/v3/builder"

	"verif/harness/gen"
	"verif/harness/pg"
	"verif/harness/plan"
)

// C20: a subquery is the statement it was built from, wherever it stands.

type subCase struct {
	Pos    string
	Form   int // 0 the builder, 1 its statement
	Q      *plan.Stmt
	Before *plan.Val // argument before the subquery
	After  *plan.Val
	Twice  bool // the same builder stands at two places
}

var subPositions = []string{
	"equal", "less", "like", "is distinct", "overlap", "value equal", "call equal", "in", "not in", "call in", "in item", "in list", "between low", "between high", "not between",
	"exists", "not exists", "and", "or", "having", "select exists", "select not exists", "with", "update with",
	"insert set", "insert map", "insert value", "insert values", "insert exists", "conflict update", "update set", "update map", "update using", "update using several", "update where", "delete where", "returning exists", "encoder", "call argument", "whole", "join", "join operand", "join exists",
}

// embed builds the statement that has q at the position.
func embed(pos string, form int, q *plan.Stmt, before, after *plan.Val) *plan.Stmt {
	v := func(x *plan.Val) *plan.Expr { return &plan.Expr{K: "val", V: x} }
	c := bare("c")
	id := &plan.Expr{K: "ident", Id: &c}
	sub := &plan.Expr{K: "sub", Q: q, F: form}
	head := []plan.Op{{N: "select", Targets: []plan.Target{{K: "col", Id: &c}}}, {N: "from", Tables: []plan.Table{tableOf("t")}}}
	eq := func(x *plan.Val) *plan.Expr { return &plan.Expr{K: "cmp", Op: "=", X: []*plan.Expr{id, v(x)}} }
	chain := func(e *plan.Expr) []plan.Op {
		return []plan.Op{{N: "where", E: eq(before)}, {N: "and", E: e}, {N: "or", E: eq(after)}}
	}
	where := func(e *plan.Expr) *plan.Stmt {
		return &plan.Stmt{Kind: "select", Ops: append(head, chain(e)...)}
	}
	cmp := func(op string, l *plan.Expr) *plan.Stmt {
		return where(&plan.Expr{K: "cmp", Op: op, X: []*plan.Expr{l, sub}})
	}
	call := &plan.Expr{K: "call", S: "lower", X: []*plan.Expr{id}}
	ins := func(ops ...plan.Op) *plan.Stmt {
		return &plan.Stmt{Kind: "insert", Ops: append([]plan.Op{{N: "insert", Tables: []plan.Table{tableOf("t")}}}, ops...)}
	}
	upd := func(ops ...plan.Op) *plan.Stmt {
		return &plan.Stmt{Kind: "update", Ops: append([]plan.Op{{N: "update", Tables: []plan.Table{tableOf("t")}}}, ops...)}
	}
	a, b, d := bare("a"), bare("b"), bare("d")
	pairs := []plan.Pair{{Id: a, E: v(before)}, {Id: b, E: sub}, {Id: d, E: v(after)}}
	row := []*plan.Expr{v(before), sub, v(after)}
	switch pos {
	case "equal":
		return cmp("=", id)
	case "less":
		return cmp("<", id)
	case "like":
		return cmp("like", id)
	case "is distinct":
		return cmp("isdistinct", id)
	case "overlap":
		return cmp("&&", id)
	case "value equal":
		return cmp("=", &plan.Expr{K: "value", V: before})
	case "call equal":
		return cmp("=", call)
	case "in", "not in":
		return where(&plan.Expr{K: "in", Op: strings.ReplaceAll(pos, " ", ""), X: []*plan.Expr{id, sub}})
	case "call in":
		return where(&plan.Expr{K: "in", Op: "in", X: []*plan.Expr{call, sub}})
	case "in item":
		return where(&plan.Expr{K: "in", Op: "in", X: []*plan.Expr{id, v(before), sub, v(after)}})
	case "in list":
		return where(&plan.Expr{K: "in", Op: "notin", F: 1, X: []*plan.Expr{id, v(before), sub, v(after)}})
	case "between low":
		return where(&plan.Expr{K: "between", Op: "between", X: []*plan.Expr{id, sub, v(after)}})
	case "between high":
		return where(&plan.Expr{K: "between", Op: "between", X: []*plan.Expr{id, v(before), sub}})
	case "not between":
		return where(&plan.Expr{K: "between", Op: "notbetween", X: []*plan.Expr{id, v(before), sub}})
	case "exists":
		return where(&plan.Expr{K: "exists", Q: q, F: form})
	case "not exists":
		return where(&plan.Expr{K: "notexists", Q: q, F: form})
	case "and", "or":
		e := &plan.Expr{K: "exists", Q: q, F: form}
		return where(&plan.Expr{K: pos, X: []*plan.Expr{eq(after), {K: "or", X: []*plan.Expr{e, eq(before)}}}})
	case "having":
		s := where(eq(after))
		s.Ops = append(s.Ops, plan.Op{N: "having", E: &plan.Expr{K: "cmp", Op: ">", X: []*plan.Expr{call, sub}}})
		return s
	case "select exists", "select not exists":
		s := where(eq(after))
		k := "exists"
		if pos != "select exists" {
			k = "notexists"
		}
		s.Ops[0].Targets = append(s.Ops[0].Targets, plan.Target{K: k, Q: q, F: form}, plan.Target{K: "col", Id: &d})
		return s
	case "with":
		s := where(eq(after))
		s.Ops = append(s.Ops, plan.Op{N: "with", CTEs: []plan.CTE{{Name: "w", Q: q, F: form}}})
		return s
	case "update with":
		return upd(append(chain(eq(before)), plan.Op{N: "set", Pairs: []plan.Pair{{Id: a, E: v(after)}}}, plan.Op{N: "with", CTEs: []plan.CTE{{Name: "w", Q: q, F: form}}})...)
	case "insert set":
		return ins(plan.Op{N: "set", Pairs: pairs})
	case "insert map":
		return ins(plan.Op{N: "set", Pairs: pairs, F: 1})
	case "insert value":
		return ins(plan.Op{N: "values", Rows: [][]*plan.Expr{row}})
	case "insert values":
		return ins(plan.Op{N: "values", F: 3, Rows: [][]*plan.Expr{{v(before), v(after), v(after)}, row}})
	case "insert exists":
		return ins(plan.Op{N: "values", Rows: [][]*plan.Expr{{v(before), {K: "exists", Q: q, F: form}, v(after)}}})
	case "conflict update":
		return ins(plan.Op{N: "set", Pairs: []plan.Pair{{Id: a, E: v(after)}}}, plan.Op{N: "onconflict", Ids: []plan.Ident{a}, Pairs: pairs})
	case "update set":
		return upd(plan.Op{N: "set", Pairs: pairs})
	case "update map":
		return upd(plan.Op{N: "set", Pairs: pairs, F: 2})
	case "update using":
		return upd(append(chain(eq(after)), plan.Op{N: "setcols", Ids: []plan.Ident{a, b}}, plan.Op{N: "using", Es: []*plan.Expr{sub}})...)
	case "update using several":
		return upd(plan.Op{N: "setcols", Ids: []plan.Ident{a, b, d}}, plan.Op{N: "using", Es: row})
	case "update where":
		return upd(append(chain(&plan.Expr{K: "cmp", Op: "=", X: []*plan.Expr{id, sub}}), plan.Op{N: "set", Pairs: pairs[:1]})...)
	case "delete where":
		return &plan.Stmt{Kind: "delete", Ops: append([]plan.Op{{N: "delete", Tables: []plan.Table{tableOf("t")}}}, chain(&plan.Expr{K: "in", Op: "in", X: []*plan.Expr{id, sub}})...)}
	case "returning exists":
		return upd(plan.Op{N: "set", Pairs: pairs[:1]}, plan.Op{N: "returning", Targets: []plan.Target{{K: "exists", Q: q, F: form}}})
	case "call argument":
		return where(&plan.Expr{K: "cmp", Op: "=", X: []*plan.Expr{id, {K: "call", S: "f", X: []*plan.Expr{{K: "value", V: before}, sub, {K: "value", V: after}}}}})
	case "whole":
		return where(sub)
	case "join", "join operand", "join exists":
		e := sub
		switch pos {
		case "join operand":
			e = &plan.Expr{K: "and", X: []*plan.Expr{eq(before), {K: "cmp", Op: "=", X: []*plan.Expr{id, sub}}}}
		case "join exists":
			e = &plan.Expr{K: "exists", Q: q, F: form}
		}
		s := where(eq(after))
		s.Ops = append(s.Ops, plan.Op{N: "join", Join: &plan.Join{F: 3, Type: "LEFT JOIN", Table: tableOf("j"), On: &plan.On{K: "cond", E: e}}})
		return s
	case "encoder":
		return where(&plan.Expr{K: "cmp", Op: "=", X: []*plan.Expr{id, {K: "enc", X: []*plan.Expr{sub}}}})
	}
	fatal("unknown position %q", pos)
	return nil
}

// both adds the subquery to a statement a second time.
func both(s *plan.Stmt, q *plan.Stmt, form int) *plan.Stmt {
	out := *s
	c := bare("c")
	e := &plan.Expr{K: "in", Op: "in", X: []*plan.Expr{{K: "ident", Id: &c}, {K: "sub", Q: q, F: form}}}
	n := "where"
	for _, o := range s.Ops {
		if o.N == "where" {
			n = "and"
		}
	}
	out.Ops = append(append([]plan.Op{}, s.Ops...), plan.Op{N: n, E: e})
	return &out
}

func genSub(g *gen.G) *subCase {
	c := &subCase{Pos: gen.Pick(g, subPositions), Form: g.N(3), Q: g.Select(false)}
	ops := c.Q.Ops[:0:0]
	for _, o := range c.Q.Ops {
		if o.N == "prefix" {
			o.S = plan.Str(gen.Pick(g, []string{"EXPLAIN", "WITH x AS (SELECT 1)", "SELECT 1 UNION ALL"}))
		}
		ops = append(ops, o)
	}
	c.Q.Ops = ops
	b, a := g.ValOf(gen.Pick(g, []string{"int", "string", "bool"})), g.ValOf(gen.Pick(g, []string{"int", "string", "time"}))
	c.Before, c.After = &b, &a
	c.Twice = !strings.HasPrefix(c.Pos, "insert") && c.Pos != "conflict update" && g.OneIn(3)
	return c
}

// shifted are the tokens of a query with its placeholders renumbered from k+1.
func shifted(q string, k int) ([]tokKey, error) {
	ts, _, err := tokens(q, pg.Mode{})
	if err != nil {
		return nil, err
	}
	for i := range ts {
		if ts[i].k == pg.Param {
			n, _ := strconv.Atoi(ts[i].s)
			ts[i].s = strconv.Itoa(n + k)
		}
	}
	for n := len(ts); n > 0 && (ts[n-1].k == pg.EOF || ts[n-1] == tokKey{pg.Punct, ";"}); n-- {
		ts = ts[:n-1]
	}
	return ts, nil
}

// occurrences finds "( query )" in the tokens of a statement and returns the
// offsets of the query's arguments.
func occurrences(outer []tokKey, q string, args []interface{}, all []interface{}) (at []int, err error) {
	for k := 0; k+len(args) <= len(all); k++ {
		same := true
		for i := range args {
			same = same && plan.Key(args[i]) == plan.Key(all[k+i])
		}
		if !same {
			continue
		}
		in, err := shifted(q, k)
		if err != nil {
			return nil, err
		}
		for i := 0; i+len(in)+2 <= len(outer); i++ {
			if outer[i] != (tokKey{pg.Punct, "("}) || outer[i+len(in)+1] != (tokKey{pg.Punct, ")"}) {
				continue
			}
			ok := true
			for j := range in {
				if outer[i+1+j] != in[j] {
					ok = false
					break
				}
			}
			if ok {
				at = append(at, k)
			}
		}
		if len(args) == 0 {
			break
		}
	}
	return at, nil
}

func checkSub(c *subCase, r *Rec) string {
	r.Label("position " + c.Pos)
	outer := embed(c.Pos, c.Form, c.Q, c.Before, c.After)
	n := 1
	var alone, o Out
	p := guard(func() {
		var b builder.Builder
		if c.Twice {
			outer = both(outer, c.Q, (c.Form+1)%3)
			n = 2
		}
		// the one builder of the subquery, rendered alone before and after
		inner := c.Q.Build().Builder()
		plan.Fixed = map[string]builder.Builder{plan.JSON(c.Q): inner}
		defer func() { plan.Fixed = nil }()
		b = outer.Build().Builder()
		o.Q, o.Args = b.Query()
		o.NQ, o.NArgs = b.NamedQuery()
		o.Raw = b.String()
		alone.Q, alone.Args = inner.Query()
	})
	if p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	r.Detail["sql"] = o.Q
	r.NonTrivial = len(alone.Args) > 0
	r.LabelIf(c.Twice, "twice")
	r.LabelIf(c.Q.Comment() != "", "comment inside")
	ts, cs, err := tokens(o.Q, pg.Mode{})
	if err != nil {
		return fmt.Sprintf("the statement cannot be read: %v\n  sql: %s", err, o.Q)
	}
	if len(cs) > 0 && outer.Comment() == "" {
		return fmt.Sprintf("the comment of a subquery is in the statement\n  sql: %s", o.Q)
	}
	at, err := occurrences(ts, alone.Q, alone.Args, o.Args)
	if err != nil {
		return fmt.Sprintf("the subquery cannot be read: %v\n  sql: %s", err, alone.Q)
	}
	if len(at) < n {
		return fmt.Sprintf("the subquery stands %d times in the statement, not %d\n  alone: %s\n  sql: %s", len(at), n, alone.Q, o.Q)
	}
	if d := numbered(o); d != "" {
		return d
	}
	if d := agree(o); d != "" {
		return d
	}
	for _, x := range c.Q.Ops {
		if x.N == "prefix" { // some are legitimate for a whole statement only
			r.Label("prefix inside")
			return ""
		}
	}
	return sameMeaning(outer.N(), o)
}

func init() {
	add("C20", "positions", 16000, 300000, gen.Cfg{Depth: 1, Comments: true},
		"random SELECT statements as subquery at each of the positions that take one, some with a prefix, passed as builder or statement, the same builder at two places now and then; the subquery's own rendering must stand there in parentheses with its arguments, and the whole must parse to the statement; non-trivial: the subquery has arguments",
		genSub, checkSub)
	add("C20", "nested", 8000, 150000, gen.Cfg{Depth: 3, Comments: true, Subs: true},
		"statements with several levels of subqueries, comments inside them included, parsed back; non-trivial: at least 3 nested statements",
		(*gen.G).Any,
		func(s *plan.Stmt, r *Rec) string {
			n := 0
			s.EachStmt(func(*plan.Stmt) { n++ })
			r.NonTrivial = n > 3
			r.LabelIf(n > 6, "more than 5 nested statements")
			classify(s, r)
			if d := faithful(s, r); d != "" {
				return d
			}
			o, p := buildAndRender(s)
			if p != nil {
				return p.String()
			}
			if d := agree(o); d != "" {
				return d
			}
			return numbered(o)
		})
}
