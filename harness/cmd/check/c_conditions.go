package main

import (
	"fmt"
	"strings"

	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verif/harness/gen"
	"verif/harness/pg"
	"verif/harness/plan"
)

// C08: conditions keep the grouping the program built. C09: no condition is
// silently lost.

type badCase struct {
	Base *plan.Stmt // accepted
	Bad  *plan.Stmt // must be rejected
	What string
}

// rejected checks that a statement is refused: its construction panics, or
// every rendering of it does, and not by accident (a Go runtime error).
func rejected(s *plan.Stmt) string {
	var b builder.Builder
	if p := guard(func() { b = s.Build().Builder() }); p != nil {
		if p.Runtime {
			return "is rejected only by a Go runtime error: " + p.Text
		}
		return ""
	}
	return rejectedBuilder(b)
}

func rejectedBuilder(b builder.Builder) string {
	for _, x := range []struct {
		name string
		f    func() string
	}{
		{"Query", func() string { q, _ := b.Query(); return q }},
		{"NamedQuery", func() string { q, _ := b.NamedQuery(); return q }},
		{"String", b.String},
	} {
		var q string
		p := guard(func() { q = x.f() })
		if p == nil {
			return fmt.Sprintf("is accepted: %s renders %s", x.name, q)
		}
		if p.Runtime {
			return fmt.Sprintf("is rejected only by a Go runtime error in %s: %s", x.name, p.Text)
		}
	}
	return ""
}

func checkBad(c *badCase, r *Rec) string {
	r.NonTrivial = true
	r.Label("misuse " + c.What)
	r.Label("kind " + c.Bad.Kind)
	if c.Base != nil {
		o, p := buildAndRender(c.Base)
		if p != nil {
			return "a legitimate statement is rejected: " + p.String()
		}
		r.Detail["base"] = o.Q
	}
	if d := rejected(c.Bad); d != "" {
		return fmt.Sprintf("a statement with %s %s", c.What, d)
	}
	return ""
}

// describe tells the innermost kind of an empty condition.
func describe(e *plan.Expr) string {
	switch e.K {
	case "nilexpr":
		return "a nil condition"
	case "and", "or":
		return "an empty part in a combined condition"
	case "cmp", "in", "between", "null":
		return "a comparison of an empty identifier"
	}
	return "an empty condition"
}

func init() {
	add("C08", "grouping", 24000, 400000, gen.Cfg{Depth: 4, Weird: false, Big: true},
		"statements of deep condition trees in WHERE chains, HAVING and JOIN ON, parsed back; non-trivial: AND and OR are both present",
		(*gen.G).Conditions, func(s *plan.Stmt, r *Rec) string {
			r.Label("kind " + s.Kind)
			js := plan.JSON(s)
			has := func(k string) bool {
				return strings.Contains(js, `"k":"`+k+`"`) || strings.Contains(js, `"n":"`+k+`"`)
			}
			r.NonTrivial = has("or") && (has("and") || strings.Count(js, `"n":"where"`) > 1)
			r.LabelIf(has("join"), "join")
			r.LabelIf(has("having"), "having")
			s.EachExpr(func(e *plan.Expr) { r.Label("expr " + e.K) })
			return faithful(s, r)
		})
	add("C09", "present", 16000, 250000, gen.Cfg{Depth: 3, NoSub: true},
		"condition trees, of joins too, in which every atom names its own column; each must occur in each rendering exactly as often as it was given (once, or twice when a condition is repeated); non-trivial: at least 3 atoms",
		func(g *gen.G) *markCase { s, n := g.Marked(); return &markCase{s, n} },
		func(c *markCase, r *Rec) string {
			o, p := buildAndRender(c.S)
			if p != nil {
				return "a legitimate statement is rejected: " + p.String()
			}
			r.NonTrivial = c.N >= 3
			r.Detail["sql"] = o.Q
			r.Label("kind " + c.S.Kind)
			js := plan.JSON(c.S)
			r.LabelIf(strings.Count(js, `"mark`) > c.N, "a condition given twice")
			for _, q := range []string{o.Q, o.NQ, o.Raw} {
				for i := 0; i < c.N; i++ {
					k := fmt.Sprintf(`"mark%d"`, i)
					if n, m := strings.Count(q, k), strings.Count(js, k); n != m {
						return fmt.Sprintf("condition %s occurs %d times, given %d times\n  sql: %s", k, n, m, q)
					}
				}
			}
			return ""
		})
	add("C09", "empty", 12000, 200000, gen.Cfg{Depth: 1, Weird: true},
		"legitimate statements plus one nil or empty condition, alone or nested in a combination, at a random WHERE/AND/OR/HAVING call; every case is non-trivial",
		func(g *gen.G) *badCase {
			base := g.Conditions()
			bad := base.Clone()
			e := g.Nothing()
			c := &badCase{Base: base, Bad: bad, What: describe(e)}
			var at []int
			chain := -1
			for i := range bad.Ops {
				if bad.Ops[i].E != nil {
					at = append(at, i)
					if bad.Ops[i].N != "having" {
						chain = i
					}
				}
			}
			if chain >= 0 && g.Coin() { // one more call, after a random member of the chain
				var pos []int
				for _, i := range at {
					if bad.Ops[i].N != "having" {
						pos = append(pos, i)
					}
				}
				i := gen.Pick(g, pos)
				op := plan.Op{N: gen.Pick(g, []string{"where", "and", "or"}), E: e}
				bad.Ops = append(bad.Ops[:i+1:i+1], append([]plan.Op{op}, bad.Ops[i+1:]...)...)
				return c
			}
			bad.Ops[gen.Pick(g, at)].E = e
			return c
		}, checkBad)
}

type markCase struct {
	S *plan.Stmt
	N int
}

// clauseCase is a WHERE or HAVING clause object and what is appended to it.
type clauseCase struct {
	Having bool      `json:"having"`
	Ops    []plan.Op `json:"ops"` // where, and, or
}

// writeClause writes a clause object that is made and extended by its own methods.
func writeClause(ctx types.Context, having bool, ops []plan.Op) {
	if having {
		h := stmt.NewHaving(ops[0].E.Expression())
		for _, o := range ops[1:] {
			if o.N == "or" {
				h = h.Or(o.E.Expression())
			} else {
				h = h.And(o.E.Expression())
			}
		}
		h.Write(ctx)
		return
	}
	w := stmt.NewWhere(ops[0].E.Expression())
	for _, o := range ops[1:] {
		if o.N == "or" {
			w = w.Or(o.E.Expression())
		} else {
			w = w.And(o.E.Expression())
		}
	}
	w.Write(ctx)
}

func checkClause(c *clauseCase, r *Rec) string {
	ctx := &types.StdContext{}
	p := guard(func() {
		ctx.Write(`SELECT "x" FROM "t" `)
		writeClause(ctx, c.Having, c.Ops)
	})
	if p != nil {
		return "a legitimate clause is rejected: " + p.String()
	}
	want := c.Ops[0].E.N()
	kinds := map[string]bool{}
	for _, o := range c.Ops[1:] {
		k := o.N
		if k != "or" {
			k = "and"
		}
		kinds[k] = true
		want = pg.Logic(k, want, o.E.N())
	}
	r.NonTrivial = len(kinds) == 2
	r.LabelIf(c.Having, "having")
	r.LabelIf(len(c.Ops) > 4, "more than four")
	r.Detail["sql"] = ctx.Query()
	got, _, err := tree(ctx.Query(), ctx.Values())
	if err != nil {
		return fmt.Sprintf("the clause cannot be read: %v\n  sql: %s", err, ctx.Query())
	}
	for _, k := range got.K {
		if k.T == "where" && !c.Having || k.T == "having" && c.Having {
			if d := pg.Diff(want, k.K[0]); d != "" {
				return fmt.Sprintf("the clause is another one: %s\n  sql: %s", d, ctx.Query())
			}
			return ""
		}
	}
	return "the clause is missing: " + ctx.Query()
}

func init() {
	add("C08", "clauses", 8000, 120000, gen.Cfg{Depth: 2},
		"WHERE and HAVING clause objects with conditions appended by their And and Or methods, parsed back; non-trivial: both AND and OR are appended",
		func(g *gen.G) *clauseCase {
			return &clauseCase{Having: g.Coin(), Ops: g.Where(g.In(1, 6))}
		}, checkClause)
}
