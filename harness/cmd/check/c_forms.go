package main

import (
	"verif/harness/gen"
	"verif/harness/plan"
)

// C19: every documented form of an argument makes the same statement.

type formCase struct {
	A, B *plan.Stmt // B is A in other forms
}

func init() {
	add("C19", "forms", 20000, 400000, gen.Cfg{Depth: 2, Weird: true, Big: true},
		"statements built twice, the second time with each argument in another documented form (names or objects, lists or one by one, maps or pairs, strings or objects, builders or statements, one call or several); both must be the same statement with the same arguments; non-trivial: at least 2 clauses and another form",
		func(g *gen.G) *formCase {
			a := g.Any()
			return &formCase{a, g.Reform(a)}
		},
		checkForms)
	add("C19", "large", 1000, 16000, gen.Cfg{Depth: 1},
		largeRule+"built twice, the second time in other forms; every case is non-trivial",
		func(g *gen.G) *formCase {
			a, _ := g.LargeAny()
			return &formCase{a, g.Reform(a)}
		},
		func(c *formCase, r *Rec) string {
			d := checkForms(c, r)
			delete(r.Detail, "sql")
			r.NonTrivial = true
			return d
		})
}

func checkForms(c *formCase, r *Rec) string {
	a, p := buildAndRender(c.A)
	if p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	b, p := buildAndRender(c.B)
	if p != nil {
		return "another form of the same statement is rejected: " + p.String()
	}
	classify(c.B, r)
	r.NonTrivial = len(c.A.Ops) >= 2 && plan.JSON(c.A) != plan.JSON(c.B)
	r.Detail["sql"] = a.Q
	want := c.A.N()
	if d := sameMeaning(want, a); d != "" {
		return d
	}
	if d := sameMeaning(want, b); d != "" {
		return "in another form: " + d
	}
	if d := agree(b); d != "" {
		return "in another form: " + d
	}
	return numbered(b)
}
