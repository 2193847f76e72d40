package main

import (
	"strings"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C16: the order in which clauses are called does not matter.

type orderCase struct {
	A, B *plan.Stmt // B makes the calls of A in another order
}

// lane names the clause a call adds to. Calls of one lane keep their order.
func lane(kind string, o plan.Op) string {
	switch o.N {
	case "where", "and", "or":
		return "where"
	case "set", "setcols":
		return "set"
	case "using":
		if kind == "update" {
			return "set"
		}
	}
	return o.N
}

func lanes(s *plan.Stmt) [][]plan.Op {
	idx := map[string]int{}
	var out [][]plan.Op
	for _, o := range s.Ops[1:] {
		l := lane(s.Kind, o)
		if _, ok := idx[l]; !ok {
			idx[l] = len(out)
			out = append(out, nil)
		}
		out[idx[l]] = append(out[idx[l]], o)
	}
	return out
}

func reorder(g *gen.G, s *plan.Stmt) *plan.Stmt {
	ls := lanes(s)
	return &plan.Stmt{Kind: s.Kind, Ops: append([]plan.Op{s.Ops[0]}, g.Shuffle(ls)...)}
}

// dense draws a statement of at least n clauses.
func dense(g *gen.G, n int) *plan.Stmt {
	var s *plan.Stmt
	for i := 0; i < 20; i++ {
		s = g.Any()
		if len(lanes(s)) >= n {
			return s
		}
	}
	return s
}

func init() {
	add("C16", "order", 16000, 300000, gen.Cfg{Depth: 1, Comments: true, Both: true},
		"statements of random clauses, built twice with the clause calls interleaved at random (calls to one clause keep their order); the renderings must be identical and parse to the statement; non-trivial: at least 3 clauses in another order",
		func(g *gen.G) *orderCase {
			a := dense(g, g.In(2, 7))
			return &orderCase{a, reorder(g, a)}
		},
		func(c *orderCase, r *Rec) string {
			a, p := buildAndRender(c.A)
			if p != nil {
				return "a legitimate statement is rejected: " + p.String()
			}
			b, p := buildAndRender(c.B)
			if p != nil {
				return "the same calls in another order are rejected: " + p.String()
			}
			classify(c.A, r)
			r.Detail["sql"] = a.Q
			r.NonTrivial = len(lanes(c.A)) >= 3 && plan.JSON(c.A) != plan.JSON(c.B)
			if d := sameOut(a, b); d != "" {
				return "the order of clause calls matters: " + d
			}
			if strings.Contains(plan.JSON(c.A), `"distincton"`) {
				return "" // with DISTINCT, no statement of the grammar
			}
			return sameMeaning(c.A.N(), b)
		})
}
