package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C24: Go values become the documented arguments, or are rejected.

type valueCase struct {
	S *plan.Stmt
	N int // values replaced
}

// free lists the values of a statement that may be of any supported kind: not
// those handed over in a typed slice or already made an expression.
func free(s *plan.Stmt) []*plan.Expr {
	typed := homogeneous(s)
	s.EachStmt(func(q *plan.Stmt) {
		for i := range q.Ops {
			if o := &q.Ops[i]; o.N == "values" && (o.F == 5 || o.F == 6) {
				for _, r := range o.Rows {
					for _, e := range r {
						typed[e] = true
					}
				}
			}
		}
	})
	s.EachExpr(func(e *plan.Expr) {
		if e.K == "in" && e.F == 3 {
			for _, x := range e.X[1:] {
				typed[x] = true
			}
		}
	})
	var out []*plan.Expr
	s.EachExpr(func(e *plan.Expr) {
		if e.K == "val" && !typed[e] {
			out = append(out, e)
		}
	})
	return out
}

// valued draws a statement holding at least one free value.
func valued(g *gen.G) (*plan.Stmt, []*plan.Expr) {
	for {
		s := g.Any()
		if e := free(s); len(e) > 0 {
			return s, e
		}
	}
}

func init() {
	add("C24", "values", 24000, 400000, gen.Cfg{Depth: 1, NoRaw: true, Wild: true},
		"random statements whose values, wherever the type is free (comparisons, IN and BETWEEN, SET pairs and maps, VALUES rows, conflict updates, Using), are drawn evenly over every supported kind of Go value, types with several conversions included; the arguments must be the documented conversions, nil must be NULL; non-trivial: at least one value",
		func(g *gen.G) *valueCase {
			s, es := valued(g)
			for _, e := range es {
				v := g.ValOf(gen.Pick(g, gen.AllKinds))
				e.V = &v
			}
			return &valueCase{s, len(es)}
		},
		func(c *valueCase, r *Rec) string {
			classify(c.S, r)
			r.NonTrivial = c.N > 0
			r.Count("values", c.N)
			return faithful(c.S, r)
		})
	add("C24", "unsupported", 16000, 250000, gen.Cfg{Depth: 1, NoRaw: true},
		"random statements in which one value, at a random position, is of a kind loukoum has no conversion for (structs, pointers, channels, functions, other maps, slices and arrays, complex numbers, named types without methods, builders other than SELECT...); it must be rejected; every case is non-trivial",
		func(g *gen.G) *badCase {
			base, es := valued(g)
			bad := base.Clone()
			kind := gen.Pick(g, plan.Bad)
			v := plan.Val{K: kind, I: int64(g.N(100)), S: plan.Str(g.Text())}
			i := g.N(len(es))
			free(bad)[i].V = &v
			return &badCase{Base: base, Bad: bad, What: kind}
		},
		func(c *badCase, r *Rec) string {
			if d := checkBad(c, r); d != "" {
				return fmt.Sprintf("a value of kind %s: %s", c.What, d)
			}
			return ""
		})
}
