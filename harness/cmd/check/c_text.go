package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C01: values never influence the SQL text. C02: placeholders and arguments
// agree. C03: the three renderings agree.

type pairCase struct {
	A, B *plan.Stmt
}

// homogeneous lists the value expressions whose Go type is forced by how they
// are handed over (typed slices), by pointer.
func homogeneous(s *plan.Stmt) map[*plan.Expr]bool {
	typed := map[*plan.Expr]bool{}
	s.EachStmt(func(q *plan.Stmt) {
		for i := range q.Ops {
			o := &q.Ops[i]
			if o.N == "values" {
				for _, r := range o.Rows {
					for _, e := range r {
						if o.F == 2 || o.F == 4 || o.F == 0 && len(r) == 1 {
							typed[e] = true
						}
					}
				}
			}
		}
	})
	s.EachExpr(func(e *plan.Expr) {
		if e.K == "in" && (e.F == 2 || e.F == 0 && len(e.X) == 2) {
			for _, x := range e.X[1:] {
				typed[x] = true
			}
		}
	})
	return typed
}

// revalue replaces every bound value by another, keeping NULLs.
func revalue(g *gen.G, s *plan.Stmt) *plan.Stmt {
	out := s.Clone()
	typed := homogeneous(out)
	out.EachExpr(func(e *plan.Expr) {
		if e.V == nil || e.K != "val" && e.K != "value" {
			return
		}
		if e.V.Go() == nil || e.K == "val" && e.V.Bound() == nil {
			return
		}
		if typed[e] {
			n := len(e.V.L)
			v := g.ValOf(e.V.K)
			if e.V.Slice() { // spread: its length is part of the shape
				for len(v.L) < n {
					v.L = append(v.L, g.ValOf(e.V.K[:len(e.V.K)-1]))
				}
				v.L = v.L[:n]
			}
			e.V = &v
			return
		}
		for {
			v := g.Val()
			if v.Go() == nil || e.K == "val" && v.Bound() == nil || e.K == "value" && v.K == "nilptime" {
				continue
			}
			e.V = &v
			return
		}
	})
	return out
}

// equalize makes most values of the statement the same.
func equalize(g *gen.G, s *plan.Stmt) {
	kind := gen.Pick(g, []string{"int", "int64", "string", "bool", "float64", "uint8", "time"})
	one := map[string]plan.Val{}
	same := func(kind string) plan.Val {
		if _, ok := one[kind]; !ok {
			one[kind] = g.ValOf(kind)
		}
		return one[kind]
	}
	typed := homogeneous(s)
	s.EachExpr(func(e *plan.Expr) {
		if e.V == nil || e.K != "val" && e.K != "value" || e.V.Go() == nil || e.K == "val" && e.V.Bound() == nil || g.OneIn(8) {
			return
		}
		switch {
		case e.V.Slice():
			v := *e.V
			v.L = append([]plan.Val{}, v.L...)
			for i := range v.L {
				v.L[i] = v.L[0]
			}
			e.V = &v
		case typed[e]:
			if v := same(e.V.K); v.Go() != nil && v.Bound() != nil {
				e.V = &v
			}
		default:
			v := same(kind)
			e.V = &v
		}
	})
}

func sameText(c *pairCase, r *Rec) string {
	a, p := buildAndRender(c.A)
	if p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	b, p := buildAndRender(c.B)
	if p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	classify(c.A, r)
	r.Detail["sql"] = a.Q
	want := len(wantArgs(c.A.N()))
	r.NonTrivial = want > 0 && plan.JSON(c.A) != plan.JSON(c.B)
	r.Count("values", want)
	if a.Q != b.Q {
		return fmt.Sprintf("the Query text depends on the values\n  %s\n  %s", a.Q, b.Q)
	}
	if a.NQ != b.NQ {
		return fmt.Sprintf("the NamedQuery text depends on the values\n  %s\n  %s", a.NQ, b.NQ)
	}
	if len(a.Args) != want || len(a.NArgs) != want {
		return fmt.Sprintf("%d values other than NULL, but %d arguments in Query and %d in NamedQuery\n  sql: %s", want, len(a.Args), len(a.NArgs), a.Q)
	}
	return ""
}

func argsAgree(s *plan.Stmt, r *Rec) string {
	o, p := buildAndRender(s)
	if p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	classify(s, r)
	r.Detail["sql"] = o.Q
	want := wantArgs(s.N())
	r.NonTrivial = len(want) >= 2
	r.LabelIf(len(want) >= 10, "10 arguments or more")
	r.LabelIf(len(want) >= 100, "100 arguments or more")
	if d := numbered(o); d != "" {
		return d
	}
	if len(want) != len(o.Args) {
		return fmt.Sprintf("%d arguments for %d values\n  sql: %s", len(o.Args), len(want), o.Q)
	}
	for i := range want {
		if k := plan.Key(o.Args[i]); k != want[i] {
			return fmt.Sprintf("argument %d is %s, not the value given, %s\n  sql: %s", i+1, k, want[i], o.Q)
		}
	}
	return ""
}

func init() {
	cfg := gen.Cfg{Depth: 2, Weird: false, Big: true, Wild: true}
	add("C01", "values", 16000, 250000, cfg,
		"random statements of every kind, rendered with two independent sets of bound values; non-trivial: at least one value is bound and the sets differ",
		func(g *gen.G) *pairCase {
			s := g.Any()
			if g.OneIn(4) {
				equalize(g, s)
			}
			return &pairCase{s, revalue(g, s)}
		}, sameText)
	add("C02", "arguments", 16000, 250000, cfg,
		"random statements of every kind; placeholders must be numbered 1..n in reading order and carry the given values; non-trivial: at least 2 bound values",
		func(g *gen.G) *plan.Stmt { return g.Any() }, argsAgree)
	add("C02", "many", 600, 12000, gen.Cfg{Depth: 1, Big: true},
		"statements binding long IN lists or many rows; non-trivial: at least 2 bound values",
		func(g *gen.G) *plan.Stmt {
			n := gen.Pick(g, []int{9, 10, 11, 30, 99, 100, 101, 150, 255, 256, 257, 999, 1000, 1001})
			if g.OneIn(6) {
				n = gen.Pick(g, []int{1500, 4095, 4097})
			}
			if g.OneIn(60) {
				n = gen.Pick(g, []int{9999, 10001, 32767, 32769, 65535, 65536, 65537})
			}
			if g.Coin() {
				return g.BigIn(n)
			}
			return g.BigValues(n)
		}, argsAgree)
	full := gen.Cfg{Depth: 2, Weird: true, Big: true, Comments: true, Wild: true}
	add("C03", "renderings", 16000, 250000, full,
		"random statements of every kind, with comments, rendered in the three forms; non-trivial: at least one bound value",
		func(g *gen.G) *plan.Stmt { return g.Any() },
		func(s *plan.Stmt, r *Rec) string {
			o, p := buildAndRender(s)
			if p != nil {
				return "a legitimate statement is rejected: " + p.String()
			}
			classify(s, r)
			r.Detail["sql"] = o.Q
			r.NonTrivial = len(o.Args) > 0
			return agree(o)
		})
}
