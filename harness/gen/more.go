package gen

import (
	"strconv"

	"verif/harness/plan"
)

// chain draws a WHERE chain of n calls.
func (g *G) chain(n int) []plan.Op {
	var ops []plan.Op
	for i := 0; i < n; i++ {
		name := "where"
		if i > 0 {
			name = Pick(g, []string{"and", "or", "or", "where"})
		}
		ops = append(ops, plan.Op{N: name, E: g.tree(g.Cfg.Depth)})
	}
	return ops
}

// tree draws a boolean combination, all shapes alike.
func (g *G) tree(depth int) *plan.Expr {
	if depth <= 0 || g.N(3) == 0 {
		c := *g
		c.Cfg.Depth = 0
		if g.OneIn(12) {
			c.Cfg.Depth = 1
		}
		e := c.Cond()
		g.sync(&c)
		return e
	}
	l := g.tree(depth - 1)
	var r *plan.Expr
	if g.OneIn(20) {
		r = l.Clone()
	} else {
		r = g.tree(depth - 1)
	}
	return &plan.Expr{K: Pick(g, []string{"and", "or"}), F: g.N(2), X: []*plan.Expr{l, r}}
}

// Conditions draws a statement that is mostly conditions.
func (g *G) Conditions() *plan.Stmt {
	n := g.Weighted(1, 4, 4, 3, 2, 2, 1)
	if g.OneIn(12) {
		n = g.In(7, 24)
	}
	t := g.Table(false)
	if g.Cfg.Depth > 2 && n > 4 {
		c := *g
		c.Cfg.Depth = 2
		s := c.conditions(n, t)
		g.sync(&c)
		return s
	}
	return g.conditions(n, t)
}

func (g *G) conditions(n int, t plan.Table) *plan.Stmt {
	switch g.Weighted(4, 2, 2) {
	case 1:
		p, f := g.Pairs(1, 1, false)
		ops := []plan.Op{{N: "update", Tables: []plan.Table{t}}, {N: "set", Pairs: p, F: f}}
		return &plan.Stmt{Kind: "update", Ops: append(ops, g.chain(max(n, 1))...)}
	case 2:
		ops := []plan.Op{{N: "delete", Tables: []plan.Table{t}}}
		return &plan.Stmt{Kind: "delete", Ops: append(ops, g.chain(max(n, 1))...)}
	}
	id := g.Ident()
	ops := []plan.Op{{N: "select", Targets: []plan.Target{{K: "col", Id: &id}}}, {N: "from", Tables: []plan.Table{t}}}
	if g.OneIn(4) {
		for i := g.In(1, 2); i > 0; i-- {
			f := Pick(g, []int{0, 3})
			ops = append(ops, plan.Op{N: "join", Join: &plan.Join{F: f, Type: Pick(g, joinTypes), Table: g.Table(false), On: g.on(4)}})
			if j := ops[len(ops)-1].Join; f == 3 && g.Coin() {
				j.On = &plan.On{K: "cond", E: g.tree(3)}
			}
		}
	}
	ops = append(ops, g.chain(n)...)
	if n == 0 || g.OneIn(3) {
		ops = append(ops, plan.Op{N: "having", E: g.tree(g.Cfg.Depth)})
	}
	return &plan.Stmt{Kind: "select", Ops: ops}
}

// Marked draws conditions whose every atom names its own column, mark0, mark1...; some
// conditions are given twice.
func (g *G) Marked() (*plan.Stmt, int) {
	s := g.Conditions()
	n := 0
	var seen []*plan.Expr
	for i := range s.Ops {
		if j := s.Ops[i].Join; j != nil {
			g.markOn(j.On, &n)
		}
		if s.Ops[i].E != nil {
			if len(seen) > 0 && g.OneIn(8) { // a condition given twice is there twice
				s.Ops[i].E = Pick(g, seen).Clone()
				continue
			}
			seen = append(seen, s.Ops[i].E)
			g.mark(s.Ops[i].E, &n)
		}
	}
	return s, n
}

// markOn marks the columns of a join condition; some compare a column with itself.
func (g *G) markOn(on *plan.On, n *int) {
	switch on.K {
	case "cond":
		g.mark(on.E, n)
		return
	case "on":
		next := func() *plan.Ident {
			*n++
			return &plan.Ident{P: []plan.Str{plan.Str("mark" + strconv.Itoa(*n-1))}}
		}
		on.L = next()
		if on.R = on.L; !g.OneIn(5) {
			on.R = next()
		}
		return
	}
	for _, x := range on.X {
		g.markOn(x, n)
	}
}

func (g *G) mark(e *plan.Expr, n *int) {
	if e.K == "and" || e.K == "or" {
		g.mark(e.X[0], n)
		if g.OneIn(8) {
			e.X[1] = e.X[0].Clone()
			return
		}
		g.mark(e.X[1], n)
		return
	}
	id := &plan.Ident{P: []plan.Str{plan.Str("mark" + strconv.Itoa(*n))}}
	*n++
	switch e.K {
	case "cmp", "null", "in", "between":
		if e.X[0].K == "ident" || e.X[0].K == "rawident" {
			e.X[0] = &plan.Expr{K: "ident", Id: id}
			return
		}
	}
	*e = plan.Expr{K: "ident", Id: id}
}

// Nothing draws a condition that is nil or has nothing in it.
func (g *G) Nothing() *plan.Expr {
	empty := &plan.Expr{K: "ident", Id: &plan.Ident{P: []plan.Str{""}}}
	switch g.N(15) {
	case 14:
		return &plan.Expr{K: "noop", F: g.N(2), X: []*plan.Expr{g.tree(1), g.tree(1)}}
	case 12: // the other operand is missing
		e := &plan.Expr{K: "cmp", Op: Pick(g, identOps), X: []*plan.Expr{g.lhsIdent(), g.missing(empty)}}
		if g.OneIn(3) {
			e.Op, e.X[0] = Pick(g, callOps), g.call()
		}
		return e
	case 13:
		x := []*plan.Expr{g.Arg(), g.missing(empty)}
		if g.Coin() {
			x[0], x[1] = x[1], x[0]
		}
		return &plan.Expr{K: "between", Op: Pick(g, []string{"between", "notbetween"}), X: append([]*plan.Expr{g.lhsIdent()}, x...)}
	case 0:
		return &plan.Expr{K: "nilexpr"}
	case 1:
		return empty
	case 2:
		return &plan.Expr{K: "raw", S: ""}
	case 3:
		return &plan.Expr{K: "rawident", S: ""}
	case 4:
		return &plan.Expr{K: "emptysel"}
	case 5:
		v := Pick(g, []plan.Val{{K: "nil"}, {K: "int", I: 3}, {K: "bool"}, {K: "float64"}, {K: "strings"}})
		return &plan.Expr{K: "badident", V: &v}
	case 6:
		return &plan.Expr{K: "cmp", Op: Pick(g, identOps), X: []*plan.Expr{empty, g.Arg()}}
	case 7:
		e := &plan.Expr{K: "in", Op: Pick(g, []string{"in", "notin"}), X: []*plan.Expr{empty}}
		g.list(e, g.In(1, 3))
		return e
	case 8:
		return &plan.Expr{K: "between", Op: Pick(g, []string{"between", "notbetween"}), X: []*plan.Expr{empty, g.Arg(), g.Arg()}}
	case 9:
		return &plan.Expr{K: "null", Op: Pick(g, []string{"null", "notnull"}), F: g.N(2), X: []*plan.Expr{empty}}
	default:
		x := []*plan.Expr{g.tree(1), g.Nothing()}
		if g.Coin() {
			x[0], x[1] = x[1], x[0]
		}
		return &plan.Expr{K: Pick(g, []string{"and", "or"}), F: g.N(2), X: x}
	}
}

// missing is an operand with nothing in it.
func (g *G) missing(empty *plan.Expr) *plan.Expr {
	return Pick(g, []*plan.Expr{empty, {K: "raw", S: ""}, {K: "rawident", S: ""}, {K: "emptysel"}})
}

// JoinText draws a join whose condition, and unless cond its table too, are
// given as a string.
func (g *G) JoinText(cond bool) *plan.Join {
	if cond {
		return g.join(1)
	}
	return g.join(2)
}

// Keyword writes a key word in some case.
func Keyword(g *G, w string) string { return g.kw(w) }

// Has reports whether x is one of xs.
func Has[T comparable](xs []T, x T) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// Shuffled permutes expressions.
func (g *G) Shuffled(xs ...*plan.Expr) []*plan.Expr {
	out := make([]*plan.Expr, len(xs))
	for i, j := range g.Perm(len(xs)) {
		out[i] = xs[j]
	}
	return out
}
