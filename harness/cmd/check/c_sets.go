package main

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C13: assignments keep one value per column, the last one given, in an order
// that depends on nothing but the names.

type setCase struct {
	A *plan.Stmt // calls as drawn
	B *plan.Stmt // the same mapping given otherwise
}

func names(g *gen.G, n int) []plan.Ident {
	var ids []plan.Ident
	seen := map[string]bool{}
	// Related names: prefixes, case, digits, dots.
	base := []string{"a", "A", "aa", "a1", "a10", "a2", "a_", "ab", "b", "B", "_a", "Z", "z", "a.b", "a.B", "ab.c", "b.a", "a b", "é", "e", "ê", "zz", "1", "10", "2", "a-b", "a!"}
	// Names that share a long beginning, or a long end.
	stem, tail := "", false
	if g.OneIn(5) {
		unit := gen.Pick(g, []string{"x", "ab", "long_name_", "é"})
		stem = strings.Repeat(unit, 1+gen.Pick(g, []int{3, 7, 15, 16, 31, 32, 63, 64, 127, 255, 300})/len(unit))
		tail = g.OneIn(4)
	}
	for len(ids) < n {
		var id plan.Ident
		if stem != "" && g.N(5) > 0 {
			w := gen.Pick(g, base[:8]) + gen.Pick(g, []string{"", "", "0", "1", "_"})
			if tail {
				w += stem
			} else {
				w = stem + w
			}
			id = plan.Ident{P: []plan.Str{plan.Str(w)}}
		} else if g.Coin() {
			s := gen.Pick(g, base)
			id = plan.Ident{}
			for _, p := range splitDots(s) {
				id.P = append(id.P, plan.Str(p))
			}
		} else {
			id = g.Ident()
		}
		for seen[id.Name()] {
			id.P = append([]plan.Str{}, id.P...)
			id.P[len(id.P)-1] += plan.Str(fmt.Sprint(len(ids)))
		}
		seen[id.Name()] = true
		ids = append(ids, id)
	}
	return ids
}

func splitDots(s string) []string {
	var out []string
	last := 0
	for i := range s {
		if s[i] == '.' {
			out = append(out, s[last:i])
			last = i + 1
		}
	}
	return append(out, s[last:])
}

// reId draws how the name is passed.
func reId(g *gen.G, id plan.Ident) plan.Ident {
	id.F = g.N(4)
	if n := id.Name(); len(n) > 0 && (n[0] == ' ' || n[len(n)-1] == ' ') {
		id.F = 1
	}
	return id
}

// setOps gives the assignments in calls: each call takes pairs, a map, or
// both; a map names a column once.
func setOps(g *gen.G, ps []plan.Pair, calls int) []plan.Op {
	var ops []plan.Op
	for len(ps) > 0 {
		n := len(ps)
		if calls > 1 && len(ps) > 1 {
			n = g.In(1, len(ps))
		}
		part := ps[:n]
		ps = ps[n:]
		calls--
		if calls == 1 && len(ps) > 0 {
			part = append(append([]plan.Pair{}, part...), ps...)
			ps = nil
		}
		f := g.N(6)
		maps := [][]plan.Pair{part} // pairs in a map
		h, k := plan.MapPart(len(part))
		switch f {
		case 0:
			maps = nil
		case 3:
			maps[0] = part[:len(part)/2]
		case 4:
			maps[0] = part[h:k]
		case 5:
			maps = [][]plan.Pair{part[h:k], part[k:]}
		}
		for _, m := range maps { // a map names a column once
			seen := map[string]bool{}
			for _, p := range m {
				if seen[p.Id.Name()] {
					f = 0
				}
				seen[p.Id.Name()] = true
			}
		}
		ops = append(ops, plan.Op{N: "set", Pairs: part, F: f})
	}
	return ops
}

func setStmt(g *gen.G, what string, ps []plan.Pair) *plan.Stmt {
	t := []plan.Table{tableOf("t")}
	switch what {
	case "insert":
		ops := setOps(g, ps, 1)
		return &plan.Stmt{Kind: "insert", Ops: append([]plan.Op{{N: "insert", Tables: t}}, ops...)}
	case "conflict":
		o := setOps(g, ps, 1)[0]
		o.N, o.Ids = "onconflict", []plan.Ident{bare("id")}
		return &plan.Stmt{Kind: "insert", Ops: []plan.Op{{N: "insert", Tables: t}, {N: "set", Pairs: []plan.Pair{{Id: bare("id"), E: intE(1)}}}, o}}
	}
	ops := setOps(g, ps, g.In(1, 5))
	return &plan.Stmt{Kind: "update", Ops: append([]plan.Op{{N: "update", Tables: t}}, ops...)}
}

func genSets(g *gen.G) *setCase {
	n := g.In(1, 6)
	if g.OneIn(6) {
		n = g.In(7, 60)
	}
	ids := names(g, n)
	var ps []plan.Pair
	for _, id := range ids {
		ps = append(ps, plan.Pair{Id: reId(g, id), E: g.SetValue()})
	}
	// earlier assignments that are overwritten
	var first []plan.Pair
	for i := g.In(0, 4); i > 0; i-- {
		first = append(first, plan.Pair{Id: reId(g, gen.Pick(g, ids)), E: g.SetValue()})
	}
	what := gen.Pick(g, []string{"update", "update", "insert", "conflict"})
	shuffled := make([]plan.Pair, 0, n)
	for _, i := range g.Perm(n) {
		p := ps[i]
		p.Id = reId(g, p.Id)
		shuffled = append(shuffled, p)
	}
	// A later assignment may come between: keep relative order only per column.
	all := append([]plan.Pair{}, first...)
	all = append(all, ps...)
	return &setCase{A: setStmt(g, what, all), B: setStmt(g, what, shuffled)}
}

func checkSets(c *setCase, r *Rec) string {
	a, p := buildAndRender(c.A)
	if p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	b, p := buildAndRender(c.B)
	if p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	r.Label("kind " + c.A.Kind)
	cols, calls := map[string]int{}, 0
	for _, o := range c.A.Ops {
		if len(o.Pairs) > 0 {
			calls++
			r.Label(fmt.Sprintf("form %d", o.F))
		}
		for _, p := range o.Pairs {
			cols[p.Id.Name()]++
		}
	}
	over := 0
	for _, n := range cols {
		if n > 1 {
			over++
		}
	}
	r.LabelIf(over > 0, "overwritten column")
	r.LabelIf(calls > 1, "several calls")
	r.LabelIf(len(cols) > 8, "more than 8 columns")
	r.NonTrivial = len(cols) > 1
	r.Detail["sql"] = a.Q
	if d := sameMeaning(c.A.N(), a); d != "" {
		return d
	}
	if d := sameOut(a, b); d != "" {
		return "the same assignments given in another order or form: " + d
	}
	for i := 0; i < 3; i++ {
		again, p := buildAndRender(c.A)
		if p != nil {
			return "building the statement again: " + p.String()
		}
		if d := sameOut(a, again); d != "" {
			return "building the statement again: " + d
		}
	}
	return ""
}

func init() {
	f := add("C13", "assignments", 12000, 200000, gen.Cfg{Depth: 1},
		"assignments with close names and overwritten columns, split over Set calls as pairs and maps (INSERT, UPDATE, DO UPDATE), against last-write-wins, against the same mapping in another order and form, and against rebuilds; non-trivial: at least 2 columns",
		genSets, checkSets)
	f.Repeat = 20
}
