package main

import (
	"verif/harness/gen"
	"verif/harness/plan"
)

// Statements that are large in one dimension: what holds for ordinary sizes
// must hold beyond spare capacities, digits and buffers.

type largeCase struct {
	What string
	S    *plan.Stmt
}

const largeRule = "statements of one large dimension (up to 2049 columns, conditions, rows, values, assignments; hundreds of joins, tables, with queries, levels of conditions; up to 100 nested subqueries; names and texts up to 65537 bytes); "

func large(prop string, quick, thorough int, rule, kind string, whats []string, check func(*plan.Stmt, *Rec) string) {
	add(prop, "large", quick, thorough, gen.Cfg{Depth: 1},
		largeRule+rule+"; every case is non-trivial",
		func(g *gen.G) *largeCase {
			c := &largeCase{}
			for {
				if kind != "" {
					c.S, c.What = g.Large(kind)
				} else {
					c.S, c.What = g.LargeAny()
				}
				if prop == "C17" {
					literalOnly(g, c.S)
				}
				if whats == nil || gen.Has(whats, c.What) {
					return c
				}
			}
		},
		func(c *largeCase, r *Rec) string {
			d := check(c.S, r)
			r.Label("large " + c.What)
			delete(r.Detail, "sql")
			r.NonTrivial = true
			return d
		})
}

func init() {
	large("C02", 1200, 20000, "placeholders must be numbered 1..n in reading order and carry the given values", "", nil, argsAgree)
	large("C03", 1200, 20000, "rendered in the three forms", "", nil, func(s *plan.Stmt, r *Rec) string {
		o, p := buildAndRender(s)
		if p != nil {
			return "a legitimate statement is rejected: " + p.String()
		}
		return agree(o)
	})
	for _, x := range []struct{ prop, kind string }{{"C04", "select"}, {"C05", "insert"}, {"C06", "update"}, {"C07", "delete"}} {
		large(x.prop, 1000, 16000, "parsed back and compared with the model's tree", x.kind, nil, faithful)
	}
	large("C08", 1200, 20000, "conditions only, parsed back", "", []string{"where", "condition", "having", "join condition", "join string"}, faithful)
	large("C10", 600, 8000, "names only, parsed back", "", []string{"name"}, faithful)
	large("C13", 1200, 20000, "assignments only, parsed back and compared with last-write-wins", "", []string{"pairs", "updates"}, faithful)
	large("C17", 1200, 20000, "rendered with the values inlined and parsed back", "", nil, checkInlined)
	large("C20", 800, 8000, "nested subqueries and with queries only, parsed back", "", []string{"nested", "with"}, faithful)
}
