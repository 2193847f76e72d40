package main

import (
	"verif/harness/gen"
	"verif/harness/plan"
)

// C04..C07: each kind of statement means what the calls said.

func fidelity(prop, name string, quick, thorough int, cfg gen.Cfg, g func(*gen.G) *plan.Stmt) {
	add(prop, name, quick, thorough, cfg,
		"random builder call sequences, parsed back and compared with the model's tree; non-trivial: at least 3 builder calls",
		g, func(s *plan.Stmt, r *Rec) string {
			r.NonTrivial = classify(s, r) >= 3
			return faithful(s, r)
		})
}

func init() {
	fidelity("C04", "select", 24000, 400000, gen.Cfg{Depth: 2, Weird: true, Big: true}, func(g *gen.G) *plan.Stmt { return g.Select(false) })
	fidelity("C05", "insert", 24000, 400000, gen.Cfg{Depth: 1, Weird: true, Big: true}, (*gen.G).Insert)
	fidelity("C06", "update", 24000, 400000, gen.Cfg{Depth: 1, Weird: true, Big: true}, (*gen.G).Update)
	fidelity("C07", "delete", 24000, 400000, gen.Cfg{Depth: 2, Weird: true, Big: true}, (*gen.G).Delete)
}
