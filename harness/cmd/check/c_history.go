package main

import (
	"fmt"

	"github.com/ulule/loukoum/v3/builder"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C11: builders are values. Forks, renderings and the caller's own later
// changes to its slices and maps leave every builder as it was.

type histStep struct {
	P    int      `json:"p"`              // pool index of the parent
	Op   *plan.Op `json:"op,omitempty"`   // derives a new builder
	Wrap string   `json:"wrap,omitempty"` // the parent becomes a subquery of a new builder
	R    int      `json:"r,omitempty"`    // only renders the parent: 1 Query 2 NamedQuery 3 String
}

type histCase struct {
	Kind  string     `json:"kind"`
	Share bool       `json:"share,omitempty"` // equal arguments are one object; otherwise they are overwritten after each call
	First plan.Op    `json:"first"`
	Steps []histStep `json:"steps"`
}

var wrapForms = []string{"in", "exists", "with", "set", "target", "between"}

func wrapped(form string, q *plan.Stmt) *plan.Stmt {
	c := bare("w")
	id := &plan.Expr{K: "ident", Id: &c}
	sub := &plan.Expr{K: "sub", Q: q}
	ops := []plan.Op{{N: "select", Targets: []plan.Target{{K: "col", Id: &c}}}, {N: "from", Tables: []plan.Table{tableOf("t")}}}
	switch form {
	case "in":
		ops = append(ops, plan.Op{N: "where", E: &plan.Expr{K: "in", Op: "in", X: []*plan.Expr{id, sub}}})
	case "exists":
		ops = append(ops, plan.Op{N: "where", E: &plan.Expr{K: "exists", Q: q}})
	case "with":
		ops = append(ops, plan.Op{N: "with", CTEs: []plan.CTE{{Name: "wq", Q: q}}})
	case "between":
		ops = append(ops, plan.Op{N: "where", E: &plan.Expr{K: "between", Op: "between", X: []*plan.Expr{id, sub, intE(1)}}})
	case "target":
		ops[0].Targets = append(ops[0].Targets, plan.Target{K: "exists", Q: q})
	case "set":
		return &plan.Stmt{Kind: "update", Ops: []plan.Op{{N: "update", Tables: []plan.Table{tableOf("t")}}, {N: "set", Pairs: []plan.Pair{{Id: c, E: sub}}}}}
	}
	return &plan.Stmt{Kind: "select", Ops: ops}
}

func (c *histCase) paths() []*plan.Stmt {
	ps := []*plan.Stmt{{Kind: c.Kind, Ops: []plan.Op{c.First}}}
	for _, s := range c.Steps {
		p := ps[s.P]
		switch {
		case s.Op != nil:
			ps = append(ps, &plan.Stmt{Kind: p.Kind, Ops: append(append([]plan.Op{}, p.Ops...), *s.Op)})
		case s.Wrap != "":
			ps = append(ps, wrapped(s.Wrap, p))
		}
	}
	return ps
}

// single are the calls a builder accepts once.
var single = map[string]bool{"distincton": true, "distinct": true, "from": true, "groupby": true, "having": true, "limit": true, "offset": true,
	"prefix": true, "suffix": true, "columns": true, "values": true, "onconflict": true, "returning": true}

func legal(path []plan.Op, o plan.Op, kind string) bool {
	for _, p := range path {
		if p.N == o.N && (single[o.N] || kind == "insert" && o.N == "set" || kind == "delete" && o.N == "using") {
			return false
		}
		switch o.N {
		case "set":
			if p.N == "setcols" || p.N == "columns" || p.N == "values" {
				return false
			}
		case "setcols", "columns", "values":
			if p.N == "set" {
				return false
			}
		case "distinct", "distincton":
			if p.N == "distinct" || p.N == "distincton" {
				return false
			}
		}
	}
	has := func(n string) bool {
		for _, p := range path {
			if p.N == n {
				return true
			}
		}
		return false
	}
	switch o.N {
	case "and", "or":
		return has("where")
	case "using":
		return kind == "delete" || has("setcols")
	}
	return true
}

// accumulating calls: each adds to what earlier calls of its kind gave.
func accumulate(g *gen.G, what string, i int) plan.Op {
	n := 1
	if g.OneIn(4) {
		n = g.In(2, 4)
	}
	switch what {
	case "join":
		return plan.Op{N: "join", Join: g.Join()}
	case "orderby":
		o := plan.Op{N: "orderby"}
		for j := 0; j < n; j++ {
			o.Orders = append(o.Orders, plan.Order{S: plan.Str(fmt.Sprintf("o%d_%d", i, j)), Dir: gen.Pick(g, []string{"", "ASC", "DESC"})})
		}
		return o
	case "with":
		o := plan.Op{N: "with"}
		for j := 0; j < n; j++ {
			q := &plan.Stmt{Kind: "select", Ops: []plan.Op{{N: "select"}, {N: "from", Tables: []plan.Table{tableOf(fmt.Sprintf("w%d_%d", i, j))}}}}
			o.CTEs = append(o.CTEs, plan.CTE{Name: plan.Str(fmt.Sprintf("c%d_%d", i, j)), Q: q, F: g.N(3)})
		}
		return o
	case "set":
		p, f := g.Pairs(n, n, false)
		return plan.Op{N: "set", Pairs: p, F: f}
	case "setcols", "using":
		o := plan.Op{N: what}
		for j := 0; j < n; j++ {
			if what == "using" {
				o.Es = append(o.Es, intE(int64(100*i+j)))
			} else {
				o.Ids = append(o.Ids, bare(fmt.Sprintf("s%d_%d", i, j)))
			}
		}
		return o
	}
	id := bare(fmt.Sprintf("k%d", i))
	return plan.Op{N: gen.Pick(g, []string{"where", "and", "or"}), E: &plan.Expr{K: "cmp", Op: "=", X: []*plan.Expr{{K: "ident", Id: &id}, intE(int64(i))}}}
}

// genForks draws histories where one accumulating call is made a number of
// times before its builder is forked by more calls of the same kind: where
// lists have spare capacity, copies that share memory overwrite each other.
func genForks(g *gen.G) *histCase {
	kind := gen.Pick(g, []string{"select", "select", "update", "update", "delete"})
	what := "where"
	switch kind {
	case "select":
		what = gen.Pick(g, []string{"join", "orderby", "with", "where"})
	case "update":
		what = gen.Pick(g, []string{"set", "setcols", "using", "with", "where"})
	}
	var base *plan.Stmt
	switch kind {
	case "select":
		base = &plan.Stmt{Kind: kind, Ops: []plan.Op{{N: "select"}, {N: "from", Tables: []plan.Table{tableOf("t")}}}}
	case "update":
		base = &plan.Stmt{Kind: kind, Ops: []plan.Op{{N: "update", Tables: []plan.Table{tableOf("t")}}}}
		if what != "set" && what != "setcols" {
			base.Ops = append(base.Ops, plan.Op{N: "setcols", Ids: []plan.Ident{bare("a")}})
		}
		if what != "set" {
			base.Ops = append(base.Ops, plan.Op{N: "using", Es: []*plan.Expr{intE(1)}})
		}
		if what == "setcols" {
			base.Ops[1] = plan.Op{N: "setcols", Ids: []plan.Ident{bare("a")}}
			base.Ops = append(base.Ops, plan.Op{N: "using", Es: []*plan.Expr{intE(1)}})
		}
	case "delete":
		base = &plan.Stmt{Kind: kind, Ops: []plan.Op{{N: "delete", Tables: []plan.Table{tableOf("t")}}}}
	}
	c := &histCase{Kind: kind, Share: g.Coin(), First: base.Ops[0]}
	last := 0
	n := 1 // builders so far
	push := func(p int, o plan.Op) int {
		c.Steps = append(c.Steps, histStep{P: p, Op: &o})
		n++
		return n - 1
	}
	for _, o := range base.Ops[1:] {
		last = push(last, o)
	}
	i := 0
	k := g.In(1, 9)
	if g.OneIn(12) {
		k = g.In(10, 40)
	}
	for ; k > 0; k-- {
		i++
		o := accumulate(g, what, i)
		if i == 1 && what == "where" {
			o.N = "where"
		}
		last = push(last, o)
	}
	fork := last
	heads := []int{}
	for k = g.In(2, 4); k > 0; k-- {
		i++
		heads = append(heads, push(fork, accumulate(g, what, i)))
		if g.OneIn(3) {
			c.Steps = append(c.Steps, histStep{P: gen.Pick(g, heads), R: g.In(1, 3)})
		}
		if g.Coin() {
			i++
			h := g.N(len(heads))
			heads[h] = push(heads[h], accumulate(g, what, i))
		}
	}
	return c
}

func genHistory(g *gen.G) *histCase {
	kind := gen.Pick(g, []string{"select", "select", "update", "insert", "delete"})
	make1 := func() *plan.Stmt {
		switch kind {
		case "insert":
			return g.Insert()
		case "update":
			return g.Update()
		case "delete":
			return g.Delete()
		}
		return g.Select(false)
	}
	base := make1()
	c := &histCase{Kind: kind, Share: g.Coin(), First: base.Ops[0]}
	var donors []plan.Op
	donors = append(donors, base.Ops[1:]...)
	for i := g.In(1, 4); i > 0; i-- {
		donors = append(donors, make1().Ops[1:]...)
	}
	// Calls that accumulate are where copies may share memory.
	for i := g.In(2, 6); i > 0; i-- {
		switch {
		case kind == "select" && g.N(3) == 0:
			donors = append(donors, plan.Op{N: "join", Join: g.Join()})
		case kind == "select" && g.N(3) == 0:
			donors = append(donors, plan.Op{N: "orderby", Orders: []plan.Order{{S: "o", Dir: "DESC"}, {S: "p"}}[:g.In(1, 2)]})
		case (kind == "select" || kind == "update") && g.Coin():
			donors = append(donors, plan.Op{N: "with", CTEs: []plan.CTE{{Name: plan.Str(fmt.Sprint("cte", i)), Q: g.Select(true)}}})
		case kind == "update":
			p, f := g.Pairs(1, 3, false)
			donors = append(donors, plan.Op{N: "set", Pairs: p, F: f})
		case kind == "delete" || kind == "select":
			donors = append(donors, plan.Op{N: "where", E: g.Cond()})
		}
	}
	if g.Coin() { // calls that are rejected
		for i := g.In(1, 3); i > 0; i-- {
			m := gen.Pick(g, misuses)
			for m.kind != kind || m.bad == nil {
				m = gen.Pick(g, misuses)
			}
			donors = append(donors, m.bad(g)...)
		}
	}
	if len(donors) == 0 {
		donors = append(donors, plan.Op{N: "comment", S: "c"})
	}
	paths := c.paths()
	n := g.In(3, 14)
	for len(c.Steps) < n {
		p := g.N(len(paths))
		if g.Coin() { // bias to the newest: long chains
			p = len(paths) - 1
		} else if g.OneIn(3) {
			p = max(0, len(paths)-2) // siblings of the newest
		}
		st := histStep{P: p}
		k := g.Weighted(10, 3, 1)
		if paths[p].Kind != "select" && k == 2 {
			k = 1
		}
		switch k {
		case 0:
			if paths[p].Kind != kind {
				st.P = 0
				p = 0
			}
			o := gen.Pick(g, donors)
			for try := 0; try < 6 && !legal(paths[p].Ops, o, kind); try++ {
				o = gen.Pick(g, donors)
			}
			if (o.N == "and" || o.N == "or") && !legal(paths[p].Ops, o, kind) {
				o.N = "where"
			}
			st.Op = &o
		case 1:
			st.R = g.In(1, 3)
		case 2:
			st.Wrap = gen.Pick(g, wrapForms)
		}
		c.Steps = append(c.Steps, st)
		paths = c.paths()
	}
	return c
}

func checkHistory(c *histCase, r *Rec) string {
	type want struct {
		build *Panic
		out   Out
		rend  *Panic
	}
	r.Label("kind " + c.Kind)
	r.LabelIf(c.Share, "shared arguments")
	paths := c.paths()
	wants := make([]want, len(paths))
	for i, p := range paths {
		var b builder.Builder
		w := &wants[i]
		if w.build = guard(func() { b = p.Build().Builder() }); w.build == nil {
			w.out, w.rend = render(b)
		}
		r.LabelIf(w.build != nil, "a rejected call")
	}
	defer func() { plan.Record, plan.Share, plan.ShareArgs, plan.Fixed = nil, nil, nil, nil }()
	shared, subs := map[string]interface{}{}, map[string]builder.Builder{}
	pool := make([]*plan.B, len(paths))
	children := map[int]int{}
	next := 0
	derive := func(f func() plan.B) {
		var given []interface{}
		if c.Share {
			plan.ShareArgs, plan.Share = shared, subs
		} else {
			plan.Record = func(v interface{}) { given = append(given, v) }
		}
		var b plan.B
		p := guard(func() { b = f() })
		plan.Record, plan.Share, plan.ShareArgs, plan.Fixed = nil, nil, nil, nil
		if p == nil {
			pool[next] = &b
		}
		next++
		for _, v := range given {
			plan.Scribble(v)
		}
	}
	derive(func() plan.B { return plan.B{}.Apply(c.First) })
	compare := func(i int, when string) string {
		b, w := pool[i], &wants[i]
		if (b == nil) != (w.build != nil) {
			return fmt.Sprintf("builder %d is rejected in one history and not in the other (%s): with forks %v, alone %v", i, when, b == nil, w.build)
		}
		if b == nil {
			return ""
		}
		o, p := render(b.Builder())
		if (p == nil) != (w.rend == nil) {
			return fmt.Sprintf("builder %d %s: renders with %v, alone with %v", i, when, p, w.rend)
		}
		if p != nil {
			return ""
		}
		if d := sameOut(w.out, o); d != "" {
			return fmt.Sprintf("builder %d %s is not what its own calls make it: %s", i, when, d)
		}
		return ""
	}
	for k, s := range c.Steps {
		par := pool[s.P]
		switch {
		case s.Op != nil || s.Wrap != "":
			children[s.P]++
			if par == nil {
				next++
				continue
			}
			if s.Op != nil {
				derive(func() plan.B { return par.Apply(*s.Op) })
				continue
			}
			derive(func() plan.B {
				plan.Fixed = map[string]builder.Builder{plan.JSON(paths[s.P]): par.Builder()}
				return wrapped(s.Wrap, paths[s.P]).Build()
			})
		default:
			if par == nil {
				continue
			}
			guard(func() {
				switch s.R {
				case 1:
					_, args := par.Builder().Query()
					for i := range args { // the result is the caller's
						args[i] = "scribbled"
					}
				case 2:
					_, args := par.Builder().NamedQuery()
					for n := range args {
						args[n] = "scribbled"
					}
				case 3:
					_ = par.Builder().String()
				}
			})
			if d := compare(s.P, fmt.Sprintf("after step %d", k+1)); d != "" {
				return d
			}
		}
	}
	forks := 0
	for _, n := range children {
		if n > 1 {
			forks++
		}
	}
	r.NonTrivial = forks > 0 && len(paths) >= 4
	r.LabelIf(forks > 0, "a builder with several descendants")
	r.Count("builders compared", len(pool))
	// The newest first: rendering one must not repair another.
	for i := len(pool) - 1; i >= 0; i-- {
		if d := compare(i, "at the end"); d != "" {
			return d
		}
	}
	for i := range pool {
		if d := compare(i, "at the end, again"); d != "" {
			return d
		}
	}
	if n := len(pool) - 1; n > 0 && wants[n].build == nil {
		r.Detail["last"] = wants[n].out.Q
	}
	return ""
}

func init() {
	add("C11", "histories", 8000, 160000, gen.Cfg{Depth: 1},
		"histories of up to 14 steps over a growing pool of builders: fork any builder with any call (some illegal), nest one in another, render; the caller overwrites the slices and maps it handed over, or hands the same objects to several calls; every builder must render like its own calls alone; non-trivial: at least 4 builders and one with several descendants",
		genHistory, checkHistory)
	add("C11", "forks", 8000, 160000, gen.Cfg{Depth: 0},
		"histories that make one accumulating call (join, order by, with, where, set, column list, using) several times and then fork the builder with further calls of that kind; same check; every case is non-trivial by construction if it compares at least 4 builders",
		genForks, checkHistory)
}
