package main

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/pg"
	"verif/harness/plan"
)

// C10: an identifier is exactly the name given, in every position that takes
// a name.

type identCase struct {
	Pos string
	Id  plan.Ident
	S   *plan.Stmt // with the identifier
	T   *plan.Stmt // with a plain name of as many parts
}

var identPositions = []string{
	"select column", "select alias", "from", "from alias", "from only", "join table", "join alias", "join left", "join right",
	"where", "comparison right", "group by", "distinct on", "having", "in", "in item", "between", "is null", "and or",
	"insert into", "insert column", "insert pair", "insert map", "returning", "returning alias", "conflict target", "conflict pair", "conflict map",
	"update", "update alias", "update pair", "update map", "update column", "update from", "update value",
	"delete from", "delete alias", "delete using", "delete using alias", "nested column", "with column", "exists column",
}

func intE(n int64) *plan.Expr { return &plan.Expr{K: "val", V: &plan.Val{K: "int64", I: n}} }

func bare(s string) plan.Ident { return plan.Ident{P: []plan.Str{plan.Str(s)}} }

func tableOf(s string) plan.Table { id := bare(s); return plan.Table{Id: &id} }

// place builds the small statement that has the identifier at the position.
func place(pos string, id plan.Ident, form int) *plan.Stmt {
	alias := plan.Str(id.Name())
	colT := func(i plan.Ident, a plan.Str) plan.Target { return plan.Target{K: "col", Id: &i, Alias: a} }
	identE := func(i plan.Ident) *plan.Expr { return &plan.Expr{K: "ident", Id: &i} }
	c, t := bare("c"), tableOf("t")
	sel := func(ops ...plan.Op) *plan.Stmt {
		return &plan.Stmt{Kind: "select", Ops: append([]plan.Op{{N: "select", Targets: []plan.Target{colT(c, "")}}, {N: "from", Tables: []plan.Table{t}}}, ops...)}
	}
	where := func(e *plan.Expr) *plan.Stmt { return sel(plan.Op{N: "where", E: e}) }
	ins := func(ops ...plan.Op) *plan.Stmt {
		return &plan.Stmt{Kind: "insert", Ops: append([]plan.Op{{N: "insert", Tables: []plan.Table{t}}}, ops...)}
	}
	upd := func(tb plan.Table, ops ...plan.Op) *plan.Stmt {
		return &plan.Stmt{Kind: "update", Ops: append([]plan.Op{{N: "update", Tables: []plan.Table{tb}}}, ops...)}
	}
	setC := plan.Op{N: "set", Pairs: []plan.Pair{{Id: c, E: intE(1)}}}
	pair := func(f int) []plan.Pair { return []plan.Pair{{Id: id, E: intE(1)}, {Id: bare("other"), E: intE(2)}} }
	cols := []plan.Ident{id, bare("other")}
	on := func(l, r plan.Ident) *plan.On { return &plan.On{K: "on", L: &l, R: &r} }
	join := func(tb plan.Table, o *plan.On) *plan.Stmt {
		return sel(plan.Op{N: "join", Join: &plan.Join{F: []int{0, 3}[form%2], Type: "LEFT JOIN", Table: tb, On: o}})
	}
	del := func(tb plan.Table, ops ...plan.Op) *plan.Stmt {
		return &plan.Stmt{Kind: "delete", Ops: append([]plan.Op{{N: "delete", Tables: []plan.Table{tb}}}, ops...)}
	}
	tid := plan.Table{Id: &id}
	aliased := func() plan.Table { x := bare("t"); return plan.Table{Id: &x, Alias: alias} }
	switch pos {
	case "select column":
		return &plan.Stmt{Kind: "select", Ops: []plan.Op{{N: "select", F: form, Targets: []plan.Target{colT(id, ""), colT(c, "")}}}}
	case "select alias":
		return &plan.Stmt{Kind: "select", Ops: []plan.Op{{N: "select", Targets: []plan.Target{colT(c, alias)}}}}
	case "from":
		return &plan.Stmt{Kind: "select", Ops: []plan.Op{{N: "select"}, {N: "from", Tables: []plan.Table{tid, t}}}}
	case "from alias":
		return &plan.Stmt{Kind: "select", Ops: []plan.Op{{N: "select"}, {N: "from", Tables: []plan.Table{aliased()}}}}
	case "from only":
		tid.Only = true
		return &plan.Stmt{Kind: "select", Ops: []plan.Op{{N: "select"}, {N: "from", Tables: []plan.Table{tid}}}}
	case "join table":
		return join(tid, on(bare("a"), bare("b")))
	case "join alias":
		return join(aliased(), on(bare("a"), bare("b")))
	case "join left":
		return join(tableOf("u"), on(id, bare("b")))
	case "join right":
		return join(tableOf("u"), &plan.On{K: "or", F: form % 2, X: []*plan.On{on(bare("a"), id), on(bare("d"), bare("e"))}})
	case "where":
		return where(&plan.Expr{K: "cmp", Op: []string{"=", "like", "@>", "isdistinct"}[form%4], X: []*plan.Expr{identE(id), intE(1)}})
	case "comparison right":
		return where(&plan.Expr{K: "cmp", Op: "=", X: []*plan.Expr{identE(c), identE(id)}})
	case "group by":
		return sel(plan.Op{N: "groupby", Ids: cols, F: form})
	case "distinct on":
		return sel(plan.Op{N: "distincton", Ids: cols, F: form})
	case "having":
		return sel(plan.Op{N: "having", E: &plan.Expr{K: "cmp", Op: ">", X: []*plan.Expr{identE(id), intE(1)}}})
	case "in":
		return where(&plan.Expr{K: "in", Op: "notin", X: []*plan.Expr{identE(id), intE(1), intE(2)}})
	case "in item":
		return where(&plan.Expr{K: "in", Op: "in", X: []*plan.Expr{identE(c), identE(id), intE(2)}})
	case "between":
		return where(&plan.Expr{K: "between", Op: "between", X: []*plan.Expr{identE(id), intE(1), intE(2)}})
	case "is null":
		return where(&plan.Expr{K: "null", Op: "notnull", F: form % 2, X: []*plan.Expr{identE(id)}})
	case "and or":
		return where(&plan.Expr{K: "or", F: 0, X: []*plan.Expr{identE(c), identE(id)}})
	case "insert into":
		return &plan.Stmt{Kind: "insert", Ops: []plan.Op{{N: "insert", Tables: []plan.Table{tid}}, {N: "set", Pairs: []plan.Pair{{Id: c, E: intE(1)}}}}}
	case "insert column":
		return ins(plan.Op{N: "columns", Ids: cols, F: form}, plan.Op{N: "values", Rows: [][]*plan.Expr{{intE(1), intE(2)}}})
	case "insert pair":
		return ins(plan.Op{N: "set", Pairs: pair(0)})
	case "insert map":
		return ins(plan.Op{N: "set", Pairs: pair(0), F: 1 + form%2})
	case "returning":
		return ins(setC, plan.Op{N: "returning", F: form, Targets: []plan.Target{colT(id, ""), colT(c, "")}})
	case "returning alias":
		return ins(setC, plan.Op{N: "returning", Targets: []plan.Target{colT(c, alias)}})
	case "conflict target":
		return ins(setC, plan.Op{N: "onconflict", Ids: cols, Nothing: true})
	case "conflict pair":
		return ins(setC, plan.Op{N: "onconflict", Ids: []plan.Ident{c}, Pairs: pair(0)})
	case "conflict map":
		return ins(setC, plan.Op{N: "onconflict", Ids: []plan.Ident{c}, Pairs: pair(0), F: 1 + form%2})
	case "update":
		return upd(tid, setC)
	case "update alias":
		return upd(aliased(), setC)
	case "update pair":
		return upd(t, plan.Op{N: "set", Pairs: pair(0)})
	case "update map":
		return upd(t, plan.Op{N: "set", Pairs: pair(0), F: 1 + form%2})
	case "update column":
		return upd(t, plan.Op{N: "setcols", Ids: cols, F: form % 2}, plan.Op{N: "using", Es: []*plan.Expr{intE(1), intE(2)}})
	case "update from":
		return upd(t, setC, plan.Op{N: "from", Tables: []plan.Table{tid}})
	case "update value":
		return upd(t, plan.Op{N: "set", Pairs: []plan.Pair{{Id: c, E: identE(id)}}})
	case "delete from":
		return del(tid)
	case "delete alias":
		return del(aliased())
	case "delete using":
		return del(t, plan.Op{N: "using", Tables: []plan.Table{tid, tableOf("u")}})
	case "delete using alias":
		return del(t, plan.Op{N: "using", Tables: []plan.Table{aliased()}})
	case "nested column":
		return where(&plan.Expr{K: "in", Op: "in", X: []*plan.Expr{identE(c), {K: "sub", Q: place("select column", id, form)}}})
	case "with column":
		return sel(plan.Op{N: "with", CTEs: []plan.CTE{{Name: "w", Q: place("where", id, form)}}})
	case "exists column":
		return where(&plan.Expr{K: "exists", Q: place("and or", id, form)})
	}
	fatal("no position %s", pos)
	return nil
}

// onePart are the positions that take a single part.
func onePart(pos string) bool { return strings.HasSuffix(pos, "alias") }

func checkIdent(c *identCase, r *Rec) string {
	o, p := buildAndRender(c.S)
	if p != nil {
		return fmt.Sprintf("name %q is rejected as %s: %s", c.Id.Name(), c.Pos, p)
	}
	t, p := buildAndRender(c.T)
	if p != nil {
		return "a plain name is rejected: " + p.String()
	}
	r.Label("position " + c.Pos)
	r.Label(fmt.Sprintf("%d parts", len(c.Id.P)))
	r.LabelIf(strings.Contains(c.Id.Name(), `"`), "with a double quote")
	r.Detail["sql"] = o.Q
	plain := true
	for _, b := range []byte(c.Id.Name()) {
		if !(b >= 'a' && b <= 'z' || b >= '0' && b <= '9' || b == '_' || b == '.') {
			plain = false
		}
	}
	r.NonTrivial = !plain
	for _, x := range []struct {
		name, got, want string
		m               pg.Mode
	}{{"Query", o.Q, t.Q, pg.Mode{}}, {"NamedQuery", o.NQ, t.NQ, pg.Mode{Named: true}}, {"String", o.Raw, t.Raw, pg.Mode{Backslash: true}}} {
		got, _, err := tokens(x.got, x.m)
		if err != nil {
			return fmt.Sprintf("%s with name %q as %s: %v\n  sql: %s", x.name, c.Id.Name(), c.Pos, err, x.got)
		}
		want, _, err := tokens(x.want, x.m)
		if err != nil {
			return fmt.Sprintf("%s: %v\n  sql: %s", x.name, err, x.want)
		}
		found := 0
		for i := range want {
			w := want[i]
			if n := strings.TrimPrefix(w.s, "plain"); n != w.s && w.k == pg.QIdent {
				w.s = string(c.Id.P[int(n[0]-'0')])
				found++
			}
			if i >= len(got) || got[i] != w {
				g := "nothing"
				if i < len(got) {
					g = fmt.Sprintf("%q", got[i].s)
				}
				return fmt.Sprintf("%s: name %q as %s: token %d is %s, not %q\n  sql: %s", x.name, c.Id.Name(), c.Pos, i, g, w.s, x.got)
			}
		}
		if len(got) != len(want) {
			return fmt.Sprintf("%s: name %q as %s adds text\n  sql: %s", x.name, c.Id.Name(), c.Pos, x.got)
		}
		if found < len(c.Id.P) {
			return fmt.Sprintf("%s: the name as %s is not quoted\n  sql: %s", x.name, c.Pos, x.want)
		}
	}
	return ""
}

func init() {
	odd := gen.Cfg{Depth: 1, Weird: true, Odd: true, Big: true}
	add("C10", "positions", 24000, 400000, odd,
		"one name of 1 to 3 arbitrary parts at one of every position that takes a name, in the three renderings, against the same statement with a plain name; non-trivial: the name has characters other than [a-z0-9_.]",
		func(g *gen.G) *identCase {
			c := &identCase{Pos: gen.Pick(g, identPositions)}
			n := 1 + g.Weighted(10, 4, 2, 1, 1, 1)
			if onePart(c.Pos) {
				n = 1
			}
			plain := plan.Ident{}
			for i := 0; i < n; i++ {
				if onePart(c.Pos) {
					c.Id.P = []plan.Str{g.Alias()}
				} else {
					c.Id.P = append(c.Id.P, plan.Str(g.Part()))
				}
				plain.P = append(plain.P, plan.Str(fmt.Sprintf("plain%d", i)))
			}
			form := g.N(4)
			if name := c.Id.Name(); strings.Contains(name, ",") || strings.TrimSpace(name) != name {
				c.Id.F, plain.F = 1, 1
				switch c.Pos {
				case "select column", "returning", "group by", "distinct on", "insert column", "nested column":
					form = gen.Pick(g, []int{0, 3})
				case "insert map", "conflict map", "update map", "update column":
					form = 0
				}
			} else if g.Coin() {
				c.Id.F, plain.F = 1, 1
			}
			c.S, c.T = place(c.Pos, c.Id, form), place(c.Pos, plain, form)
			// "plain0" must sort like the name it stands for.
			if strings.Contains(c.Pos, "pair") || strings.Contains(c.Pos, "map") {
				if (c.Id.Name() < "other") != (plain.Name() < "other") {
					fix := func(s *plan.Stmt) {
						for i := range s.Ops {
							for k := range s.Ops[i].Pairs {
								if p := &s.Ops[i].Pairs[k]; p.Id.Name() == "other" {
									p.Id = bare("zother")
									if c.Id.Name() > "zother" {
										p.Id = bare("!other")
									}
								}
							}
						}
					}
					fix(c.S)
					fix(c.T)
				}
			}
			return c
		}, checkIdent)
	add("C10", "everywhere", 12000, 200000, odd,
		"whole statements of every kind in which nearly all names are odd, parsed back; non-trivial: at least 3 builder calls",
		func(g *gen.G) *plan.Stmt { return g.Any() },
		func(s *plan.Stmt, r *Rec) string {
			r.NonTrivial = classify(s, r) >= 3
			return faithful(s, r)
		})
}
