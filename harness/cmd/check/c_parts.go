package main

import (
	"fmt"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C27: the parts of statements are values. A program makes parts from parts
// and uses each as often as it likes; every part reads like one made from
// scratch, by itself and in statements.

// partStep makes a part from earlier ones.
type partStep struct {
	Op string   `json:"op"`
	A  []int    `json:"a,omitempty"` // earlier parts
	S  plan.Str `json:"s,omitempty"`
	N  int64    `json:"n,omitempty"`
}

type partsCase struct {
	Steps []partStep `json:"steps"`
	Use   [][]int    `json:"use"`  // statements made of these parts
	Peek  []int      `json:"peek"` // parts read after each step
}

// partOps gives the operation's kinds of parts taken and made.
var partOps = []struct {
	op, in, out string
	w           int
}{
	{"column", "", "C", 2}, {"column.as", "C", "C", 2},
	{"table", "", "T", 2}, {"table.as", "T", "T", 2}, {"table.only", "T", "T", 2},
	{"order", "", "O", 1}, {"asc", "C", "O", 1}, {"desc", "C", "O", 1},
	{"ident", "", "I", 2}, {"ident.column", "C", "I", 1},
	{"equal", "I", "E", 3}, {"equal.value", "IV", "E", 2}, {"equal.call", "IF", "E", 1}, {"less", "II", "E", 1},
	{"isnull", "I", "E", 1}, {"between", "IVV", "E", 1}, {"in", "IVV", "E", 2}, {"in.query", "IQ", "E", 2}, {"notin", "I", "E", 1},
	{"exists", "Q", "E", 1}, {"call.equal", "FV", "E", 1}, {"value.equal", "VV", "E", 1}, {"like", "I", "E", 1},
	{"and", "EE", "E", 4}, {"or", "EE", "E", 4}, {"cond.and", "EE", "E", 5}, {"cond.or", "EE", "E", 5},
	{"where", "E", "H", 2}, {"where.and", "HE", "H", 3}, {"where.or", "HE", "H", 3},
	{"having", "E", "G", 1}, {"having.and", "GE", "G", 2}, {"having.or", "GE", "G", 2},
	{"on", "", "J", 3}, {"on.and", "JJ", "J", 4}, {"on.or", "JJ", "J", 4}, {"andon", "JJ", "J", 2}, {"oron", "JJ", "J", 2},
	{"value", "", "V", 2}, {"value.nil", "", "V", 1},
	{"call", "VI", "F", 1}, {"call.call", "FF", "F", 1},
	{"count", "", "A", 1}, {"count.as", "A", "A", 1}, {"count.distinct", "A", "A", 1},
	{"query", "CT", "Q", 2}, {"query.where", "QE", "Q", 3}, {"query.order", "QO", "Q", 2}, {"query.join", "QTJ", "Q", 2},
	{"query.with", "QW", "Q", 1}, {"query.agg", "AT", "Q", 1}, {"with", "Q", "W", 2},
	{"join", "TE", "X", 2}, {"query.joined", "QX", "Q", 1},
	{"pair", "CV", "P", 3}, {"select.into", "CQ", "P", 1}, {"doupdate", "PP", "U", 2},
	{"insert", "TP", "N", 1}, {"insert.values", "TVV", "N", 1}, {"insert.conflict", "NU", "Y", 2},
	{"update", "TP", "M", 1}, {"update.set", "MP", "M", 2}, {"update.where", "ME", "M", 2},
	{"delete", "TT", "D", 1}, {"delete.where", "DE", "D", 2},
}

var partKinds = func() map[string]struct{ in, out string } {
	m := map[string]struct{ in, out string }{}
	for _, o := range partOps {
		m[o.op] = struct{ in, out string }{o.in, o.out}
	}
	return m
}()

// scribbled are lists handed over, whose elements the program changes later.
type scribbled []func()

func handOver[T any](s *scribbled, junk T, list ...T) []T {
	*s = append(*s, func() {
		for i := range list {
			list[i] = junk
		}
	})
	return list
}

// make1 performs a step on live parts.
func make1(s partStep, a []interface{}, given *scribbled) interface{} {
	name := string(s.S)
	n := s.N
	cond := func(i int) stmt.Expression { return a[i].(stmt.Expression) }
	id := func() stmt.Identifier { return a[0].(stmt.Identifier) }
	type chained interface {
		And(stmt.Expression) stmt.InfixExpression
		Or(stmt.Expression) stmt.InfixExpression
	}
	switch s.Op {
	case "column":
		return lk.Column(name)
	case "column.as":
		return a[0].(stmt.Column).As(name)
	case "table":
		return lk.Table(name)
	case "table.as":
		return a[0].(stmt.Table).As(name)
	case "table.only":
		return a[0].(stmt.Table).Only()
	case "order":
		return lk.Order(name, lk.Desc)
	case "asc":
		return a[0].(stmt.Column).Asc()
	case "desc":
		return a[0].(stmt.Column).Desc()
	case "ident":
		return lk.Condition(name)
	case "ident.column":
		return lk.Condition(a[0])
	case "equal":
		return id().Equal(n)
	case "equal.value", "equal.call":
		return id().Equal(a[1])
	case "less":
		return id().LessThan(a[1])
	case "isnull":
		return id().IsNull(n%2 == 0)
	case "between":
		return id().Between(a[1], a[2])
	case "in":
		return id().In(handOver[interface{}](given, "changed", a[1], n, a[2])...)
	case "in.query":
		return id().In(a[1])
	case "notin":
		return id().NotIn(handOver(given, -1, n, n+1, n+2))
	case "exists":
		return lk.Exists(a[0])
	case "call.equal":
		return a[0].(stmt.Call).Equal(a[1])
	case "value.equal":
		return a[0].(stmt.Value).Equal(a[1])
	case "like":
		return id().ILike(name)
	case "and":
		return lk.And(cond(0), cond(1))
	case "or":
		return lk.Or(cond(0), cond(1))
	case "cond.and":
		if c, ok := a[0].(chained); ok {
			return c.And(cond(1))
		}
		return lk.And(cond(0), cond(1))
	case "cond.or":
		if c, ok := a[0].(chained); ok {
			return c.Or(cond(1))
		}
		return lk.Or(cond(0), cond(1))
	case "where":
		return stmt.NewWhere(cond(0))
	case "where.and":
		return a[0].(stmt.Where).And(cond(1))
	case "where.or":
		return a[0].(stmt.Where).Or(cond(1))
	case "having":
		return stmt.NewHaving(cond(0))
	case "having.and":
		return a[0].(stmt.Having).And(cond(1))
	case "having.or":
		return a[0].(stmt.Having).Or(cond(1))
	case "on":
		return lk.On(name, fmt.Sprintf("j%d", n))
	case "on.and":
		return a[0].(stmt.OnExpression).And(a[1].(stmt.OnExpression))
	case "on.or":
		return a[0].(stmt.OnExpression).Or(a[1].(stmt.OnExpression))
	case "andon":
		return lk.AndOn(a[0].(stmt.OnExpression), a[1].(stmt.OnExpression))
	case "oron":
		return lk.OrOn(a[0].(stmt.OnExpression), a[1].(stmt.OnExpression))
	case "value":
		return lk.Value(n)
	case "value.nil":
		return lk.Value(name)
	case "call":
		return stmt.NewCall("f", handOver[stmt.Expression](given, lk.Raw("changed"), a[0].(stmt.Expression), a[1].(stmt.Expression))...)
	case "call.call":
		return stmt.NewCall("g", handOver[stmt.Expression](given, lk.Raw("changed"), a[0].(stmt.Expression), a[1].(stmt.Expression))...)
	case "count":
		return lk.Count(name)
	case "count.as":
		return a[0].(stmt.Count).As(name)
	case "count.distinct":
		return a[0].(stmt.Count).Distinct(n%3 != 0)
	case "query":
		return lk.Select(handOver[interface{}](given, "changed", a[0])...).From(handOver[interface{}](given, "changed", a[1])...)
	case "query.agg":
		return lk.Select(handOver[interface{}](given, "changed", a[0], "x")...).From(a[1])
	case "query.where":
		return a[0].(builder.Select).Where(cond(1))
	case "query.order":
		return a[0].(builder.Select).OrderBy(handOver(given, lk.Order("changed"), a[1].(stmt.Order))...)
	case "query.join":
		return a[0].(builder.Select).Join(a[1], a[2], lk.LeftJoin)
	case "query.joined":
		return a[0].(builder.Select).Join(a[1].(stmt.Join))
	case "query.with":
		return a[0].(builder.Select).With(handOver(given, lk.With("changed", lk.Select("changed")), a[1].(stmt.WithQuery))...)
	case "with":
		return lk.With(name, a[0])
	case "join":
		return stmt.NewLeftJoin(a[0].(stmt.Table), a[1].(stmt.Expression))
	case "pair":
		return lk.Pair(a[0], a[1])
	case "doupdate":
		return lk.DoUpdate(handOver[interface{}](given, lk.Pair("changed", 0), a[0], a[1])...)
	case "insert":
		return lk.Insert(a[0]).Set(handOver[interface{}](given, lk.Pair("changed", 0), a[1])...)
	case "insert.values":
		return lk.Insert(a[0]).Columns(handOver(given, "changed", name, "y")).Values(handOver[interface{}](given, "changed", a[1], a[2])...)
	case "insert.conflict":
		return a[0].(builder.Insert).OnConflict("x", a[1])
	case "update":
		return lk.Update(a[0]).Set(handOver[interface{}](given, lk.Pair("changed", 0), a[1])...)
	case "update.set":
		return a[0].(builder.Update).Set(handOver[interface{}](given, lk.Pair("changed", 0), a[1])...)
	case "update.where":
		return a[0].(builder.Update).Where(cond(1))
	case "delete":
		return lk.Delete(a[0]).Using(handOver[interface{}](given, "changed", a[1])...)
	case "delete.where":
		return a[0].(builder.Delete).Where(cond(1))
	case "select.into": // a query in the place of a value
		return lk.Pair(a[0], a[1])
	}
	fatal("parts: no operation %s", s.Op)
	return nil
}

// scratch makes a part with parts of its own.
func scratch(steps []partStep, i int) interface{} {
	var a []interface{}
	for _, k := range steps[i].A {
		a = append(a, scratch(steps, k))
	}
	return make1(steps[i], a, &scribbled{})
}

// read writes a part, alone and in a statement.
func readPart(x interface{}) string {
	var out []string
	for _, ctx := range []types.Context{&types.StdContext{}, &types.RawContext{}} {
		p := guard(func() {
			switch v := x.(type) {
			case builder.Builder:
				v.Statement().Write(ctx)
			case stmt.Statement:
				v.Write(ctx)
			case types.Pair: // has no text of its own
			default:
				fatal("parts: %T is no statement", x)
			}
		})
		if p != nil {
			out = append(out, "rejected: "+p.String())
			continue
		}
		switch c := ctx.(type) {
		case *types.StdContext:
			out = append(out, c.Query(), plan.Key(c.Values()))
		case *types.RawContext:
			out = append(out, c.Query())
		}
	}
	return strings.Join(out, partSep)
}

// useParts puts parts in one statement.
func useParts(ps []interface{}) (q string) {
	p := guard(func() {
		var items []interface{}
		var from []interface{}
		var withs []stmt.WithQuery
		var orders []stmt.Order
		b := lk.Select()
		first := true
		where := func(e stmt.Expression) {
			if first {
				b = b.Where(e)
			} else {
				b = b.Or(e)
			}
			first = false
		}
		var joins [][]interface{}
		for _, x := range ps {
			switch v := x.(type) {
			case stmt.Column, stmt.Count:
				items = append(items, v)
			case stmt.Table:
				from = append(from, v)
			case stmt.Order:
				orders = append(orders, v)
			case stmt.WithQuery:
				withs = append(withs, v)
			case stmt.OnExpression:
				joins = append(joins, []interface{}{lk.Table("j"), v})
			case stmt.Join:
				joins = append(joins, []interface{}{v})
			case builder.Select:
				where(lk.Condition("q").In(v))
			case stmt.Identifier:
				where(v.Equal(1))
			case stmt.Call:
				where(v.Equal(2))
			case stmt.Value:
				where(v.Equal(3))
			case stmt.Where, stmt.Having, types.Pair, stmt.ConflictUpdateAction, builder.Insert, builder.Update, builder.Delete:
			case stmt.Expression:
				where(v)
			default:
				fatal("parts: %T has no use", x)
			}
		}
		if items != nil {
			b = b.Columns(items...)
		}
		if from == nil {
			from = []interface{}{"t"}
		}
		b = b.From(from...).With(withs...).OrderBy(orders...)
		for _, j := range joins {
			b = b.Join(j...)
		}
		t, args := b.Query()
		q = t + " | " + plan.Key(args) + " | " + b.String()
	})
	if p != nil {
		return "rejected: " + p.String()
	}
	return q
}

// leafText is how a column, a table or an order reads.
func leafText(steps []partStep, i int) (string, bool) {
	name, alias, only := "", "", false
	for k := i; ; k = steps[k].A[0] {
		s := steps[k]
		switch s.Op {
		case "column.as", "table.as":
			if alias == "" {
				alias = string(s.S)
			}
			continue
		case "table.only":
			only = true
			continue
		case "column", "table":
			name = string(s.S)
		case "order":
			return name + string(s.S) + " DESC", true
		case "asc", "desc":
			if k != i {
				return "", false
			}
			c := s.A[0]
			for ; steps[c].Op == "column.as"; c = steps[c].A[0] {
				if name == "" {
					name = string(steps[c].S)
				}
			}
			if name == "" {
				name = string(steps[c].S)
			}
			return name + " " + strings.ToUpper(s.Op), true
		default:
			return "", false
		}
		break
	}
	text := `"` + strings.ReplaceAll(strings.ReplaceAll(name, `"`, `""`), ".", `"."`) + `"`
	if only {
		text = "ONLY " + text
	}
	if alias != "" {
		text += ` AS "` + strings.ReplaceAll(alias, `"`, `""`) + `"`
	}
	return text, true
}

func checkParts(c *partsCase, r *Rec) string {
	var live []interface{}
	used := map[int]int{}
	for i, s := range c.Steps {
		if d := partKinds[s.Op]; len(d.in) != len(s.A) {
			fatal("parts: step %d", i)
		}
		var a []interface{}
		for _, k := range s.A {
			a = append(a, live[k])
			used[k]++
		}
		var x interface{}
		var given scribbled
		if p := guard(func() { x = make1(s, a, &given) }); p != nil {
			return fmt.Sprintf("step %d %s is rejected: %s", i, plan.JSON(s), p)
		}
		for _, change := range given {
			change()
		}
		live = append(live, x)
		r.Label("step " + s.Op)
		if i < len(c.Peek) && c.Peek[i] <= i {
			readPart(live[c.Peek[i]])
		}
	}
	shared := 0
	for _, n := range used {
		if n > 1 {
			shared++
		}
	}
	r.NonTrivial = shared >= 2
	r.Count("parts", len(live))
	r.Count("parts used more than once", shared)
	fresh := func(i int) interface{} { return scratch(c.Steps, i) }
	for round := 0; round < 2; round++ {
		for i := range live {
			want, got := readPart(fresh(i)), readPart(live[i])
			if text, ok := leafText(c.Steps, i); ok && !strings.HasPrefix(got, text+partSep) {
				return fmt.Sprintf("part %d (%s) does not read %s but %s", i, plan.JSON(c.Steps[i]), text, got)
			}
			if want != got {
				return fmt.Sprintf("part %d (%s) differs from one made from scratch:\n  want: %s\n  got:  %s", i, plan.JSON(c.Steps[i]), want, got)
			}
			if round == 0 && strings.HasPrefix(want, "rejected: runtime") {
				return fmt.Sprintf("part %d (%s): %s", i, plan.JSON(c.Steps[i]), want)
			}
		}
		for _, u := range c.Use {
			var a, b []interface{}
			for _, k := range u {
				a, b = append(a, live[k]), append(b, fresh(k))
			}
			got := useParts(a)
			if want := useParts(b); want != got {
				return fmt.Sprintf("a statement of the parts %v differs from one of parts made from scratch:\n  want: %s\n  got:  %s", u, want, got)
			}
		}
	}
	return ""
}

const partSep = " | "

var partNames = []string{"a", "b", "c", "t.a", "t.b", "u", "x", "created_at", "t.created_at", "Created_At", `od"d`, "a longer name"}

func genParts(g *gen.G) *partsCase {
	c := &partsCase{}
	byKind := map[string][]int{}
	var size []int
	w := make([]int, len(partOps))
	for i, o := range partOps {
		w[i] = o.w
	}
	n := g.In(8, 40)
	var need func(kind byte) int
	add := func(op string, a []int) int {
		d := partKinds[op]
		s := partStep{Op: op, A: a, S: plan.Str(gen.Pick(g, partNames)), N: int64(g.N(9))}
		c.Steps = append(c.Steps, s)
		i := len(c.Steps) - 1
		z := 1
		for _, k := range a {
			z += size[k]
		}
		size = append(size, z)
		byKind[d.out] = append(byKind[d.out], i)
		c.Peek = append(c.Peek, g.N(2*i+2))
		return i
	}
	first := map[byte]string{'C': "column", 'T': "table", 'O': "order", 'I': "ident", 'E': "equal", 'H': "where", 'G': "having", 'J': "on",
		'V': "value", 'F': "call", 'A': "count", 'Q': "query", 'W': "with", 'X': "join",
		'P': "pair", 'U': "doupdate", 'N': "insert", 'M': "update", 'D': "delete"}
	need = func(kind byte) int {
		have := byKind[string(kind)]
		if len(have) == 0 {
			op := first[kind]
			var a []int
			for k := 0; k < len(partKinds[op].in); k++ {
				a = append(a, need(partKinds[op].in[k]))
			}
			return add(op, a)
		}
		// The same few parts are used over and over.
		switch g.N(3) {
		case 0:
			return have[len(have)-1]
		case 1:
			return have[0]
		}
		return gen.Pick(g, have)
	}
	var growing []int // the operations that give a part of the kind of the first one taken
	for i, o := range partOps {
		if len(o.in) > 1 && o.in[:1] == o.out {
			growing = append(growing, i)
		}
	}
	for len(c.Steps) < n {
		if g.OneIn(8) { // a part grown step by step, from which several are derived
			o := partOps[gen.Pick(g, growing)]
			at := need(o.in[0])
			grow := func(from int) int {
				a := []int{from}
				z := size[from]
				for k := 1; k < len(o.in); k++ {
					a = append(a, need(o.in[k]))
					z += size[a[k]]
				}
				if z > 120 {
					return from
				}
				return add(o.op, a)
			}
			for i := g.In(1, 6); i > 0; i-- {
				at = grow(at)
			}
			for i := g.In(2, 3); i > 0; i-- {
				grow(at)
			}
			continue
		}
		o := partOps[g.Weighted(w...)]
		var a []int
		z := 0
		for k := 0; k < len(o.in); k++ {
			a = append(a, need(o.in[k]))
			z += size[a[k]]
		}
		if z > 120 {
			continue
		}
		add(o.op, a)
		if g.OneIn(3) && len(a) > 1 { // again, with another second part
			b := append([]int{}, a...)
			b[1] = need(o.in[1])
			if size[b[0]]+size[b[1]] <= 120 {
				add(o.op, b)
			}
		}
	}
	for i := g.N(4); i > 0; i-- {
		var u []int
		z := 0
		for k := g.In(2, 7); k > 0; k-- {
			p := g.N(len(c.Steps))
			if z += size[p]; z < 300 {
				u = append(u, p)
			}
		}
		c.Use = append(c.Use, u)
	}
	return c
}

func init() {
	add("C27", "parts", 12000, 250000, gen.Cfg{},
		"programs of 8 to 40 steps that make columns, tables, orders, identifiers, values, calls, aggregates, conditions, join conditions, joins, where and having clauses, queries and with-queries from each other, the same parts being used over and over, and read some in between; every part, and statements of several of them, must read like parts made from scratch, columns, tables and orders also as their names say; non-trivial: at least two parts are used more than once",
		genParts, checkParts)
}
