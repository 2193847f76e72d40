package main

import (
	"fmt"
	"strings"

	"github.com/pkg/errors"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C14: a join string is understood completely or rejected.

// joinText is what a join string says.
type joinText struct {
	plain  bool   // within the documented forms, so it must be accepted
	unsure bool   // a name with an empty part: nothing is specified
	typed  bool   // it starts with a kind of join
	kind   string // "", "LEFT JOIN", "RIGHT JOIN"
	table  string
	on     *plan.On
}

type joinReader struct {
	ws  []lexWord
	out joinText
}

func (j *joinReader) is(i int, s string) bool {
	return i < len(j.ws) && j.ws[i].T != "word" && j.ws[i].T != "illegal" && asciiUpper(j.ws[i].S) == s
}

func (j *joinReader) word(i int) bool { return i < len(j.ws) && j.ws[i].T == "word" }

func (j *joinReader) take(s string) bool {
	if !j.is(0, s) {
		return false
	}
	j.ws = j.ws[1:]
	return true
}

func (j *joinReader) name() (plan.Ident, bool) {
	if !j.word(0) {
		return plan.Ident{}, false
	}
	id := plan.Ident{}
	for _, p := range strings.Split(j.ws[0].S, ".") {
		id.P = append(id.P, plan.Str(p))
		if p == "" {
			j.out.unsure = true
		}
	}
	j.ws = j.ws[1:]
	return id, true
}

func (j *joinReader) all(s string) (n int) {
	for j.take(s) {
		n++
	}
	return n
}

// readJoin reads a join string by the reference grammar:
//
//	[[INNER|LEFT|RIGHT] JOIN] [table ON | ON] condition [;]...
//
// where parentheses may enclose all of the condition, or ON and the condition.
func readJoin(text string) (out joinText, ok bool) {
	j := &joinReader{ws: refLex(text)}
	j.out.plain = true
	for _, k := range []string{"INNER", "LEFT", "RIGHT"} {
		if j.is(0, k) && j.is(1, "JOIN") {
			j.take(k)
			if k != "INNER" {
				j.out.kind = k + " JOIN"
			}
		}
	}
	j.out.typed = j.take("JOIN")
	parens := 0
	if j.word(0) && j.is(1, "ON") {
		id, _ := j.name()
		j.out.table = id.Name()
		j.take("ON")
	} else if !j.take("ON") {
		parens = j.all("(")
		if j.take("ON") && parens > 0 {
			j.out.plain = false
		}
	}
	parens += j.all("(")
	if parens > 1 {
		j.out.plain = false
	}
	for {
		l, ok := j.name()
		if !ok || !j.take("=") {
			return j.out, false
		}
		r, ok := j.name()
		if !ok {
			return j.out, false
		}
		leaf := &plan.On{K: "on", L: &l, R: &r}
		if j.out.on == nil {
			j.out.on = leaf
		} else {
			j.out.on.X = append(j.out.on.X, leaf)
		}
		switch {
		case j.take("AND"):
			j.out.on = &plan.On{K: "and", X: []*plan.On{j.out.on}}
			continue
		case j.take("OR"):
			j.out.on = &plan.On{K: "or", X: []*plan.On{j.out.on}}
			continue
		}
		break
	}
	if j.all(")") != parens {
		return j.out, false
	}
	if j.all(";") > 1 {
		j.out.plain = false
	}
	return j.out, len(j.ws) == 0
}

type joinCase struct {
	Text plan.Str
	Form int    // 0 Join(text), 1 Join(table, text), 2 Join(table, text, type)
	Type string // for form 2
	Obj  bool   // the table is an object
}

var joinNoise = []string{"JOIN", "LEFT", "RIGHT", "INNER", "LEFT JOIN", "INNER JOIN", "FULL", "OUTER", "CROSS", "NATURAL", "ON", "ON", "AND", "AND", "OR", "OR", "NOT", "USING", "WHERE", "AS", "SELECT", "EXISTS", "IN", "ONLY",
	"a", "b", "t.id", "u.t_id", "users", "9", "1.5", ".", "a.", "=", "=", "=", "(", "(", ")", ")", ";", ";", ",", "*", ":", "<", ">", "<>", "!=", "'x'", `"x"`, "--", "/*", "*/", "\x00", "é", "$1", "+", "||", "\\", "COUNT(a)", "a = b", "a=b", "AND a = b", "= b", "ON a = b"}

// dialect holds every keyword, symbol and other words of SQL.
var dialect = append(strings.Fields(`SELECT UPDATE INSERT DELETE FROM WHERE AND OR LIMIT OFFSET SET AS INNER CROSS LEFT RIGHT JOIN ON GROUP BY HAVING ORDER
	DISTINCT ONLY USING RETURNING VALUES INTO CONFLICT DO NOTHING WITH NOT EXISTS COUNT MAX MIN SUM
	FULL OUTER NATURAL LATERAL TABLE IS NULL IN BETWEEN LIKE TRUE FALSE ANY ALL UNION EXCEPT CASE WHEN END FOR ASC DESC XOR`),
	"*", "=", ";", ",", ":", "(", ")", "==", "=>", "<", ">", "<>", "!=", "&&", "||", "|", "&", "!", "-", "+", "/", "%", "'", "\"", "`", "[", "]", "{", "}", "?", "@", "#", "$", "^", "~", "\\",
	"a", "a.b", "a.b.c", ".", "..", "a.", ".b", "1", "0.5", "_", "NULL", "\x00", "\v", "\f", "\u00a0", "\ufeff", "é")

// edit changes one place of a join string.
func edit(g *gen.G, ws []string) []string {
	i, w := g.N(len(ws)+1), gen.Pick(g, dialect)
	if g.Coin() {
		w = strings.ToLower(w)
	}
	if i < len(ws) && g.OneIn(3) {
		return append(append(ws[:i:i], w), ws[i+1:]...)
	}
	return append(append(ws[:i:i], w), ws[i:]...)
}

// noise is something that may not belong in a join string.
func noise(g *gen.G) string {
	switch g.Weighted(12, 2, 1, 1) {
	case 1: // any character
		return string(rune(g.In(1, 127)))
	case 2: // what other languages take for a comment
		return gen.Pick(g, []string{"-- ", "# ", "// ", "/* ", "--", "#", "//"}) + gen.Pick(g, []string{"a", "AND c = d", "a */", ""})
	case 3:
		return g.Text()
	}
	if g.OneIn(4) {
		return gen.Pick(g, dialect)
	}
	return gen.Pick(g, joinNoise)
}

func genJoinText(g *gen.G) *joinCase {
	c := &joinCase{Form: g.Weighted(3, 3, 1)}
	j := g.JoinText(c.Form > 0)
	c.Text = j.Text
	if c.Form == 2 {
		c.Type = gen.Pick(g, []string{"INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN"})
	}
	c.Obj = c.Form > 0 && g.Coin()
	if g.OneIn(3) {
		return c // left valid
	}
	var ws []string
	if g.OneIn(3) {
		for _, w := range refLex(string(c.Text)) {
			ws = append(ws, w.S)
		}
		c.Text = plan.Str(strings.Join(edit(g, ws), " "))
		return c
	}
	if g.OneIn(4) {
		for n := g.In(0, 9); n > 0; n-- {
			ws = append(ws, noise(g))
		}
	} else {
		for _, w := range refLex(string(c.Text)) {
			ws = append(ws, w.S)
		}
		for n := g.In(1, 3); n > 0 && len(ws) > 0; n-- {
			i := g.N(len(ws))
			switch g.N(7) {
			case 6: // in parentheses
				k := g.In(i, len(ws))
				ws = append(ws[:k:k], append([]string{")"}, ws[k:]...)...)
				ws = append(ws[:i:i], append([]string{"("}, ws[i:]...)...)
			case 0:
				ws = append(ws[:i:i], ws[i+1:]...)
			case 1:
				ws = append(ws[:i:i], append([]string{noise(g)}, ws[i:]...)...)
			case 2:
				ws[i] = noise(g)
			case 3:
				k := g.N(len(ws))
				ws[i], ws[k] = ws[k], ws[i]
			case 4:
				k := g.In(i, len(ws))
				ws = append(ws[:k:k], ws[i:]...)
			case 5:
				ws = append(ws, noise(g))
			}
		}
	}
	c.Text = plan.Str(strings.Join(ws, gen.Pick(g, []string{" ", " ", "  ", "\n", "\t"})))
	if g.OneIn(8) { // glued together
		c.Text = plan.Str(strings.Join(ws, ""))
	}
	return c
}

func checkJoinText(c *joinCase, r *Rec) string {
	text := string(c.Text)
	want, ok := readJoin(text)
	r.Label(fmt.Sprintf("form %d", c.Form))
	if want.unsure {
		r.Label("a name with an empty part")
	}

	var join stmt.Join
	var err error
	if p := guard(func() { join, err = parser.ParseJoin(text) }); p != nil {
		return fmt.Sprintf("ParseJoin panics on %q: %s", text, p)
	}
	if err != nil {
		if errors.Cause(err) != parser.ErrJoinInvalidCondition {
			return fmt.Sprintf("ParseJoin reports another error on %q: %v", text, err)
		}
		if p := guard(func() { parser.MustParseJoin(text) }); p == nil || p.Runtime {
			return fmt.Sprintf("MustParseJoin accepts %q, ParseJoin does not (%s)", text, p)
		}
	}
	switch {
	case !ok && err == nil && !want.unsure:
		return fmt.Sprintf("ParseJoin accepts %q, which is not a join", text)
	case ok && want.plain && err != nil && !want.unsure:
		return fmt.Sprintf("ParseJoin rejects %q: %v", text, err)
	}
	accepted := err == nil && ok && !want.unsure
	if accepted {
		if join.Table.Name != want.table {
			return fmt.Sprintf("ParseJoin reads table %q from %q, not %q", join.Table.Name, text, want.table)
		}
		if k := map[types.JoinType]string{types.InnerJoin: "", types.LeftJoin: "LEFT JOIN", types.RightJoin: "RIGHT JOIN"}[join.Type]; k != want.kind || join.Type == "" {
			return fmt.Sprintf("ParseJoin reads kind %q from %q, not %q", join.Type, text, want.kind)
		}
	}

	// through the builder
	args := []interface{}{text}
	table := want.table
	if c.Form > 0 {
		table = "given"
		args = []interface{}{table, text}
		if c.Obj {
			args[0] = stmt.NewTable(table)
		}
		if c.Form == 2 {
			args = append(args, types.JoinType(c.Type))
		}
	}
	var b builder.Builder
	var o Out
	p := guard(func() { b = lk.Select("x").From("t").Join(args...) })
	if p == nil {
		o, p = render(b)
	}
	if p != nil && p.Runtime {
		return fmt.Sprintf("Join(%q) ends in a Go runtime error: %s", args, p.Text)
	}
	fits := accepted && (c.Form == 0) == (want.table != "")
	if p != nil {
		r.Label("rejected")
		if fits {
			return fmt.Sprintf("Join(%q) is rejected, ParseJoin accepts the string: %s", args, p.Text)
		}
		r.NonTrivial = len(refLex(text)) > 2
		return ""
	}
	if want.unsure {
		return ""
	}
	if !fits {
		return fmt.Sprintf("Join(%q) is accepted\n  sql: %s", args, o.Q)
	}
	r.Label("accepted")
	r.NonTrivial = true
	r.Detail["sql"] = o.Q
	kind := want.kind
	if c.Form == 2 {
		if want.typed && kind != "" {
			return "" // two kinds are given
		}
		kind = c.Type
	}
	x, id := bare("x"), plan.Ident{}
	for _, s := range strings.Split(table, ".") {
		id.P = append(id.P, plan.Str(s))
	}
	s := &plan.Stmt{Kind: "select", Ops: []plan.Op{
		{N: "select", Targets: []plan.Target{{K: "col", Id: &x}}}, {N: "from", Tables: []plan.Table{tableOf("t")}},
		{N: "join", Join: &plan.Join{Type: kind, Table: plan.Table{Id: &id}, On: want.on}}}}
	if d := sameMeaning(s.N(), o); d != "" {
		return fmt.Sprintf("Join(%q): %s", args, d)
	}
	return ""
}

func init() {
	add("C14", "strings", 60000, 1500000, gen.Cfg{Depth: 1, Big: true},
		"join strings, one third of them legitimate, the others changed at random tokens or made of random tokens; through ParseJoin and every form of Join; compared with a reference grammar; non-trivial: accepted, or rejected with at least 3 tokens",
		genJoinText, checkJoinText)
	add("C14", "statements", 8000, 120000, gen.Cfg{Depth: 2, Big: true, NoRaw: true},
		"SELECT statements with 1 to 6 join strings, parsed back; every case is non-trivial",
		func(g *gen.G) *plan.Stmt {
			x := bare("x")
			s := &plan.Stmt{Kind: "select", Ops: []plan.Op{{N: "select", Targets: []plan.Target{{K: "col", Id: &x}}}, {N: "from", Tables: []plan.Table{tableOf("t")}}}}
			for n := g.In(1, 6); n > 0; n-- {
				s.Ops = append(s.Ops, plan.Op{N: "join", Join: g.JoinText(g.Coin())})
			}
			return s
		}, func(s *plan.Stmt, r *Rec) string {
			r.NonTrivial = true
			classify(s, r)
			return faithful(s, r)
		})
}
