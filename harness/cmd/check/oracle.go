package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/format"

	"verif/harness/pg"
	"verif/harness/plan"
)

// Out are the three renderings of a builder.
type Out struct {
	Q     string
	Args  []interface{}
	NQ    string
	NArgs map[string]interface{}
	Raw   string
}

func render(b builder.Builder) (o Out, p *Panic) {
	p = guard(func() {
		o.Q, o.Args = b.Query()
		o.NQ, o.NArgs = b.NamedQuery()
		o.Raw = b.String()
	})
	return o, p
}

func query(b builder.Builder) (o Out, p *Panic) {
	p = guard(func() { o.Q, o.Args = b.Query() })
	return o, p
}

// buildAndRender runs a whole plan.
func buildAndRender(s *plan.Stmt) (o Out, p *Panic) {
	p = guard(func() {
		b := s.Build().Builder()
		o.Q, o.Args = b.Query()
		o.NQ, o.NArgs = b.NamedQuery()
		o.Raw = b.String()
	})
	return o, p
}

// tree parses a positional rendering and replaces its placeholders by the
// identity of the bound values.
func tree(q string, args []interface{}) (*pg.N, *pg.Parsed, error) {
	p, err := pg.ParseStatement(q, pg.Mode{})
	if err != nil {
		return nil, nil, err
	}
	n, err := bind(p.Tree, func(s string) (interface{}, bool) {
		i, err := strconv.Atoi(s)
		if err != nil || i < 1 || i > len(args) {
			return nil, false
		}
		return args[i-1], true
	})
	return n, p, err
}

// namedTree does the same for a named rendering.
func namedTree(q string, args map[string]interface{}) (*pg.N, *pg.Parsed, error) {
	p, err := pg.ParseStatement(q, pg.Mode{Named: true})
	if err != nil {
		return nil, nil, err
	}
	n, err := bind(p.Tree, func(s string) (interface{}, bool) {
		v, ok := args[s]
		return v, ok
	})
	return n, p, err
}

func bind(n *pg.N, get func(string) (interface{}, bool)) (*pg.N, error) {
	var err error
	out := n.Map(func(n *pg.N) *pg.N {
		if n.T == "param" {
			v, ok := get(n.S)
			if !ok {
				err = fmt.Errorf("placeholder %q has no argument", n.S)
			}
			n.S = plan.Key(v)
		}
		return n
	})
	return out, err
}

// params lists the placeholders of a tree in textual order. Document order is
// textual order for every node the parser makes.
func params(p *pg.Lexed) []string {
	var out []string
	for _, t := range p.Toks {
		if t.K == pg.Param || t.K == pg.Named {
			out = append(out, t.S)
		}
	}
	return out
}

// faithful compares the renderings of a statement with the model.
func faithful(s *plan.Stmt, r *Rec) string {
	o, p := buildAndRender(s)
	if p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	r.Detail["sql"] = o.Q
	return sameMeaning(s.N(), o)
}

// sameMeaning compares both parameterised renderings with the expected tree.
func sameMeaning(want *pg.N, o Out) string {
	got, _, err := tree(o.Q, o.Args)
	if err != nil {
		return fmt.Sprintf("Query renders text that is not the statement: %v\n  sql: %s", err, o.Q)
	}
	if d := pg.Diff(want, got); d != "" {
		return fmt.Sprintf("Query renders another statement: %s\n  sql: %s", d, o.Q)
	}
	if o.NQ == "" {
		return ""
	}
	got, _, err = namedTree(o.NQ, o.NArgs)
	if err != nil {
		return fmt.Sprintf("NamedQuery renders text that is not the statement: %v\n  sql: %s", err, o.NQ)
	}
	if d := pg.Diff(want, got); d != "" {
		return fmt.Sprintf("NamedQuery renders another statement: %s\n  sql: %s", d, o.NQ)
	}
	return ""
}

// numbered checks that the placeholders are numbered 1..n in textual order and
// match the arguments one to one, in both parameterised forms.
func numbered(o Out) string {
	lx, err := pg.Lex(o.Q, pg.Mode{})
	if err != nil {
		return fmt.Sprintf("Query renders text that cannot be read: %v\n  sql: %s", err, o.Q)
	}
	ps := params(lx)
	if len(ps) != len(o.Args) {
		return fmt.Sprintf("Query has %d placeholders and %d arguments\n  sql: %s", len(ps), len(o.Args), o.Q)
	}
	for i, p := range ps {
		if p != strconv.Itoa(i+1) {
			return fmt.Sprintf("placeholder %d of Query is $%s\n  sql: %s", i+1, p, o.Q)
		}
	}
	lx, err = pg.Lex(o.NQ, pg.Mode{Named: true})
	if err != nil {
		return fmt.Sprintf("NamedQuery renders text that cannot be read: %v\n  sql: %s", err, o.NQ)
	}
	ps = params(lx)
	if len(ps) != len(o.NArgs) || len(ps) != len(o.Args) {
		return fmt.Sprintf("NamedQuery has %d placeholders and %d arguments, Query %d\n  sql: %s", len(ps), len(o.NArgs), len(o.Args), o.NQ)
	}
	for i, p := range ps {
		if p != "arg_"+strconv.Itoa(i+1) {
			return fmt.Sprintf("placeholder %d of NamedQuery is :%s\n  sql: %s", i+1, p, o.NQ)
		}
		v, ok := o.NArgs[p]
		if !ok {
			return fmt.Sprintf("NamedQuery has no argument %s\n  sql: %s", p, o.NQ)
		}
		if a, b := plan.Key(v), plan.Key(o.Args[i]); a != b {
			return fmt.Sprintf("argument %d is %s in NamedQuery and %s in Query\n  sql: %s", i+1, a, b, o.Q)
		}
	}
	return ""
}

// wantArgs are the values of an expected tree in textual order.
func wantArgs(n *pg.N) []string {
	var out []string
	n.Walk(func(n *pg.N) {
		if n.T == "param" {
			out = append(out, n.S)
		}
	})
	return out
}

type tokKey struct {
	k pg.Kind
	s string
}

func tokens(src string, mode pg.Mode) ([]tokKey, []string, error) {
	lx, err := pg.Lex(src, mode)
	if err != nil {
		return nil, nil, err
	}
	var out []tokKey
	for _, t := range lx.Toks {
		out = append(out, tokKey{t.K, t.S})
	}
	var cs []string
	for _, c := range lx.Comments {
		cs = append(cs, c.Text)
	}
	return out, cs, nil
}

// agree compares the three renderings: NamedQuery and String must be Query
// with each placeholder replaced.
func agree(o Out) string {
	lx, err := pg.Lex(o.Q, pg.Mode{})
	if err != nil {
		return fmt.Sprintf("Query renders text that cannot be read: %v\n  sql: %s", err, o.Q)
	}
	subst := func(f func(i int) string) string {
		var sb strings.Builder
		last := 0
		for _, t := range lx.Toks {
			if t.K != pg.Param {
				continue
			}
			i, err := strconv.Atoi(t.S)
			if err != nil || i < 1 || i > len(o.Args) {
				i = 0
			}
			sb.WriteString(o.Q[last:t.Start])
			sb.WriteString(f(i))
			last = t.End
		}
		sb.WriteString(o.Q[last:])
		return sb.String()
	}
	named := subst(func(i int) string { return ":arg_" + strconv.Itoa(i) })
	if d := sameTokens(named, o.NQ, pg.Mode{Named: true}); d != "" {
		return fmt.Sprintf("NamedQuery differs from Query: %s\n  query: %s\n  named: %s", d, o.Q, o.NQ)
	}
	lits := make([]string, len(o.Args)+1)
	lits[0] = "?"
	if p := guard(func() {
		for i, a := range o.Args {
			lits[i+1] = format.Value(a)
		}
	}); p != nil {
		return "formatting an argument panics: " + p.String()
	}
	raw := subst(func(i int) string { return lits[i] })
	if raw == o.Raw {
		return ""
	}
	return fmt.Sprintf("String differs from Query with the arguments inlined\n  want: %s\n  got:  %s", raw, o.Raw)
}

func sameTokens(a, b string, mode pg.Mode) string {
	ta, ca, err := tokens(a, mode)
	if err != nil {
		return err.Error()
	}
	tb, cb, err := tokens(b, mode)
	if err != nil {
		return err.Error()
	}
	for i := 0; i < len(ta) && i < len(tb); i++ {
		if ta[i] != tb[i] {
			return fmt.Sprintf("token %d is %q, not %q", i, tb[i].s, ta[i].s)
		}
	}
	if len(ta) != len(tb) {
		return fmt.Sprintf("%d tokens, not %d", len(tb), len(ta))
	}
	if strings.Join(ca, "\x00") != strings.Join(cb, "\x00") {
		return fmt.Sprintf("comments are %q, not %q", cb, ca)
	}
	return ""
}

func sameOut(a, b Out) string {
	if a.Q != b.Q {
		return fmt.Sprintf("Query text differs\n  %s\n  %s", a.Q, b.Q)
	}
	if len(a.Args) != len(b.Args) {
		return fmt.Sprintf("%d arguments against %d\n  sql: %s", len(a.Args), len(b.Args), a.Q)
	}
	for i := range a.Args {
		if x, y := plan.Key(a.Args[i]), plan.Key(b.Args[i]); x != y {
			return fmt.Sprintf("argument %d differs: %s against %s\n  sql: %s", i+1, x, y, a.Q)
		}
	}
	if a.NQ != b.NQ {
		return fmt.Sprintf("NamedQuery text differs\n  %s\n  %s", a.NQ, b.NQ)
	}
	if x, y := mapKey(a.NArgs), mapKey(b.NArgs); x != y {
		return fmt.Sprintf("named arguments differ: %s against %s", x, y)
	}
	if a.Raw != b.Raw {
		return fmt.Sprintf("String differs\n  %s\n  %s", a.Raw, b.Raw)
	}
	return ""
}

func mapKey(m map[string]interface{}) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%s;", k, plan.Key(m[k]))
	}
	return sb.String()
}

// classify labels a statement by the features it uses.
func classify(s *plan.Stmt, r *Rec) (clauses int) {
	r.Label("kind " + s.Kind)
	for i := range s.Ops {
		o := &s.Ops[i]
		r.Label("op " + o.N)
		clauses++
		if len(o.Rows) > 1 {
			r.Label("several rows")
		}
		if len(o.Rows) > 10 || len(o.Ids) > 10 || len(o.Targets) > 10 || len(o.Pairs) > 10 {
			r.Label("long list")
		}
		for _, t := range o.Targets {
			r.Label("target " + t.K)
		}
		if o.Join != nil {
			r.Label(fmt.Sprintf("join form %d", o.Join.F))
		}
	}
	s.EachExpr(func(e *plan.Expr) {
		r.Label("expr " + e.K)
		if e.K == "cmp" {
			r.Label("cmp " + e.Op)
		}
		if e.V != nil {
			r.Label("value " + e.V.K)
		}
		if e.K == "in" && len(e.X) > 11 {
			r.Label("long list")
		}
	})
	nested := 0
	s.EachStmt(func(*plan.Stmt) { nested++ })
	r.LabelIf(nested > 1, "nested statement")
	r.LabelIf(nested > 2, "two nested statements")
	return clauses
}
