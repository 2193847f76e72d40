package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/types"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C26: a statement writes itself to any context, the library's own or the
// caller's, and contexts carry on where the previous statement stopped.

type contextCase struct {
	S    []*plan.Stmt `json:"s"`
	Sep  plan.Str     `json:"sep"`           // what the caller writes between statements
	Pre  plan.Str     `json:"pre,omitempty"` // and before the first
	Own  []plan.Val   `json:"own,omitempty"` // what it binds after that text
	Peek int          `json:"peek"`          // bit i: the contexts are read before statement i
}

// recorder is a caller's context: it keeps what it is given.
type recorder struct {
	pieces []piece
}

type piece struct {
	text string
	val  interface{}
	bind bool
}

func (c *recorder) Write(s string)     { c.pieces = append(c.pieces, piece{text: s}) }
func (c *recorder) Bind(v interface{}) { c.pieces = append(c.pieces, piece{val: v, bind: true}) }
func (c *recorder) text(f func(i int, v interface{}) string) (string, []interface{}) {
	var sb strings.Builder
	var vals []interface{}
	for _, p := range c.pieces {
		if p.bind {
			vals = append(vals, p.val)
			sb.WriteString(f(len(vals), p.val))
			continue
		}
		sb.WriteString(p.text)
	}
	return sb.String(), vals
}

// question is a caller's context on top of the library's, as one writes it for
// a database with other placeholders.
type question struct {
	types.RawContext
	vals []interface{}
}

func (c *question) Bind(v interface{}) {
	c.vals = append(c.vals, v)
	c.Write("?")
}

func positional(i int, _ interface{}) string { return "$" + strconv.Itoa(i) }
func named(i int, _ interface{}) string      { return ":arg_" + strconv.Itoa(i) }
func markOf(int, interface{}) string         { return "?" }
func literal(_ int, v interface{}) string {
	r := &types.RawContext{}
	r.Bind(v)
	return r.Query()
}

func sameVals(what string, want, got []interface{}) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%s: %d values, want %d", what, len(got), len(want))
	}
	for i := range want {
		if plan.Key(want[i]) != plan.Key(got[i]) {
			return fmt.Sprintf("%s: value %d is %s, want %s", what, i+1, plan.Key(got[i]), plan.Key(want[i]))
		}
	}
	return ""
}

func asMap(vals []interface{}) map[string]interface{} {
	m := map[string]interface{}{}
	for i, v := range vals {
		m["arg_"+strconv.Itoa(i+1)] = v
	}
	return m
}

func equalText(what, want, got string) string {
	if want != got {
		return fmt.Sprintf("%s differs:\n  want: %s\n  got:  %s", what, want, got)
	}
	return ""
}

func firstOf(ds ...string) string {
	for _, d := range ds {
		if d != "" {
			return d
		}
	}
	return ""
}

func checkContexts(c *contextCase, r *Rec) string {
	var bs []builder.Builder
	var outs []Out
	for _, s := range c.S {
		var b builder.Builder
		if p := guard(func() { b = s.Build().Builder() }); p != nil {
			return "a legitimate statement is rejected: " + p.String()
		}
		o, p := render(b)
		if p != nil {
			return "a legitimate statement is rejected: " + p.String()
		}
		bs, outs = append(bs, b), append(outs, o)
		r.Label("kind " + s.Kind)
	}
	r.Detail["sql"] = outs[0].Q
	r.LabelIf(len(bs) > 1, "several statements")

	all := &recorder{}
	std, nam, raw, qst := &types.StdContext{}, &types.NamedContext{}, &types.RawContext{}, &question{}
	// read gives what the library's contexts hold, and says if it is not what was written to them.
	read := func() string {
		q, vals := all.text(positional)
		nq, _ := all.text(named)
		rq, _ := all.text(literal)
		return firstOf(
			equalText("the text of a positional context", q, std.Query()),
			sameVals("a positional context", vals, std.Values()),
			equalText("the text of a named context", nq, nam.Query()),
			equalText("the values of a named context", mapKey(asMap(vals)), mapKey(nam.Values())),
			equalText("the text of an inlining context", rq, raw.Query()),
		)
	}
	var single []*types.StdContext
	for i, b := range bs {
		if i > 0 && c.Peek>>i&1 != 0 {
			r.Label("read in between")
			if d := read(); d != "" {
				return "read before more is written, " + d
			}
		}
		one := &types.StdContext{}
		single = append(single, one)
		alone := &recorder{}
		p := guard(func() {
			b.Statement().Write(alone)
			for _, ctx := range []types.Context{all, std, nam, raw, qst, one} {
				if ctx != types.Context(one) {
					if i > 0 {
						ctx.Write(string(c.Sep))
					} else {
						ctx.Write(string(c.Pre))
					}
					if i < len(c.Own) {
						ctx.Bind(c.Own[i].Go())
					}
				}
				b.Statement().Write(ctx)
			}
		})
		if p != nil {
			return "a context is not accepted: " + p.String()
		}
		o := outs[i]
		q, vals := alone.text(positional)
		nq, _ := alone.text(named)
		rq, _ := alone.text(literal)
		r.Count("values", len(vals))
		if d := firstOf(
			equalText("the positional rendering of what a context receives", o.Q, q),
			equalText("the named rendering of what a context receives", o.NQ, nq),
			equalText("the inlined rendering of what a context receives", o.Raw, rq),
			sameVals("what a context receives", o.Args, vals),
		); d != "" {
			return d
		}
	}
	_, vals := all.text(positional)
	mq, _ := all.text(markOf)
	r.NonTrivial = len(vals) >= 2
	r.LabelIf(len(vals) >= 10, "ten values or more")
	if d := firstOf(
		read(),
		equalText("the text of a context of the caller's", mq, qst.Query()),
		sameVals("a context of the caller's", vals, qst.vals),
	); d != "" {
		return d
	}
	// Every context is still what it was, whatever was rendered and read since.
	for i, one := range single {
		if _, p := render(bs[len(bs)-1-i]); p != nil {
			return "a legitimate statement is rejected the second time: " + p.String()
		}
		if d := firstOf(
			equalText("a positional context of one statement", outs[i].Q, one.Query()),
			sameVals("a positional context of one statement", outs[i].Args, one.Values()),
		); d != "" {
			return d
		}
	}
	if d := read(); d != "" {
		return "read again, " + d
	}
	return ""
}

// ownText is text a caller may write, in pieces that mean nothing to a context.
func ownText(g *gen.G) string {
	switch g.N(4) {
	case 0:
		return strings.Repeat(gen.Pick(g, []string{" ", "x", "x ", "é", "\n", ", ", "  y"}), g.In(1, 400))
	case 1:
		return g.Text() + gen.Pick(g, []string{"", " ", "arg_", ":", "$", "'", "(", "--", "$1", ":arg_1", "\n", "\t "})
	}
	return gen.Pick(g, []string{"arg_", "x = ", ":", "$", "$1", ":arg_1", "'", "E'", "(", ") ", " ", "  ", "\n", ";", "-- ", "%", "%s", "%!d", "\\", "\x00", "?", "::"})
}

func init() {
	add("C26", "contexts", 16000, 300000, gen.Cfg{Depth: 2, Weird: true, Big: true, Comments: true},
		"one to three random statements written to a context of the caller's that records what it receives, to one that embeds the library's, and to the library's three, each statement into a fresh context and all into one, with text and values of the caller's before and in between, the contexts being read after some of the statements, at the end, and once more after other statements were rendered; non-trivial: at least two values",
		func(g *gen.G) *contextCase {
			c := &contextCase{Sep: plan.Str(gen.Pick(g, []string{"; ", ";\n", " UNION ALL ", " ", "", "; SELECT $$a$1:arg_1$$; "})), Peek: g.N(8)}
			if g.Coin() {
				c.Sep = plan.Str(ownText(g))
			}
			if g.OneIn(3) {
				c.Pre = plan.Str(ownText(g))
			}
			for i := g.Weighted(3, 1, 1); i > 0; i-- {
				c.Own = append(c.Own, g.ValOf(gen.Pick(g, []string{"string", "int64", "bool", "float64", "time", "bytes", "nil"})))
			}
			for i := g.Weighted(0, 3, 2, 1); i > 0; i-- {
				c.S = append(c.S, g.Any())
			}
			return c
		}, checkContexts)
}
