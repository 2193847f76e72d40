package main

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/types"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C12: rendering has no effect, and builders can be used from several
// goroutines. The check is built with the race detector.

// raceReport returns what the race detector logged since from.
func raceReport(from int64) (string, int64) {
	p := os.Getenv("VERIF_RACE_LOG")
	if p == "" {
		return "", 0
	}
	f, err := os.Open(p + "." + strconv.Itoa(os.Getpid()))
	if err != nil {
		return "", 0
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil || st.Size() <= from {
		return "", from
	}
	b := make([]byte, min(st.Size()-from, 6000))
	n, _ := f.ReadAt(b, from)
	return string(b[:n]), st.Size()
}

// act is one thing a goroutine does with the shared builder.
type act struct {
	K  string   `json:"k"` // query named string fork wrap stmt
	Op *plan.Op `json:"op,omitempty"`
	W  string   `json:"w,omitempty"`
}

type concCase struct {
	S    *plan.Stmt   `json:"s"`             // shared by all goroutines
	Own  []*plan.Stmt `json:"own,omitempty"` // built and rendered by each goroutine itself
	Acts [][]act      `json:"acts"`          // per goroutine
	Cold bool         `json:"cold,omitempty"`
}

var freshRound atomic.Int64

// freshNames renders a statement whose names and texts occur nowhere else in
// this process, so that nothing can be remembered of them.
func freshNames(round, i int) string {
	n := fmt.Sprintf("%d_%d", round, i)
	b := lk.Select("c"+n, lk.Column("d"+n).As("e"+n)).From("t" + n).
		Join("INNER JOIN j" + n + " ON t" + n + ".x = j" + n + ".y").
		Where(lk.Condition("f" + n).Equal("v" + n)).
		And(lk.Condition("g"+n).In("w"+n, round))
	q, args := b.Query()
	nq, nargs := b.NamedQuery()
	raw := b.String()
	wantQ := fmt.Sprintf(`SELECT "c%[1]s", "d%[1]s" AS "e%[1]s" FROM "t%[1]s" INNER JOIN "j%[1]s" ON "t%[1]s"."x" = "j%[1]s"."y" WHERE (("f%[1]s" = $1) AND ("g%[1]s" IN ($2, $3)))`, n)
	wantArgs := []interface{}{"v" + n, "w" + n, round}
	if q != wantQ || keys(args) != keys(wantArgs) {
		return fmt.Sprintf("got %s %v", q, args)
	}
	named, inlined := wantQ, wantQ
	for k, a := range wantArgs {
		p := fmt.Sprintf("$%d", k+1)
		named = strings.ReplaceAll(named, p, fmt.Sprintf(":arg_%d", k+1))
		text := fmt.Sprint(a)
		if k < 2 {
			text = "'" + text + "'"
		}
		inlined = strings.ReplaceAll(inlined, p, text)
	}
	if nq != named || len(nargs) != 3 || raw != inlined {
		return fmt.Sprintf("got %s %v and %s", nq, nargs, raw)
	}
	return ""
}

var actKinds = []string{"query", "named", "string", "stmt", "fork", "wrap", "query", "named", "string", "fail"}

func (g *concGen) act(s *plan.Stmt) act {
	a := act{K: gen.Pick(g.G, actKinds)}
	switch a.K {
	case "fork":
		o := plan.Op{N: "comment", S: "forked"}
		if s.Kind != "insert" && g.N(3) > 0 {
			o = plan.Op{N: "where", E: g.Cond()}
		} else if s.Kind == "select" && g.Coin() {
			o = plan.Op{N: "orderby", Orders: []plan.Order{{S: "forked", Dir: "DESC"}}}
		} else if s.Kind == "update" && !hasOp(s, "setcols") {
			p, f := g.Pairs(1, 2, false)
			o = plan.Op{N: "set", Pairs: p, F: f}
		} else if s.Kind == "update" {
			o = plan.Op{N: "using", Es: []*plan.Expr{intE(1)}}
		}
		a.Op = &o
	case "wrap":
		if s.Kind != "select" {
			a.K = "query"
			break
		}
		a.W = gen.Pick(g.G, wrapForms)
	}
	return a
}

func hasOp(s *plan.Stmt, n string) bool {
	for i := range s.Ops {
		if s.Ops[i].N == n {
			return true
		}
	}
	return false
}

type concGen struct{ *gen.G }

// perform runs the action on builder b of statement s.
func (a *act) perform(b plan.B, s *plan.Stmt) (out string, p *Panic) {
	p = guard(func() {
		switch a.K {
		case "query":
			q, args := b.Builder().Query()
			out = q + "\x00" + keys(args)
		case "named":
			q, args := b.Builder().NamedQuery()
			out = q + "\x00" + mapKey(args)
		case "string":
			out = b.Builder().String()
		case "stmt":
			ctx := &types.StdContext{}
			b.Builder().Statement().Write(ctx)
			out = ctx.Query() + "\x00" + keys(ctx.Values())
		case "fork":
			q, args := b.Apply(*a.Op).Builder().Query()
			out = q + "\x00" + keys(args)
		case "fail":
			for k := 0; k < 10; k++ {
				fail(k)
			}
		case "wrap":
			q, args := wrapped(a.W, s).Build().Builder().Query()
			out = q + "\x00" + keys(args)
		}
	})
	return out, p
}

func keys(args []interface{}) string {
	var sb strings.Builder
	for _, a := range args {
		sb.WriteString(plan.Key(a))
		sb.WriteByte(';')
	}
	return sb.String()
}

type outcome struct {
	out string
	p   *Panic
}

func checkConcurrent(c *concCase, r *Rec) string {
	r.Label("kind " + c.S.Kind)
	r.Label(fmt.Sprintf("%d goroutines", len(c.Acts)))
	r.LabelIf(raceEnabled, "race detector on")
	r.NonTrivial = len(c.Acts) > 1
	// What each action gives when nothing else happens. It is computed after
	// the concurrent part half of the time: whatever the library does on the
	// first rendering then happens in several goroutines at once.
	want := make([][]outcome, len(c.Acts))
	ownWant := make([]outcome, len(c.Own))
	alone := func() {
		for i, as := range c.Acts {
			for k := range as {
				b := c.S.Build()
				if as[k].K == "wrap" {
					plan.Fixed = map[string]builder.Builder{plan.JSON(c.S): b.Builder()}
				}
				o, p := as[k].perform(b, c.S)
				plan.Fixed = nil
				want[i] = append(want[i], outcome{o, p})
			}
		}
		for i, s := range c.Own {
			o, p := buildAndRender(s)
			ownWant[i] = outcome{o.Q + "\x00" + keys(o.Args) + "\x00" + o.NQ + "\x00" + mapKey(o.NArgs) + "\x00" + o.Raw, p}
		}
	}
	for _, as := range c.Acts {
		for k := range as {
			r.Label("action " + as[k].K)
		}
	}
	r.LabelIf(c.Cold, "first rendered concurrently")
	if !c.Cold {
		alone()
	}
	got := make([][]outcome, len(c.Acts))
	ownGot := make([]outcome, len(c.Own))
	round := int(freshRound.Add(1))
	_, mark := raceReport(0)
	shared := c.S.Build()
	plan.Fixed = map[string]builder.Builder{plan.JSON(c.S): shared.Builder()}
	defer func() { plan.Fixed = nil }()
	var start, done sync.WaitGroup
	start.Add(1)
	fails := make([]string, len(c.Acts))
	for i := range c.Acts {
		done.Add(1)
		go func(i int) {
			defer done.Done()
			defer func() {
				if p := recover(); p != nil {
					fails[i] = fmt.Sprint("harness: ", p)
				}
			}()
			start.Wait()
			if c.Cold {
				if d := freshNames(round, i); d != "" {
					fails[i] = "names never seen before: " + d
				}
			}
			if i < len(c.Own) {
				o, p := buildAndRender(c.Own[i])
				ownGot[i] = outcome{o.Q + "\x00" + keys(o.Args) + "\x00" + o.NQ + "\x00" + mapKey(o.NArgs) + "\x00" + o.Raw, p}
			}
			for k := range c.Acts[i] {
				o, p := c.Acts[i][k].perform(shared, c.S)
				got[i] = append(got[i], outcome{o, p})
			}
		}(i)
	}
	start.Done()
	done.Wait()
	if c.Cold {
		plan.Fixed = nil
		alone()
	}
	for i := range c.Acts {
		if fails[i] != "" {
			continue
		}
		if i < len(c.Own) {
			if d := differs(ownWant[i], ownGot[i].out, ownGot[i].p); d != "" {
				fails[i] = "a statement built next to others: " + d
				continue
			}
		}
		for k := range c.Acts[i] {
			if d := differs(want[i][k], got[i][k].out, got[i][k].p); d != "" {
				fails[i] = fmt.Sprintf("action %d (%s) of goroutine %d: %s", k, c.Acts[i][k].K, i, d)
				break
			}
		}
	}
	for _, f := range fails {
		if strings.HasPrefix(f, "harness: ") {
			fatal("%s", f)
		}
	}
	if rep, _ := raceReport(mark); rep != "" {
		if !inLoukoum(rep) {
			fatal("data race outside of loukoum:\n%s", rep)
		}
		return "data race between goroutines that only render or derive builders:\n" + rep
	}
	for _, f := range fails {
		if f != "" {
			return f
		}
	}
	return ""
}

// inLoukoum tells whether a reported stack passes through loukoum.
func inLoukoum(report string) bool {
	for _, l := range strings.Split(report, "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "github.com/ulule/loukoum") {
			return true
		}
	}
	return false
}

func differs(w outcome, got string, p *Panic) string {
	if (w.p == nil) != (p == nil) {
		return fmt.Sprintf("ends with %v, alone with %v", p, w.p)
	}
	if p == nil && got != w.out {
		return fmt.Sprintf("gives another result than alone\n  got  %q\n  want %q", got, w.out)
	}
	return ""
}

// nosy is a rendering context that renders other builders while it is used.
type nosy struct {
	types.StdContext
	other builder.Builder
	busy  bool
	n     int
}

func (c *nosy) poke() {
	if c.busy {
		return
	}
	c.busy = true
	c.n++
	switch c.n % 3 {
	case 0:
		c.other.Query()
	case 1:
		c.other.NamedQuery()
	default:
		_ = c.other.String()
	}
	c.busy = false
}

func (c *nosy) Write(s string) { c.poke(); c.StdContext.Write(s) }

func (c *nosy) Bind(v interface{}) { c.poke(); c.StdContext.Bind(v) }

// failing makes a builder whose rendering begins and then panics: a statement
// nested in it is not complete, or (for String only) a valuer fails.
func failing(k int) builder.Builder {
	var e interface{} = lk.Value(broken{})
	if k%2 == 0 {
		e = lk.Exists(builder.NewSelect())
	}
	c := lk.Condition("failed").Equal(e)
	switch k / 2 % 5 {
	case 0:
		return lk.Select("failed").From("failed").Where(lk.Condition("ok").Equal("failed")).And(c)
	case 1:
		return lk.Insert("failed").Set(lk.Pair("failed", e))
	case 2:
		return lk.Insert("failed").Columns("a", "failed").Values("failed", e)
	case 3:
		return lk.Update("failed").Set(lk.Pair("a", "failed"), lk.Pair("failed", e))
	}
	return lk.Delete("failed").Where(c)
}

// broken is a valuer that fails.
type broken struct{}

func (broken) Value() (driver.Value, error) { return nil, errors.New("broken") }

// fail begins renderings that do not end.
func fail(k int) {
	guard(func() { failing(k).Query() })
	guard(func() { failing(k).NamedQuery() })
	guard(func() { _ = failing(k).String() })
}

// faulty is a context that fails.
type faulty struct {
	types.StdContext
	left int
}

func (c *faulty) Write(s string) {
	if c.left--; c.left < 0 {
		panic("faulty")
	}
	c.StdContext.Write(s)
}

func (c *faulty) Bind(v interface{}) {
	if c.left--; c.left < 0 {
		panic("faulty")
	}
	c.StdContext.Bind(v)
}

type againCase struct {
	A, B *plan.Stmt
	// 0 Query 1 NamedQuery 2 String 3 Statement 4 render inside the rendering of the other, 5 of itself,
	// 6 first render something that fails half-way, 7 first write to a context that fails
	Order []int
	Fault int
}

func (c *againCase) has(k int) bool {
	for _, o := range c.Order {
		if o == k {
			return true
		}
	}
	return false
}

func checkAgain(c *againCase, r *Rec) string {
	want, p := buildAndRender(c.A)
	if p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	classify(c.A, r)
	r.NonTrivial = len(c.Order) > 2
	r.LabelIf(c.has(6) || c.has(7), "after a rendering that failed")
	r.Detail["sql"] = want.Q
	var a, b builder.Builder
	if p := guard(func() { a, b = c.A.Build().Builder(), c.B.Build().Builder() }); p != nil {
		return "a legitimate statement is rejected: " + p.String()
	}
	for i, k := range c.Order {
		got := want
		switch k {
		case 6:
			fail(c.Fault + i)
			k = (c.Fault + i) % 4
		case 7:
			guard(func() { a.Statement().Write(&faulty{left: c.Fault}) })
			k = (c.Fault + i) % 4
		}
		p := guard(func() {
			switch k {
			case 0:
				got.Q, got.Args = a.Query()
			case 1:
				got.NQ, got.NArgs = a.NamedQuery()
			case 2:
				got.Raw = a.String()
			case 3:
				ctx := &types.StdContext{}
				a.Statement().Write(ctx)
				got.Q, got.Args = ctx.Query(), ctx.Values()
			default:
				ctx := &nosy{other: b}
				if k == 5 {
					ctx.other = a
				}
				a.Statement().Write(ctx)
				got.Q, got.Args = ctx.Query(), ctx.Values()
			}
		})
		if p != nil {
			return fmt.Sprintf("rendering %d (%d) of the same builder: %s", i, k, p)
		}
		if d := sameOut(want, got); d != "" {
			return fmt.Sprintf("rendering %d (%d) of the same builder: %s", i, k, d)
		}
	}
	return ""
}

func init() {
	cfg := gen.Cfg{Depth: 1}
	f := add("C12", "shared", 3000, 60000, cfg,
		"one builder used by 2 to 6 goroutines at once, each rendering it in all forms, deriving from it or nesting it, in a build with the race detector; every result must be what it is alone; non-trivial: at least 2 goroutines",
		func(g *gen.G) *concCase {
			s := g.Any()
			if g.OneIn(3) { // maps and sorted columns
				s = g.Update()
			}
			c := &concCase{S: s, Cold: g.Coin()}
			cg := &concGen{g}
			for i := g.In(2, 6); i > 0; i-- {
				var as []act
				for k := g.In(1, 4); k > 0; k-- {
					as = append(as, cg.act(s))
				}
				c.Acts = append(c.Acts, as)
			}
			return c
		}, checkConcurrent)
	f.Repeat = 400
	f = add("C12", "separate", 1600, 40000, cfg,
		"2 to 6 goroutines build and render statements of their own at the same time, race detector on; non-trivial: at least 2 goroutines",
		func(g *gen.G) *concCase {
			c := &concCase{S: g.Any(), Cold: g.Coin()}
			cg := &concGen{g}
			for i := g.In(2, 6); i > 0; i-- {
				s := g.Any()
				if len(c.Own) > 0 && g.OneIn(3) { // the same calls at the same time
					s = c.Own[len(c.Own)-1]
				}
				c.Own = append(c.Own, s)
				a := cg.act(c.S)
				if a.K == "wrap" {
					a.K = "query"
				}
				c.Acts = append(c.Acts, []act{a})
			}
			return c
		}, checkConcurrent)
	f.Repeat = 400
	add("C12", "again", 6000, 120000, gen.Cfg{Depth: 2, Comments: true},
		"one builder rendered up to 12 times, in any order of forms, also while another rendering of it or of another builder is under way or after one that failed half-way; all renderings must be the first one; non-trivial: at least 3 renderings",
		func(g *gen.G) *againCase {
			c := &againCase{A: g.Any(), B: g.Any()}
			for i := g.In(2, 12); i > 0; i-- {
				c.Order = append(c.Order, g.N(8))
			}
			c.Fault = g.In(0, 60)
			return c
		}, checkAgain)
}
