package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"

	"verif/harness/gen"
	"verif/harness/pg"
	"verif/harness/plan"
)

// C18: LIMIT and OFFSET render exactly the number given, or reject it.

type numCase struct {
	Limit  *plan.Val
	Offset *plan.Val
	LF, OF int // 1: a limit or offset object
}

var decimal = regexp.MustCompile(`^[+-]?[0-9]+$`)

// number is the integer a value stands for.
func number(v *plan.Val) (*big.Int, bool) {
	switch x := v.Go().(type) {
	case int:
		return big.NewInt(int64(x)), true
	case int8:
		return big.NewInt(int64(x)), true
	case int16:
		return big.NewInt(int64(x)), true
	case int32:
		return big.NewInt(int64(x)), true
	case int64:
		return big.NewInt(x), true
	case uint:
		return new(big.Int).SetUint64(uint64(x)), true
	case uint8:
		return big.NewInt(int64(x)), true
	case uint16:
		return big.NewInt(int64(x)), true
	case uint32:
		return big.NewInt(int64(x)), true
	case uint64:
		return new(big.Int).SetUint64(x), true
	case string:
		if !decimal.MatchString(x) {
			return nil, false
		}
		return new(big.Int).SetString(x, 10)
	}
	return nil, false
}

var edges = []int64{0, 1, -1, 2, 9, 10, 11, 99, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64 - 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1 << 53, 1<<53 + 1}

var badNumbers = []string{"", " ", "5 ", " 5", "5\n", "abc", "1e3", "0x10", "0b1", "0o7", "1_000", "5.0", ".5", "5.", "+", "-", "--5", "+-5", "++5", "-+5", "+ 5", "- 5", "5+", "0-5", "+0x5", "-0x5", "0_5", "5,", "5 5", "5/1", "\u00a05", "5\u200b", "0b", "0x", "infinity", "1e0", "௫", "½", "²", "5;", "5--", "1,000", "$1", ":arg_1", "٣", "５", "ALL", "NULL", "NaN", "Inf", "5\x00", "\x005", "(5)", "'5'", "1 OFFSET 2", "5;DROP TABLE t"}

func genNumber(g *gen.G) *plan.Val {
	n := gen.Pick(g, edges)
	switch g.N(4) {
	case 0:
		n = int64(g.In(-20, 200))
	case 1:
		for i := 0; i < 4; i++ {
			n = n<<16 | int64(g.N(65536))
		}
	}
	k := gen.Pick(g, []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "string", "string", "string", "other"})
	v := &plan.Val{K: k}
	switch k {
	case "uint", "uint8", "uint16", "uint32", "uint64":
		v.U = uint64(n)
		if g.OneIn(4) {
			v.U = gen.Pick(g, []uint64{math.MaxInt64, math.MaxInt64 + 1, math.MaxInt64 + 2, math.MaxUint64, math.MaxUint64 - 1, 1<<63 + 5})
		}
	case "string":
		switch g.N(4) {
		case 0:
			v.S = plan.Str(gen.Pick(g, badNumbers))
		case 1: // more digits than fit
			s := strconv.FormatUint(uint64(n), 10) + strconv.Itoa(g.N(1000))
			v.S = plan.Str(gen.Pick(g, []string{"", "-", "+"}) + s)
		default:
			s := strconv.FormatInt(n, 10)
			if n >= 0 && g.OneIn(3) {
				s = gen.Pick(g, []string{"+", "0", "00", "+0"}) + s
			}
			if g.OneIn(8) {
				s += gen.Pick(g, []string{" ", "x", "e1", ".0", "_", "\n", "L", ";", "-", "\x00"})
			}
			v.S = plan.Str(s)
		}
	case "other":
		k := gen.Pick(g, []string{"float64", "float32", "bool", "nil", "bytes", "time", "int64s", "strings", "valuer", "nullint64", "intenc", "strenc", "mapss",
			"badpint", "badpint64", "badpint32", "badpuint64", "badpstring", "badnilpstring", "badints", "badnamed", "badcomplex", "duration", "level", "money", "status", "bigint", "jsonnumber", "iint", "range", "time", "pgint8", "valuerall", "intstr", "pint"})
		if strings.HasPrefix(k, "bad") {
			return &plan.Val{K: k, I: int64(g.In(0, 9)), S: "5"}
		}
		x := g.ValOf(k)
		return &x
	default:
		v.I = n
	}
	return v
}

func numArg(v *plan.Val, which string, f int) interface{} {
	if f == 0 {
		return v.Go()
	}
	if which == "limit" {
		return lk.Limit(v.I)
	}
	return lk.Offset(v.I)
}

func init() {
	add("C18", "numbers", 150000, 3000000, gen.Cfg{Weird: true},
		"LIMIT and OFFSET with integers of every type, decimal and other strings, limit and offset objects, and values of other types, around every type's bounds; compared with arbitrary-precision arithmetic; non-trivial: accepted with a number above 9, or rejected",
		func(g *gen.G) *numCase {
			c := &numCase{}
			w := g.N(5)
			if w != 1 && w != 4 {
				c.Limit = genNumber(g)
			}
			if w == 1 || w >= 3 {
				c.Offset = genNumber(g)
			}
			if c.Limit != nil && c.Limit.K == "int64" && g.Coin() {
				c.LF = 1
			}
			if c.Offset != nil && c.Offset.K == "int64" && g.Coin() {
				c.OF = 1
			}
			return c
		}, checkNumbers)
}

func checkNumbers(c *numCase, r *Rec) string {
	want := pg.Mk("want")
	ok := true
	big9 := false
	for _, x := range []struct {
		name string
		v    *plan.Val
		min  int64
		f    int
	}{{"limit", c.Limit, 1, c.LF}, {"offset", c.Offset, 0, c.OF}} {
		if x.v == nil {
			continue
		}
		r.Label(x.name + " " + x.v.K)
		r.LabelIf(x.f == 1, x.name+" object")
		n, isNum := number(x.v)
		if !isNum || n.Cmp(big.NewInt(x.min)) < 0 || !n.IsInt64() {
			ok = false
			continue
		}
		big9 = big9 || n.Cmp(big.NewInt(9)) > 0
		if x.name == "offset" && n.Sign() == 0 {
			continue // skipping no row is not skipping
		}
		want.Add(pg.Tx(x.name, n.String()))
	}
	var b builder.Builder
	var o Out
	p := guard(func() {
		s := lk.Select("a").From("t")
		if c.Limit != nil {
			s = s.Limit(numArg(c.Limit, "limit", c.LF))
		}
		if c.Offset != nil {
			s = s.Offset(numArg(c.Offset, "offset", c.OF))
		}
		b = s
		o.Q, o.Args = b.Query()
		o.NQ, o.NArgs = b.NamedQuery()
		o.Raw = b.String()
	})
	what := fmt.Sprintf("LIMIT %s OFFSET %s", numText(c.Limit), numText(c.Offset))
	if p != nil && p.Runtime {
		return fmt.Sprintf("%s ends in a Go runtime error: %s", what, p.Text)
	}
	if !ok {
		r.NonTrivial = true
		r.Label("rejected")
		if p == nil {
			return fmt.Sprintf("%s is accepted\n  sql: %s", what, o.Q)
		}
		return ""
	}
	if p != nil {
		return fmt.Sprintf("%s is rejected: %s", what, p.Text)
	}
	r.Label("accepted")
	r.NonTrivial = big9
	r.Detail["sql"] = o.Q
	if len(o.Args)+len(o.NArgs) > 0 {
		return fmt.Sprintf("%s binds arguments\n  sql: %s", what, o.Q)
	}
	for _, q := range []string{o.Q, o.NQ, o.Raw} {
		t, err := pg.ParseStatement(q, pg.Mode{})
		if err != nil {
			return fmt.Sprintf("%s renders text that cannot be read: %v\n  sql: %s", what, err, q)
		}
		got := pg.Mk("want")
		for _, k := range t.Tree.K {
			if k.T == "limit" || k.T == "offset" {
				x := k.K
				if len(x) != 1 || x[0].T != "num" {
					return fmt.Sprintf("%s renders something else than a number\n  sql: %s", what, q)
				}
				n, good := new(big.Int).SetString(x[0].S, 10)
				if !good {
					return fmt.Sprintf("%s renders %q\n  sql: %s", what, x[0].S, q)
				}
				if k.T == "offset" && n.Sign() == 0 {
					continue
				}
				got.Add(pg.Tx(k.T, n.String()))
			}
		}
		if d := pg.Diff(want, got); d != "" {
			return fmt.Sprintf("%s is rendered wrongly: %s\n  sql: %s", what, d, q)
		}
	}
	return ""
}

func numText(v *plan.Val) string {
	if v == nil {
		return "absent"
	}
	return fmt.Sprintf("%T(%#v)", v.Go(), v.Go())
}
