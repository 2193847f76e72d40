// Package gen generates plans with rapid. Every random choice is drawn from
// rapid, so cases shrink and replay.
package gen

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/pg"
	"verif/harness/plan"
)

// Dict are literals found in loukoum's source: thresholds and magic strings a
// random generator would hardly hit.
type Dict struct {
	Ints []int64
	Strs []string
	// Literals the committed dictionary (known.json) does not have: what a
	// change brought in is tried often.
	NewInts []int64
	NewStrs []string
}

//go:embed known.json
var knownJSON []byte

// Mined is the dictionary of the tree under test.
var Mined Dict

// Mine fills the dictionary from the non-test Go files under root.
func Mine(root string) error {
	ints, strs := map[int64]bool{}, map[string]bool{}
	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if b := info.Name(); b == ".git" || b == "examples" || b == "docs" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch l := n.(type) {
				case *ast.BinaryExpr:
					if l.Op == token.SHL || l.Op == token.MUL || l.Op == token.SUB || l.Op == token.ADD { // 1 << 6, 4 * 1024
						x, ok1 := l.X.(*ast.BasicLit)
						y, ok2 := l.Y.(*ast.BasicLit)
						if ok1 && ok2 {
							a, e1 := strconv.ParseInt(x.Value, 0, 64)
							b, e2 := strconv.ParseInt(y.Value, 0, 64)
							switch {
							case e1 != nil || e2 != nil:
							case l.Op == token.SHL && b < 62:
								ints[a<<uint(b)] = true
							case l.Op == token.MUL:
								ints[a*b] = true
							case l.Op == token.ADD:
								ints[a+b] = true
							case l.Op == token.SUB:
								ints[a-b] = true
							}
						}
					}
				case *ast.BasicLit:
					switch l.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
							ints[v] = true
						}
					case token.STRING:
						if s, err := strconv.Unquote(l.Value); err == nil && s != "" && !strings.Contains(s, "loukoum:") {
							strs[s] = true
						}
					case token.CHAR:
						if s, err := strconv.Unquote(l.Value); err == nil {
							strs[s] = true
						}
					}
				}
				return true
			})
		}
		return nil
	})
	if err != nil {
		return err
	}
	for v := range ints {
		Mined.Ints = append(Mined.Ints, v)
	}
	sort.Slice(Mined.Ints, func(i, j int) bool { return Mined.Ints[i] < Mined.Ints[j] })
	for s := range strs {
		if utf8.ValidString(s) && !strings.Contains(s, "\x00") && len(s) < 200 {
			Mined.Strs = append(Mined.Strs, s)
		}
	}
	sort.Strings(Mined.Strs)
	var known Dict
	if err := json.Unmarshal(knownJSON, &known); err != nil {
		return err
	}
	for _, v := range Mined.Ints {
		if !Has(known.Ints, v) {
			Mined.NewInts = append(Mined.NewInts, v)
		}
	}
	for _, s := range Mined.Strs {
		if !Has(known.Strs, s) {
			Mined.NewStrs = append(Mined.NewStrs, s)
		}
	}
	return nil
}

// Fresh draws a text made from a literal a change brought in.
func (g *G) Fresh() (string, bool) {
	if len(Mined.NewStrs) == 0 || !g.OneIn(5) {
		return "", false
	}
	s := Pick(g, Mined.NewStrs)
	switch g.N(12) {
	case 0, 1:
		return s + Pick(g, texts), true
	case 2, 3:
		return Pick(g, texts) + s, true
	case 4:
		return Pick(g, words) + s + Pick(g, words), true
	case 5:
		return s + s, true
	case 6:
		return strings.ToUpper(s), true
	case 7:
		return strings.ToLower(s), true
	case 8:
		return s + Pick(g, Mined.NewStrs), true
	}
	return s, true
}

// freshInt draws a number near one a change brought in.
func (g *G) freshInt() (int64, bool) {
	if len(Mined.NewInts) == 0 || !g.OneIn(4) {
		return 0, false
	}
	return Pick(g, Mined.NewInts) + int64(g.In(-1, 1)), true
}

// simple tells whether text is an identifier PostgreSQL would not quote.
func simple(s string) bool {
	for i, r := range s {
		if r != '_' && (r < 'a' || r > 'z') && (i == 0 || r < '0' || r > '9') {
			return false
		}
	}
	return s != ""
}

// G draws plans.
type G struct {
	T   *rapid.T
	Cfg Cfg
	seq int

	names *[]plan.Ident // drawn so far
}

// Cfg steers the generator.
type Cfg struct {
	Depth    int  // nesting of conditions and subqueries
	Weird    bool // odd identifiers
	Big      bool // long lists now and then
	NoSub    bool // no subqueries
	NoRaw    bool // no raw fragments
	NoEnc    bool // only plain values
	Comments bool // comments on statements, nested ones too
	Odd      bool // nearly all identifiers are odd
	Subs     bool // many subqueries
	Wild     bool // values that have no literal: NUL, invalid UTF-8, distant years
	Both     bool // DISTINCT together with DISTINCT ON, which PostgreSQL rejects
}

// New makes a generator.
func New(t *rapid.T, cfg Cfg) *G { return &G{T: t, Cfg: cfg} }

var boolGen = rapid.Bool()

// Coin is true half of the time and shrinks to false.
func (g *G) Coin() bool { return boolGen.Draw(g.T, "c") }

// N draws uniformly from [0, n).
func (g *G) N(n int) int {
	if n <= 1 {
		return 0
	}
	bits := 0
	for 1<<uint(bits) < n {
		bits++
	}
	v := 0
	for i := 0; i < bits+2; i++ {
		v <<= 1
		if boolGen.Draw(g.T, "b") {
			v |= 1
		}
	}
	return v * n >> uint(bits+2)
}

// In draws uniformly from [lo, hi].
func (g *G) In(lo, hi int) int { return lo + g.N(hi-lo+1) }

// OneIn is true once in n draws, and shrinks to false.
func (g *G) OneIn(n int) bool { return g.N(n) == n-1 }

// Weighted picks an index by weight.
func (g *G) Weighted(w ...int) int {
	total := 0
	for _, x := range w {
		total += x
	}
	v := g.N(total)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Pick draws an element.
func Pick[T any](g *G, xs []T) T { return xs[g.N(len(xs))] }

// Perm draws a permutation of [0, n).
func (g *G) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := g.In(i, n-1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Len draws a list length: small most of the time, now and then a mined
// threshold or a long one.
func (g *G) Len(lo, hi int) int {
	if n, ok := g.freshInt(); ok && n >= int64(max(2, lo)) && (n <= 40 || n <= 300 && g.OneIn(4) || g.Cfg.Big && n <= 2100 && g.OneIn(30)) {
		return int(n)
	}
	if g.Cfg.Big && g.OneIn(24) {
		switch g.N(3) {
		case 0:
			var pool []int64
			for _, v := range Mined.Ints {
				if v >= 2 && v <= 1100 {
					pool = append(pool, v)
				}
			}
			if len(pool) > 0 {
				v := int(Pick(g, pool)) + g.In(-1, 1)
				if v >= lo && v <= 300 || v >= lo && g.OneIn(4) {
					return v
				}
			}
		case 1:
			return max(lo, g.In(8, 40))
		default:
			return max(lo, Pick(g, []int{10, 11, 12, 13, 16, 17, 20, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257}))
		}
	}
	if g.OneIn(14) {
		return g.In(hi, hi+6)
	}
	return g.In(lo, hi)
}

// nasty characters for text
var nasty = []rune{'\'', '"', '\\', '$', ':', ';', '-', '/', '*', '(', ')', ',', '.', '?', '%', '`', '\n', '\r', '\t', ' ',
	'a', 'b', 'Z', '0', '1', '_', 'é', 'ß', '世', '🙂', '\u00a0', '\u2028', '\x01', '\x1b', '\x7f', '\u0301', '=', '&', '@', '#', '[', ']', '{', '}', '|', '~', '<', '>', '!'}

var texts = []string{"", "a", "foo", "it's", `say "hi"`, "'; DROP TABLE users; --", `\`, `\'`, "$1", "$2", ":arg_1", ":arg_2", "?", "arg_1",
	"NULL", "null", "true", "x -- y", "/* c */", "a\nb", "a\r\nb", "tab\there", "%s %d", "100%", "世界", "🙂", "é", "\u2028", "\x01\x02",
	"$$", "$tag$x$tag$", "E'\\''", "''", `""`, "1; SELECT 2", "1 OR 1=1", ") OR (1=1", "a.b", "a,b", "*", " lead", "trail ", "\u00a0nbsp", "%!s(MISSING)", "\ufeffbom", "NOW()", "DEFAULT"}

// Rune draws a character other than NUL, from any plane of Unicode.
func (g *G) Rune() rune {
	if !g.OneIn(8) {
		return Pick(g, nasty)
	}
	switch g.N(6) {
	case 0:
		return rune(g.In(1, 0x7f))
	case 1:
		return rune(g.In(0x80, 0x7ff))
	case 2:
		return rune(g.In(0x800, 0xd7ff))
	case 3:
		return rune(g.In(0xe000, 0xffff))
	case 4:
		return rune(g.In(0x10000, 0x10ffff))
	default:
		return Pick(g, []rune{0x7f, 0x80, 0xa0, 0xad, 0xff, 0x100, 0x17f, 0x2bc, 0x2019, 0x7ff, 0x800, 0x212a, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0xff07, 0xff02, 0x10000, 0x1ffff, 0x20000, 0x10ffff})
	}
}

// shaped draws a text with the shape of a value of another type.
func (g *G) shaped() string {
	n, m := g.N(100), g.N(10000)
	switch g.N(18) {
	case 0:
		return fmt.Sprintf("%08x-%04x-4%03x-a%03x-%012x", m*7919, m, n, n, m*n)
	case 1:
		return fmt.Sprintf("user%d@example.com", n)
	case 2:
		return fmt.Sprintf("20%02d-%02d-%02d", n, 1+n%12, 1+m%28)
	case 3:
		return fmt.Sprintf("20%02d-%02d-%02dT%02d:%02d:%02dZ", n, 1+n%12, 1+m%28, m%24, n%60, m%60)
	case 4:
		return fmt.Sprintf("%02d:%02d:%02d", m%24, n%60, m%60)
	case 5:
		return fmt.Sprintf(`{"id": %d, "tags": ["a", "b'c"], "ok": true}`, m)
	case 6:
		return fmt.Sprintf("[%d, %d]", n, m)
	case 7:
		return fmt.Sprintf("{%d,%d}", n, m)
	case 8:
		return fmt.Sprintf("10.%d.0.%d/24", n, m%256)
	case 9:
		return fmt.Sprintf("https://example.com/a/%d?q=%d&r=x#f", n, m)
	case 10:
		return strconv.Itoa(m - 5000)
	case 11:
		return strconv.FormatFloat(float64(m)/8-100, 'g', -1, 64)
	case 12:
		return fmt.Sprintf("%de%d", n, m%30)
	case 13:
		return fmt.Sprintf(`\x%04x`, m)
	case 14:
		return fmt.Sprintf("0x%X", m)
	case 15:
		return fmt.Sprintf("%d days", n)
	case 16:
		return fmt.Sprintf("<p class='x'>%d</p>", n)
	default:
		return fmt.Sprintf("%%%d_%s%%", n, Pick(g, []string{"", "a", `\`, "é"}))
	}
}

// Text draws a text value, valid UTF-8 without NUL.
func (g *G) Text() string {
	if s, ok := g.Fresh(); ok {
		return s
	}
	switch g.Weighted(5, 4, 3, 2, 1, 2) {
	case 0:
		return Pick(g, texts)
	case 1:
		return g.word()
	case 5:
		return g.shaped()
	case 2:
		n := g.In(0, 8)
		if g.OneIn(8) {
			n = g.In(9, 70)
		}
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(g.Rune())
		}
		return sb.String()
	case 3:
		if len(Mined.Strs) > 0 {
			return Pick(g, Mined.Strs)
		}
		return "x"
	default:
		if g.Cfg.Big && g.OneIn(4) {
			n := Pick(g, []int{60, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1024, 4095, 4096, 4097})
			unit := Pick(g, []string{"x", "'", `"`, `\`, "é", "ab c", "🙂"})
			return strings.Repeat(unit, n/len(unit)+1)
		}
		return strings.Repeat(Pick(g, texts), g.In(1, 3))
	}
}

var words = strings.Fields(`id name email status message user_id created_at deleted_at users comments news project account
	title body score flag kind a b c d e f g h x y z t1 t2 t3 col1 col2 foo bar baz rank amount`)

func (g *G) word() string {
	w := Pick(g, words)
	if g.OneIn(3) {
		w += strconv.Itoa(g.N(100))
	}
	return w
}

var oddParts = []string{`"`, `""`, `a"b`, `"; DROP TABLE users; --`, `a" = "a`, `\`, `a\b`, `\"`, "'", "it's", "user", "select", "SELECT", "Order", "group", "from", "AND",
	"camelCase", "UPPER", "with space", " lead", "trail ", "a,b", ",", "$1", "$", ":arg_1", "?", "--", "/*", "*/", ";", "(", ")", "é", "世界", "🙂", "\n", "\t", "\r\n", "\x01", "\x7f", "\u00a0", "\u2028", "\ufeff",
	"1abc", "42", "=", "a=b", "%s", "`", "[x]", "{}", "a b c", "\U0001F600x", "\u202e", "AS", "NULL", "true", "\u200b", "a*", "**"}

// Part draws one part of an identifier.
func (g *G) Part() string {
	if s, ok := g.Fresh(); ok {
		if s = cleanPart(s); g.Cfg.Weird || simple(s) {
			return s
		}
	}
	if !g.Cfg.Weird || g.N(4) < 3 && !(g.Cfg.Odd && g.N(4) > 0) {
		return g.word()
	}
	switch g.Weighted(6, 3, 2, 1) {
	case 0:
		return Pick(g, oddParts)
	case 1:
		n := g.In(1, 6)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(g.Rune())
		}
		return cleanPart(sb.String())
	case 2:
		if len(Mined.Strs) > 0 {
			return cleanPart(Pick(g, Mined.Strs))
		}
		return g.word()
	default:
		unit := Pick(g, []string{"x", `"`, "é", "a b"})
		return strings.Repeat(unit, Pick(g, []int{2, 62, 63, 64, 65, 128, 400, 4096})/len(unit)+1)
	}
}

func cleanPart(s string) string {
	s = strings.ReplaceAll(s, ".", "")
	s = strings.ReplaceAll(s, "\x00", "")
	if s == "" || s == "*" {
		return "p"
	}
	return s
}

func clean(name string) bool {
	return !strings.Contains(name, ",") && strings.TrimSpace(name) == name
}

// Ident draws an identifier with 1 to 3 parts.
func (g *G) Ident() plan.Ident {
	if g.names == nil {
		g.names = &[]plan.Ident{}
	}
	if n := len(*g.names); n > 0 && g.OneIn(10) { // a name used before, or one like it
		id := (*g.names)[g.N(n)]
		id.P = append([]plan.Str{}, id.P...)
		if g.OneIn(3) {
			id = g.near(id)
		}
		return id
	}
	id := g.newIdent()
	if len(*g.names) < 20 {
		*g.names = append(*g.names, id)
	}
	return id
}

func (g *G) newIdent() plan.Ident {
	n := 1 + g.Weighted(24, 12, 3, 1, 1, 1)
	id := plan.Ident{}
	for i := 0; i < n; i++ {
		id.P = append(id.P, plan.Str(g.Part()))
	}
	if g.OneIn(3) {
		id.F = 1
		if g.OneIn(6) {
			id.F = 5
		}
	}
	if !clean(id.Name()) {
		id.F = 1
	}
	return id
}

// Alias draws an alias: an identifier of a single part, dots included.
func (g *G) Alias() plan.Str {
	a := g.Part()
	if g.Cfg.Weird && g.OneIn(5) || g.OneIn(20) {
		a = Pick(g, []string{a + "." + g.Part(), g.Part() + "." + a + "." + g.Part(), a + ".", "." + a, ".", "*", a + ".*", "a.b"})
	}
	return plan.Str(a)
}

// Idents draws distinct identifiers with a passing form for a column list.
func (g *G) Idents(lo, hi int) ([]plan.Ident, int) {
	n := g.Len(lo, hi)
	out := make([]plan.Ident, 0, n)
	seen := map[string]bool{}
	ok := true
	for i := 0; i < n; i++ {
		id := g.Ident()
		if len(out) > 0 && g.OneIn(6) {
			id = g.near(Pick(g, out))
		}
		for seen[id.Name()] {
			id.P[len(id.P)-1] += plan.Str(strconv.Itoa(i))
		}
		seen[id.Name()] = true
		if !clean(id.Name()) {
			id.F = 1
			ok = false
		}
		out = append(out, id)
	}
	f := g.Weighted(8, 4, 4, 4, 1, 1)
	if !ok && f != 0 {
		f = 3
	}
	return out, f
}

// near gives a name that is close to the given one: more or fewer parts, a
// part added to, another case.
func (g *G) near(id plan.Ident) plan.Ident {
	id.P = append([]plan.Str{}, id.P...)
	last := len(id.P) - 1
	switch s := string(id.P[last]); g.N(6) {
	case 0:
		id.P = append(id.P, plan.Str(g.Part()))
	case 1:
		if last > 0 {
			id.P = id.P[1:]
		}
	case 2:
		if last > 0 {
			id.P = id.P[:last]
		}
	case 3:
		id.P[last] = plan.Str(strings.ToUpper(s))
	case 4:
		id.P[last] = plan.Str(Pick(g, []string{"x", "_", "1", `"`}) + s)
	case 5:
		id.P[last] += plan.Str(Pick(g, []string{"x", "_", "1", "s"}))
	}
	if !clean(id.Name()) {
		id.F = 1
	}
	return id
}

// Columns draws a list of columns, in which a column may come again.
func (g *G) Columns(lo, hi int) ([]plan.Ident, int) {
	out, f := g.Idents(lo, hi)
	if g.OneIn(8) {
		at := g.N(len(out) + 1)
		out = append(out[:at:at], append([]plan.Ident{Pick(g, out)}, out[at:]...)...)
	}
	return out, f
}

// Raw fragments. Each %d becomes a fresh number, so fragments can be told apart.
var (
	rawOperand = []string{"r%d", "r%d.c", "now()", "lower(r%d)", "NULL", "TRUE", "42%d", "'t%d'", "(r%d + 1)", "r%d::text", "ARRAY[1, 2%d]", "CASE WHEN r%d THEN 1 ELSE 2 END", "coalesce(r%d, 'a''b')", "(r%d OR x)", "-1", "1.5", `"Q%d"`, "(SELECT 1)", "ANY(r%d)"}
	rawCond    = []string{"r%d = 1", "r%d IS NULL", "(r%d = 1 OR x%d = 2)", "(r%d = 1 AND x = 2)", "NOT r%d", "r%d", "r%d BETWEEN 1 AND 2", "r%d IN (1, 2)", "EXISTS (SELECT 1 FROM r%d)", "r%d LIKE 'a%%'", "(r%d OR x)", "r%d > now() - interval '1 day'", "r%d = 'it''s OR'", "(a AND b OR c%d)"}
	rawValue   = []string{"r%d + 1", "r%d || 'x'", "r%d * 2 - 1", "DEFAULT"}
	rawTarget  = []string{"r%d", "r%d AS a%d", "count(*)", "r%d.*", "sum(r%d) AS total", "r%d + 1 AS n", "'lit%d'", `"Q%d" AS "R"`, "*", "CASE WHEN r%d THEN 1 END AS k", "max(DISTINCT r%d)"}
	rawFrom    = []string{"r%d", "r%d AS a%d", "generate_series(1, 3%d) AS g", "(SELECT 1 FROM r%d) AS s", "ONLY r%d", "s.r%d"}
	orderExprs = []string{"id", "name%d", "t.name%d", "lower(name%d)", "count(*)", "1", "id + 1", "a || b%d", "\"Q%d\"", "CASE WHEN a THEN 1 ELSE 2 END"}
	aggArgs    = []string{"id", "*", "t.id%d", "amount%d", "a + b%d", "lower(x%d)", "\"Q%d\"", "t%d.*"}
	funcs      = []string{"lower", "COUNT", "coalesce", "my_func%d", "pg_catalog.lower", "to_tsvector", "SUM", "length"}
	prefixes   = []string{"EXPLAIN", "EXPLAIN ANALYZE", "EXPLAIN ANALYZE VERBOSE", "EXPLAIN (ANALYZE, BUFFERS, FORMAT json)"}
	suffixes   = []string{"FOR UPDATE", "FOR SHARE", "FOR NO KEY UPDATE SKIP LOCKED", "FOR UPDATE OF t%d NOWAIT", "FOR KEY SHARE", "FETCH FIRST 3%d ROWS ONLY", "FOR UPDATE FOR SHARE OF a, b%d"}
)

func (g *G) fill(pool []string) plan.Str {
	s := Pick(g, pool)
	for strings.Contains(s, "%d") {
		g.seq++
		s = strings.Replace(s, "%d", strconv.Itoa(g.seq), 1)
	}
	return plan.Str(strings.ReplaceAll(s, "%%", "%"))
}

// CheckPools verifies that the oracle can parse every raw fragment.
func CheckPools() error {
	g := &G{}
	try := func(pool []string, f func(string, pg.Mode) (*pg.Parsed, error)) error {
		for _, s := range pool {
			for strings.Contains(s, "%d") {
				g.seq++
				s = strings.Replace(s, "%d", strconv.Itoa(g.seq), 1)
			}
			s = strings.ReplaceAll(s, "%%", "%")
			if s == "*" {
				continue
			}
			if _, err := f(s, pg.Mode{}); err != nil {
				return err
			}
		}
		return nil
	}
	for _, p := range [][]string{rawOperand, rawCond, rawValue, aggArgs, funcs} {
		if err := try(p, pg.ParseExpr); err != nil {
			return err
		}
	}
	if err := try(rawTarget, pg.ParseTarget); err != nil {
		return err
	}
	if err := try(rawFrom, pg.ParseFromItem); err != nil {
		return err
	}
	if err := try(orderExprs, pg.ParseSort); err != nil {
		return err
	}
	if err := try(suffixes, pg.ParseSuffix); err != nil {
		return err
	}
	return try(prefixes, pg.ParsePrefix)
}
