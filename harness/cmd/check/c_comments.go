package main

import (
	"fmt"
	"regexp"
	"strings"

	"verif/harness/gen"
	"verif/harness/pg"
	"verif/harness/plan"
)

// C23: comments, prefixes and suffixes stay where they belong.

type commentCase struct {
	Base    *plan.Stmt // without comment, prefix and suffix
	Comment plan.Str
	Prefix  plan.Str
	Suffix  plan.Str
	Affix   int // bit 0: prefix, bit 1: suffix
	At      []int
	Before  []plan.Str // comments given before
}

func stripAffixes(s *plan.Stmt) *plan.Stmt {
	out := &plan.Stmt{Kind: s.Kind}
	for _, o := range s.Ops {
		switch o.N {
		case "comment", "prefix", "suffix":
			continue
		}
		out.Ops = append(out.Ops, o)
	}
	return out
}

// insertOp puts a call after the first at calls (the constructor stays first).
func insertOp(s *plan.Stmt, at int, o plan.Op) {
	i := 1 + at%len(s.Ops)
	ops := append([]plan.Op{}, s.Ops[:i]...)
	ops = append(ops, o)
	s.Ops = append(ops, s.Ops[i:]...)
}

var commentBits = []string{"%%", "%s", "%", "\n", "\r", "\r\n", "\n\n", "; DROP TABLE users", "; DELETE FROM t", "--", "-- ", "*/", "/*", "/* x */", "'", "\"", "$1", "$2", ":arg_1", "\\", "\\n", "\u2028", "\u0085", "\v", "\f", "\t", " ", "é", "日本", ";", ";;", "SELECT 1", "$$", "E'", "%s", "%d", "/foo", "a", "b c", "UNION ALL SELECT password"}

func commentText(g *gen.G) plan.Str {
	if g.OneIn(4) {
		return plan.Str(g.Text())
	}
	var sb strings.Builder
	n := g.In(0, 6)
	if g.OneIn(10) { // long, in bytes of any alignment
		n = g.In(50, 1500)
	}
	for ; n > 0; n-- {
		sb.WriteString(gen.Pick(g, commentBits))
	}
	return plan.Str(sb.String())
}

var (
	lineBreaks = strings.NewReplacer("\n", " ", "\r", " ")
	breakRuns  = regexp.MustCompile("[\r\n]+")
)

// confined checks that q is base followed by the comment on one line.
func confined(base, q, comment string) string {
	if comment == "" {
		if q != base {
			return fmt.Sprintf("an empty comment changes the statement\n  without: %s\n  with:    %s", base, q)
		}
		return ""
	}
	rest, ok := strings.CutPrefix(q, base)
	if !ok {
		return fmt.Sprintf("a comment changes the statement\n  without: %s\n  with:    %s", base, q)
	}
	rest = strings.TrimLeft(rest, " \t\r\n")
	rest = strings.TrimPrefix(rest, ";")
	rest = strings.TrimLeft(rest, " \t\r\n")
	text, ok := strings.CutPrefix(rest, "--")
	if !ok {
		return fmt.Sprintf("the statement is followed by something else than a comment: %q", rest)
	}
	if strings.ContainsAny(text, "\n\r") {
		return fmt.Sprintf("the comment does not stay on its line: %q", text)
	}
	if text == " "+lineBreaks.Replace(comment) {
		return ""
	}
	// the breaks of a run may become fewer spaces
	var re strings.Builder
	at := 0
	for _, m := range breakRuns.FindAllStringIndex(comment, -1) {
		re.WriteString(regexp.QuoteMeta(comment[at:m[0]]) + " +")
		at = m[1]
	}
	re.WriteString(regexp.QuoteMeta(comment[at:]))
	if x, err := regexp.Compile("^ " + re.String() + "$"); err != nil || !x.MatchString(text) || len(text) > len(comment)+1 {
		return fmt.Sprintf("the comment reads %q for the text %q", text, comment)
	}
	return ""
}

func each(o Out) []string { return []string{o.Q, o.NQ, o.Raw} }

func init() {
	add("C23", "comments", 24000, 400000, gen.Cfg{Depth: 1, Comments: true, NoRaw: true},
		"random statements with and without a comment of arbitrary text (line breaks, comment markers, semicolons, quotes, placeholders, whole statements), the call at a random position; every rendering must be the one without comment followed by the comment on one line, with the same arguments; nested statements carry comments too, which must not appear; non-trivial: the text holds a line break, a comment marker, a semicolon or a quote",
		func(g *gen.G) *commentCase {
			c := &commentCase{Base: stripAffixes(g.Any()), Comment: commentText(g), At: []int{g.N(20), g.N(20), g.N(20)}}
			if g.OneIn(4) {
				for i := g.In(1, 2); i > 0; i-- {
					c.Before = append(c.Before, commentText(g))
				}
				if g.OneIn(3) {
					c.Comment = ""
				}
			}
			return c
		},
		func(c *commentCase, r *Rec) string {
			with := c.Base.Clone()
			insertOp(with, c.At[0], plan.Op{N: "comment", S: c.Comment})
			last := 1 + c.At[0]%len(c.Base.Ops)
			for i, b := range c.Before { // before the last one, which counts
				at := 1 + c.At[1+i]%last
				with.Ops = append(with.Ops[:at:at], append([]plan.Op{{N: "comment", S: b}}, with.Ops[at:]...)...)
			}
			r.LabelIf(len(c.Before) > 0, "several comments")
			classify(c.Base, r)
			r.NonTrivial = strings.ContainsAny(string(c.Comment), "\n\r;'\"") || strings.Contains(string(c.Comment), "--")
			r.LabelIf(strings.ContainsAny(string(c.Comment), "\n\r"), "line break")
			r.LabelIf(c.Comment == "", "empty")
			base, p := buildAndRender(c.Base)
			if p != nil {
				return "a legitimate statement is rejected: " + p.String()
			}
			out, p := buildAndRender(with)
			if p != nil {
				return "a legitimate statement with a comment is rejected: " + p.String()
			}
			r.Detail["sql"] = out.Q
			for i, q := range each(out) {
				if d := confined(each(base)[i], q, string(c.Comment)); d != "" {
					return d
				}
			}
			if lx, err := pg.Lex(base.Q, pg.Mode{}); err != nil || len(lx.Comments) > 0 {
				return fmt.Sprintf("a statement without comment of its own renders one (%v): %s", err, base.Q)
			}
			base.Q, base.NQ, base.Raw = "", "", ""
			out.Q, out.NQ, out.Raw = "", "", ""
			return sameOut(base, out)
		})
	add("C23", "affixes", 24000, 400000, gen.Cfg{Depth: 1, NoRaw: true},
		"random SELECT statements with and without a prefix, a suffix, or both, of arbitrary text, the calls at random positions, half with a comment; every rendering must be the prefix, the statement and the suffix, in that order and verbatim, then the comment, with the same arguments; every case is non-trivial",
		func(g *gen.G) *commentCase {
			c := &commentCase{Base: stripAffixes(g.Select(false)), Affix: g.In(1, 3), At: []int{g.N(20), g.N(20), g.N(20)}}
			text := func() plan.Str {
				s := commentText(g)
				if strings.TrimSpace(string(s)) == "" {
					return plan.Str(gen.Pick(g, []string{"EXPLAIN", "EXPLAIN ANALYZE", "FOR UPDATE", "FOR UPDATE SKIP LOCKED", "SELECT 1 UNION"}))
				}
				return s
			}
			c.Prefix, c.Suffix = text(), text()
			if g.Coin() {
				c.Comment = commentText(g)
			}
			return c
		},
		func(c *commentCase, r *Rec) string {
			with := c.Base.Clone()
			if c.Affix&1 != 0 {
				insertOp(with, c.At[0], plan.Op{N: "prefix", S: c.Prefix})
				r.Label("prefix")
			}
			if c.Affix&2 != 0 {
				insertOp(with, c.At[1], plan.Op{N: "suffix", S: c.Suffix})
				r.Label("suffix")
			}
			bare := with.Clone()
			if c.Comment != "" {
				insertOp(with, c.At[2], plan.Op{N: "comment", S: c.Comment})
				r.Label("comment")
			}
			r.NonTrivial = true
			base, p := buildAndRender(c.Base)
			if p != nil {
				return "a legitimate statement is rejected: " + p.String()
			}
			affixed, p := buildAndRender(bare)
			if p != nil {
				return "a statement with a prefix or suffix is rejected: " + p.String()
			}
			out, p := buildAndRender(with)
			if p != nil {
				return "a statement with a prefix or suffix and a comment is rejected: " + p.String()
			}
			r.Detail["sql"] = out.Q
			for i, q := range each(affixed) {
				rest := q
				ok := true
				if c.Affix&1 != 0 {
					rest, ok = strings.CutPrefix(rest, string(c.Prefix))
					if ok && (rest == "" || !isSpace(rest[0])) {
						ok = false
					}
					rest = strings.TrimLeft(rest, " \t\r\n")
				}
				if ok {
					rest, ok = strings.CutPrefix(rest, each(base)[i])
				}
				if ok && c.Affix&2 != 0 {
					ok = rest != "" && isSpace(rest[0])
					rest = strings.TrimLeft(rest, " \t\r\n")
					ok = ok && rest == strings.TrimLeft(string(c.Suffix), " \t\r\n")
				} else if ok {
					ok = rest == ""
				}
				if !ok {
					return fmt.Sprintf("the rendering is not the prefix %q, the statement and the suffix %q\n  statement: %s\n  rendering: %s", c.Prefix, c.Suffix, each(base)[i], q)
				}
				if d := confined(q, each(out)[i], string(c.Comment)); d != "" {
					return d
				}
			}
			base.Q, base.NQ, base.Raw = "", "", ""
			out.Q, out.NQ, out.Raw = "", "", ""
			return sameOut(base, out)
		})
}

func isSpace(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }
