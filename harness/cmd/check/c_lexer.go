package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"

	"github.com/ulule/loukoum/v3/lexer"
	"github.com/ulule/loukoum/v3/token"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C15: the lexer reads its whole input, once, and stops.

// lexWord is a token as the reference reads it: T is "word", "keyword",
// "punct" or "illegal".
type lexWord struct{ T, S string }

const lexSpace = " \t\n\r"

var lexKeywords = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`SELECT UPDATE INSERT DELETE FROM WHERE AND OR LIMIT OFFSET SET AS INNER CROSS LEFT RIGHT JOIN ON GROUP BY HAVING ORDER
		DISTINCT ONLY USING RETURNING VALUES INTO CONFLICT DO NOTHING WITH NOT EXISTS COUNT MAX MIN SUM`) {
		lexKeywords[w] = true
	}
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// refLex is the reference lexer.
func refLex(s string) []lexWord {
	var out []lexWord
	from, at := -1, 0 // where the word under way begins, if there is one
	flush := func() {
		if from < 0 {
			return
		}
		word := s[from:at]
		t := "word"
		if lexKeywords[asciiUpper(word)] {
			t = "keyword"
		}
		out = append(out, lexWord{t, word})
		from = -1
	}
	for i, r := range s {
		at = i
		switch {
		case r < 128 && strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.", r):
			if from < 0 {
				from = i
			}
		case strings.ContainsRune(lexSpace, r):
			flush()
		case strings.ContainsRune("*=;,:()", r):
			flush()
			out = append(out, lexWord{"punct", string(r)})
		default:
			flush()
			out = append(out, lexWord{"illegal", string(r)})
		}
	}
	at = len(s)
	flush()
	return out
}

func lexClass(t token.Token) lexWord {
	switch {
	case t.Type == token.Illegal:
		return lexWord{"illegal", t.Value}
	case t.Type == token.Literal:
		return lexWord{"word", t.Value}
	case len(t.Type) == 1 && strings.Contains("*=;,:()", string(t.Type)):
		if string(t.Type) != t.Value {
			return lexWord{"mislabelled " + string(t.Type), t.Value}
		}
		return lexWord{"punct", t.Value}
	case lexKeywords[string(t.Type)]:
		if string(t.Type) != asciiUpper(t.Value) {
			return lexWord{"mislabelled " + string(t.Type), t.Value}
		}
		return lexWord{"keyword", t.Value}
	}
	return lexWord{"mislabelled " + string(t.Type), t.Value}
}

type lexCase struct {
	Text   plan.Str
	Reader int
	Fail   int // the reader fails after this many bytes
	Err    int // with this error
	Times  int `json:",omitempty"` // the text is there this many times more
}

func (c *lexCase) text() string { return strings.Repeat(string(c.Text), c.Times+1) }

// stutter returns nothing now and then.
type stutter struct {
	r io.Reader
	n int
}

func (s *stutter) Read(p []byte) (int, error) {
	s.n++
	if s.n%3 == 0 || len(p) == 0 {
		return 0, nil
	}
	if len(p) > 7 {
		p = p[:7]
	}
	return s.r.Read(p)
}

// readErrors are ways a reader may fail.
var readErrors = []error{
	errors.New("broken reader"), io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortBuffer,
	errors.Join(io.EOF, errors.New("broken reader")), fmt.Errorf("truncated: %w", io.EOF), os.ErrClosed, os.ErrDeadlineExceeded,
	context.Canceled, bufio.ErrTooLong, bufio.ErrBufferFull, errors.New("EOF"), errors.New(""),
}

func readerOf(kind int, text string) io.Reader {
	r := io.Reader(strings.NewReader(text))
	switch kind {
	case 1:
		return iotest.OneByteReader(r)
	case 2:
		return iotest.DataErrReader(r)
	case 3:
		return iotest.HalfReader(r)
	case 4:
		return &stutter{r: r}
	}
	return r
}

func genLex(g *gen.G) *lexCase {
	var sb strings.Builder
	n := g.In(0, 12)
	switch {
	case g.OneIn(20):
		n = g.In(100, 1200)
	case g.OneIn(6):
		n = g.In(13, 60)
	}
	kws := sortedKeys(lexKeywords)
	for i := 0; i < n; i++ {
		switch g.Weighted(5, 5, 5, 3, 3, 1, 1) {
		case 0:
			w := gen.Pick(g, kws)
			sb.WriteString(gen.Keyword(g, w))
			if g.OneIn(8) {
				sb.WriteString(gen.Pick(g, []string{"_", ".", "1", "s", ".*", "é", "\u017f"}))
			}
		case 1:
			sb.WriteString(gen.Pick(g, []string{"user.id", "a", "t1", "_x", ".", "..", "a.b.c", "9", "1.5", "users", "K", "x_", "Z9"}))
		case 2:
			sb.WriteString(gen.Pick(g, []string{" ", "  ", "\t", "\n", "\r\n", "\n\n", "\r"}))
		case 3:
			sb.WriteString(gen.Pick(g, []string{"=", "*", ";", ",", ":", "(", ")", "((", "))", ";;", "=="}))
		case 4:
			sb.WriteString(gen.Pick(g, []string{"\x00", "'", "\"", "-", "--", "<>", "!", "é", "世", "🙂", "\u00a0", "\u2028", "\v", "\f", "\ufffd", "\x7f", "$1", "\\", "/*", "@", "\U0010ffff", "[", "\u0130", "\u212a", "K", "٣", "\ufeff", "\x1a", "\x04"}))
		case 5:
			if g.Coin() {
				sb.WriteRune(rune(g.In(0, 127)))
				continue
			}
			sb.WriteString(g.Text())
		default:
			sb.WriteString(strings.Repeat(gen.Pick(g, []string{"a", " ", "é", "(", "x "}), g.In(1, 40)))
		}
	}
	if g.OneIn(30) { // around the size of a read buffer
		k := g.In(4080, 4100)
		sb.WriteString(strings.Repeat(gen.Pick(g, []string{"a", " ", ";"}), k) + gen.Pick(g, []string{"é", "世", "🙂", "select", "\x00"}) + " z")
	}
	c := &lexCase{Text: plan.Str(sb.String()), Reader: g.N(5), Fail: -1}
	if g.OneIn(6) {
		c.Fail = g.In(0, len(c.Text))
		c.Err = g.N(len(readErrors))
	}
	return c
}

func checkLex(c *lexCase, r *Rec) string {
	text := c.text()
	want := refLex(text)
	kinds := map[string]bool{}
	for _, w := range want {
		kinds[w.T] = true
		r.Label("token " + w.T)
	}
	r.NonTrivial = len(want) >= 3 && len(kinds) >= 2
	r.Label(fmt.Sprintf("reader %d", c.Reader))
	r.LabelIf(strings.Contains(text, "\x00"), "NUL")
	r.LabelIf(len(text) > 4096, "longer than a buffer")

	limit := len(text) + 8
	read := func(next func() (token.Token, bool)) (out []lexWord, msg string) {
		for i := 0; ; i++ {
			if i > limit {
				return nil, fmt.Sprintf("does not end: %d tokens from %d bytes", i, len(text))
			}
			t, ok := next()
			if !ok {
				return out, ""
			}
			out = append(out, lexClass(t))
		}
	}
	compare := func(how string, got []lexWord) string {
		for i := 0; i < len(got) && i < len(want); i++ {
			if got[i] != want[i] {
				return fmt.Sprintf("%s: token %d is %s %q, not %s %q", how, i, got[i].T, got[i].S, want[i].T, want[i].S)
			}
		}
		if len(got) != len(want) {
			return fmt.Sprintf("%s: %d tokens, not %d", how, len(got), len(want))
		}
		return ""
	}
	msg := ""
	p := guard(func() {
		l := lexer.New(readerOf(c.Reader, text))
		var got []lexWord
		got, msg = read(func() (token.Token, bool) {
			t := l.Next()
			return t, t.Type != token.EOF
		})
		if msg == "" {
			msg = compare("Next", got)
		}
		for i := 0; i < 5 && msg == ""; i++ {
			if t := l.Next(); t.Type != token.EOF || t.Value != "" {
				msg = fmt.Sprintf("a token after the end: %s %q", t.Type, t.Value)
			}
		}
		if msg != "" {
			return
		}
		l = lexer.New(readerOf(c.Reader, text))
		it := l.Iterator()
		m := lexer.New(readerOf(c.Reader, text))
		ahead := m.Iterator()
		got, msg = read(func() (token.Token, bool) {
			if !it.HasNext() {
				if it.Is(token.EOF) || it.Is(token.Literal) || it.Is(token.Type("")) {
					msg = "an exhausted iterator still has a next type"
				}
				return token.Token{}, false
			}
			if !ahead.HasNext() {
				msg = "two iterators over one text do not end together"
				return token.Token{}, false
			}
			t := ahead.Next()
			for _, k := range []token.Type{token.Literal, token.Illegal, token.EOF, token.LParen, token.Join, token.On, t.Type} {
				if it.Is(k) != (k == t.Type) {
					msg = fmt.Sprintf("the iterator says Is(%s) is %v before %s %q", k, it.Is(k), t.Type, t.Value)
				}
			}
			if u := it.Next(); u != t {
				msg = fmt.Sprintf("the iterator returns %v and %v for one token", t, u)
			}
			return t, true
		})
		if msg == "" && (it.HasNext() || it.Is(token.EOF) || it.Is(token.Literal) || it.Is(token.Type(""))) {
			msg = "an exhausted iterator still has a next type"
		}
		if msg == "" {
			msg = compare("Iterator", got)
		}
	})
	if p != nil {
		return "the lexer panics: " + p.String()
	}
	if msg != "" || c.Fail < 0 {
		return msg
	}
	// a reader that fails is not one that ends
	r.Label("failing reader")
	ended := false
	p = guard(func() {
		l := lexer.New(io.MultiReader(strings.NewReader(text[:c.Fail]), iotest.ErrReader(readErrors[c.Err])))
		for i := 0; i <= limit; i++ {
			if l.Next().Type == token.EOF {
				ended = true
				return
			}
		}
	})
	if p == nil {
		if ended {
			return fmt.Sprintf("a reader that fails after %d bytes (%v) is taken for the end of the input", c.Fail, readErrors[c.Err])
		}
		return "the lexer does not end on a failing reader"
	}
	if p.Runtime {
		return "a failing reader makes a Go runtime error: " + p.Text
	}
	return ""
}

func init() {
	add("C15", "tokens", 60000, 1500000, gen.Cfg{Big: true, Weird: true},
		"texts of key words in any case, words, punctuation, white space, control characters and other Unicode, read through readers that return data in different portions, some of which fail; compared with a reference lexer; non-trivial: at least 3 tokens of 2 classes",
		genLex, checkLex)
	add("C15", "large", 120, 2500, gen.Cfg{Big: true, Weird: true},
		"such a text repeated until it is thousands to hundreds of thousands of bytes long; non-trivial as above",
		func(g *gen.G) *lexCase {
			c := genLex(g)
			if len(c.Text) == 0 {
				c.Text = "a"
			}
			c.Times = gen.Pick(g, []int{4000, 8191, 40000, 65536, 70000, 150000, 300000}) / len(c.Text)
			return c
		}, checkLex)
}
