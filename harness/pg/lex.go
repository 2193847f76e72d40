// Package pg is an independent lexer and parser for the subset of PostgreSQL's
// SQL that loukoum can produce.  It follows the PostgreSQL manual (chapter 4,
// "SQL syntax"), not loukoum's code: it is the oracle the checks compare with.
package pg

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Kind is the kind of a token.
type Kind int

// Token kinds.
const (
	EOF Kind = iota
	Ident
	QIdent
	Str
	Num
	Param
	Named
	Op
	Punct
)

func (k Kind) String() string {
	return [...]string{"eof", "ident", "qident", "string", "number", "param", "named", "op", "punct"}[k]
}

// Tok is a token. S is its decoded value (identifiers folded or unescaped).
type Tok struct {
	K          Kind
	S          string
	Start, End int
}

// Mode selects the dialect details that depend on the rendering.
type Mode struct {
	Named     bool // :name placeholders are recognised
	Backslash bool // '..' strings use backslash escapes (loukoum's debug rendering)
}

// Comment is a SQL comment met while lexing.
type Comment struct {
	Text       string // text after the dashes
	Start, End int
}

// Lexed is the outcome of Lex.
type Lexed struct {
	Src      string
	Toks     []Tok
	Comments []Comment
}

const opChars = "+-*/<>=~!@#%^&|`?"

func isIdentStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func isIdentPart(c byte) bool { return isIdentStart(c) || isDigit(c) || c == '$' }

func isSpace(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'
}

func fold(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// Lex splits a statement into tokens.
func Lex(src string, mode Mode) (*Lexed, error) {
	out := &Lexed{Src: src}
	if strings.IndexByte(src, 0) >= 0 {
		return nil, fmt.Errorf("NUL byte in statement")
	}
	if !utf8.ValidString(src) {
		return nil, fmt.Errorf("statement is not valid UTF-8")
	}
	i, n := 0, len(src)
	add := func(k Kind, s string, start, end int) {
		out.Toks = append(out.Toks, Tok{k, s, start, end})
	}
	for i < n {
		c := src[i]
		switch {
		case isSpace(c):
			i++
		case c == '-' && i+1 < n && src[i+1] == '-':
			j := i + 2
			for j < n && src[j] != '\n' && src[j] != '\r' {
				j++
			}
			out.Comments = append(out.Comments, Comment{src[i+2 : j], i, j})
			i = j
		case c == '/' && i+1 < n && src[i+1] == '*':
			depth, j := 1, i+2
			for depth > 0 {
				if j+1 >= n {
					return nil, fmt.Errorf("unterminated block comment at %d", i)
				}
				switch src[j : j+2] {
				case "/*":
					depth++
					j += 2
				case "*/":
					depth--
					j += 2
				default:
					j++
				}
			}
			out.Comments = append(out.Comments, Comment{src[i+2 : j-2], i, j})
			i = j
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for {
				if j >= n {
					return nil, fmt.Errorf("unterminated quoted identifier at %d", i)
				}
				if src[j] == '"' {
					if j+1 < n && src[j+1] == '"' {
						sb.WriteByte('"')
						j += 2
						continue
					}
					j++
					break
				}
				sb.WriteByte(src[j])
				j++
			}
			if sb.Len() == 0 {
				return nil, fmt.Errorf("zero-length delimited identifier at %d", i)
			}
			add(QIdent, sb.String(), i, j)
			i = j
		case c == '\'':
			s, j, err := lexString(src, i, mode.Backslash)
			if err != nil {
				return nil, err
			}
			add(Str, s, i, j)
			i = j
		case isDigit(c) || c == '.' && i+1 < n && isDigit(src[i+1]):
			j := i
			for j < n && isDigit(src[j]) {
				j++
			}
			if j < n && src[j] == '.' {
				j++
				for j < n && isDigit(src[j]) {
					j++
				}
			}
			if j < n && (src[j] == 'e' || src[j] == 'E') {
				k := j + 1
				if k < n && (src[k] == '+' || src[k] == '-') {
					k++
				}
				if k < n && isDigit(src[k]) {
					for k < n && isDigit(src[k]) {
						k++
					}
					j = k
				}
			}
			if j < n && isIdentStart(src[j]) {
				return nil, fmt.Errorf("trailing junk after number at %d", j)
			}
			add(Num, src[i:j], i, j)
			i = j
		case c == '$' && i+1 < n && isDigit(src[i+1]):
			j := i + 1
			for j < n && isDigit(src[j]) {
				j++
			}
			if j < n && isIdentStart(src[j]) {
				return nil, fmt.Errorf("trailing junk after parameter at %d", j)
			}
			add(Param, src[i+1:j], i, j)
			i = j
		case c == '$':
			j := i + 1
			if j < n && isIdentStart(src[j]) {
				for j < n && isIdentPart(src[j]) && src[j] != '$' {
					j++
				}
			}
			if j >= n || src[j] != '$' {
				return nil, fmt.Errorf("unexpected $ at %d", i)
			}
			tag := src[i : j+1]
			end := strings.Index(src[j+1:], tag)
			if end < 0 {
				return nil, fmt.Errorf("unterminated dollar-quoted string at %d", i)
			}
			add(Str, src[j+1:j+1+end], i, j+1+end+len(tag))
			i = j + 1 + end + len(tag)
		case isIdentStart(c):
			j := i + 1
			for j < n && isIdentPart(src[j]) {
				j++
			}
			word := src[i:j]
			if j < n && src[j] == '\'' && (word == "E" || word == "e") {
				s, k, err := lexString(src, j, true)
				if err != nil {
					return nil, err
				}
				add(Str, s, i, k)
				i = k
				continue
			}
			if j < n && src[j] == '\'' && (word == "B" || word == "b" || word == "X" || word == "x" || word == "N" || word == "n") {
				return nil, fmt.Errorf("unsupported string prefix at %d", i)
			}
			if (word == "U" || word == "u") && j+1 < n && src[j] == '&' && (src[j+1] == '\'' || src[j+1] == '"') {
				return nil, fmt.Errorf("unsupported unicode escape at %d", i)
			}
			add(Ident, fold(word), i, j)
			i = j
		case c == ':' && i+1 < n && src[i+1] == ':':
			add(Punct, "::", i, i+2)
			i += 2
		case c == ':' && mode.Named && i+1 < n && isIdentStart(src[i+1]):
			j := i + 2
			for j < n && isIdentPart(src[j]) {
				j++
			}
			add(Named, src[i+1:j], i, j)
			i = j
		case strings.IndexByte("(),;.[]:", c) >= 0:
			add(Punct, string(c), i, i+1)
			i++
		case strings.IndexByte(opChars, c) >= 0:
			j := i
			for j < n && strings.IndexByte(opChars, src[j]) >= 0 {
				if j > i && (strings.HasPrefix(src[j:], "--") || strings.HasPrefix(src[j:], "/*")) {
					break
				}
				j++
			}
			op := src[i:j]
			for len(op) > 1 && (op[len(op)-1] == '+' || op[len(op)-1] == '-') && !strings.ContainsAny(op, "~!@#%^&|`?") {
				op = op[:len(op)-1]
			}
			j = i + len(op)
			if op == "!=" {
				op = "<>"
			}
			add(Op, op, i, j)
			i = j
		default:
			return nil, fmt.Errorf("unexpected character %q at %d", c, i)
		}
	}
	add(EOF, "", n, n)
	return out, nil
}

func lexString(src string, i int, backslash bool) (string, int, error) {
	n, j := len(src), i+1
	var sb strings.Builder
	for {
		if j >= n {
			return "", 0, fmt.Errorf("unterminated string at %d", i)
		}
		c := src[j]
		if c == '\'' {
			if j+1 < n && src[j+1] == '\'' {
				sb.WriteByte('\'')
				j += 2
				continue
			}
			return sb.String(), j + 1, nil
		}
		if c == '\\' && backslash {
			if j+1 >= n {
				return "", 0, fmt.Errorf("unterminated string at %d", i)
			}
			switch e := src[j+1]; e {
			case 'n':
				sb.WriteByte('\n')
			case 'r':
				sb.WriteByte('\r')
			case 't':
				sb.WriteByte('\t')
			case 'b':
				sb.WriteByte('\b')
			case 'f':
				sb.WriteByte('\f')
			case 'x', 'u', 'U', '0', '1', '2', '3', '4', '5', '6', '7':
				return "", 0, fmt.Errorf("unsupported escape \\%c at %d", e, j)
			default:
				sb.WriteByte(e)
			}
			j += 2
			continue
		}
		sb.WriteByte(c)
		j++
	}
}
