package pg

import (
	"fmt"
	"strconv"
	"strings"
)

// N is a node of the syntax tree: a type, an optional text and children.
type N struct {
	T string
	S string
	K []*N
}

// Mk builds a node without text.
func Mk(t string, kids ...*N) *N { return &N{T: t, K: kids} }

// Tx builds a node with text.
func Tx(t, s string, kids ...*N) *N { return &N{T: t, S: s, K: kids} }

// Add appends children, skipping nils.
func (n *N) Add(kids ...*N) *N {
	for _, k := range kids {
		if k != nil {
			n.K = append(n.K, k)
		}
	}
	return n
}

func (n *N) write(sb *strings.Builder) {
	if n == nil {
		sb.WriteString("<nil>")
		return
	}
	sb.WriteByte('(')
	sb.WriteString(n.T)
	if n.S != "" {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Quote(n.S))
	}
	for _, k := range n.K {
		sb.WriteByte(' ')
		k.write(sb)
	}
	sb.WriteByte(')')
}

// String renders the tree as an S-expression.
func (n *N) String() string {
	var sb strings.Builder
	n.write(&sb)
	return sb.String()
}

// Walk visits every node in document order.
func (n *N) Walk(f func(*N)) {
	if n == nil {
		return
	}
	f(n)
	for _, k := range n.K {
		k.Walk(f)
	}
}

// Map rebuilds the tree bottom-up.
func (n *N) Map(f func(*N) *N) *N {
	if n == nil {
		return nil
	}
	c := &N{T: n.T, S: n.S}
	for _, k := range n.K {
		c.K = append(c.K, k.Map(f))
	}
	return f(c)
}

// Logic builds an AND/OR node. Association counts: each call of a chain joins
// everything before it with its own condition.
func Logic(op string, l, r *N) *N { return Mk(op, l, r) }

// Diff describes the first difference between two trees, "" if equal.
func Diff(want, got *N) string {
	return diff(want, got, "")
}

func short(n *N) string {
	s := n.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func diff(a, b *N, path string) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("at %s: want %s, got %s", path, short(a), short(b))
	}
	if a.T != b.T || a.S != b.S {
		return fmt.Sprintf("at %s: want %s, got %s", path, short(a), short(b))
	}
	p := path + "/" + a.T
	for i := range a.K {
		if i >= len(b.K) {
			return fmt.Sprintf("at %s: missing %s", p, short(a.K[i]))
		}
		if d := diff(a.K[i], b.K[i], p+"["+strconv.Itoa(i)+"]"); d != "" {
			return d
		}
	}
	if len(b.K) > len(a.K) {
		return fmt.Sprintf("at %s: unexpected %s", p, short(b.K[len(a.K)]))
	}
	return ""
}
