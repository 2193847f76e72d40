// Command check decides the properties of /verif/properties.jsonl for the
// loukoum tree it was built against, by generated-input search.
//
//	check -prop C01 [-tier quick|thorough] [-verif DIR]   run a check
//	check -replay FILE                                    re-run one saved case
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"

	"verif/harness/gen"
)

// Facet is one generated check of a property.
type Facet struct {
	Prop, Name      string
	Rule            string // how cases are made, and what makes one non-trivial
	Quick, Thorough int    // number of cases
	Cfg             gen.Cfg
	gen             func(g *gen.G) interface{}
	decode          func(b []byte) (interface{}, error)
	check           func(c interface{}, r *Rec) string
	Repeat          int // a replay runs the case this often (nondeterministic code)
}

// Rec is where a check classifies its case.
type Rec struct {
	Labels     map[string]int
	NonTrivial bool
	Extra      map[string]int // counters kept besides the case count
	Detail     map[string]interface{}
}

func newRec() *Rec {
	return &Rec{Labels: map[string]int{}, Extra: map[string]int{}, Detail: map[string]interface{}{}}
}

// Label marks the case as a member of a class.
func (r *Rec) Label(s string) { r.Labels[s] = 1 }

// LabelIf marks the case when cond holds.
func (r *Rec) LabelIf(cond bool, s string) {
	if cond {
		r.Labels[s] = 1
	}
}

// Count adds to a counter.
func (r *Rec) Count(s string, n int) { r.Extra[s] += n }

var facets []*Facet

// add registers a facet whose cases are of type C.
func add[C any](prop, name string, quick, thorough int, cfg gen.Cfg, rule string, g func(*gen.G) *C, check func(*C, *Rec) string) *Facet {
	f := &Facet{
		Prop: prop, Name: name, Quick: quick, Thorough: thorough, Cfg: cfg, Rule: rule,
		gen: func(x *gen.G) interface{} { return g(x) },
		decode: func(b []byte) (interface{}, error) {
			c := new(C)
			err := json.Unmarshal(b, c)
			return c, err
		},
		check:  func(c interface{}, r *Rec) string { return check(c.(*C), r) },
		Repeat: 1,
	}
	facets = append(facets, f)
	return f
}

func facetsOf(prop string) []*Facet {
	var out []*Facet
	for _, f := range facets {
		if f.Prop == prop {
			out = append(out, f)
		}
	}
	return out
}

// Panic is a panic raised by loukoum.
type Panic struct {
	Text    string
	Runtime bool // a Go runtime error: nil dereference, index out of range...
}

func (p *Panic) String() string {
	if p == nil {
		return "no panic"
	}
	if p.Runtime {
		return "runtime error: " + p.Text
	}
	return p.Text
}

// guard runs a call into loukoum and captures its panic.
func guard(f func()) (p *Panic) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			if s, ok := r.(string); ok && len(s) > 5 && s[:5] == "plan:" {
				panic(harnessError{s})
			}
			_, rt := r.(runtime.Error)
			p = &Panic{Text: fmt.Sprint(r), Runtime: rt}
		}
	}()
	f()
	return nil
}

type harnessError struct{ msg string }

func fatal(format string, args ...interface{}) {
	panic(harnessError{fmt.Sprintf(format, args...)})
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
