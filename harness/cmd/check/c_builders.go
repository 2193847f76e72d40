package main

import (
	"fmt"

	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"

	"verif/harness/gen"
	"verif/harness/plan"
)

// C22: the type predicates tell the four kinds of builders apart.

type builderCase struct {
	S    *plan.Stmt
	Form string // value, pointer, foreign, wrapped, nil, nilptr
}

// foreign is a Builder of the caller's own.
type foreign struct{ builder.Builder }

type foreignValue struct{}

func (foreignValue) String() string                               { return "" }
func (foreignValue) NamedQuery() (string, map[string]interface{}) { return "", nil }
func (foreignValue) Query() (string, []interface{})               { return "", nil }
func (foreignValue) Statement() stmt.Statement                    { return nil }

// Types of the caller's own that have the methods, or the names, of the library's builders.
type (
	logSelect struct{ builder.Select }
	logInsert struct{ builder.Insert }
	logUpdate struct{ builder.Update }
	logDelete struct{ builder.Delete }
	ptrSelect struct{ *builder.Select }
	ptrInsert struct{ *builder.Insert }
	ptrUpdate struct{ *builder.Update }
	ptrDelete struct{ *builder.Delete }
	Select    struct{ builder.Builder }
	Insert    struct{ builder.Builder }
	Update    struct{ builder.Builder }
	Delete    struct{ builder.Builder }
	mySelect  builder.Select
	myInsert  builder.Insert
	myUpdate  builder.Update
	myDelete  builder.Delete
)

func (b mySelect) String() string { return builder.Select(b).String() }
func (b mySelect) NamedQuery() (string, map[string]interface{}) {
	return builder.Select(b).NamedQuery()
}
func (b mySelect) Query() (string, []interface{}) { return builder.Select(b).Query() }
func (b mySelect) Statement() stmt.Statement      { return builder.Select(b).Statement() }
func (b myInsert) String() string                 { return builder.Insert(b).String() }
func (b myInsert) NamedQuery() (string, map[string]interface{}) {
	return builder.Insert(b).NamedQuery()
}
func (b myInsert) Query() (string, []interface{}) { return builder.Insert(b).Query() }
func (b myInsert) Statement() stmt.Statement      { return builder.Insert(b).Statement() }
func (b myUpdate) String() string                 { return builder.Update(b).String() }
func (b myUpdate) NamedQuery() (string, map[string]interface{}) {
	return builder.Update(b).NamedQuery()
}
func (b myUpdate) Query() (string, []interface{}) { return builder.Update(b).Query() }
func (b myUpdate) Statement() stmt.Statement      { return builder.Update(b).Statement() }
func (b myDelete) String() string                 { return builder.Delete(b).String() }
func (b myDelete) NamedQuery() (string, map[string]interface{}) {
	return builder.Delete(b).NamedQuery()
}
func (b myDelete) Query() (string, []interface{}) { return builder.Delete(b).Query() }
func (b myDelete) Statement() stmt.Statement      { return builder.Delete(b).Statement() }

// own builds a foreign type around a builder: embedding it (logged), pointing to
// it (pointing), of the same name (named), or with its underlying type (defined).
func own(x plan.B, form string) builder.Builder {
	i := map[string]int{"select": 0, "insert": 1, "update": 2, "delete": 3}[x.K]
	b := x.Builder()
	switch form {
	case "logged":
		return []builder.Builder{logSelect{x.S}, logInsert{x.I}, logUpdate{x.U}, logDelete{x.D}}[i]
	case "loggedptr":
		return []builder.Builder{&logSelect{x.S}, &logInsert{x.I}, &logUpdate{x.U}, &logDelete{x.D}}[i]
	case "pointing":
		return []builder.Builder{ptrSelect{&x.S}, ptrInsert{&x.I}, ptrUpdate{&x.U}, ptrDelete{&x.D}}[i]
	case "named":
		return []builder.Builder{Select{b}, Insert{b}, Update{b}, Delete{b}}[i]
	case "namedptr":
		return []builder.Builder{&Select{b}, &Insert{b}, &Update{b}, &Delete{b}}[i]
	}
	return []builder.Builder{mySelect(x.S), myInsert(x.I), myUpdate(x.U), myDelete(x.D)}[i]
}

func (c *builderCase) builder() (b builder.Builder, kind string) {
	if c.Form == "nil" {
		return nil, ""
	}
	x := c.S.Build()
	switch c.Form {
	case "value":
		return x.Builder(), x.K
	case "wrapped":
		return foreign{x.Builder()}, ""
	case "foreign":
		return foreignValue{}, ""
	case "foreignptr":
		return &foreign{x.Builder()}, ""
	case "logged", "loggedptr", "pointing", "named", "namedptr", "defined":
		return own(x, c.Form), ""
	}
	switch x.K {
	case "select":
		return &x.S, x.K
	case "insert":
		return &x.I, x.K
	case "update":
		return &x.U, x.K
	}
	return &x.D, x.K
}

func init() {
	add("C22", "predicates", 12000, 200000, gen.Cfg{Depth: 0, Comments: true},
		"random builders of the four kinds given as values and as pointers, at every length of their call sequence, foreign implementations of the interface (embedding one of them, named like one, defined from one, or none of these) and nil; every predicate must be true exactly for its own kind and leave the builder as it was; non-trivial: a builder of one of the four kinds with at least 2 calls",
		func(g *gen.G) *builderCase {
			s := g.Any()
			if g.OneIn(12) { // an empty builder
				s = &plan.Stmt{Kind: s.Kind, Ops: []plan.Op{{N: "zero", S: plan.Str(s.Kind)}}}
			}
			if g.OneIn(3) {
				n := g.In(1, len(s.Ops))
				s = &plan.Stmt{Kind: s.Kind, Ops: s.Ops[:n]}
			}
			return &builderCase{s, gen.Pick(g, []string{"value", "value", "value", "pointer", "pointer", "pointer", "wrapped", "foreign", "foreignptr", "logged", "loggedptr", "pointing", "named", "namedptr", "defined", "nil"})}
		},
		func(c *builderCase, r *Rec) string {
			b, kind := c.builder()
			r.Label("form " + c.Form)
			r.Label("kind " + c.S.Kind)
			r.NonTrivial = kind != "" && len(c.S.Ops) >= 2
			var before Out
			var rejects *Panic
			if kind != "" {
				before, rejects = render(b)
			}
			for _, x := range []struct {
				kind string
				f    func(builder.Builder) bool
			}{
				{"select", builder.IsSelectBuilder}, {"insert", builder.IsInsertBuilder},
				{"update", builder.IsUpdateBuilder}, {"delete", builder.IsDeleteBuilder},
			} {
				var got bool
				if p := guard(func() { got = x.f(b) }); p != nil {
					return fmt.Sprintf("the %s predicate panics on %T: %s", x.kind, b, p)
				}
				if got != (x.kind == kind) {
					return fmt.Sprintf("the %s predicate is %v for a builder of type %T", x.kind, got, b)
				}
			}
			if kind == "" || rejects != nil {
				return ""
			}
			after, p := render(b)
			if p != nil {
				return "the builder is rejected after asking for its type: " + p.String()
			}
			return sameOut(before, after)
		})
}
