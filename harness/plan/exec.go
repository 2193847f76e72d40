package plan

import (
	"fmt"
	"reflect"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// Record, when set, is given every slice, map and pointer handed to a builder call, so
// that a check can scribble over it afterwards.
var Record func(interface{})

func handed(v []interface{}) []interface{} {
	if Record != nil {
		Record(v)
		for _, x := range v {
			switch reflect.ValueOf(x).Kind() {
			case reflect.Slice, reflect.Map:
				Record(x)
			}
		}
	}
	return v
}

func handedElems(v interface{}) {
	if Record != nil {
		Record(v)
	}
}

// Share, when set, makes equal subqueries one and the same builder.
var Share map[string]builder.Builder

// Fixed are subqueries that are a given builder. It is only read, so
// goroutines may share it.
var Fixed map[string]builder.Builder

// ShareArgs, when set, makes equal arguments one and the same Go object.
var ShareArgs map[string]interface{}

func memo[T any](kind string, key interface{}, f func() T) T {
	if ShareArgs == nil {
		return f()
	}
	k := kind + JSON(key)
	if v, ok := ShareArgs[k]; ok {
		return v.(T)
	}
	v := f()
	ShareArgs[k] = v
	return v
}

// EncStmt is a caller's type that encodes as an expression.
type EncStmt struct{ E stmt.Expression }

// Statement implements loukoum's statement encoder.
func (e EncStmt) Statement() stmt.Statement { return e.E }

// Column builds the column object.
func (i Ident) Column(alias Str) stmt.Column {
	if i.F == 3 {
		return stmt.NewColumnAlias(i.Name(), string(alias))
	}
	c := lk.Column(i.Name())
	if i.F == 5 { // the last alias counts, an empty one being none
		c = c.As("before")
	}
	if alias != "" || i.F == 5 {
		c = c.As(string(alias))
	}
	return c
}

// Arg is the identifier as handed to a position that takes names or columns.
func (i Ident) Arg() interface{} {
	if i.F == 1 || i.F == 3 || i.F == 5 {
		return i.Column("")
	}
	return i.text()
}

// text is the name as a string argument.
func (i Ident) text() string {
	if i.F == 2 {
		return " " + i.Name() + "\t\n"
	}
	return i.Name()
}

func names(ids []Ident) []string {
	out := make([]string, len(ids))
	for k, i := range ids {
		out[k] = i.text()
	}
	return out
}

// ColumnArgs builds the arguments of a call taking columns.
func ColumnArgs(ids []Ident, form int) []interface{} {
	return memo(fmt.Sprint("columns", form), ids, func() []interface{} { return handed(columnArgs(ids, form)) })
}

func columnArgs(ids []Ident, form int) []interface{} {
	switch form {
	case 1:
		return []interface{}{strings.Join(names(ids), ", ")}
	case 2:
		return []interface{}{names(ids)}
	case 3:
		out := make([]stmt.Column, len(ids))
		for k, i := range ids {
			out[k] = i.Column("")
		}
		return []interface{}{out}
	}
	if form == 4 || form == 5 { // some of the strings hold several names
		joined := []string{}
		for k := 0; k < len(ids); k++ {
			s := ids[k].Name()
			if k%3 != 1 && k+1 < len(ids) {
				k++
				s += " ," + ids[k].Name()
			}
			joined = append(joined, s)
		}
		if form == 4 {
			return []interface{}{joined}
		}
		out := make([]interface{}, len(joined))
		for i := range joined {
			out[i] = joined[i]
		}
		return out
	}
	out := make([]interface{}, len(ids))
	for k, i := range ids {
		out[k] = i.Arg()
	}
	return out
}

// Table builds the table object.
func (t Table) Table() stmt.Table {
	o := lk.Table(t.Id.Name())
	if t.Id.F == 3 {
		o = stmt.NewTableAlias(t.Id.Name(), string(t.Alias))
		if t.Only {
			o = o.Only()
		}
		return o
	}
	only := t.Only
	if only && t.OnlyFirst {
		o, only = o.Only(), false
	}
	if t.Id.F == 5 {
		o = o.As("before")
	}
	if t.Alias != "" || t.Id.F == 5 {
		o = o.As(string(t.Alias))
	}
	if only {
		o = o.Only()
	}
	return o
}

// Arg is the table as handed to a FROM-like position.
func (t Table) Arg() interface{} {
	if t.Raw != "" {
		return lk.Raw(string(t.Raw))
	}
	if t.Id.F == 0 && t.Alias == "" && !t.Only {
		return t.Id.Name()
	}
	return t.Table()
}

// Sub builds the argument for a subquery. Form 0 is the builder, 1 its statement.
func Sub(q *Stmt, form int) interface{} {
	var b builder.Builder
	if Fixed != nil {
		b = Fixed[JSON(q)]
	}
	switch {
	case b != nil:
	case Share != nil:
		k := JSON(q)
		if b = Share[k]; b == nil {
			b = q.Build().Builder()
			Share[k] = b
		}
	default:
		b = q.Build().Builder()
	}
	if form == 1 {
		return b.Statement()
	}
	if form == 2 {
		if s, ok := b.(builder.Select); ok {
			handedElems(&s)
			return &s
		}
	}
	return b
}

// Expression builds an expression object.
func (e *Expr) Expression() stmt.Expression {
	if e.K == "nilexpr" {
		return nil
	}
	return memo("expr", e, e.expression)
}

func (e *Expr) expression() stmt.Expression {
	switch e.K {
	case "ident":
		return lk.Condition(e.Id.Name())
	case "rawident":
		return lk.Condition(lk.Raw(string(e.S)))
	case "raw":
		return lk.Raw(string(e.S))
	case "value":
		// A value object is the caller's: what it points to is not copied.
		if rec := Record; rec != nil { // never set while goroutines build
			Record = nil
			defer func() { Record = rec }()
		}
		return lk.Value(e.V.Go())
	case "call":
		args := make([]stmt.Expression, len(e.X))
		for i, x := range e.X {
			args[i] = x.Expression()
		}
		handedElems(args)
		return stmt.NewCall(string(e.S), args...)
	case "sub":
		return Sub(e.Q, 1).(stmt.Select)
	case "badident":
		return stmt.NewIdentifier(e.V.Go())
	case "emptysel":
		return stmt.NewSelect()
	case "noop": // no operator
		if e.F == 1 {
			return stmt.NewInfixExpression(e.X[0].Expression(), stmt.NewLogicalOperator(""), e.X[1].Expression())
		}
		return stmt.NewInfixExpression(e.X[0].Expression(), stmt.NewComparisonOperator(""), e.X[1].Expression())
	case "exists":
		return lk.Exists(Sub(e.Q, e.F))
	case "notexists":
		return lk.NotExists(Sub(e.Q, e.F))
	case "cmp":
		return compare(e.X[0], e.Op, e.X[1])
	case "null":
		id := identifier(e.X[0])
		if e.F == 1 {
			if e.Op == "null" {
				return id.Is(nil)
			}
			return id.IsNot(nil)
		}
		return id.IsNull(e.Op == "null")
	case "in":
		args := InArgs(e.X[1:], e.F)
		switch l := e.X[0].Expression().(type) {
		case stmt.Identifier:
			if e.Op == "notin" {
				return l.NotIn(args...)
			}
			return l.In(args...)
		case stmt.Call:
			return l.In(args...)
		}
	case "between":
		id := identifier(e.X[0])
		if e.Op == "notbetween" {
			return id.NotBetween(e.X[1].Arg(), e.X[2].Arg())
		}
		return id.Between(e.X[1].Arg(), e.X[2].Arg())
	case "and", "or":
		l, r := e.X[0].Expression(), e.X[1].Expression()
		if e.F == 1 {
			switch v := l.(type) {
			case stmt.InfixExpression:
				if e.K == "and" {
					return v.And(r)
				}
				return v.Or(r)
			case stmt.In:
				if e.K == "and" {
					return v.And(r)
				}
				return v.Or(r)
			}
		}
		if e.K == "and" {
			return lk.And(l, r)
		}
		return lk.Or(l, r)
	}
	panic("plan: not an expression: " + JSON(e))
}

func identifier(e *Expr) stmt.Identifier { return e.Expression().(stmt.Identifier) }

// Arg is the expression as handed to a position accepting any Go value.
func (e *Expr) Arg() interface{} {
	switch e.K {
	case "val":
		return e.V.Go()
	case "sub":
		return Sub(e.Q, e.F)
	case "enc":
		return EncStmt{e.X[0].Expression()}
	}
	return e.Expression()
}

func args(es []*Expr) []interface{} {
	return memo("args", es, func() []interface{} { return allArgs(es) })
}

func allArgs(es []*Expr) []interface{} {
	out := make([]interface{}, len(es))
	for i, e := range es {
		out[i] = e.Arg()
	}
	handedElems(out)
	return out
}

func vals(es []*Expr) []Val {
	out := make([]Val, len(es))
	for i, e := range es {
		out[i] = *e.V
	}
	return out
}

// InArgs builds the arguments of an IN call. Forms: 0 one by one, 1 a
// []interface{}, 2 a typed slice, 3 a slice of expressions.
func InArgs(es []*Expr, form int) []interface{} {
	switch form {
	case 1:
		return []interface{}{args(es)}
	case 2:
		return handed([]interface{}{TypedSlice("int64", vals(es))})
	case 3:
		out := make([]stmt.Expression, len(es))
		for i, e := range es {
			out[i] = exprOrValue(e)
		}
		return handed([]interface{}{out})
	}
	return args(es)
}

func exprOrValue(e *Expr) stmt.Expression {
	if e.K == "val" {
		return lk.Value(e.V.Bound())
	}
	return e.Expression()
}

func compare(l *Expr, op string, r *Expr) stmt.Expression {
	arg := r.Arg()
	switch x := l.Expression().(type) {
	case stmt.Identifier:
		switch op {
		case "=":
			return x.Equal(arg)
		case "<>":
			return x.NotEqual(arg)
		case ">":
			return x.GreaterThan(arg)
		case ">=":
			return x.GreaterThanOrEqual(arg)
		case "<":
			return x.LessThan(arg)
		case "<=":
			return x.LessThanOrEqual(arg)
		case "@>":
			return x.Contains(arg)
		case "<@":
			return x.IsContainedBy(arg)
		case "&&":
			return x.Overlap(arg)
		case "like":
			return x.Like(arg)
		case "notlike":
			return x.NotLike(arg)
		case "ilike":
			return x.ILike(arg)
		case "notilike":
			return x.NotILike(arg)
		case "is":
			return x.Is(arg)
		case "isnot":
			return x.IsNot(arg)
		case "isdistinct":
			return x.IsDistinctFrom(arg)
		case "isnotdistinct":
			return x.IsNotDistinctFrom(arg)
		}
	case stmt.Value:
		switch op {
		case "=":
			return x.Equal(arg)
		case "<>":
			return x.NotEqual(arg)
		case "@>":
			return x.Contains(arg)
		case "<@":
			return x.IsContainedBy(arg)
		case "&&":
			return x.Overlap(arg)
		}
	case stmt.Call:
		switch op {
		case "=":
			return x.Equal(arg)
		case ">":
			return x.GreaterThan(arg)
		case "<":
			return x.LessThan(arg)
		case "like":
			return x.Like(arg)
		case "ilike":
			return x.ILike(arg)
		case "&&":
			return x.Overlap(arg)
		}
	}
	panic(fmt.Sprintf("plan: %T has no comparison %s", l.Expression(), op))
}

// SelectExpression builds a select-list item.
func (t Target) SelectExpression() stmt.SelectExpression {
	switch t.K {
	case "col":
		return t.Id.Column(t.Alias)
	case "raw":
		return lk.Raw(string(t.S))
	case "count":
		c := lk.Count(string(t.S))
		if t.F == 2 {
			c = c.As("before").As("")
		}
		if t.F != 1 && t.Distinct {
			c = c.Distinct(true)
		}
		if t.Alias != "" {
			c = c.As(string(t.Alias))
		}
		if t.F == 1 {
			c = c.Distinct(!t.Distinct).Distinct(t.Distinct)
		}
		return c
	case "max":
		c := lk.Max(string(t.S))
		if t.F == 2 {
			c = c.As("before").As("")
		}
		if t.Alias != "" {
			c = c.As(string(t.Alias))
		}
		return c
	case "min":
		c := lk.Min(string(t.S))
		if t.F == 2 {
			c = c.As("before").As("")
		}
		if t.Alias != "" {
			c = c.As(string(t.Alias))
		}
		return c
	case "sum":
		c := lk.Sum(string(t.S))
		if t.F == 2 {
			c = c.As("before").As("")
		}
		if t.Alias != "" {
			c = c.As(string(t.Alias))
		}
		return c
	case "exists":
		return lk.Exists(Sub(t.Q, t.F))
	case "notexists":
		return lk.NotExists(Sub(t.Q, t.F))
	}
	panic("plan: unknown target " + t.K)
}

// Arg is the item as handed to Select or Returning.
func (t Target) Arg() interface{} {
	if t.K == "col" && t.Alias == "" && t.Id.F != 1 && t.Id.F != 3 && t.Id.F != 5 {
		return t.Id.text()
	}
	return t.SelectExpression()
}

// TargetArgs builds the arguments of Select or Returning. Forms: 0 one by
// one, 1 a comma-separated string, 2 []string, 3 []Column, 4 a slice of items.
func TargetArgs(ts []Target, form int) []interface{} {
	return memo(fmt.Sprint("targets", form), ts, func() []interface{} { return handed(targetArgs(ts, form)) })
}

func targetArgs(ts []Target, form int) []interface{} {
	ids := make([]Ident, 0, len(ts))
	if form >= 1 && form <= 3 {
		for _, t := range ts {
			ids = append(ids, *t.Id)
		}
	}
	switch form {
	case 2:
		// Taken as they stand.
		for i := range ids {
			ids[i].F = 0
		}
		fallthrough
	case 1:
		return columnArgs(ids, form)
	case 3:
		out := make([]stmt.Column, len(ts))
		for i, t := range ts {
			out[i] = t.Id.Column(t.Alias)
		}
		return []interface{}{out}
	case 4:
		out := make([]stmt.SelectExpression, len(ts))
		for i, t := range ts {
			out[i] = t.SelectExpression()
		}
		return []interface{}{out}
	}
	out := make([]interface{}, len(ts))
	for i, t := range ts {
		out[i] = t.Arg()
	}
	return out
}

// Clause builds the join condition object.
func (o *On) Clause() stmt.OnExpression {
	if o.K == "on" {
		return lk.On(o.L.Name(), o.R.Name())
	}
	l, r := o.X[0].Clause(), o.X[1].Clause()
	if o.F == 1 {
		if o.K == "and" {
			return l.And(r)
		}
		return l.Or(r)
	}
	if o.K == "and" {
		return lk.AndOn(l, r)
	}
	return lk.OrOn(l, r)
}

// Args builds the arguments of Join.
func (j *Join) Args() []interface{} {
	switch j.F {
	case 2:
		return []interface{}{string(j.Text)}
	case 3:
		var cond stmt.Expression
		if j.On.K == "cond" {
			cond = j.On.E.Expression()
		} else {
			cond = j.On.Clause().(stmt.Expression)
		}
		switch j.Type {
		case "LEFT JOIN":
			return []interface{}{stmt.NewLeftJoin(j.Table.Table(), cond)}
		case "RIGHT JOIN":
			return []interface{}{stmt.NewRightJoin(j.Table.Table(), cond)}
		case "":
			return []interface{}{stmt.NewInnerJoin(j.Table.Table(), cond)}
		}
		return []interface{}{stmt.NewJoin(types.JoinType(j.Type), j.Table.Table(), cond)}
	}
	out := []interface{}{j.Table.Arg()}
	if j.F == 1 {
		out = append(out, string(j.Text))
	} else {
		out = append(out, j.On.Clause())
	}
	if j.Type != "" {
		out = append(out, types.JoinType(j.Type))
	}
	return out
}

func (o Order) order() stmt.Order {
	if o.F > 0 {
		c := lk.Column(string(o.S))
		if o.F == 2 {
			c = lk.Column("named").As(string(o.S))
		}
		if o.F == 3 {
			c = lk.Column("t." + string(o.S)).As(string(o.S))
		}
		if o.F == 4 {
			c = lk.Column(string(o.S)).As(string(o.S))
		}
		if o.Dir == "DESC" {
			return c.Desc()
		}
		return c.Asc()
	}
	switch o.Dir {
	case "":
		return lk.Order(string(o.S))
	case "DESC":
		return lk.Order(string(o.S), lk.Desc)
	}
	return lk.Order(string(o.S), lk.Asc)
}

// Orders builds the ORDER BY items.
func Orders(os []Order) []stmt.Order {
	return memo("orders", os, func() []stmt.Order { return orders(os) })
}

func orders(os []Order) []stmt.Order {
	out := make([]stmt.Order, len(os))
	for i, o := range os {
		out[i] = o.order()
	}
	handedElems(out)
	return out
}

// Withs builds the WITH queries.
func Withs(cs []CTE) []stmt.WithQuery {
	return memo("withs", cs, func() []stmt.WithQuery { return withs(cs) })
}

func withs(cs []CTE) []stmt.WithQuery {
	out := make([]stmt.WithQuery, len(cs))
	for i, c := range cs {
		out[i] = lk.With(string(c.Name), Sub(c.Q, c.F))
	}
	handedElems(out)
	return out
}

// SetArgs builds the arguments of Set or DoUpdate.
func SetArgs(ps []Pair, form int) []interface{} {
	return memo(fmt.Sprint("set", form), ps, func() []interface{} { return handed(setArgs(ps, form)) })
}

func setArgs(ps []Pair, form int) []interface{} {
	switch form {
	case 1:
		return []interface{}{lkMap(ps)}
	case 2:
		m := map[string]interface{}{}
		for _, p := range ps {
			m[p.Id.text()] = p.E.Arg()
		}
		return []interface{}{m}
	case 3: // a map, then pairs
		h := len(ps) / 2
		return append([]interface{}{lkMap(ps[:h])}, setArgs(ps[h:], 0)...)
	case 4: // pairs, a map, pairs
		h, k := MapPart(len(ps))
		out := append(setArgs(ps[:h], 0), lkMap(ps[h:k]))
		return append(out, setArgs(ps[k:], 0)...)
	case 5: // a pair, a map, another kind of map
		h, k := MapPart(len(ps))
		out := append(setArgs(ps[:h], 0), lkMap(ps[h:k]))
		return append(out, setArgs(ps[k:], 2)...)
	}
	out := make([]interface{}, len(ps))
	for i, p := range ps {
		out[i] = lk.Pair(p.Id.Arg(), p.E.Arg())
	}
	return out
}

// MapPart gives the pairs that are in the map of form 4 and the first map of form 5.
func MapPart(n int) (from, to int) { return (n + 2) / 3, n - n/3 }

func lkMap(ps []Pair) lk.Map {
	m := lk.Map{}
	for _, p := range ps {
		m[p.Id.Arg()] = p.E.Arg()
	}
	return m
}

// ValuesArgs builds the arguments of Values. Forms: 0 one row value by
// value, 1 one []interface{}, 2 one typed slice, 3 [][]interface{}, 4 typed
// [][]T, 5 [][]Expression, 6 one []Expression.
func ValuesArgs(rows [][]*Expr, form int) []interface{} {
	return memo(fmt.Sprint("values", form), rows, func() []interface{} { return allValues(rows, form) })
}

func allValues(rows [][]*Expr, form int) []interface{} {
	v := valuesArgs(rows, form)
	if form >= 2 {
		return handed(v)
	}
	return v
}

func valuesArgs(rows [][]*Expr, form int) []interface{} {
	switch form {
	case 0:
		return args(rows[0])
	case 1:
		return []interface{}{args(rows[0])}
	case 2:
		return []interface{}{TypedSlice("int64", vals(rows[0]))}
	case 3:
		out := make([][]interface{}, len(rows))
		for i, r := range rows {
			out[i] = args(r)
		}
		return []interface{}{out}
	case 4:
		switch rows[0][0].V.K {
		case "string":
			out := make([][]string, len(rows))
			for i, r := range rows {
				out[i] = TypedSlice("string", vals(r)).([]string)
			}
			return []interface{}{out}
		case "int":
			out := make([][]int, len(rows))
			for i, r := range rows {
				out[i] = TypedSlice("int", vals(r)).([]int)
			}
			return []interface{}{out}
		case "int64":
			out := make([][]int64, len(rows))
			for i, r := range rows {
				out[i] = TypedSlice("int64", vals(r)).([]int64)
			}
			return []interface{}{out}
		case "bool":
			out := make([][]bool, len(rows))
			for i, r := range rows {
				out[i] = TypedSlice("bool", vals(r)).([]bool)
			}
			return []interface{}{out}
		}
	case 5:
		out := make([][]stmt.Expression, len(rows))
		for i, r := range rows {
			for _, e := range r {
				out[i] = append(out[i], exprOrValue(e))
			}
		}
		return []interface{}{out}
	case 6:
		out := []stmt.Expression{}
		for _, e := range rows[0] {
			out = append(out, exprOrValue(e))
		}
		return []interface{}{out}
	}
	panic("plan: bad values form")
}

// B is a loukoum builder of any kind.
type B struct {
	K string
	S builder.Select
	I builder.Insert
	U builder.Update
	D builder.Delete
}

// Builder is the builder itself.
func (b B) Builder() builder.Builder {
	switch b.K {
	case "select":
		return b.S
	case "insert":
		return b.I
	case "update":
		return b.U
	case "delete":
		return b.D
	}
	panic("plan: empty builder")
}

// Apply makes one builder call.
func (b B) Apply(o Op) B {
	switch o.N {
	case "select":
		return B{K: "select", S: lk.Select(TargetArgs(o.Targets, o.F)...)}
	case "insert":
		if o.F == 1 {
			return B{K: "insert", I: lk.Insert(stmt.NewInto(o.Tables[0].Table()))}
		}
		return B{K: "insert", I: lk.Insert(o.Tables[0].Arg())}
	case "update":
		return B{K: "update", U: lk.Update(o.Tables[0].Arg())}
	case "delete":
		return B{K: "delete", D: lk.Delete(fromArgs(o)[0])}
	case "new":
		return construct(string(o.S), CallArgs(o.Es))
	case "zero":
		return B{K: string(o.S)}
	case "call":
		return b.call(string(o.S), CallArgs(o.Es))
	}
	switch b.K {
	case "select":
		b.S = applySelect(b.S, o)
	case "insert":
		b.I = applyInsert(b.I, o)
	case "update":
		b.U = applyUpdate(b.U, o)
	case "delete":
		b.D = applyDelete(b.D, o)
	}
	return b
}

// CallArgs are the arguments of a direct call.
func CallArgs(es []*Expr) []interface{} {
	out := make([]interface{}, len(es))
	for i, e := range es {
		out[i] = e.direct()
	}
	return out
}

// direct is an argument of a direct call, which may be a misuse.
func (e *Expr) direct() interface{} {
	switch e.K {
	case "column":
		return lk.Column(string(e.S))
	case "table":
		return lk.Table(string(e.S))
	case "columns":
		out := []stmt.Column{}
		for _, x := range e.X {
			out = append(out, lk.Column(string(x.S)))
		}
		return out
	case "names":
		out := []string{}
		for _, x := range e.X {
			out = append(out, string(x.S))
		}
		return out
	case "items":
		out := []stmt.SelectExpression{}
		for _, x := range e.X {
			if x.K == "nilexpr" {
				out = append(out, nil)
				continue
			}
			out = append(out, lk.Column(string(x.S)))
		}
		return out
	case "pair":
		return lk.Pair(e.X[0].direct(), e.X[1].direct())
	case "map":
		m := lk.Map{}
		for i := 0; i+1 < len(e.X); i += 2 {
			m[e.X[i].direct()] = e.X[i+1].direct()
		}
		return m
	case "mapsi":
		m := map[string]interface{}{}
		for i := 0; i+1 < len(e.X); i += 2 {
			m[e.X[i].direct().(string)] = e.X[i+1].direct()
		}
		return m
	case "count":
		return lk.Count(string(e.S))
	case "max":
		return lk.Max(string(e.S))
	case "rawitem":
		return lk.Raw(string(e.S))
	case "rows":
		out := [][]interface{}{}
		for _, x := range e.X {
			out = append(out, CallArgs(x.X))
		}
		return out
	case "introws":
		return blankRows(string(e.S), e.X)
	case "list":
		return CallArgs(e.X)
	case "nothing":
		return lk.DoNothing()
	case "update":
		return lk.DoUpdate(CallArgs(e.X)...)
	case "order":
		return lk.Order(string(e.S))
	case "with":
		return lk.With(string(e.S), e.X[0].direct())
	case "prefix":
		return stmt.NewPrefix(string(e.S))
	case "suffix":
		return stmt.NewSuffix(string(e.S))
	case "from":
		return stmt.NewFrom([]stmt.Statement{lk.Table(string(e.S))})
	case "joinobj":
		return stmt.NewInnerJoin(lk.Table(string(e.S)), nil)
	case "joinnotype":
		return stmt.NewJoin("", lk.Table(string(e.S)), lk.Condition("a").Equal(1))
	case "joincond":
		return stmt.NewLeftJoin(lk.Table(string(e.S)), lk.Condition("a").Equal(1))
	case "fromnil":
		return stmt.NewFrom([]stmt.Statement{nil})
	case "fromsome":
		return stmt.NewFrom([]stmt.Statement{lk.Table(string(e.S)), lk.Table("")})
	case "on":
		return lk.On("a", "b")
	case "onempty":
		return emptyOn(e.F)
	case "joinempty":
		return stmt.NewRightJoin(lk.Table(string(e.S)), emptyOn(e.F).(stmt.Expression))
	case "jointype":
		return types.JoinType(e.S)
	}
	return e.Arg()
}

// RowKinds are the element types of rows.
var RowKinds = []string{"int", "int64", "string", "bool", "expr", "any"}

// blankRows are typed rows with as many values as the lists have.
func blankRows(kind string, lists []*Expr) interface{} {
	t := map[string]reflect.Type{"int64": reflect.TypeOf(int64(0)), "string": reflect.TypeOf(""), "bool": reflect.TypeOf(false),
		"expr": reflect.TypeOf((*stmt.Expression)(nil)).Elem(), "any": reflect.TypeOf((*interface{})(nil)).Elem()}[kind]
	if t == nil {
		t = reflect.TypeOf(0)
	}
	out := reflect.MakeSlice(reflect.SliceOf(reflect.SliceOf(t)), 0, len(lists))
	for _, x := range lists {
		row := reflect.MakeSlice(reflect.SliceOf(t), len(x.X), len(x.X))
		for i := range x.X {
			if kind == "expr" {
				row.Index(i).Set(reflect.ValueOf(lk.Value(i)))
			}
		}
		out = reflect.Append(out, row)
	}
	return out.Interface()
}

// EmptyOns is the number of join conditions emptyOn knows.
const EmptyOns = 12

// emptyOn is a join condition that lacks something.
func emptyOn(f int) interface{} {
	some, none := lk.On("a", "b"), lk.On("a", "")
	if f%2 == 1 {
		none = lk.On("", "b")
	}
	switch f / 2 {
	case 0:
		return none
	case 1:
		return lk.AndOn(some, none)
	case 2:
		return lk.OrOn(none, some)
	case 3:
		return some.And(none.Or(some))
	case 4:
		return some.Or(some).And(none)
	default:
		return lk.AndOn(lk.OrOn(some, some), lk.AndOn(some, none))
	}
}

func construct(kind string, args []interface{}) B {
	switch kind {
	case "select":
		return B{K: kind, S: lk.Select(args...)}
	case "insert":
		return B{K: kind, I: lk.Insert(args[0])}
	case "update":
		return B{K: kind, U: lk.Update(args[0])}
	case "delete":
		return B{K: kind, D: lk.Delete(args[0])}
	}
	panic("plan: no constructor " + kind)
}

// call calls a method of the builder by name.
func (b B) call(method string, args []interface{}) B {
	m := reflect.ValueOf(b.Builder()).MethodByName(method)
	if !m.IsValid() {
		panic("plan: no method " + method + " on " + b.K)
	}
	t := m.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		want := t.In(min(i, t.NumIn()-1))
		if t.IsVariadic() && i >= t.NumIn()-1 {
			want = want.Elem()
		}
		if a == nil {
			in[i] = reflect.Zero(want)
			continue
		}
		in[i] = reflect.ValueOf(a)
	}
	out := m.Call(in)[0].Interface()
	switch x := out.(type) {
	case builder.Select:
		b.S = x
	case builder.Insert:
		b.I = x
	case builder.Update:
		b.U = x
	case builder.Delete:
		b.D = x
	}
	return b
}

func tableArgs(ts []Table) []interface{} {
	return memo("tables", ts, func() []interface{} { return allTables(ts) })
}

// fromArgs are the arguments of From. Forms: 0 tables, 1 one clause, 2 a table
// and a clause.
func fromArgs(o Op) []interface{} {
	if o.F == 0 || o.F == 2 && len(o.Tables) == 1 {
		return tableArgs(o.Tables)
	}
	return memo(fmt.Sprint("from", o.F), o.Tables, func() []interface{} {
		ts := make([]stmt.Statement, len(o.Tables))
		for i, t := range o.Tables {
			if t.Raw != "" {
				ts[i] = lk.Raw(string(t.Raw))
				continue
			}
			ts[i] = t.Table()
		}
		handedElems(ts)
		out := []interface{}{stmt.NewFrom(ts)}
		if o.F == 2 {
			out = []interface{}{o.Tables[0].Arg(), stmt.NewFrom(ts[1:])}
		}
		handedElems(out)
		return out
	})
}

func allTables(ts []Table) []interface{} {
	out := make([]interface{}, len(ts))
	for i, t := range ts {
		out[i] = t.Arg()
	}
	handedElems(out)
	return out
}

func applySelect(b builder.Select, o Op) builder.Select {
	switch o.N {
	case "reselect":
		return b.Columns(TargetArgs(o.Targets, o.F)...)
	case "distinct":
		return b.Distinct()
	case "distincton":
		return b.DistinctOn(ColumnArgs(o.Ids, o.F)...)
	case "from":
		return b.From(fromArgs(o)...)
	case "join":
		return b.Join(o.Join.Args()...)
	case "with":
		return b.With(Withs(o.CTEs)...)
	case "where":
		return b.Where(o.E.Expression())
	case "and":
		return b.And(o.E.Expression())
	case "or":
		return b.Or(o.E.Expression())
	case "groupby":
		return b.GroupBy(ColumnArgs(o.Ids, o.F)...)
	case "having":
		return b.Having(o.E.Expression())
	case "orderby":
		return b.OrderBy(Orders(o.Orders)...)
	case "limit":
		if o.F == 1 {
			return b.Limit(lk.Limit(o.Num.I))
		}
		return b.Limit(o.Num.Go())
	case "offset":
		if o.F == 1 {
			return b.Offset(lk.Offset(o.Num.I))
		}
		return b.Offset(o.Num.Go())
	case "prefix":
		if o.F == 1 {
			return b.Prefix(stmt.NewPrefix(string(o.S)))
		}
		return b.Prefix(string(o.S))
	case "suffix":
		if o.F == 1 {
			return b.Suffix(stmt.NewSuffix(string(o.S)))
		}
		return b.Suffix(string(o.S))
	case "comment":
		return b.Comment(string(o.S))
	}
	panic("plan: select has no op " + o.N)
}

func applyInsert(b builder.Insert, o Op) builder.Insert {
	switch o.N {
	case "columns":
		return b.Columns(ColumnArgs(o.Ids, o.F)...)
	case "values":
		return b.Values(ValuesArgs(o.Rows, o.F)...)
	case "set":
		return b.Set(SetArgs(o.Pairs, o.F)...)
	case "onconflict":
		return b.OnConflict(ConflictArgs(o)...)
	case "returning":
		return b.Returning(TargetArgs(o.Targets, o.F)...)
	case "comment":
		return b.Comment(string(o.S))
	}
	panic("plan: insert has no op " + o.N)
}

// ConflictArgs builds the arguments of OnConflict.
func ConflictArgs(o Op) []interface{} {
	out := make([]interface{}, 0, len(o.Ids)+1)
	defer func() { handedElems(out[:len(o.Ids)]) }()
	for _, i := range o.Ids {
		out = append(out, i.Arg())
	}
	if o.Nothing {
		return append(out, lk.DoNothing())
	}
	return append(out, lk.DoUpdate(SetArgs(o.Pairs, o.F)...))
}

func applyUpdate(b builder.Update, o Op) builder.Update {
	switch o.N {
	case "only":
		return b.Only()
	case "set":
		return b.Set(SetArgs(o.Pairs, o.F)...)
	case "setcols":
		return b.Set(ColumnArgs(o.Ids, o.F)...)
	case "using":
		return b.Using(args(o.Es)...)
	case "with":
		return b.With(Withs(o.CTEs)...)
	case "from":
		return b.From(fromArgs(o)[0])
	case "where":
		return b.Where(o.E.Expression())
	case "and":
		return b.And(o.E.Expression())
	case "or":
		return b.Or(o.E.Expression())
	case "returning":
		return b.Returning(TargetArgs(o.Targets, o.F)...)
	case "comment":
		return b.Comment(string(o.S))
	}
	panic("plan: update has no op " + o.N)
}

func applyDelete(b builder.Delete, o Op) builder.Delete {
	switch o.N {
	case "using":
		return b.Using(tableArgs(o.Tables)...)
	case "where":
		return b.Where(o.E.Expression())
	case "and":
		return b.And(o.E.Expression())
	case "or":
		return b.Or(o.E.Expression())
	case "returning":
		return b.Returning(TargetArgs(o.Targets, o.F)...)
	case "comment":
		return b.Comment(string(o.S))
	}
	panic("plan: delete has no op " + o.N)
}

// Build makes all the calls.
func (s *Stmt) Build() B {
	b := B{}
	for _, o := range s.Ops {
		b = b.Apply(o)
	}
	return b
}

// Scribble overwrites a recorded slice or map, as a caller may do with memory
// that is its own.
func Scribble(v interface{}) {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Ptr:
		rv.Elem().Set(reflect.Zero(rv.Type().Elem()))
	case reflect.Slice:
		for i := 0; i < rv.Len(); i++ {
			el := rv.Index(i)
			if el.Kind() == reflect.Slice && el.Type().Elem().Kind() != reflect.Uint8 {
				Scribble(el.Interface())
			}
			switch {
			case el.Kind() == reflect.String:
				el.SetString("scribbled")
			case el.Kind() == reflect.Interface && el.NumMethod() == 0:
				el.Set(reflect.ValueOf("scribbled"))
			default:
				el.Set(reflect.Zero(el.Type()))
			}
		}
	case reflect.Map:
		keys := rv.MapKeys()
		for _, k := range keys {
			rv.SetMapIndex(k, reflect.Value{})
		}
		rv.SetMapIndex(reflect.ValueOf("scribbled"), reflect.ValueOf("scribbled"))
	}
}
