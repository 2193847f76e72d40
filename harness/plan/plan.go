package plan

import (
	"encoding/json"
	"sort"
	"strings"
)

func sortStrings(s []string) { sort.Strings(s) }

// Ident is an identifier: dot-separated parts. F is how it is passed:
// 0 as a string, 1 as an object (Column or Table), 2 as a string with blanks
// around it (columns), 3 as an object made with its alias at once.
type Ident struct {
	P []Str `json:"p"`
	F int   `json:"f,omitempty"`
}

// Name is the dotted name.
func (i Ident) Name() string {
	s := make([]string, len(i.P))
	for k, p := range i.P {
		s[k] = string(p)
	}
	return strings.Join(s, ".")
}

// Expr is an expression, a condition or an argument.
type Expr struct {
	K  string  `json:"k"`
	Op string  `json:"op,omitempty"`
	F  int     `json:"f,omitempty"`
	Id *Ident  `json:"id,omitempty"`
	V  *Val    `json:"v,omitempty"`
	S  Str     `json:"s,omitempty"`
	X  []*Expr `json:"x,omitempty"`
	Q  *Stmt   `json:"q,omitempty"`
}

// Target is a select-list or RETURNING item.
type Target struct {
	K        string `json:"k"` // col raw count max min sum exists notexists
	Id       *Ident `json:"id,omitempty"`
	S        Str    `json:"s,omitempty"`
	Alias    Str    `json:"alias,omitempty"`
	Distinct bool   `json:"distinct,omitempty"`
	Q        *Stmt  `json:"q,omitempty"`
	F        int    `json:"f,omitempty"`
}

// Table is a FROM item.
type Table struct {
	Id    *Ident `json:"id,omitempty"`
	Alias Str    `json:"alias,omitempty"`
	Only  bool   `json:"only,omitempty"`
	// OnlyFirst calls Only before As.
	OnlyFirst bool `json:"onlyfirst,omitempty"`

	Raw Str `json:"raw,omitempty"`
}

// On is a join condition.
type On struct {
	K string `json:"k"` // on and or cond
	F int    `json:"f,omitempty"`
	L *Ident `json:"l,omitempty"`
	R *Ident `json:"r,omitempty"`
	X []*On  `json:"x,omitempty"`
	E *Expr  `json:"e,omitempty"` // K cond: any condition, in a join object
}

// Join is a JOIN clause. F: 0 table + condition object, 1 table + condition
// string, 2 one string, 3 a join object.
type Join struct {
	F     int    `json:"f"`
	Type  string `json:"type,omitempty"` // "", "INNER JOIN", ...
	Table Table  `json:"table"`
	On    *On    `json:"on"`
	Text  Str    `json:"text,omitempty"` // the string for F 1 and 2
}

// Order is an ORDER BY item.
type Order struct {
	S   Str    `json:"s,omitempty"`
	Dir string `json:"dir,omitempty"`
	F   int    `json:"f,omitempty"` // 0 lk.Order, 1 Column.Asc/Desc, 2 those of a column with that alias
}

// CTE is a WITH query.
type CTE struct {
	Name Str   `json:"name"`
	Q    *Stmt `json:"q"`
	F    int   `json:"f,omitempty"`
}

// Pair is a column and its value.
type Pair struct {
	Id Ident `json:"id"`
	E  *Expr `json:"e"`
}

// Op is one builder call.
type Op struct {
	N       string    `json:"n"`
	F       int       `json:"f,omitempty"`
	Ids     []Ident   `json:"ids,omitempty"`
	E       *Expr     `json:"e,omitempty"`
	Es      []*Expr   `json:"es,omitempty"`
	Targets []Target  `json:"targets,omitempty"`
	Tables  []Table   `json:"tables,omitempty"`
	Join    *Join     `json:"join,omitempty"`
	CTEs    []CTE     `json:"ctes,omitempty"`
	Orders  []Order   `json:"orders,omitempty"`
	Num     *Val      `json:"num,omitempty"`
	S       Str       `json:"s,omitempty"`
	Rows    [][]*Expr `json:"rows,omitempty"`
	Pairs   []Pair    `json:"pairs,omitempty"`
	Nothing bool      `json:"nothing,omitempty"`
}

// Stmt is a statement: a kind and the sequence of builder calls.
type Stmt struct {
	Kind string `json:"kind"`
	Ops  []Op   `json:"ops"`
}

// JSON renders any plan.
func JSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// EachExpr visits every expression of the statement, outermost first, with
// those of nested statements.
func (s *Stmt) EachExpr(f func(*Expr)) {
	for i := range s.Ops {
		o := &s.Ops[i]
		eachExpr(o.E, f)
		for _, e := range o.Es {
			eachExpr(e, f)
		}
		for _, r := range o.Rows {
			for _, e := range r {
				eachExpr(e, f)
			}
		}
		for _, p := range o.Pairs {
			eachExpr(p.E, f)
		}
		for _, t := range o.Targets {
			if t.Q != nil {
				t.Q.EachExpr(f)
			}
		}
		for _, c := range o.CTEs {
			c.Q.EachExpr(f)
		}
		if e := o.joinCond(); e != nil {
			eachExpr(e, f)
		}
	}
}

// joinCond is a join's condition when it is no join condition object.
func (o *Op) joinCond() *Expr {
	if o.Join == nil || o.Join.On == nil {
		return nil
	}
	return o.Join.On.E
}

func eachExpr(e *Expr, f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, x := range e.X {
		eachExpr(x, f)
	}
	if e.Q != nil {
		e.Q.EachExpr(f)
	}
}

// EachStmt visits the statement and every nested statement.
func (s *Stmt) EachStmt(f func(*Stmt)) {
	f(s)
	for i := range s.Ops {
		o := &s.Ops[i]
		sub := func(e *Expr) {
			eachDirectSub(e, func(q *Stmt) { q.EachStmt(f) })
		}
		sub(o.E)
		sub(o.joinCond())
		for _, e := range o.Es {
			sub(e)
		}
		for _, r := range o.Rows {
			for _, e := range r {
				sub(e)
			}
		}
		for _, p := range o.Pairs {
			sub(p.E)
		}
		for _, t := range o.Targets {
			if t.Q != nil {
				t.Q.EachStmt(f)
			}
		}
		for _, c := range o.CTEs {
			c.Q.EachStmt(f)
		}
	}
}

func eachDirectSub(e *Expr, f func(*Stmt)) {
	if e == nil {
		return
	}
	if e.Q != nil {
		f(e.Q)
	}
	for _, x := range e.X {
		eachDirectSub(x, f)
	}
}

// Clone copies a statement deeply.
func (s *Stmt) Clone() *Stmt {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	out := &Stmt{}
	if err := json.Unmarshal(b, out); err != nil {
		panic(err)
	}
	return out
}

// Clone copies an expression deeply.
func (e *Expr) Clone() *Expr {
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	out := &Expr{}
	if err := json.Unmarshal(b, out); err != nil {
		panic(err)
	}
	return out
}
