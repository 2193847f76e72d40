package plan

import (
	"sort"
	"strconv"
	"strings"

	"verif/harness/pg"
)

// The model gives each plan its meaning as a syntax tree. It is written from
// the documentation and the SQL standard's reading of each call, and shares no
// code with loukoum.

func must(p *pg.Parsed, err error) *pg.N {
	if err != nil {
		panic("plan: the generator made a raw fragment the oracle cannot parse: " + err.Error())
	}
	return p.Tree
}

// N is the identifier's tree.
func (i Ident) N(t string) *pg.N {
	n := pg.Mk(t)
	for k, p := range i.P {
		if p == "*" && t == "col" && k == len(i.P)-1 {
			n.Add(pg.Mk("star"))
			continue
		}
		n.Add(pg.Tx("id", string(p)))
	}
	return n
}

func (t Table) n() *pg.N {
	if t.Raw != "" {
		return must(pg.ParseFromItem(string(t.Raw), pg.Mode{}))
	}
	n := pg.Mk("item", t.Id.N("tbl"))
	if t.Only {
		n.Add(pg.Mk("only"))
	}
	if t.Alias != "" {
		n.Add(pg.Tx("alias", string(t.Alias)))
	}
	return n
}

func valN(v Val) *pg.N {
	b := v.Bound()
	if b == nil {
		return pg.Mk("null")
	}
	return pg.Tx("param", Key(b))
}

// N is the expression's tree.
func (e *Expr) N() *pg.N {
	switch e.K {
	case "ident":
		return e.Id.N("col")
	case "rawident", "raw":
		return must(pg.ParseExpr(string(e.S), pg.Mode{}))
	case "value":
		g := e.V.Go()
		if g == nil {
			return pg.Mk("null")
		}
		return pg.Tx("param", Key(g))
	case "val":
		return valN(*e.V)
	case "enc":
		return e.X[0].N()
	case "call":
		n := pg.Mk("call", must(pg.ParseExpr(string(e.S), pg.Mode{})))
		for _, x := range e.X {
			if x.K == "raw" && x.S == "*" {
				n.Add(pg.Mk("star"))
				continue
			}
			n.Add(x.N())
		}
		return n
	case "sub":
		return pg.Mk("subq", e.Q.N())
	case "exists":
		return pg.Mk("exists", e.Q.N())
	case "notexists":
		return pg.Mk("not", pg.Mk("exists", e.Q.N()))
	case "cmp":
		l, r := e.X[0].N(), e.X[1].N()
		switch e.Op {
		case "=", "<>", "<", ">", "<=", ">=", "@>", "<@", "&&":
			return pg.Tx("op", e.Op, l, r)
		}
		return pg.Mk(e.Op, l, r)
	case "null":
		if e.Op == "null" {
			return pg.Mk("is", e.X[0].N(), pg.Mk("null"))
		}
		return pg.Mk("isnot", e.X[0].N(), pg.Mk("null"))
	case "in":
		if len(e.X) == 2 && e.X[1].K == "sub" {
			return pg.Mk(strings.Replace(e.Op, "in", "insub", 1), e.X[0].N(), e.X[1].Q.N())
		}
		n := pg.Mk(e.Op, e.X[0].N())
		if len(e.X) == 2 && e.F == 0 && e.X[1].K == "val" && (e.X[1].V.K == "nil" || e.X[1].V.Slice()) {
			for _, v := range e.X[1].V.L {
				n.Add(valN(v))
			}
			return n
		}
		for _, x := range e.X[1:] {
			n.Add(x.N())
		}
		if len(n.K) == 2 && n.K[1].T == "subq" { // a raw "(SELECT ...)" is the list itself
			return pg.Mk(strings.Replace(e.Op, "in", "insub", 1), n.K[0], n.K[1].K[0])
		}
		return n
	case "between":
		return pg.Mk(e.Op, e.X[0].N(), e.X[1].N(), e.X[2].N())
	case "and", "or":
		return pg.Logic(e.K, e.X[0].N(), e.X[1].N())
	}
	panic("plan: no meaning for " + JSON(e))
}

// N is the item's tree.
func (t Target) N() *pg.N {
	switch t.K {
	case "col":
		if len(t.Id.P) == 1 && t.Id.P[0] == "*" {
			return pg.Mk("target", pg.Mk("star"))
		}
		n := pg.Mk("target", t.Id.N("col"))
		if t.Alias != "" {
			n.Add(pg.Tx("alias", string(t.Alias)))
		}
		return n
	case "raw":
		return must(pg.ParseTarget(string(t.S), pg.Mode{}))
	case "count", "max", "min", "sum":
		c := pg.Mk("call", pg.Mk("col", pg.Tx("id", t.K)))
		if t.Distinct {
			c.Add(pg.Mk("distinct"))
		}
		if t.S == "*" {
			c.Add(pg.Mk("star"))
		} else {
			c.Add(must(pg.ParseExpr(string(t.S), pg.Mode{})))
		}
		n := pg.Mk("target", c)
		if t.Alias != "" {
			a := must(pg.ParseExpr(string(t.Alias), pg.Mode{}))
			n.Add(pg.Tx("alias", a.K[0].S))
		}
		return n
	case "exists":
		return pg.Mk("target", pg.Mk("exists", t.Q.N()))
	case "notexists":
		return pg.Mk("target", pg.Mk("not", pg.Mk("exists", t.Q.N())))
	}
	panic("plan: no meaning for target " + t.K)
}

// N is the join condition's tree.
func (o *On) N() *pg.N {
	if o.K == "cond" {
		return o.E.N()
	}
	if o.K == "on" {
		return pg.Tx("op", "=", o.L.N("col"), o.R.N("col"))
	}
	return pg.Logic(o.K, o.X[0].N(), o.X[1].N())
}

func (j *Join) n() *pg.N {
	kind := "inner"
	switch j.Type {
	case "LEFT JOIN", "LEFT OUTER JOIN":
		kind = "left"
	case "RIGHT JOIN", "RIGHT OUTER JOIN":
		kind = "right"
	}
	return pg.Tx("join", kind, j.Table.n(), pg.Mk("on", j.On.N()))
}

// SetModel is the column to value mapping of the pairs, last write wins.
type SetModel struct {
	Names []string
	Cols  map[string]Ident
	Vals  map[string]*Expr
}

// Add records a pair.
func (m *SetModel) Add(p Pair) {
	if m.Cols == nil {
		m.Cols, m.Vals = map[string]Ident{}, map[string]*Expr{}
	}
	n := p.Id.Name()
	if _, ok := m.Cols[n]; !ok {
		m.Names = append(m.Names, n)
		sort.Strings(m.Names)
	}
	m.Cols[n], m.Vals[n] = p.Id, p.E
}

func (m *SetModel) assigns() *pg.N {
	n := pg.Mk("set")
	for _, k := range m.Names {
		n.Add(pg.Mk("assign", m.Cols[k].N("col"), m.Vals[k].N()))
	}
	return n
}

func colsN(t string, ids []Ident) *pg.N {
	n := pg.Mk(t)
	for _, i := range ids {
		n.Add(i.N("col"))
	}
	return n
}

func targetsN(t string, ts []Target) *pg.N {
	n := pg.Mk(t)
	for _, x := range ts {
		n.Add(x.N())
	}
	return n
}

// Num is the number a LIMIT or OFFSET argument denotes.
func (o Op) number() string {
	v := o.Num
	switch v.K {
	case "string":
		i, err := strconv.ParseInt(string(v.S), 10, 64)
		if err != nil {
			panic("plan: bad number " + string(v.S))
		}
		return strconv.FormatInt(i, 10)
	case "uint", "uint8", "uint16", "uint32", "uint64":
		return strconv.FormatUint(v.U, 10)
	}
	return strconv.FormatInt(v.I, 10)
}

// N is the statement's tree.
func (s *Stmt) N() *pg.N {
	var (
		explain, with, where, having, limit, offset, suffix, ret, values, conflict *pg.N
		item, dist, on, targets, group, order, columns, using, from                *pg.N
		joins                                                                      []*pg.N
		set                                                                        SetModel
		setCols                                                                    []Ident
		setUsing                                                                   []*Expr
		only                                                                       bool
	)
	for _, o := range s.Ops {
		switch o.N {
		case "select", "reselect":
			targets = targetsN("targets", o.Targets)
			if len(o.Targets) == 0 {
				targets.Add(pg.Mk("target", pg.Mk("star")))
			}
		case "insert", "update", "delete":
			item = o.Tables[0].n()
		case "distinct":
			dist = pg.Mk("distinct")
		case "distincton":
			on = colsN("distincton", o.Ids)
		case "from":
			from = pg.Mk("from")
			for _, t := range o.Tables {
				from.Add(t.n())
			}
		case "join":
			joins = append(joins, o.Join.n())
		case "with":
			if with == nil {
				with = pg.Mk("with")
			}
			for _, c := range o.CTEs {
				name := must(pg.ParseExpr(string(c.Name), pg.Mode{}))
				with.Add(pg.Tx("cte", name.K[0].S, c.Q.N()))
			}
		case "where", "and":
			if where == nil {
				where = o.E.N()
			} else {
				where = pg.Logic("and", where, o.E.N())
			}
		case "or":
			where = pg.Logic("or", where, o.E.N())
		case "groupby":
			group = colsN("groupby", o.Ids)
		case "having":
			having = pg.Mk("having", o.E.N())
		case "orderby":
			if order == nil && len(o.Orders) > 0 {
				order = pg.Mk("orderby")
			}
			for _, x := range o.Orders {
				dir := x.Dir
				if dir == "" {
					dir = "ASC"
				}
				order.Add(must(pg.ParseSort(string(x.S)+" "+dir, pg.Mode{})))
			}
		case "limit":
			limit = pg.Mk("limit", pg.Tx("num", o.number()))
		case "offset":
			if o.number() != "0" {
				offset = pg.Mk("offset", pg.Tx("num", o.number()))
			}
		case "prefix":
			explain = must(pg.ParsePrefix(string(o.S), pg.Mode{}))
		case "suffix":
			suffix = must(pg.ParseSuffix(string(o.S), pg.Mode{}))
		case "columns":
			columns = colsN("columns", o.Ids)
		case "values":
			values = pg.Mk("values")
			for _, r := range o.Rows {
				row := pg.Mk("row")
				for _, e := range r {
					row.Add(e.N())
				}
				values.Add(row)
			}
		case "set":
			for _, p := range o.Pairs {
				set.Add(p)
			}
		case "setcols":
			setCols = append(setCols, o.Ids...)
		case "using":
			if s.Kind == "delete" {
				using = pg.Mk("using")
				for _, t := range o.Tables {
					using.Add(t.n())
				}
			} else {
				setUsing = append(setUsing, o.Es...)
			}
		case "only":
			only = true
		case "onconflict":
			conflict = pg.Mk("conflict")
			if len(o.Ids) > 0 {
				conflict.Add(colsN("conflicttarget", o.Ids))
			}
			if o.Nothing {
				conflict.Add(pg.Mk("nothing"))
			} else {
				var m SetModel
				for _, p := range o.Pairs {
					m.Add(p)
				}
				conflict.Add(m.assigns())
			}
		case "returning":
			if len(o.Targets) > 0 {
				ret = targetsN("returning", o.Targets)
			}
		case "comment":
		default:
			panic("plan: no meaning for op " + o.N)
		}
	}
	if where != nil {
		where = pg.Mk("where", where)
	}
	n := pg.Mk(s.Kind)
	n.Add(explain, with)
	switch s.Kind {
	case "select":
		if from != nil && len(joins) > 0 {
			last := from.K[len(from.K)-1]
			from.K[len(from.K)-1] = pg.Mk("joined", last).Add(joins...)
		}
		n.Add(on, dist, targets, from, where, group, having, order, limit, offset, suffix)
	case "insert":
		if len(set.Names) > 0 {
			columns, values = pg.Mk("columns"), pg.Mk("values")
			row := pg.Mk("row")
			for _, k := range set.Names {
				columns.Add(set.Cols[k].N("col"))
				row.Add(set.Vals[k].N())
			}
			values.Add(row)
		}
		n.Add(item, columns, values, conflict, ret)
	case "update":
		if only {
			// ONLY precedes the alias in the item node
			it := pg.Mk("item", item.K[0], pg.Mk("only"))
			for _, k := range item.K[1:] {
				if k.T != "only" {
					it.Add(k)
				}
			}
			item = it
		}
		var sn *pg.N
		if setCols != nil {
			m := pg.Mk("multi", colsN("columns", setCols))
			if len(setUsing) == 1 && setUsing[0].K == "sub" {
				m.Add(pg.Mk("subq", setUsing[0].Q.N()))
			} else {
				row := pg.Mk("row")
				for _, e := range setUsing {
					row.Add(e.N())
				}
				m.Add(row)
			}
			sn = pg.Mk("set", m)
		} else {
			sn = set.assigns()
		}
		n.Add(item, sn, from, where, ret)
	case "delete":
		n.Add(item, using, where, ret)
	}
	return n
}

// Comment is the statement's comment, "" if none.
func (s *Stmt) Comment() string {
	c := ""
	for _, o := range s.Ops {
		if o.N == "comment" {
			c = string(o.S)
		}
	}
	return c
}
