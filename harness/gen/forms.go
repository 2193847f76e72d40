package gen

import (
	"math"
	"strconv"
	"strings"

	"verif/harness/plan"
)

// Reform draws another way of making the same statement: each argument may be
// passed in any of the forms documented for it, and calls that add to a clause
// may be joined or split.
func (g *G) Reform(s *plan.Stmt) *plan.Stmt {
	out := s.Clone()
	g.reform(out)
	return out
}

func allClean(ids []plan.Ident) bool {
	for i := range ids {
		if !clean(ids[i].Name()) {
			return false
		}
	}
	return true
}

func (g *G) reident(id *plan.Ident) {
	id.F = Pick(g, []int{1, 1, 3, 3, 5})
	if clean(id.Name()) {
		id.F = g.N(4)
	}
}

func (g *G) reform(s *plan.Stmt) {
	var ops []plan.Op
	for i := range s.Ops {
		o := s.Ops[i]
		g.reformOp(s.Kind, &o)
		ops = append(ops, g.split(s.Kind, o)...)
	}
	s.Ops = g.fuse(ops)
}

func (g *G) reformOp(kind string, o *plan.Op) {
	for i := range o.Ids {
		g.reident(&o.Ids[i])
	}
	switch o.N {
	case "columns", "distincton", "groupby", "setcols":
		o.F = Pick(g, []int{0, 3})
		if allClean(o.Ids) {
			o.F = g.N(6)
		}
		if o.N == "setcols" && o.F > 1 {
			o.F = 0
		}
	case "select", "reselect", "returning":
		g.retargets(o)
	case "set", "onconflict":
		g.repairs(o)
	case "values":
		for _, row := range o.Rows {
			for _, e := range row {
				g.reexpr(e)
			}
		}
		o.F = g.rowForm(o.Rows)
	case "limit", "offset":
		g.renumber(o)
	case "prefix", "suffix":
		o.F = g.N(2)
	case "join":
		o.Join = g.rejoin(o.Join)
	case "from", "delete":
		o.F = g.N(3)
	case "insert":
		o.F = g.N(2)
	}
	for i := range o.Tables {
		if t := &o.Tables[i]; t.Id != nil {
			t.Id.F = Pick(g, []int{0, 1, 3, 5})
			t.OnlyFirst = t.Only && g.Coin()
		}
	}
	if o.E != nil {
		g.reexpr(o.E)
	}
	for _, e := range o.Es {
		g.reexpr(e)
		g.reval(e)
	}
	for i := range o.CTEs {
		o.CTEs[i].F = g.N(3)
		g.reform(o.CTEs[i].Q)
	}
	for i := range o.Orders {
		x := &o.Orders[i]
		if x.Dir == "DESC" {
			x.F = g.N(3)
			continue
		}
		x.Dir, x.F = Pick(g, []string{"", "ASC"}), g.N(3)
	}
}

func (g *G) retargets(o *plan.Op) {
	if len(o.Targets) == 0 {
		return
	}
	cols, aliased, ids := true, false, []plan.Ident{}
	for i := range o.Targets {
		t := &o.Targets[i]
		if t.Id != nil {
			g.reident(t.Id)
			ids = append(ids, *t.Id)
		}
		if t.Q != nil {
			t.F = g.N(3)
			g.reform(t.Q)
		}
		cols = cols && t.K == "col"
		aliased = aliased || t.Alias != ""
	}
	switch {
	case !cols:
		o.F = Pick(g, []int{0, 4})
	case aliased || !allClean(ids):
		o.F = Pick(g, []int{0, 3, 4})
	default:
		o.F = g.N(5)
	}
}

func (g *G) repairs(o *plan.Op) {
	seen := map[string]bool{}
	unique, ok := true, true
	for i := range o.Pairs {
		p := &o.Pairs[i]
		g.reident(&p.Id)
		g.reexpr(p.E)
		g.reval(p.E)
		unique = unique && !seen[p.Id.Name()]
		seen[p.Id.Name()] = true
		ok = ok && clean(p.Id.Name())
	}
	switch {
	case len(o.Pairs) == 0:
	case !unique:
		o.F = 0
	case !ok:
		o.F = Pick(g, []int{0, 1, 3, 4})
	default:
		o.F = g.N(6)
	}
	if o.F == 1 || o.F == 2 || unique && g.Coin() { // the pairs of a map have no order
		ps := make([]plan.Pair, len(o.Pairs))
		for i, j := range g.Perm(len(o.Pairs)) {
			ps[i] = o.Pairs[j]
		}
		o.Pairs = ps
	}
}

// sameElem tells that all values are of one kind that has a typed slice.
func sameElem(es []*plan.Expr, kinds []string) bool {
	if len(es) == 0 {
		return false
	}
	for _, e := range es {
		if e.K != "val" || e.V.K != es[0].V.K {
			return false
		}
	}
	for _, k := range kinds {
		if es[0].V.K == k {
			return true
		}
	}
	return false
}

// objects tells that every element has an expression object.
func objects(es []*plan.Expr) bool {
	for _, e := range es {
		if e.K == "enc" {
			return false
		}
	}
	return true
}

func (g *G) rowForm(rows [][]*plan.Expr) int {
	forms := []int{3}
	same, obj := true, true
	for _, r := range rows {
		same = same && sameElem(r, []string{"string", "int", "int64", "bool"}) && r[0].V.K == rows[0][0].V.K
		obj = obj && objects(r)
	}
	if same {
		forms = append(forms, 4)
	}
	if obj {
		forms = append(forms, 5)
	}
	if len(rows) == 1 {
		r := rows[0]
		forms = append(forms, 1)
		if len(r) > 1 || !(r[0].K == "val" && r[0].V.Slice()) {
			forms = append(forms, 0)
		}
		if sameElem(r, plan.Elem) {
			forms = append(forms, 2)
		}
		if obj {
			forms = append(forms, 6)
		}
	}
	return Pick(g, forms)
}

func (g *G) renumber(o *plan.Op) {
	var n int64
	switch x := o.Num.Go().(type) {
	case string:
		v, err := strconv.ParseInt(x, 10, 64)
		if err != nil {
			return
		}
		n = v
	default:
		if strings.HasPrefix(o.Num.K, "u") {
			n = int64(o.Num.U)
		} else {
			n = o.Num.I
		}
	}
	kinds := []string{"int", "int64", "string", "uint64", "uint"}
	for _, x := range []struct {
		k   string
		max int64
	}{{"int8", math.MaxInt8}, {"uint8", math.MaxUint8}, {"int16", math.MaxInt16}, {"uint16", math.MaxUint16}, {"int32", math.MaxInt32}, {"uint32", math.MaxUint32}} {
		if n <= x.max {
			kinds = append(kinds, x.k)
		}
	}
	v := plan.Val{K: Pick(g, kinds)}
	o.F = 0
	switch {
	case v.K == "string":
		v.S = plan.Str(strconv.FormatInt(n, 10))
	case v.K[0] == 'u':
		v.U = uint64(n)
	default:
		v.I = n
		if v.K == "int64" {
			o.F = g.N(2)
		}
	}
	o.Num = &v
}

func bareName(id *plan.Ident) bool {
	for _, p := range id.P {
		for i := 0; i < len(p); i++ {
			c := p[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= '0' && c <= '9') {
				return false
			}
		}
	}
	return !joinKeywords[strings.ToUpper(id.Name())]
}

// onText writes a join condition as a string, when it can be.
func (g *G) onText(o *plan.On) (string, bool) {
	if o.K == "cond" {
		return "", false
	}
	if o.K == "on" {
		return o.L.Name() + g.opt() + "=" + g.opt() + o.R.Name(), bareName(o.L) && bareName(o.R)
	}
	if o.X[1].K != "on" {
		return "", false
	}
	l, ok := g.onText(o.X[0])
	if !ok {
		return "", false
	}
	r, ok := g.onText(o.X[1])
	return l + g.ws() + g.kw(strings.ToUpper(o.K)) + g.ws() + r, ok
}

func (g *G) rejoin(j *plan.Join) *plan.Join {
	out := &plan.Join{Type: j.Type, Table: j.Table, On: j.On}
	if out.Type == "" {
		out.Type = Pick(g, []string{"", "INNER JOIN"})
	} else if out.Type == "INNER JOIN" && g.Coin() {
		out.Type = ""
	}
	out.Table.Id = &plan.Ident{P: j.Table.Id.P, F: Pick(g, []int{0, 1, 3})}
	forms := []int{0, 3}
	if j.On.K == "cond" {
		c := *j.On
		out.On = &c
		g.reexpr(c.E)
		forms = []int{3}
	}
	text, ok := g.onText(j.On)
	if ok {
		forms = append(forms, 1)
		if j.Table.Alias == "" && !j.Table.Only && bareName(j.Table.Id) && !strings.Contains(j.Type, "OUTER") {
			forms = append(forms, 2, 2)
		}
	}
	out.F = Pick(g, forms)
	switch out.F {
	case 1:
		out.Text = plan.Str(g.condWrap(text))
	case 2:
		s := ""
		for _, w := range strings.Fields(out.Type) {
			s += g.kw(w) + g.ws()
		}
		out.Text = plan.Str(s + j.Table.Id.Name() + g.ws() + g.kw("ON") + g.ws() + text + g.tail())
	}
	return out
}

// reval swaps a plain value and the value object made of it.
func (g *G) reval(e *plan.Expr) {
	switch e.K {
	case "val", "value":
		switch e.V.K {
		case "nil", "string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "time", "bytes":
			e.K = Pick(g, []string{"val", "value"})
		}
	}
}

func (g *G) reexpr(e *plan.Expr) {
	for i, x := range e.X {
		g.reexpr(x)
		if i > 0 && (e.K == "cmp" || e.K == "between") {
			g.reval(x)
		}
	}
	if e.Q != nil {
		e.F = g.N(3)
		g.reform(e.Q)
	}
	switch e.K {
	case "null", "and", "or":
		e.F = g.N(2)
	case "in":
		g.relist(e)
	}
}

// relist picks another form for the list of an IN.
func (g *G) relist(e *plan.Expr) {
	es := e.X[1:]
	if len(es) == 0 || len(es) == 1 && (es[0].K != "val" || es[0].V.Slice() || es[0].V.K == "nil") {
		return // a single slice, NULL or subquery is the list itself
	}
	forms := []int{0, 1}
	obj := objects(es)
	for _, x := range es {
		obj = obj && x.K != "sub"
	}
	if obj {
		forms = append(forms, 3)
	}
	if sameElem(es, plan.Elem) {
		forms = append(forms, 2)
	}
	e.F = Pick(g, forms)
}

// split cuts a call that adds several items to a clause in two.
func (g *G) split(kind string, o plan.Op) []plan.Op {
	if g.Coin() {
		return []plan.Op{o}
	}
	a, b := o, o
	cut := func(n int) int { return g.In(1, n-1) }
	switch {
	case o.N == "orderby" && len(o.Orders) > 1:
		k := cut(len(o.Orders))
		a.Orders, b.Orders = o.Orders[:k:k], o.Orders[k:]
	case o.N == "with" && len(o.CTEs) > 1:
		k := cut(len(o.CTEs))
		a.CTEs, b.CTEs = o.CTEs[:k:k], o.CTEs[k:]
	case o.N == "setcols" && len(o.Ids) > 1:
		k := cut(len(o.Ids))
		a.Ids, b.Ids = o.Ids[:k:k], o.Ids[k:]
	case o.N == "using" && kind == "update" && len(o.Es) > 1:
		k := cut(len(o.Es))
		a.Es, b.Es = o.Es[:k:k], o.Es[k:]
	case o.N == "set" && kind == "update" && len(o.Pairs) > 1:
		k := cut(len(o.Pairs))
		a.Pairs, b.Pairs = o.Pairs[:k:k], o.Pairs[k:]
	default:
		return []plan.Op{o}
	}
	return []plan.Op{a, b}
}

// fuse joins neighbouring calls that add to the same clause, and swaps the two
// ways of adding a condition with AND.
func (g *G) fuse(ops []plan.Op) []plan.Op {
	var out []plan.Op
	first := true
	for _, o := range ops {
		if o.N == "where" || o.N == "and" {
			if !first {
				o.N = Pick(g, []string{"where", "and"})
			}
			first = false
		}
		if n := len(out); n > 0 && out[n-1].N == o.N && g.Coin() {
			p := &out[n-1]
			switch o.N {
			case "orderby":
				p.Orders = append(p.Orders, o.Orders...)
				continue
			case "with":
				p.CTEs = append(p.CTEs, o.CTEs...)
				continue
			}
		}
		out = append(out, o)
	}
	return out
}
