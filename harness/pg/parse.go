package pg

import (
	"fmt"
	"strings"
)

// reserved lists PostgreSQL's reserved key words (appendix C) that cannot be
// used as a bare column or table name.
var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`all analyse analyze and any array as asc asymmetric authorization
		between both case cast check collate collation column concurrently constraint create cross
		current_catalog current_date current_role current_schema current_time current_timestamp current_user default
		deferrable desc distinct do else end except false fetch for foreign freeze from full grant group having
		ilike in initially inner intersect into is isnull join lateral leading left like limit localtime
		localtimestamp natural not notnull null offset on only or order outer overlaps placing primary
		references returning right select session_user similar some symmetric table tablesample then to
		trailing true union unique user using variadic verbose when where window with`) {
		reserved[w] = true
	}
}

// Reserved reports whether the word cannot be a bare identifier.
func Reserved(w string) bool { return reserved[w] }

type parser struct {
	lx   *Lexed
	pos  int
	mode Mode
	deep int
}

type parseError struct{ msg string }

func (p *parser) fail(format string, args ...interface{}) {
	panic(parseError{fmt.Sprintf(format, args...) + fmt.Sprintf(" (at offset %d)", p.cur().Start)})
}

func (p *parser) cur() Tok { return p.lx.Toks[p.pos] }

func (p *parser) at(i int) Tok {
	if p.pos+i >= len(p.lx.Toks) {
		return p.lx.Toks[len(p.lx.Toks)-1]
	}
	return p.lx.Toks[p.pos+i]
}

func (p *parser) next() Tok {
	t := p.cur()
	if t.K != EOF {
		p.pos++
	}
	return t
}

func (p *parser) isKw(words ...string) bool {
	for i, w := range words {
		t := p.at(i)
		if t.K != Ident || t.S != w {
			return false
		}
	}
	return true
}

func (p *parser) kw(words ...string) bool {
	if p.isKw(words...) {
		p.pos += len(words)
		return true
	}
	return false
}

func (p *parser) needKw(words ...string) {
	if !p.kw(words...) {
		p.fail("expected %s, found %s %q", strings.ToUpper(strings.Join(words, " ")), p.cur().K, p.cur().S)
	}
}

func (p *parser) isP(s string) bool { t := p.cur(); return t.K == Punct && t.S == s }

func (p *parser) punct(s string) bool {
	if p.isP(s) {
		p.pos++
		return true
	}
	return false
}

func (p *parser) needP(s string) {
	if !p.punct(s) {
		p.fail("expected %q, found %s %q", s, p.cur().K, p.cur().S)
	}
}

// Parsed is a parsed statement.
type Parsed struct {
	*Lexed
	Tree *N
}

func run(src string, mode Mode, f func(p *parser) *N) (out *Parsed, err error) {
	lx, err := Lex(src, mode)
	if err != nil {
		return nil, err
	}
	p := &parser{lx: lx, mode: mode}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseError); ok {
				out, err = nil, fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	tree := f(p)
	if p.cur().K != EOF {
		p.fail("unexpected %s %q after the end", p.cur().K, p.cur().S)
	}
	return &Parsed{lx, tree}, nil
}

// ParseStatement parses exactly one statement, optionally ended by a semicolon.
func ParseStatement(src string, mode Mode) (*Parsed, error) {
	return run(src, mode, func(p *parser) *N {
		n := p.statement()
		p.punct(";")
		return n
	})
}

// ParseExpr parses exactly one expression.
func ParseExpr(src string, mode Mode) (*Parsed, error) {
	return run(src, mode, func(p *parser) *N { return p.expr() })
}

// ParseTarget parses exactly one select-list item.
func ParseTarget(src string, mode Mode) (*Parsed, error) {
	return run(src, mode, func(p *parser) *N { return p.target() })
}

// ParseFromItem parses exactly one FROM item.
func ParseFromItem(src string, mode Mode) (*Parsed, error) {
	return run(src, mode, func(p *parser) *N { return p.fromPrimary() })
}

// ParseSort parses exactly one ORDER BY item.
func ParseSort(src string, mode Mode) (*Parsed, error) {
	return run(src, mode, func(p *parser) *N { return p.sortItem() })
}

// ParseSuffix parses a trailing clause.
func ParseSuffix(src string, mode Mode) (*Parsed, error) {
	return run(src, mode, func(p *parser) *N {
		n := Mk("suffix")
		for p.suffix(n) {
		}
		return n
	})
}

// ParsePrefix parses a leading clause.
func ParsePrefix(src string, mode Mode) (*Parsed, error) {
	return run(src, mode, func(p *parser) *N { return p.prefix() })
}

func (p *parser) prefix() *N {
	if !p.kw("explain") {
		return nil
	}
	n := Mk("explain")
	if p.punct("(") {
		for {
			t := p.next()
			if t.K != Ident {
				p.fail("expected an EXPLAIN option")
			}
			o := Tx("option", t.S)
			if v := p.cur(); v.K == Ident || v.K == Num {
				o.Add(Tx("arg", v.S))
				p.next()
			}
			n.Add(o)
			if !p.punct(",") {
				break
			}
		}
		p.needP(")")
		return n
	}
	if p.kw("analyze") {
		n.Add(Tx("option", "analyze"))
	}
	if p.kw("verbose") {
		n.Add(Tx("option", "verbose"))
	}
	return n
}

func (p *parser) statement() *N {
	pre := p.prefix()
	n := p.bare()
	if pre != nil {
		n.K = append([]*N{pre}, n.K...)
	}
	return n
}

func (p *parser) bare() *N {
	with := p.with()
	var n *N
	switch {
	case p.isKw("select"):
		n = p.sel()
	case p.isKw("insert"):
		n = p.insert()
	case p.isKw("update"):
		n = p.update()
	case p.isKw("delete"):
		n = p.del()
	default:
		p.fail("expected a statement, found %s %q", p.cur().K, p.cur().S)
	}
	if with != nil {
		n.K = append([]*N{with}, n.K...)
	}
	return n
}

func (p *parser) with() *N {
	if !p.kw("with") {
		return nil
	}
	n := Mk("with")
	for {
		name := p.name()
		p.needKw("as")
		p.needP("(")
		n.Add(Tx("cte", name, p.bare()))
		p.needP(")")
		if !p.punct(",") {
			return n
		}
	}
}

func (p *parser) name() string {
	t := p.next()
	if t.K == QIdent || t.K == Ident && !reserved[t.S] {
		return t.S
	}
	p.pos--
	p.fail("expected a name, found %s %q", t.K, t.S)
	return ""
}

// dotted parses a possibly qualified name into a node of the given type.
func (p *parser) dotted(t string) *N {
	n := Mk(t, Tx("id", p.name()))
	for p.isP(".") {
		p.next()
		if t == "col" && p.cur().K == Op && p.cur().S == "*" {
			p.next()
			n.Add(Mk("star"))
			return n
		}
		tk := p.next() // after a dot any word may follow
		if tk.K != QIdent && tk.K != Ident {
			p.fail("expected a name after the dot, found %s %q", tk.K, tk.S)
		}
		n.Add(Tx("id", tk.S))
	}
	return n
}

func (p *parser) sel() *N {
	p.needKw("select")
	n := Mk("select")
	if p.kw("distinct") {
		if p.kw("on") {
			p.needP("(")
			on := Mk("distincton")
			for {
				on.Add(p.expr())
				if !p.punct(",") {
					break
				}
			}
			p.needP(")")
			n.Add(on)
		} else {
			n.Add(Mk("distinct"))
		}
	} else {
		p.kw("all")
	}
	targets := Mk("targets")
	for {
		targets.Add(p.target())
		if !p.punct(",") {
			break
		}
	}
	n.Add(targets)
	if p.kw("from") {
		n.Add(p.fromList())
	}
	if p.kw("where") {
		n.Add(Mk("where", p.expr()))
	}
	if p.kw("group", "by") {
		g := Mk("groupby")
		for {
			g.Add(p.expr())
			if !p.punct(",") {
				break
			}
		}
		n.Add(g)
	}
	if p.kw("having") {
		n.Add(Mk("having", p.expr()))
	}
	if p.kw("order", "by") {
		o := Mk("orderby")
		for {
			o.Add(p.sortItem())
			if !p.punct(",") {
				break
			}
		}
		n.Add(o)
	}
	// LIMIT and OFFSET may come in either order.
	var limit, offset *N
	for {
		if limit == nil && p.kw("limit") {
			limit = Mk("limit", p.expr())
			continue
		}
		if offset == nil && p.kw("offset") {
			offset = Mk("offset", p.expr())
			if !p.kw("rows") {
				p.kw("row")
			}
			continue
		}
		break
	}
	n.Add(limit, offset)
	suffix := Mk("suffix")
	for p.suffix(suffix) {
	}
	if len(suffix.K) > 0 {
		n.Add(suffix)
	}
	return n
}

func (p *parser) suffix(n *N) bool {
	if p.kw("fetch") {
		f := Mk("fetch")
		if !p.kw("first") && !p.kw("next") {
			p.fail("expected FIRST or NEXT")
		}
		if p.cur().K == Num {
			f.Add(Tx("num", p.next().S))
		}
		if !p.kw("rows") && !p.kw("row") {
			p.fail("expected ROWS")
		}
		if p.kw("with", "ties") {
			f.Add(Mk("ties"))
		} else {
			p.needKw("only")
		}
		n.Add(f)
		return true
	}
	if !p.isKw("for") {
		return false
	}
	p.next()
	lock := Mk("lock")
	switch {
	case p.kw("update"):
		lock.S = "update"
	case p.kw("no", "key", "update"):
		lock.S = "no key update"
	case p.kw("share"):
		lock.S = "share"
	case p.kw("key", "share"):
		lock.S = "key share"
	default:
		p.fail("expected a lock strength")
	}
	if p.kw("of") {
		of := Mk("of")
		for {
			of.Add(p.dotted("tbl"))
			if !p.punct(",") {
				break
			}
		}
		lock.Add(of)
	}
	if p.kw("nowait") {
		lock.Add(Mk("nowait"))
	} else if p.kw("skip", "locked") {
		lock.Add(Mk("skiplocked"))
	}
	n.Add(lock)
	return true
}

func (p *parser) sortItem() *N {
	n := Mk("sort", p.expr())
	switch {
	case p.kw("asc"):
		n.Add(Tx("dir", "asc"))
	case p.kw("desc"):
		n.Add(Tx("dir", "desc"))
	}
	switch {
	case p.kw("nulls", "first"):
		n.Add(Tx("nulls", "first"))
	case p.kw("nulls", "last"):
		n.Add(Tx("nulls", "last"))
	}
	return n
}

func (p *parser) target() *N {
	var e *N
	if t := p.cur(); t.K == Op && t.S == "*" {
		p.next()
		return Mk("target", Mk("star"))
	}
	e = p.expr()
	n := Mk("target", e)
	if p.kw("as") {
		n.Add(p.alias())
	}
	return n
}

// alias parses what follows AS. A dotted alias is not SQL.
func (p *parser) alias() *N {
	t := p.next()
	if t.K != QIdent && t.K != Ident {
		p.pos--
		p.fail("expected an alias, found %s %q", t.K, t.S)
	}
	return Tx("alias", t.S)
}

func (p *parser) fromList() *N {
	n := Mk("from")
	for {
		n.Add(p.fromItem())
		if !p.punct(",") {
			return n
		}
	}
}

func (p *parser) fromItem() *N {
	base := p.fromPrimary()
	var joins []*N
	for {
		kind := ""
		switch {
		case p.isKw("join"):
			kind = "inner"
		case p.kw("inner"):
			kind = "inner"
		case p.kw("left"):
			p.kw("outer")
			kind = "left"
		case p.kw("right"):
			p.kw("outer")
			kind = "right"
		case p.kw("full"):
			p.kw("outer")
			kind = "full"
		}
		if kind == "" {
			break
		}
		p.needKw("join")
		t := p.fromPrimary()
		p.needKw("on")
		joins = append(joins, Tx("join", kind, t, Mk("on", p.expr())))
	}
	if joins == nil {
		return base
	}
	return Mk("joined", base).Add(joins...)
}

func (p *parser) fromPrimary() *N {
	if p.isP("(") {
		p.next()
		sub := p.bare()
		p.needP(")")
		n := Mk("fromsub", sub)
		if p.kw("as") {
			n.Add(p.alias())
		}
		return n
	}
	only := p.kw("only")
	var n *N
	if (p.cur().K == Ident || p.cur().K == QIdent) && p.at(1).K == Punct && p.at(1).S == "(" && !only {
		n = Mk("fromfunc", p.primary())
	} else {
		n = p.dotted("tbl")
		if p.punct("*") {
			p.fail("unsupported")
		}
	}
	item := Mk("item", n)
	if only {
		item.Add(Mk("only"))
	}
	if p.kw("as") {
		item.Add(Tx("alias", p.name()))
	}
	return item
}

func (p *parser) colList(t string) *N {
	n := Mk(t)
	p.needP("(")
	for {
		n.Add(p.dotted("col"))
		if !p.punct(",") {
			break
		}
	}
	p.needP(")")
	return n
}

func (p *parser) insert() *N {
	p.needKw("insert", "into")
	item := Mk("item", p.dotted("tbl"))
	if p.kw("as") {
		item.Add(Tx("alias", p.name()))
	}
	n := Mk("insert", item)
	if p.isP("(") {
		n.Add(p.colList("columns"))
	}
	if p.kw("values") {
		v := Mk("values")
		for {
			row := Mk("row")
			p.needP("(")
			for {
				row.Add(p.expr())
				if !p.punct(",") {
					break
				}
			}
			p.needP(")")
			v.Add(row)
			if !p.punct(",") {
				break
			}
		}
		n.Add(v)
	}
	if p.kw("on", "conflict") {
		c := Mk("conflict")
		if p.isP("(") {
			c.Add(p.colList("conflicttarget"))
		}
		p.needKw("do")
		if p.kw("nothing") {
			c.Add(Mk("nothing"))
		} else {
			p.needKw("update")
			c.Add(p.set())
		}
		n.Add(c)
	}
	n.Add(p.returning())
	return n
}

func (p *parser) set() *N {
	p.needKw("set")
	n := Mk("set")
	for {
		if p.isP("(") {
			cols := p.colList("columns")
			p.needOp("=")
			made := p.kw("row")
			p.needP("(")
			m := Mk("multi", cols)
			if !made && p.startsQuery() {
				m.Add(Mk("subq", p.bare()))
			} else {
				row := Mk("row")
				for {
					row.Add(p.expr())
					if !p.punct(",") {
						break
					}
				}
				m.Add(row)
			}
			p.needP(")")
			n.Add(m)
		} else {
			c := p.dotted("col")
			p.needOp("=")
			n.Add(Mk("assign", c, p.expr()))
		}
		if !p.punct(",") {
			return n
		}
	}
}

func (p *parser) needOp(s string) {
	if t := p.cur(); t.K == Op && t.S == s {
		p.pos++
		return
	}
	p.fail("expected %q, found %s %q", s, p.cur().K, p.cur().S)
}

func (p *parser) update() *N {
	p.needKw("update")
	only := p.kw("only")
	item := Mk("item", p.dotted("tbl"))
	if only {
		item.Add(Mk("only"))
	}
	if p.kw("as") {
		item.Add(Tx("alias", p.name()))
	}
	n := Mk("update", item, p.set())
	if p.kw("from") {
		n.Add(p.fromList())
	}
	if p.kw("where") {
		n.Add(Mk("where", p.expr()))
	}
	n.Add(p.returning())
	return n
}

func (p *parser) del() *N {
	p.needKw("delete", "from")
	only := p.kw("only")
	item := Mk("item", p.dotted("tbl"))
	if only {
		item.Add(Mk("only"))
	}
	if p.kw("as") {
		item.Add(Tx("alias", p.name()))
	}
	n := Mk("delete", item)
	if p.kw("using") {
		u := p.fromList()
		u.T = "using"
		n.Add(u)
	}
	if p.kw("where") {
		n.Add(Mk("where", p.expr()))
	}
	n.Add(p.returning())
	return n
}

func (p *parser) returning() *N {
	if !p.kw("returning") {
		return nil
	}
	n := Mk("returning")
	for {
		n.Add(p.target())
		if !p.punct(",") {
			return n
		}
	}
}

func (p *parser) startsQuery() bool { return p.isKw("select") || p.isKw("with") }

// Expressions, by PostgreSQL's operator precedence (section 4.1.6).

func (p *parser) expr() *N {
	p.deep++
	if p.deep > 2000 {
		p.fail("too deep")
	}
	defer func() { p.deep-- }()
	return p.or()
}

func (p *parser) or() *N {
	l := p.and()
	for p.kw("or") {
		l = Logic("or", l, p.and())
	}
	return l
}

func (p *parser) and() *N {
	l := p.not()
	for p.kw("and") {
		l = Logic("and", l, p.not())
	}
	return l
}

func (p *parser) not() *N {
	if p.isKw("not") && !(p.at(1).K == Ident && p.at(1).S == "exists") {
		p.next()
		return Mk("not", p.not())
	}
	if p.kw("not") {
		return Mk("not", p.is())
	}
	return p.is()
}

func (p *parser) is() *N {
	l := p.cmp()
	for p.kw("is") {
		not := p.kw("not")
		var n *N
		if p.kw("distinct", "from") {
			n = Mk("isdistinct", l, p.cmp())
			if not {
				n.T = "isnotdistinct"
			}
		} else {
			n = Mk("is", l, p.other())
			if not {
				n.T = "isnot"
			}
		}
		l = n
	}
	return l
}

func (p *parser) cmp() *N {
	l := p.between()
	if t := p.cur(); t.K == Op {
		switch t.S {
		case "=", "<", ">", "<=", ">=", "<>":
			p.next()
			n := Tx("op", t.S, l, p.between())
			if u := p.cur(); u.K == Op {
				switch u.S {
				case "=", "<", ">", "<=", ">=", "<>":
					p.fail("comparison operators are non-associative")
				}
			}
			return n
		}
	}
	return l
}

func (p *parser) between() *N {
	l := p.other()
	not := false
	if p.isKw("not") && (p.at(1).K == Ident) {
		switch p.at(1).S {
		case "between", "in", "like", "ilike":
			p.next()
			not = true
		}
	}
	pre := ""
	if not {
		pre = "not"
	}
	switch {
	case p.kw("between"):
		lo := p.other()
		p.needKw("and")
		hi := p.other()
		return Mk(pre+"between", l, lo, hi)
	case p.kw("in"):
		p.needP("(")
		if p.startsQuery() {
			n := Mk(pre+"insub", l, p.bare())
			p.needP(")")
			return n
		}
		n := Mk(pre+"in", l)
		if p.punct(")") { // loukoum documents IN () for an empty list
			return n
		}
		for {
			n.Add(p.expr())
			if !p.punct(",") {
				break
			}
		}
		p.needP(")")
		if len(n.K) == 2 && n.K[1].T == "subq" {
			return Mk(pre+"insub", l, n.K[1].K[0])
		}
		return n
	case p.kw("like"):
		return Mk(pre+"like", l, p.other())
	case p.kw("ilike"):
		return Mk(pre+"ilike", l, p.other())
	}
	return l
}

func (p *parser) other() *N {
	l := p.add()
	for {
		t := p.cur()
		if t.K != Op {
			return l
		}
		switch t.S {
		case "=", "<", ">", "<=", ">=", "<>", "+", "-", "*", "/", "%", "^":
			return l
		}
		p.next()
		l = Tx("op", t.S, l, p.add())
	}
}

func (p *parser) add() *N {
	l := p.mul()
	for {
		t := p.cur()
		if t.K != Op || t.S != "+" && t.S != "-" {
			return l
		}
		p.next()
		l = Tx("op", t.S, l, p.mul())
	}
}

func (p *parser) mul() *N {
	l := p.pow()
	for {
		t := p.cur()
		if t.K != Op || t.S != "*" && t.S != "/" && t.S != "%" {
			return l
		}
		p.next()
		l = Tx("op", t.S, l, p.pow())
	}
}

func (p *parser) pow() *N {
	l := p.unary()
	for {
		t := p.cur()
		if t.K != Op || t.S != "^" {
			return l
		}
		p.next()
		l = Tx("op", t.S, l, p.unary())
	}
}

func (p *parser) unary() *N {
	if t := p.cur(); t.K == Op && (t.S == "-" || t.S == "+") {
		p.next()
		return Tx("unary", t.S, p.unary())
	}
	return p.postfix()
}

func (p *parser) postfix() *N {
	e := p.primary()
	for {
		switch {
		case p.punct("::"):
			t := p.name()
			if p.punct("[") {
				p.needP("]")
				t += "[]"
			}
			e = Tx("cast", t, e)
		case p.punct("["):
			e = Mk("index", e, p.expr())
			p.needP("]")
		default:
			return e
		}
	}
}

func (p *parser) primary() *N {
	t := p.cur()
	switch t.K {
	case Num:
		p.next()
		return Tx("num", t.S)
	case Str:
		p.next()
		return Tx("str", t.S)
	case Param:
		p.next()
		return Tx("param", t.S)
	case Named:
		p.next()
		return Tx("param", t.S)
	case QIdent:
		return p.colOrCall()
	case Punct:
		if t.S == "(" {
			p.next()
			if p.startsQuery() {
				n := Mk("subq", p.bare())
				p.needP(")")
				return n
			}
			e := p.expr()
			if p.isP(",") {
				row := Mk("tuple", e)
				for p.punct(",") {
					row.Add(p.expr())
				}
				p.needP(")")
				return row
			}
			p.needP(")")
			return e
		}
	case Ident:
		switch t.S {
		case "null", "true", "false", "current_date", "current_timestamp", "current_time", "localtime",
			"localtimestamp", "current_user", "session_user", "user", "default":
			p.next()
			return Mk(t.S)
		case "exists":
			if u := p.at(1); u.K == Punct && u.S == "(" {
				p.next()
				p.next()
				n := Mk("exists", p.bare())
				p.needP(")")
				return n
			}
		case "case":
			return p.caseExpr()
		case "array":
			if u := p.at(1); u.K == Punct && u.S == "[" {
				p.next()
				p.next()
				n := Mk("array")
				if !p.punct("]") {
					for {
						n.Add(p.expr())
						if !p.punct(",") {
							break
						}
					}
					p.needP("]")
				}
				return n
			}
			if u := p.at(1); u.K == Punct && u.S == "(" {
				p.next()
				p.next()
				n := Mk("arraysub", p.bare())
				p.needP(")")
				return n
			}
		case "interval":
			if p.at(1).K == Str {
				p.next()
				return Tx("interval", p.next().S)
			}
		case "cast":
			p.next()
			p.needP("(")
			e := p.expr()
			p.needKw("as")
			n := Tx("cast", p.name(), e)
			p.needP(")")
			return n
		case "any", "all", "some":
			if u := p.at(1); u.K == Punct && u.S == "(" {
				p.next()
				p.next()
				n := Tx("quantified", t.S)
				if p.startsQuery() {
					n.Add(Mk("subq", p.bare()))
				} else {
					n.Add(p.expr())
				}
				p.needP(")")
				return n
			}
		}
		if !reserved[t.S] {
			return p.colOrCall()
		}
	}
	p.fail("unexpected %s %q in an expression", t.K, t.S)
	return nil
}

func (p *parser) caseExpr() *N {
	p.needKw("case")
	n := Mk("case")
	if !p.isKw("when") {
		n.Add(Mk("subject", p.expr()))
	}
	for p.kw("when") {
		c := p.expr()
		p.needKw("then")
		n.Add(Mk("when", c, p.expr()))
	}
	if len(n.K) == 0 {
		p.fail("expected WHEN")
	}
	if p.kw("else") {
		n.Add(Mk("else", p.expr()))
	}
	p.needKw("end")
	return n
}

func (p *parser) colOrCall() *N {
	c := p.dotted("col")
	if !p.isP("(") {
		return c
	}
	if c.K[len(c.K)-1].T == "star" {
		p.fail("unexpected (")
	}
	p.next()
	n := Mk("call", c)
	if p.punct(")") {
		return n
	}
	if p.kw("distinct") {
		n.Add(Mk("distinct"))
	}
	if t := p.cur(); t.K == Op && t.S == "*" {
		p.next()
		n.Add(Mk("star"))
	} else {
		for {
			n.Add(p.expr())
			if !p.punct(",") {
				break
			}
		}
	}
	p.needP(")")
	return n
}
