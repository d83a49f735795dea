// Package minisql evaluates the kind of SELECT statements that list relations from the PostgreSQL catalog.
package minisql

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// Unsupported is the error for statements outside the subset.
type Unsupported struct{ What string }

func (u *Unsupported) Error() string { return "unsupported SQL: " + u.What }

// Type OIDs.
const (
	Bool = 16
	Char = 18
	Name = 19
	Int8 = 20
	Int4 = 23
	Text = 25
	OID  = 26
)

// Value of an expression: nil (NULL), bool, int64, string or []Value.
type Value interface{}

// Column of a table.
type Column struct {
	Name string
	Type int
}

// Table of the catalog.
type Table struct {
	Cols []Column
	Rows [][]Value
}

// Result of a statement.
type Result struct {
	Cols []Column
	Rows [][]Value
	// Tag is set for statements that are no queries (BEGIN, COMMIT, SET...).
	Tag string
}

// DB is the catalog.
type DB struct {
	Name string
	// Tables by name: those of pg_catalog without, others with the schema
	Tables map[string]*Table
}

type token struct {
	kind string // id, qid, num, str, op, param, end
	s    string
}

func lex(q string) (ts []token, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = r.(error)
		}
	}()
	i := 0
	bad := func(what string) { panic(&Unsupported{what}) }
	isID := func(c byte, first bool) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 || !first && (c >= '0' && c <= '9' || c == '$')
	}
	for i < len(q) {
		c := q[i]
		switch {
		case strings.IndexByte(" \t\r\n\f", c) >= 0:
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case strings.HasPrefix(q[i:], "/*"):
			j := strings.Index(q[i:], "*/")
			if j < 0 {
				bad("comment")
			}
			i += j + 2
		case c == '\'' || (c == 'E' || c == 'e') && i+1 < len(q) && q[i+1] == '\'':
			esc := c != '\''
			if esc {
				i++
			}
			i++
			var b strings.Builder
			for {
				if i >= len(q) {
					bad("unterminated string")
				}
				if q[i] == '\'' {
					if i+1 < len(q) && q[i+1] == '\'' {
						b.WriteByte('\'')
						i += 2
						continue
					}
					i++
					break
				}
				if esc && q[i] == '\\' && i+1 < len(q) {
					switch q[i+1] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case '\\', '\'', '_', '%', '"':
						b.WriteByte(q[i+1])
					default:
						bad("escape")
					}
					i += 2
					continue
				}
				b.WriteByte(q[i])
				i++
			}
			ts = append(ts, token{"str", b.String()})
		case c == '"':
			i++
			var b strings.Builder
			for {
				if i >= len(q) {
					bad("unterminated identifier")
				}
				if q[i] == '"' {
					if i+1 < len(q) && q[i+1] == '"' {
						b.WriteByte('"')
						i += 2
						continue
					}
					i++
					break
				}
				b.WriteByte(q[i])
				i++
			}
			ts = append(ts, token{"qid", b.String()})
		case isID(c, true):
			j := i
			for i < len(q) && isID(q[i], false) {
				i++
			}
			ts = append(ts, token{"id", strings.ToLower(q[j:i])})
		case c >= '0' && c <= '9':
			j := i
			for i < len(q) && q[i] >= '0' && q[i] <= '9' {
				i++
			}
			ts = append(ts, token{"num", q[j:i]})
		case c == '$' && i+1 < len(q) && q[i+1] >= '1' && q[i+1] <= '9':
			j := i + 1
			for i++; i < len(q) && q[i] >= '0' && q[i] <= '9'; i++ {
			}
			ts = append(ts, token{"param", q[j:i]})
		default:
			found := false
			for _, op := range []string{"!~~*", "!~*", "!~~", "~~*", "::", "<>", "!=", "<=", ">=", "||", "!~", "~*", "~~", "^@", "=", "<", ">", "~", "(", ")", ",", ".", ";", "[", "]", "*", "+", "-"} {
				if strings.HasPrefix(q[i:], op) {
					ts = append(ts, token{"op", op})
					i += len(op)
					found = true
					break
				}
			}
			if !found {
				bad("character " + string(c))
			}
		}
	}
	return append(ts, token{"end", ""}), nil
}

type from struct {
	alias string
	table *Table
	on    []expr // of an outer join
	left  bool
}

type parser struct {
	db     *DB
	ts     []token
	i      int
	params []string
	from   []from // those of the enclosing queries come first
	base   int    // where those of this query begin
	ctes   map[string]*Table
}

// an expression is evaluated against one row of each table in from.
type expr struct {
	typ  int
	eval func(rows [][]Value) Value
}

func (p *parser) peek() token { return p.ts[p.i] }
func (p *parser) next() token { t := p.ts[p.i]; p.i++; return t }
func (p *parser) is(kind, s string) bool {
	t := p.peek()
	return t.kind == kind && t.s == s
}
func (p *parser) kw(words ...string) bool {
	for j, w := range words {
		if p.i+j >= len(p.ts) || p.ts[p.i+j] != (token{"id", w}) {
			return false
		}
	}
	p.i += len(words)
	return true
}
func (p *parser) op(s string) bool {
	if p.is("op", s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) fail(what string) {
	panic(&Unsupported{fmt.Sprintf("%s at %q", what, p.peek().s)})
}
func (p *parser) need(s string) {
	if !p.op(s) {
		p.fail("expected " + s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.kind != "id" && t.kind != "qid" {
		p.i--
		p.fail("expected a name")
	}
	return t.s
}

// Run evaluates a statement; params are the text parameters $1...
func (db *DB) Run(q string, params []string) (res *Result, err error) {
	ts, err := lex(q)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(*Unsupported)
			if !ok {
				panic(r)
			}
			res, err = nil, u
		}
	}()
	p := &parser{db: db, ts: ts, params: params, ctes: map[string]*Table{}}
	if p.is("op", ";") || p.is("end", "") {
		return nil, nil
	}
	if tag := p.command(); tag != "" {
		return &Result{Tag: tag}, nil
	}
	if p.kw("with") {
		for {
			name := p.ident()
			var cols []string
			if p.op("(") {
				for !p.op(")") {
					cols = append(cols, p.ident())
					p.op(",")
				}
			}
			if !p.kw("as") {
				p.fail("with")
			}
			if !p.kw("materialized") {
				p.kw("not", "materialized")
			}
			p.need("(")
			p.ctes[name] = p.subquery().table(cols)
			p.need(")")
			if !p.op(",") {
				break
			}
		}
	}
	q1 := p.query()
	p.op(";")
	if p.peek().kind != "end" {
		p.fail("unexpected")
	}
	return q1.run(nil), nil
}

// command recognises statements around queries.
func (p *parser) command() string {
	tag := ""
	switch {
	case p.kw("begin"), p.kw("start", "transaction"):
		tag = "BEGIN"
	case p.kw("commit"), p.kw("end"):
		tag = "COMMIT"
	case p.kw("rollback"):
		tag = "ROLLBACK"
	case p.kw("set"):
		// What could change the meaning of later queries is not supported.
		if p.is("id", "search_path") || p.is("id", "role") || p.is("id", "standard_conforming_strings") {
			p.fail("set")
		}
		tag = "SET"
	default:
		return ""
	}
	for p.peek().kind != "end" && !p.is("op", ";") {
		p.next()
	}
	p.op(";")
	if p.peek().kind != "end" {
		p.fail("several statements")
	}
	return tag
}

// query is a parsed SELECT; run evaluates it given the current rows of the enclosing queries.
type query struct {
	cols []Column
	run  func(outer [][]Value) *Result
}

func (q *query) table(names []string) *Table {
	t := &Table{Cols: append([]Column(nil), q.cols...), Rows: q.run(nil).Rows}
	for i, n := range names {
		if i < len(t.Cols) {
			t.Cols[i].Name = n
		}
	}
	return t
}

// subquery parses a query that cannot see the tables of the enclosing one.
func (p *parser) subquery() *query {
	from, base := p.from, p.base
	p.from, p.base = nil, 0
	q := p.query()
	p.from, p.base = from, base
	return q
}

// nested parses a query that can.
func (p *parser) nested() *query {
	from, base := p.from, p.base
	p.from, p.base = from[:len(from):len(from)], len(from)
	q := p.query()
	p.from, p.base = from, base
	return q
}

// Supported tells whether the statement can be evaluated (with n text parameters).
func (db *DB) Supported(q string, n int) error {
	_, err := db.Run(q, make([]string, n))
	return err
}

// query parses a SELECT with what is combined with it.
func (p *parser) query() *query {
	inner := p.from
	base := p.base
	q := p.selectTerm()
	for {
		kind := ""
		for _, k := range []string{"union", "except", "intersect"} {
			if p.kw(k) {
				kind = k
				break
			}
		}
		if kind == "" {
			break
		}
		all := p.kw("all")
		if all && kind != "union" {
			p.fail("all")
		}
		p.from, p.base = inner, base
		a, b := q, p.selectTerm()
		if len(a.cols) != len(b.cols) {
			p.fail("columns")
		}
		q = &query{a.cols, func(outer [][]Value) *Result {
			x, y := a.run(outer), b.run(outer)
			if all {
				return &Result{Cols: x.Cols, Rows: append(append([][]Value(nil), x.Rows...), y.Rows...)}
			}
			in := map[string]bool{}
			for _, r := range y.Rows {
				in[fmt.Sprintf("%q", r)] = true
			}
			rows := x.Rows
			if kind == "union" {
				rows = append(append([][]Value(nil), rows...), y.Rows...)
			}
			seen := map[string]bool{}
			res := &Result{Cols: x.Cols}
			for _, r := range rows {
				k := fmt.Sprintf("%q", r)
				if seen[k] || kind == "except" && in[k] || kind == "intersect" && !in[k] {
					continue
				}
				seen[k] = true
				res.Rows = append(res.Rows, r)
			}
			return res
		}}
	}
	return p.tail(q)
}

func (p *parser) selectTerm() *query {
	if p.op("(") {
		q := p.query()
		p.need(")")
		return q
	}
	return p.simple()
}

// tail parses ORDER BY, LIMIT and so on. The order itself is of no consequence to those who ask here.
func (p *parser) tail(q *query) *query {
	limit, offset := -1, 0
	if p.kw("order", "by") {
		for {
			if n := p.ts[p.i+1]; (p.peek().kind == "id" || p.peek().kind == "qid") && (n.kind == "end" || n.kind == "id" || n.kind == "op" && strings.Contains(" , ; ) ", " "+n.s+" ")) {
				known := false
				for _, c := range q.cols {
					known = known || c.Name == p.peek().s
				}
				if known {
					p.next()
				} else {
					p.expr()
				}
			} else {
				p.expr()
			}
			if p.kw("collate") {
				p.next()
			}
			if !p.kw("asc") {
				p.kw("desc")
			}
			if !p.kw("nulls", "first") {
				p.kw("nulls", "last")
			}
			if !p.op(",") {
				break
			}
		}
	}
	for {
		switch {
		case p.kw("limit"):
			if !p.kw("all") {
				limit, _ = strconv.Atoi(p.number())
			}
			continue
		case p.kw("offset"):
			offset, _ = strconv.Atoi(p.number())
			if !p.kw("rows") {
				p.kw("row")
			}
			continue
		case p.kw("fetch", "first"), p.kw("fetch", "next"):
			limit, _ = strconv.Atoi(p.number())
			if !p.kw("rows", "only") && !p.kw("row", "only") {
				p.fail("fetch")
			}
			continue
		case p.kw("for", "share"), p.kw("for", "update"):
			p.fail("locking")
		}
		break
	}
	if limit < 0 && offset == 0 {
		return q
	}
	return &query{q.cols, func(outer [][]Value) *Result {
		r := q.run(outer)
		rows := r.Rows
		if offset > len(rows) {
			offset = len(rows)
		}
		rows = rows[offset:]
		if limit >= 0 && limit < len(rows) {
			rows = rows[:limit]
		}
		return &Result{Cols: r.Cols, Rows: rows}
	}}
}

func (p *parser) simple() *query {
	if !p.kw("select") {
		p.fail("not a select")
	}
	distinct := p.kw("distinct")
	if distinct && p.kw("on") {
		p.fail("distinct on")
	}
	if p.kw("all") {
		distinct = false
	}
	// The select list needs the tables: find FROM first.
	listStart := p.i
	depth := 0
	hasFrom := false
	for ; ; p.i++ {
		t := p.peek()
		if t.kind == "end" {
			break
		}
		if t.kind == "op" && t.s == "(" {
			depth++
		}
		if t.kind == "op" && t.s == ")" {
			if depth--; depth < 0 {
				break
			}
		}
		if depth == 0 && t.kind == "id" && (t.s == "union" || t.s == "where") {
			break
		}
		if depth == 0 && t == (token{"id", "from"}) && !(p.i >= 2 && p.ts[p.i-1] == (token{"id", "distinct"})) {
			hasFrom = true
			break
		}
	}
	base := p.base
	var joins []expr
	if hasFrom {
		p.kw("from")
		joins = p.fromClause()
	}
	after := p.i
	p.i = listStart
	type item struct {
		name string
		e    expr
	}
	var items []item
	for {
		if p.is("op", "*") || p.ts[p.i].kind == "id" && p.ts[p.i+1] == (token{"op", "."}) && p.ts[p.i+2] == (token{"op", "*"}) {
			alias := ""
			if !p.is("op", "*") {
				alias = p.ident()
				p.need(".")
			}
			p.need("*")
			for k := base; k < len(p.from); k++ {
				if alias != "" && p.from[k].alias != alias {
					continue
				}
				for i, c := range p.from[k].table.Cols {
					k, i := k, i
					items = append(items, item{c.Name, expr{c.Type, func(r [][]Value) Value { return r[k][i] }}})
				}
			}
		} else {
			e := p.expr()
			name := "?column?"
			if t := p.ts[p.i-1]; t.kind == "id" || t.kind == "qid" {
				name = t.s
			}
			if p.kw("as") {
				name = p.ident()
			} else if t := p.peek(); (t.kind == "id" && !reserved(t.s)) || t.kind == "qid" {
				name = p.ident()
			}
			items = append(items, item{name, e})
		}
		if !p.op(",") {
			break
		}
	}
	if hasFrom {
		if !p.is("id", "from") {
			p.fail("unexpected")
		}
		p.i = after
	}
	if p.kw("where") {
		joins = append(joins, p.expr())
	}
	if p.is("id", "group") || p.is("id", "having") || p.is("id", "window") {
		p.fail("unexpected")
	}
	froms := p.from
	q := &query{}
	for _, it := range items {
		q.cols = append(q.cols, Column{it.name, it.e.typ})
	}
	q.run = func(outer [][]Value) *Result {
		res := &Result{Cols: q.cols}
		seen := map[string]bool{}
		rows := make([][]Value, len(froms))
		copy(rows, outer[:base])
		var loop func(k int)
		loop = func(k int) {
			if k < len(froms) {
				f := froms[k]
				met := false
			next:
				for _, r := range f.table.Rows {
					rows[k] = r
					for _, j := range f.on {
						if b, _ := j.eval(rows).(bool); !b {
							continue next
						}
					}
					met = true
					loop(k + 1)
				}
				if f.left && !met {
					rows[k] = make([]Value, len(f.table.Cols))
					loop(k + 1)
				}
				return
			}
			for _, j := range joins {
				if b, _ := j.eval(rows).(bool); !b {
					return
				}
			}
			var out []Value
			for _, it := range items {
				out = append(out, it.e.eval(rows))
			}
			if distinct {
				k := fmt.Sprintf("%q", out)
				if seen[k] {
					return
				}
				seen[k] = true
			}
			res.Rows = append(res.Rows, out)
		}
		loop(base)
		return res
	}
	return q
}

// reserved words cannot be aliases without AS.
func reserved(s string) bool {
	return strings.Contains(" from join inner left right full cross natural on using where order limit offset group having union except intersect fetch for window and or not is in like ilike between ", " "+s+" ")
}

func (p *parser) number() string {
	t := p.next()
	if t.kind != "num" {
		p.i--
		p.fail("expected a number")
	}
	return t.s
}

func (p *parser) table() {
	var t *Table
	name := ""
	if p.op("(") {
		if !p.is("id", "select") {
			p.fail("derived table")
		}
		t = p.subquery().table(nil)
		p.need(")")
	} else {
		p.kw("only")
		name = p.ident()
		if t = p.ctes[name]; t != nil && !p.is("op", ".") {
			_ = t
		} else {
			full := name
			if p.op(".") {
				if full = p.ident(); name != "pg_catalog" {
					full, name = name+"."+full, full
				} else {
					name = full
				}
			}
			t = p.db.Tables[full]
		}
	}
	if t == nil {
		p.fail("table " + name)
	}
	alias := name
	if p.kw("as") {
		alias = p.ident()
	} else if n := p.peek(); n.kind == "qid" || n.kind == "id" && !reserved(n.s) {
		alias = p.ident()
	}
	if p.op("(") {
		c := &Table{Cols: append([]Column(nil), t.Cols...), Rows: t.Rows}
		for i := 0; !p.op(")") && i < len(c.Cols); i++ {
			c.Cols[i].Name = p.ident()
			p.op(",")
		}
		t = c
	}
	for _, f := range p.from[p.base:] {
		if f.alias == alias {
			p.fail("table name used twice")
		}
	}
	p.from = append(p.from, from{alias: alias, table: t})
}

func (p *parser) fromClause() (conds []expr) {
	p.table()
	for {
		switch {
		case p.op(","), p.kw("cross", "join"):
			p.table()
		case p.kw("join"), p.kw("inner", "join"):
			p.table()
			conds = append(conds, p.joinOn())
		case p.kw("left", "join"), p.kw("left", "outer", "join"):
			p.table()
			on := p.joinOn()
			f := &p.from[len(p.from)-1]
			f.left, f.on = true, []expr{on}
		case p.kw("right"), p.kw("full"), p.kw("natural"):
			p.fail("join")
		default:
			return conds
		}
	}
}

func (p *parser) joinOn() expr {
	if p.kw("on") {
		return p.expr()
	}
	if p.kw("using") {
		p.need("(")
		name := p.ident()
		p.need(")")
		last := p.from[len(p.from)-1]
		r := p.column(last.alias, name)
		all := p.from
		p.from = all[:len(all)-1]
		l := p.column("", name)
		p.from = all
		return compare(l, "=", r)
	}
	p.fail("join condition")
	return expr{}
}

func truth(v Value) (b, known bool) {
	b, known = v.(bool)
	return
}

func (p *parser) expr() expr {
	l := p.and()
	for p.kw("or") {
		a, b := l, p.and()
		l = expr{Bool, func(r [][]Value) Value {
			x, kx := truth(a.eval(r))
			y, ky := truth(b.eval(r))
			switch {
			case x && kx || y && ky:
				return true
			case kx && ky:
				return false
			}
			return nil
		}}
	}
	return l
}

func (p *parser) and() expr {
	l := p.not()
	for p.kw("and") {
		a, b := l, p.not()
		l = expr{Bool, func(r [][]Value) Value {
			x, kx := truth(a.eval(r))
			y, ky := truth(b.eval(r))
			switch {
			case kx && !x || ky && !y:
				return false
			case kx && ky:
				return true
			}
			return nil
		}}
	}
	return l
}

func negate(e expr) expr {
	return expr{Bool, func(r [][]Value) Value {
		if x, k := truth(e.eval(r)); k {
			return !x
		}
		return nil
	}}
}

func (p *parser) not() expr {
	if p.kw("not") {
		return negate(p.not())
	}
	return p.comparison()
}

func (p *parser) comparison() expr {
	l := p.other()
	for {
		t := p.peek()
		switch {
		case t.kind == "op" && strings.Contains(" = <> != < > <= >= ", " "+t.s+" "):
			p.next()
			if p.kw("any") || p.kw("some") {
				l = p.quantified(l, t.s, true)
				continue
			}
			if p.kw("all") {
				l = p.quantified(l, t.s, false)
				continue
			}
			l = compare(l, t.s, p.other())
		case p.kw("is"):
			not := p.kw("not")
			e := l
			switch {
			case p.kw("null"):
				l = expr{Bool, func(r [][]Value) Value { return e.eval(r) == nil }}
			case p.kw("true"):
				l = expr{Bool, func(r [][]Value) Value { return e.eval(r) == true }}
			case p.kw("false"):
				l = expr{Bool, func(r [][]Value) Value { return e.eval(r) == false }}
			case p.kw("distinct", "from"):
				o := p.other()
				l = expr{Bool, func(r [][]Value) Value {
					x, y := e.eval(r), o.eval(r)
					if x == nil || y == nil {
						return (x == nil) != (y == nil)
					}
					return compareValues(x, "<>", y)
				}}
			default:
				p.fail("is")
			}
			if not {
				l = negate(l)
			}
		default:
			return l
		}
	}
}

func text(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case int64:
		return strconv.FormatInt(v, 10)
	case bool:
		if v {
			return "t"
		}
		return "f"
	}
	return ""
}

func cmpValues(a, b Value) int {
	x, okx := a.(int64)
	y, oky := b.(int64)
	if okx != oky {
		// a literal takes the type of the other side
		if okx {
			n, err := strconv.ParseInt(strings.TrimSpace(text(b)), 10, 64)
			if err == nil {
				y, oky = n, true
			}
		} else {
			n, err := strconv.ParseInt(strings.TrimSpace(text(a)), 10, 64)
			if err == nil {
				x, okx = n, true
			}
		}
	}
	if okx && oky {
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	return strings.Compare(text(a), text(b))
}

func compareValues(a Value, op string, b Value) Value {
	if a == nil || b == nil {
		return nil
	}
	c := cmpValues(a, b)
	switch op {
	case "=":
		return c == 0
	case "<>", "!=":
		return c != 0
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	}
	return c >= 0
}

func compare(a expr, op string, b expr) expr {
	return expr{Bool, func(r [][]Value) Value { return compareValues(a.eval(r), op, b.eval(r)) }}
}

// among is x IN (ys).
func among(x Value, ys []Value) Value {
	var res Value = false
	for _, y := range ys {
		switch compareValues(x, "=", y) {
		case true:
			return true
		case nil:
			res = nil
		}
	}
	return res
}

func (p *parser) quantified(l expr, op string, any bool) expr {
	p.need("(")
	var a expr
	if p.is("id", "select") {
		q := p.nested()
		a = expr{Text, func(r [][]Value) Value {
			ys := []Value{}
			for _, row := range q.run(r).Rows {
				ys = append(ys, row[0])
			}
			return ys
		}}
	} else {
		a = p.expr()
	}
	p.need(")")
	return expr{Bool, func(r [][]Value) Value {
		x := l.eval(r)
		for _, y := range array(a.eval(r)) {
			b, _ := compareValues(x, op, y).(bool)
			if b == any {
				return any
			}
		}
		return !any
	}}
}

// array reads an array value or literal.
func array(v Value) []Value {
	if a, ok := v.([]Value); ok {
		return a
	}
	s := text(v)
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") || strings.ContainsAny(s, "\\") {
		panic(&Unsupported{"array literal " + s})
	}
	s = s[1 : len(s)-1]
	if s == "" {
		return nil
	}
	var out []Value
	for _, e := range strings.Split(s, ",") {
		e = strings.TrimSpace(e)
		if len(e) >= 2 && e[0] == '"' && e[len(e)-1] == '"' {
			e = e[1 : len(e)-1]
		}
		out = append(out, e)
	}
	return out
}

// likeRE translates a LIKE pattern.
func likeRE(pattern string, esc string, fold bool) *regexp.Regexp {
	var b strings.Builder
	b.WriteString("^(?s")
	if fold {
		b.WriteString("i")
	}
	b.WriteString(":")
	rs := []rune(pattern)
	for i := 0; i < len(rs); i++ {
		switch {
		case esc != "" && string(rs[i]) == esc:
			i++
			if i < len(rs) {
				b.WriteString(regexp.QuoteMeta(string(rs[i])))
			}
		case rs[i] == '%':
			b.WriteString(".*")
		case rs[i] == '_':
			b.WriteString(".")
		default:
			b.WriteString(regexp.QuoteMeta(string(rs[i])))
		}
	}
	b.WriteString(")$")
	return regexp.MustCompile(b.String())
}

var reCache = map[string]*regexp.Regexp{}

func posixRE(pattern string, fold bool) *regexp.Regexp {
	f := "(?s)"
	if fold {
		f = "(?si)"
	}
	re := reCache[f+pattern]
	if re == nil {
		var err error
		if re, err = regexp.Compile(f + pattern); err != nil {
			panic(&Unsupported{"regular expression " + pattern})
		}
		if len(reCache) > 1000 {
			reCache = map[string]*regexp.Regexp{}
		}
		reCache[f+pattern] = re
	}
	return re
}

func (p *parser) other() expr {
	l := p.concat()
	for {
		not := false
		save := p.i
		if p.kw("not") {
			not = true
		}
		var e expr
		a := l
		switch {
		case p.kw("in"):
			p.need("(")
			if p.is("id", "select") {
				q := p.nested()
				p.need(")")
				e = expr{Bool, func(r [][]Value) Value {
					var ys []Value
					for _, row := range q.run(r).Rows {
						ys = append(ys, row[0])
					}
					return among(a.eval(r), ys)
				}}
				break
			}
			var list []expr
			for {
				list = append(list, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.need(")")
			e = expr{Bool, func(r [][]Value) Value {
				var ys []Value
				for _, y := range list {
					ys = append(ys, y.eval(r))
				}
				return among(a.eval(r), ys)
			}}
		case p.kw("like"), p.kw("ilike"):
			fold := p.ts[p.i-1].s == "ilike"
			if p.is("id", "any") || p.is("id", "all") || p.is("id", "some") {
				any := !p.is("id", "all")
				p.next()
				p.need("(")
				b := p.expr()
				p.need(")")
				e = expr{Bool, func(r [][]Value) Value {
					for _, y := range array(b.eval(r)) {
						if likeRE(text(y), `\`, fold).MatchString(text(a.eval(r))) == any {
							return any
						}
					}
					return !any
				}}
				if not && any {
					// NOT LIKE ANY: some element does not match
					e = expr{Bool, func(r [][]Value) Value {
						for _, y := range array(b.eval(r)) {
							if !likeRE(text(y), `\`, fold).MatchString(text(a.eval(r))) {
								return true
							}
						}
						return false
					}}
					not = false
				} else if not {
					e = expr{Bool, func(r [][]Value) Value {
						for _, y := range array(b.eval(r)) {
							if likeRE(text(y), `\`, fold).MatchString(text(a.eval(r))) {
								return false
							}
						}
						return true
					}}
					not = false
				}
				break
			}
			b := p.concat()
			esc := `\`
			if p.kw("escape") {
				t := p.next()
				if t.kind != "str" {
					p.fail("escape")
				}
				esc = t.s
			}
			e = like(a, b, esc, fold)
		case p.kw("between"):
			lo := p.concat()
			if !p.kw("and") {
				p.fail("between")
			}
			hi := p.concat()
			e = expr{Bool, func(r [][]Value) Value {
				x := a.eval(r)
				return compareValues(x, ">=", lo.eval(r)) == true && compareValues(x, "<=", hi.eval(r)) == true
			}}
		default:
			p.i = save
			if not {
				return l
			}
			t := p.peek()
			if t.kind != "op" {
				return l
			}
			switch t.s {
			case "~", "~*", "!~", "!~*":
				p.next()
				b := p.concat()
				e = expr{Bool, func(r [][]Value) Value {
					if a.eval(r) == nil || b.eval(r) == nil {
						return nil
					}
					return posixRE(text(b.eval(r)), strings.HasSuffix(t.s, "*")).MatchString(text(a.eval(r)))
				}}
				if t.s[0] == '!' {
					e = negate(e)
				}
			case "~~", "~~*", "!~~", "!~~*":
				p.next()
				e = like(a, p.concat(), `\`, strings.HasSuffix(t.s, "*"))
				if t.s[0] == '!' {
					e = negate(e)
				}
			case "^@":
				p.next()
				b := p.concat()
				e = expr{Bool, func(r [][]Value) Value { return strings.HasPrefix(text(a.eval(r)), text(b.eval(r))) }}
			default:
				return l
			}
			l = e
			continue
		}
		if not {
			e = negate(e)
		}
		l = e
	}
}

func like(a, b expr, esc string, fold bool) expr {
	var last string
	var re *regexp.Regexp
	return expr{Bool, func(r [][]Value) Value {
		x, y := a.eval(r), b.eval(r)
		if x == nil || y == nil {
			return nil
		}
		if re == nil || last != text(y) {
			last, re = text(y), likeRE(text(y), esc, fold)
		}
		return re.MatchString(text(x))
	}}
}

func (p *parser) concat() expr {
	l := p.cast()
	for p.op("||") {
		a, b := l, p.cast()
		l = expr{Text, func(r [][]Value) Value {
			x, y := a.eval(r), b.eval(r)
			if x == nil || y == nil {
				return nil
			}
			return text(x) + text(y)
		}}
	}
	return l
}

func (p *parser) cast() expr {
	e := p.primary()
	for p.op("::") {
		e = p.castTo(e)
	}
	return e
}

func (p *parser) castTo(e expr) expr {
	t := p.next()
	name := t.s
	if t.kind != "id" && t.kind != "qid" {
		p.fail("type")
	}
	if name == "pg_catalog" && p.op(".") {
		name = p.ident()
	}
	if p.op("[") {
		p.need("]")
		return e
	}
	a := e
	switch name {
	case "text", "varchar", "name":
		typ := Text
		if name == "name" {
			typ = Name
		}
		return expr{typ, func(r [][]Value) Value {
			v := a.eval(r)
			if v == nil {
				return nil
			}
			return text(v)
		}}
	case "bool", "boolean":
		return expr{Bool, func(r [][]Value) Value {
			switch v := a.eval(r).(type) {
			case bool:
				return v
			case string:
				return strings.HasPrefix(strings.ToLower(v), "t")
			}
			return nil
		}}
	case "regnamespace":
		return expr{Text, func(r [][]Value) Value {
			switch v := a.eval(r).(type) {
			case int64:
				return quoteIdent(p.namespace(v))
			case string:
				t := p.db.Tables["pg_namespace"]
				for _, row := range t.Rows {
					if text(row[t.col("nspname")]) == v {
						return row[t.col("oid")]
					}
				}
				panic(&Unsupported{"no schema " + v})
			}
			return nil
		}}
	case "char":
		if t.kind == "qid" {
			return expr{Char, func(r [][]Value) Value { return text(a.eval(r)) }}
		}
		return expr{Text, func(r [][]Value) Value { return text(a.eval(r)) }}
	case "oid", "bigint", "int8", "int", "int4", "integer":
		typ := map[string]int{"oid": OID, "bigint": Int8, "int8": Int8, "int": Int4, "int4": Int4, "integer": Int4}[name]
		return expr{typ, func(r [][]Value) Value {
			v := a.eval(r)
			n, ok := v.(int64)
			if !ok {
				var err error
				if n, err = strconv.ParseInt(strings.TrimSpace(text(v)), 10, 64); err != nil {
					panic(&Unsupported{"number " + text(v)})
				}
			}
			if typ == Int4 {
				n = int64(int32(uint32(n)))
			}
			return n
		}}
	}
	p.i--
	p.fail("type")
	return e
}

func (p *parser) primary() expr {
	t := p.next()
	switch t.kind {
	case "str":
		return expr{Text, func([][]Value) Value { return t.s }}
	case "num":
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			p.fail("number")
		}
		return expr{Int4, func([][]Value) Value { return n }}
	case "param":
		n, _ := strconv.Atoi(t.s)
		if n < 1 || n > len(p.params) {
			p.fail("parameter")
		}
		v := p.params[n-1]
		return expr{Text, func([][]Value) Value { return v }}
	case "op":
		switch t.s {
		case "(":
			if p.is("id", "select") {
				q := p.nested()
				p.need(")")
				if len(q.cols) != 1 {
					p.fail("scalar subquery")
				}
				return expr{q.cols[0].Type, func(r [][]Value) Value {
					rows := q.run(r).Rows
					if len(rows) == 0 {
						return nil
					}
					if len(rows) > 1 {
						panic(&Unsupported{"scalar subquery with several rows"})
					}
					return rows[0][0]
				}}
			}
			e := p.expr()
			if p.op(",") {
				p.fail("row")
			}
			p.need(")")
			return e
		case "-":
			e := p.primary()
			return expr{e.typ, func(r [][]Value) Value {
				if n, ok := e.eval(r).(int64); ok {
					return -n
				}
				return nil
			}}
		}
	case "id", "qid":
		if t.kind == "id" {
			switch t.s {
			case "true", "false":
				v := t.s == "true"
				return expr{Bool, func([][]Value) Value { return v }}
			case "null":
				return expr{Text, func([][]Value) Value { return nil }}
			case "array":
				p.need("[")
				var list []expr
				for !p.op("]") {
					list = append(list, p.expr())
					p.op(",")
				}
				return expr{Text, func(r [][]Value) Value {
					out := []Value{}
					for _, e := range list {
						out = append(out, e.eval(r))
					}
					return out
				}}
			case "cast":
				if p.op("(") {
					e := p.expr()
					if !p.kw("as") {
						p.fail("cast")
					}
					e = p.castTo(e)
					p.need(")")
					return e
				}
			case "exists":
				p.need("(")
				q := p.nested()
				p.need(")")
				return expr{Bool, func(r [][]Value) Value { return len(q.run(r).Rows) > 0 }}
			case "case":
				return p.caseExpr()
			case "select", "any", "all", "row", "interval":
				p.i--
				p.fail("expression")
			}
		}
		if p.op(".") {
			if t.s == "pg_catalog" {
				n := p.ident()
				if p.op("(") {
					return p.call(n)
				}
				p.fail("name")
			}
			return p.column(t.s, p.ident())
		}
		if p.op("(") {
			return p.call(t.s)
		}
		return p.column("", t.s)
	}
	p.i--
	p.fail("expression")
	return expr{}
}

func (p *parser) caseExpr() expr {
	var subject *expr
	if !p.is("id", "when") {
		e := p.expr()
		subject = &e
	}
	type arm struct{ when, then expr }
	var arms []arm
	for p.kw("when") {
		w := p.expr()
		if subject != nil {
			w = compare(*subject, "=", w)
		}
		if !p.kw("then") {
			p.fail("case")
		}
		arms = append(arms, arm{w, p.expr()})
	}
	other := expr{Text, func([][]Value) Value { return nil }}
	if p.kw("else") {
		other = p.expr()
	}
	if !p.kw("end") || len(arms) == 0 {
		p.fail("case")
	}
	return expr{arms[0].then.typ, func(r [][]Value) Value {
		for _, a := range arms {
			if a.when.eval(r) == true {
				return a.then.eval(r)
			}
		}
		return other.eval(r)
	}}
}

func (p *parser) column(table, name string) expr {
	// The tables of the query itself hide those of the enclosing ones.
	for _, scope := range [][2]int{{p.base, len(p.from)}, {0, p.base}} {
		var found []expr
		for k := scope[0]; k < scope[1]; k++ {
			f := p.from[k]
			if table != "" && f.alias != table {
				continue
			}
			for i, c := range f.table.Cols {
				if c.Name == name {
					k, i := k, i
					found = append(found, expr{c.Type, func(r [][]Value) Value { return r[k][i] }})
				}
			}
		}
		if len(found) == 1 {
			return found[0]
		}
		if len(found) > 1 {
			break
		}
	}
	p.fail("column " + table + "." + name)
	return expr{}
}

func quoteIdent(s string) string {
	if s != "" && strings.Trim(s, "abcdefghijklmnopqrstuvwxyz_0123456789") == "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
}

func (t *Table) col(name string) int {
	for i, c := range t.Cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

// namespace is the name of the schema with that id.
func (p *parser) namespace(id Value) string {
	t := p.db.Tables["pg_namespace"]
	for _, r := range t.Rows {
		if compareValues(r[t.col("oid")], "=", id) == true {
			return text(r[t.col("nspname")])
		}
	}
	return ""
}

func (p *parser) visible(id Value) Value {
	t := p.db.Tables["pg_class"]
	for _, r := range t.Rows {
		if compareValues(r[t.col("oid")], "=", id) != true {
			continue
		}
		ns := p.namespace(r[t.col("relnamespace")])
		if ns == "pg_catalog" {
			return true
		}
		if ns != "public" {
			return false
		}
		for _, o := range t.Rows {
			if text(o[t.col("relname")]) == text(r[t.col("relname")]) && p.namespace(o[t.col("relnamespace")]) == "pg_catalog" {
				return false
			}
		}
		return true
	}
	return nil
}

func (p *parser) call(name string) expr {
	var args []expr
	for !p.op(")") {
		args = append(args, p.expr())
		if p.kw("from") || p.kw("for") {
			p.fail("keyword arguments")
		}
		if !p.op(",") && !p.is("op", ")") {
			p.fail("arguments")
		}
	}
	s := func(i int) func([][]Value) string { return func(r [][]Value) string { return text(args[i].eval(r)) } }
	n := func(i int) func([][]Value) int {
		return func(r [][]Value) int {
			v, ok := args[i].eval(r).(int64)
			if !ok {
				panic(&Unsupported{"argument of " + name})
			}
			return int(v)
		}
	}
	is := func(want string, k int) bool { return name == want && len(args) == k }
	switch {
	case is("current_database", 0):
		return expr{Name, func([][]Value) Value { return p.db.Name }}
	case is("lower", 1):
		return expr{Text, func(r [][]Value) Value { return strings.ToLower(s(0)(r)) }}
	case is("upper", 1):
		return expr{Text, func(r [][]Value) Value { return strings.ToUpper(s(0)(r)) }}
	case is("length", 1), is("char_length", 1):
		return expr{Int4, func(r [][]Value) Value { return int64(len([]rune(s(0)(r)))) }}
	case is("left", 2):
		return expr{Text, func(r [][]Value) Value {
			x, k := []rune(s(0)(r)), n(1)(r)
			if k < 0 {
				k += len(x)
			}
			if k < 0 {
				k = 0
			}
			if k > len(x) {
				k = len(x)
			}
			return string(x[:k])
		}}
	case (name == "substr" || name == "substring") && (len(args) == 2 || len(args) == 3):
		return expr{Text, func(r [][]Value) Value {
			x, from := []rune(s(0)(r)), n(1)(r)
			to := len(x) + 1
			if len(args) == 3 {
				to = from + n(2)(r)
			}
			if from < 1 {
				from = 1
			}
			if to > len(x)+1 {
				to = len(x) + 1
			}
			if from >= to {
				return ""
			}
			return string(x[from-1 : to-1])
		}}
	case is("starts_with", 2):
		return expr{Bool, func(r [][]Value) Value { return strings.HasPrefix(s(0)(r), s(1)(r)) }}
	case is("strpos", 2):
		return expr{Int4, func(r [][]Value) Value {
			i := strings.Index(s(0)(r), s(1)(r))
			if i < 0 {
				return int64(0)
			}
			return int64(len([]rune(s(0)(r)[:i])) + 1)
		}}
	case name == "coalesce" && len(args) > 0:
		return expr{args[0].typ, func(r [][]Value) Value {
			for _, a := range args {
				if v := a.eval(r); v != nil {
					return v
				}
			}
			return nil
		}}
	case is("nullif", 2):
		return expr{args[0].typ, func(r [][]Value) Value {
			v := args[0].eval(r)
			if compareValues(v, "=", args[1].eval(r)) == true {
				return nil
			}
			return v
		}}
	case is("right", 2):
		return expr{Text, func(r [][]Value) Value {
			x, k := []rune(s(0)(r)), n(1)(r)
			if k < 0 {
				k += len(x)
			}
			if k < 0 {
				k = 0
			}
			if k > len(x) {
				k = len(x)
			}
			return string(x[len(x)-k:])
		}}
	case is("replace", 3):
		return expr{Text, func(r [][]Value) Value { return strings.ReplaceAll(s(0)(r), s(1)(r), s(2)(r)) }}
	case is("split_part", 3):
		return expr{Text, func(r [][]Value) Value {
			parts, k := strings.Split(s(0)(r), s(1)(r)), n(2)(r)
			if k < 1 || k > len(parts) {
				return ""
			}
			return parts[k-1]
		}}
	case name == "concat":
		return expr{Text, func(r [][]Value) Value {
			out := ""
			for _, a := range args {
				out += text(a.eval(r))
			}
			return out
		}}
	case is("trim", 1), is("btrim", 1):
		return expr{Text, func(r [][]Value) Value { return strings.Trim(s(0)(r), " ") }}
	case is("ltrim", 1):
		return expr{Text, func(r [][]Value) Value { return strings.TrimLeft(s(0)(r), " ") }}
	case is("rtrim", 1):
		return expr{Text, func(r [][]Value) Value { return strings.TrimRight(s(0)(r), " ") }}
	case is("trim", 2), is("btrim", 2):
		return expr{Text, func(r [][]Value) Value { return strings.Trim(s(0)(r), s(1)(r)) }}
	case is("ltrim", 2):
		return expr{Text, func(r [][]Value) Value { return strings.TrimLeft(s(0)(r), s(1)(r)) }}
	case is("rtrim", 2):
		return expr{Text, func(r [][]Value) Value { return strings.TrimRight(s(0)(r), s(1)(r)) }}
	case is("quote_ident", 1):
		return expr{Text, func(r [][]Value) Value { return quoteIdent(s(0)(r)) }}
	case is("pg_table_is_visible", 1):
		// The search path is public (after pg_catalog).
		return expr{Bool, func(r [][]Value) Value { return p.visible(args[0].eval(r)) }}
	case is("pg_my_temp_schema", 0):
		return expr{OID, func([][]Value) Value { return int64(0) }}
	case is("pg_is_other_temp_schema", 1):
		return expr{Bool, func(r [][]Value) Value {
			ns := p.namespace(args[0].eval(r))
			return strings.HasPrefix(ns, "pg_temp_") || strings.HasPrefix(ns, "pg_toast_temp_")
		}}
	case name == "has_table_privilege" && len(args) >= 2, name == "has_schema_privilege" && len(args) >= 2:
		// Some relations belong to others.
		if name == "has_schema_privilege" {
			return expr{Bool, func([][]Value) Value { return true }}
		}
		return expr{Bool, func(r [][]Value) Value {
			o, ok := args[len(args)-2].eval(r).(int64)
			return !ok || o%5 != 0
		}}
	case is("current_schema", 0):
		return expr{Name, func([][]Value) Value { return "public" }}
	case is("version", 0):
		return expr{Text, func([][]Value) Value { return "PostgreSQL 12.4" }}
	}
	p.fail("function " + name)
	return expr{}
}
