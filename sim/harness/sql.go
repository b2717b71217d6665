package verifsim

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// A small SQL engine with PostgreSQL's transaction semantics: READ COMMITTED,
// row versions, unique constraints that wait for the other transaction,
// deadlock detection and failed transactions.  It knows the SQL a storage layer
// like this one may reasonably use; anything else is a syntax error.

const (
	oidBool    = 16
	oidBytea   = 17
	oidName    = 19
	oidInt8    = 20
	oidInt4    = 23
	oidText    = 25
	oidVarchar = 1043
	oidVoid    = 2278
)

type sqlErr struct {
	code, msg string
	fatal     bool
}

func (e *sqlErr) Error() string { return e.code + ": " + e.msg }

func sqlFail(code, format string, args ...interface{}) {
	panic(&sqlErr{code: code, msg: fmt.Sprintf(format, args...)})
}

// sqlWait is thrown when a statement has to wait for another transaction.
type sqlWait struct{ tx *sqlTx }

type sqlTx struct {
	id      int
	state   int // 0 running, 1 committed, 2 aborted
	done    chan struct{}
	waits   *sqlTx
	undo    []func() // of the current statement
	writes  int
	touched bool
}

type sqlRow struct {
	v          []interface{}
	xmin, xmax *sqlTx
}

type sqlCol struct {
	name    string
	oid     int
	limit   int
	notNull bool
	def     *sqlExpr
}

type sqlUnique struct {
	cols []int
	name string
}

type sqlTable struct {
	name       string
	cols       []sqlCol
	uniq       []sqlUnique
	rows       []*sqlRow
	xmin, xmax *sqlTx
	index      []map[string][]*sqlRow // per unique constraint
}

func (t *sqlTable) col(name string) int {
	for i := range t.cols {
		if t.cols[i].name == name {
			return i
		}
	}
	return -1
}

type sqlDB struct {
	name   string
	tables []*sqlTable
	nextTx int
	locks  map[int64]*sqlSess
}

type sqlSess struct {
	db     *sqlDB
	tx     *sqlTx
	failed bool // transaction block failed
	block  bool // explicit transaction block
	params []interface{}
	poids  []int
	lockN  map[int64]int
	now    *sqlTx
}

// --- lexer --------------------------------------------------------------------

type sqlTok struct {
	k byte // i identifier, q quoted identifier, n number, s string, p parameter, o operator, 0 end
	s string
}

func sqlLex(q string) (ts []sqlTok) {
	i := 0
	for i < len(q) {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case strings.HasPrefix(q[i:], "/*"):
			e := strings.Index(q[i:], "*/")
			if e < 0 {
				sqlFail("42601", "unterminated comment")
			}
			i += e + 2
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
			j := i
			for j < len(q) && (q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] == '_' || q[j] >= '0' && q[j] <= '9') {
				j++
			}
			ts = append(ts, sqlTok{'i', strings.ToLower(q[i:j])})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			ts = append(ts, sqlTok{'n', q[i:j]})
			i = j
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(q) {
					sqlFail("42601", "unterminated quoted string")
				}
				if q[j] == c {
					if j+1 < len(q) && q[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(q[j])
				j++
			}
			k := byte('q')
			if c == '\'' {
				k = 's'
			}
			ts = append(ts, sqlTok{k, b.String()})
			i = j + 1
		case c == '$':
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			ts = append(ts, sqlTok{'p', q[i+1 : j]})
			i = j
		default:
			op := q[i : i+1]
			for _, o := range []string{"::", "<>", "!=", "<=", ">=", "||"} {
				if strings.HasPrefix(q[i:], o) {
					op = o
				}
			}
			if !strings.Contains("(),;*=<>+-/%.[]:", op[:1]) && op != "||" && op != "!=" {
				sqlFail("42601", "syntax error at or near %q", op)
			}
			ts = append(ts, sqlTok{'o', op})
			i += len(op)
		}
	}
	return append(ts, sqlTok{})
}

// --- syntax tree ----------------------------------------------------------------

type sqlExpr struct {
	op   string // lit param col star not neg and or = <> < > <= >= + - * / % || in inq isnull between exists func any sub cast case
	s, t string // names; t is a column's table
	v    interface{}
	n    int
	neg  bool
	a    []*sqlExpr
	sel  *sqlStmt
}

type sqlItem struct {
	e     *sqlExpr
	alias string
}

type sqlFrom struct {
	table, alias string
	sub          *sqlStmt
	on           *sqlExpr
	left         bool
}

type sqlOrder struct {
	e    *sqlExpr
	desc bool
}

type sqlSet struct {
	col string
	e   *sqlExpr
}

type sqlStmt struct {
	kind      string
	items     []sqlItem
	from      []sqlFrom
	where     *sqlExpr
	order     []sqlOrder
	limit     *sqlExpr
	offset    *sqlExpr
	forUpd    bool
	distinct  bool
	table     string
	cols      []string
	rows      [][]*sqlExpr
	sel       *sqlStmt
	conflict  bool
	confCols  []string
	confName  string
	sets      []sqlSet
	confWhere *sqlExpr
	returning []sqlItem
	ifNot     bool
	def       *sqlTable
	uniqIdx   []string
}

type sqlParser struct {
	t []sqlTok
	i int
}

func (p *sqlParser) peek() sqlTok { return p.t[p.i] }

func (p *sqlParser) is(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.t) {
			return false
		}
		t := p.t[p.i+k]
		if (t.k != 'i' && t.k != 'o') || t.s != w {
			return false
		}
	}
	return true
}

func (p *sqlParser) eat(words ...string) bool {
	if p.is(words...) {
		p.i += len(words)
		return true
	}
	return false
}

func (p *sqlParser) need(words ...string) {
	if !p.eat(words...) {
		p.bad()
	}
}

func (p *sqlParser) bad() {
	t := p.peek()
	if t.k == 0 {
		sqlFail("42601", "syntax error at end of input")
	}
	sqlFail("42601", "syntax error at or near %q", t.s)
}

func (p *sqlParser) name() string {
	t := p.peek()
	if t.k != 'i' && t.k != 'q' {
		p.bad()
	}
	p.i++
	return t.s
}

// relname reads a possibly qualified name.
func (p *sqlParser) relname() string {
	n := p.name()
	if p.eat(".") {
		m := p.name()
		if n == "information_schema" || n == "pg_catalog" {
			return n + "." + m
		}
		return m
	}
	return n
}

func (p *sqlParser) names() (l []string) {
	p.need("(")
	for {
		l = append(l, p.name())
		if !p.eat(",") {
			break
		}
	}
	p.need(")")
	return l
}

func sqlParse(q string) (st []*sqlStmt) {
	p := &sqlParser{t: sqlLex(q)}
	for {
		for p.eat(";") {
		}
		if p.peek().k == 0 {
			return st
		}
		st = append(st, p.stmt())
		if p.peek().k != 0 && !p.is(";") {
			p.bad()
		}
	}
}

func (p *sqlParser) stmt() *sqlStmt {
	switch {
	case p.is("select") || p.is("with"):
		return p.sel()
	case p.eat("insert", "into"):
		return p.insert()
	case p.eat("update"):
		s := &sqlStmt{kind: "update"}
		p.eat("only")
		s.table = p.relname()
		p.need("set")
		s.sets = p.setList()
		if p.eat("where") {
			s.where = p.expr()
		}
		p.ret(s)
		return s
	case p.eat("delete", "from"):
		s := &sqlStmt{kind: "delete"}
		p.eat("only")
		s.table = p.relname()
		if p.eat("where") {
			s.where = p.expr()
		}
		p.ret(s)
		return s
	case p.eat("truncate"):
		p.eat("table")
		s := &sqlStmt{kind: "truncate", table: p.relname()}
		p.eat("restart", "identity")
		p.eat("cascade")
		return s
	case p.eat("create"):
		uniq := p.eat("unique")
		if p.eat("index") {
			p.eat("concurrently")
			s := &sqlStmt{kind: "index"}
			s.ifNot = p.eat("if", "not", "exists")
			if !p.is("on") {
				p.name()
			}
			p.need("on")
			s.table = p.relname()
			if p.eat("using") {
				p.name()
			}
			s.cols = p.names()
			if uniq {
				s.uniqIdx = s.cols
			}
			return s
		}
		p.need("table")
		return p.create()
	case p.eat("drop", "table"):
		s := &sqlStmt{kind: "drop"}
		s.ifNot = p.eat("if", "exists")
		s.table = p.relname()
		p.eat("cascade")
		return s
	case p.eat("begin") || p.eat("start"):
		p.skip()
		return &sqlStmt{kind: "begin"}
	case p.eat("commit") || p.eat("end"):
		p.skip()
		return &sqlStmt{kind: "commit"}
	case p.eat("rollback") || p.eat("abort"):
		if p.is("to") || p.is("transaction", "to") || p.is("work", "to") {
			p.bad()
		}
		p.skip()
		return &sqlStmt{kind: "rollback"}
	case p.eat("set") || p.eat("reset") || p.eat("discard") || p.eat("analyze") || p.eat("vacuum"):
		p.skip()
		return &sqlStmt{kind: "set"}
	case p.eat("lock"):
		p.eat("table")
		s := &sqlStmt{kind: "set", table: p.relname()}
		p.skip()
		return s
	}
	p.bad()
	return nil
}

func (p *sqlParser) skip() {
	for p.peek().k != 0 && !p.is(";") {
		p.i++
	}
}

func (p *sqlParser) ret(s *sqlStmt) {
	if p.eat("returning") {
		s.returning = p.items()
	}
}

func (p *sqlParser) setList() (l []sqlSet) {
	for {
		c := p.name()
		p.need("=")
		l = append(l, sqlSet{c, p.expr()})
		if !p.eat(",") {
			return l
		}
	}
}

func (p *sqlParser) insert() *sqlStmt {
	s := &sqlStmt{kind: "insert", table: p.relname()}
	if p.eat("as") {
		p.name()
	}
	if p.is("(") && !p.is("(", "select") {
		s.cols = p.names()
	}
	switch {
	case p.eat("values"):
		for {
			p.need("(")
			var r []*sqlExpr
			for {
				r = append(r, p.expr())
				if !p.eat(",") {
					break
				}
			}
			p.need(")")
			s.rows = append(s.rows, r)
			if !p.eat(",") {
				break
			}
		}
	case p.is("select"):
		s.sel = p.sel()
	case p.eat("(", "select"):
		p.i--
		s.sel = p.sel()
		p.need(")")
	default:
		p.bad()
	}
	if p.eat("on", "conflict") {
		s.conflict = true
		if p.is("(") {
			s.confCols = p.names()
		} else if p.eat("on", "constraint") {
			s.confName = p.name()
		}
		p.need("do")
		if !p.eat("nothing") {
			p.need("update", "set")
			s.sets = p.setList()
			if s.confCols == nil && s.confName == "" {
				sqlFail("42601", "ON CONFLICT DO UPDATE requires inference specification or constraint name")
			}
			if p.eat("where") {
				s.confWhere = p.expr()
			}
		}
	}
	p.ret(s)
	return s
}

func (p *sqlParser) create() *sqlStmt {
	s := &sqlStmt{kind: "create"}
	s.ifNot = p.eat("if", "not", "exists")
	t := &sqlTable{name: p.relname()}
	p.need("(")
	for {
		switch {
		case p.eat("constraint"):
			p.name()
			continue
		case p.eat("primary", "key"):
			t.addUnique(p.names(), true)
		case p.eat("unique"):
			t.addUnique(p.names(), false)
		default:
			c := sqlCol{name: p.name()}
			c.oid, c.limit = p.typ()
			pk, un := false, false
		opts:
			for {
				switch {
				case p.eat("not", "null"):
					c.notNull = true
				case p.eat("null"):
				case p.eat("primary", "key"):
					pk = true
				case p.eat("unique"):
					un = true
				case p.eat("default"):
					c.def = p.add()
				case p.eat("constraint"):
					p.name()
				default:
					break opts
				}
			}
			t.cols = append(t.cols, c)
			if pk || un {
				t.addUnique([]string{c.name}, pk)
			}
		}
		if !p.eat(",") {
			break
		}
	}
	p.need(")")
	s.def, s.table = t, t.name
	return s
}

func (t *sqlTable) addUnique(cols []string, pk bool) {
	u := sqlUnique{name: t.name + "_" + strings.Join(cols, "_") + "_key"}
	if pk {
		u.name = t.name + "_pkey"
	}
	for _, c := range cols {
		i := t.col(c)
		if i < 0 {
			sqlFail("42703", "column %q named in key does not exist", c)
		}
		if pk {
			t.cols[i].notNull = true
		}
		u.cols = append(u.cols, i)
	}
	t.uniq = append(t.uniq, u)
	t.index = append(t.index, map[string][]*sqlRow{})
}

func (p *sqlParser) typ() (oid, limit int) {
	n := p.name()
	if n == "character" || n == "double" {
		p.eat("varying")
		p.eat("precision")
		n = "varchar"
	}
	if p.eat("(") {
		if p.peek().k != 'n' {
			p.bad()
		}
		limit, _ = strconv.Atoi(p.peek().s)
		p.i++
		p.need(")")
	}
	if p.eat("[") {
		p.need("]")
	}
	switch n {
	case "varchar", "char":
		return oidVarchar, limit
	case "text":
		return oidText, 0
	case "int", "integer", "int4", "serial", "smallint":
		return oidInt4, 0
	case "bigint", "int8", "bigserial":
		return oidInt8, 0
	case "bytea":
		return oidBytea, 0
	case "boolean", "bool":
		return oidBool, 0
	case "name":
		return oidName, 0
	}
	sqlFail("42704", "type %q does not exist", n)
	return 0, 0
}

var sqlReserved = map[string]bool{"from": true, "where": true, "order": true, "limit": true, "offset": true, "for": true, "on": true, "join": true, "inner": true,
	"left": true, "cross": true, "group": true, "having": true, "union": true, "and": true, "or": true, "not": true, "as": true, "returning": true, "set": true, "using": true, "asc": true, "desc": true, "in": true, "is": true, "between": true, "when": true, "then": true, "else": true, "end": true, "do": true, "fetch": true}

func (p *sqlParser) items() (l []sqlItem) {
	for {
		it := sqlItem{}
		if p.eat("*") {
			it.e = &sqlExpr{op: "star"}
		} else if t := p.peek(); (t.k == 'i' || t.k == 'q') && p.t[p.i+1].s == "." && p.t[p.i+2].s == "*" {
			p.i += 3
			it.e = &sqlExpr{op: "star", t: t.s}
		} else {
			it.e = p.expr()
			if p.eat("as") {
				it.alias = p.name()
			} else if t := p.peek(); t.k == 'q' || t.k == 'i' && !sqlReserved[t.s] {
				it.alias = p.name()
			}
		}
		l = append(l, it)
		if !p.eat(",") {
			return l
		}
	}
}

func (p *sqlParser) fromItem() (f sqlFrom) {
	if p.eat("(") {
		f.sub = p.sel()
		p.need(")")
	} else {
		p.eat("only")
		f.table = p.relname()
		f.alias = f.table
	}
	if p.eat("as") {
		f.alias = p.name()
	} else if t := p.peek(); t.k == 'q' || t.k == 'i' && !sqlReserved[t.s] {
		f.alias = p.name()
	}
	return f
}

func (p *sqlParser) sel() *sqlStmt {
	p.need("select")
	s := &sqlStmt{kind: "select"}
	s.distinct = p.eat("distinct")
	p.eat("all")
	s.items = p.items()
	if p.eat("from") {
		s.from = append(s.from, p.fromItem())
		for {
			switch {
			case p.eat(",") || p.eat("cross", "join"):
				s.from = append(s.from, p.fromItem())
				continue
			case p.eat("join") || p.eat("inner", "join"):
				f := p.fromItem()
				p.need("on")
				f.on = p.expr()
				s.from = append(s.from, f)
				continue
			case p.eat("left", "join") || p.eat("left", "outer", "join"):
				f := p.fromItem()
				p.need("on")
				f.on, f.left = p.expr(), true
				s.from = append(s.from, f)
				continue
			}
			break
		}
	}
	if p.eat("where") {
		s.where = p.expr()
	}
	if p.eat("order", "by") {
		for {
			o := sqlOrder{e: p.expr()}
			if p.eat("desc") {
				o.desc = true
			} else {
				p.eat("asc")
			}
			if p.eat("nulls", "first") || p.eat("nulls", "last") {
			}
			s.order = append(s.order, o)
			if !p.eat(",") {
				break
			}
		}
	}
	for {
		switch {
		case p.eat("limit"):
			if !p.eat("all") {
				s.limit = p.expr()
			}
			continue
		case p.eat("offset"):
			s.offset = p.expr()
			p.eat("rows")
			p.eat("row")
			continue
		case p.eat("fetch"):
			if !p.eat("first") {
				p.need("next")
			}
			s.limit = &sqlExpr{op: "lit", v: int64(1)}
			if p.peek().k == 'n' {
				s.limit = p.expr()
			}
			if !p.eat("row") {
				p.need("rows")
			}
			p.need("only")
			continue
		case p.eat("for", "update") || p.eat("for", "share") || p.eat("for", "no", "key", "update") || p.eat("for", "key", "share"):
			s.forUpd = true
			p.eat("nowait")
			p.eat("skip", "locked")
			continue
		}
		break
	}
	return s
}

func (p *sqlParser) expr() *sqlExpr {
	e := p.and()
	for p.eat("or") {
		e = &sqlExpr{op: "or", a: []*sqlExpr{e, p.and()}}
	}
	return e
}

func (p *sqlParser) and() *sqlExpr {
	e := p.not()
	for p.eat("and") {
		e = &sqlExpr{op: "and", a: []*sqlExpr{e, p.not()}}
	}
	return e
}

func (p *sqlParser) not() *sqlExpr {
	if p.eat("not") {
		return &sqlExpr{op: "not", a: []*sqlExpr{p.not()}}
	}
	return p.cmp()
}

func (p *sqlParser) cmp() *sqlExpr {
	e := p.add()
	for {
		neg := p.is("not", "in") || p.is("not", "between")
		if neg {
			p.i++
		}
		switch {
		case p.eat("is"):
			n := p.eat("not")
			p.need("null")
			e = &sqlExpr{op: "isnull", neg: n, a: []*sqlExpr{e}}
			continue
		case p.eat("in"):
			p.need("(")
			if p.is("select") {
				e = &sqlExpr{op: "inq", neg: neg, a: []*sqlExpr{e}, sel: p.sel()}
			} else {
				l := []*sqlExpr{e}
				for {
					l = append(l, p.expr())
					if !p.eat(",") {
						break
					}
				}
				e = &sqlExpr{op: "in", neg: neg, a: l}
			}
			p.need(")")
			continue
		case p.eat("between"):
			lo := p.add()
			p.need("and")
			e = &sqlExpr{op: "between", neg: neg, a: []*sqlExpr{e, lo, p.add()}}
			continue
		}
		t := p.peek()
		if t.k == 'o' && (t.s == "=" || t.s == "<>" || t.s == "!=" || t.s == "<" || t.s == ">" || t.s == "<=" || t.s == ">=") {
			p.i++
			op := t.s
			if op == "!=" {
				op = "<>"
			}
			if p.eat("any", "(") || p.eat("some", "(") {
				if p.is("select") {
					e = &sqlExpr{op: "inq", a: []*sqlExpr{e}, sel: p.sel()}
				} else {
					e = &sqlExpr{op: "any", s: op, a: []*sqlExpr{e, p.expr()}}
				}
				p.need(")")
				continue
			}
			e = &sqlExpr{op: op, a: []*sqlExpr{e, p.add()}}
			continue
		}
		return e
	}
}

func (p *sqlParser) add() *sqlExpr {
	e := p.mul()
	for p.is("+") || p.is("-") || p.is("||") {
		op := p.peek().s
		p.i++
		e = &sqlExpr{op: op, a: []*sqlExpr{e, p.mul()}}
	}
	return e
}

func (p *sqlParser) mul() *sqlExpr {
	e := p.prim()
	for p.is("*") || p.is("/") || p.is("%") {
		op := p.peek().s
		p.i++
		e = &sqlExpr{op: op, a: []*sqlExpr{e, p.prim()}}
	}
	return e
}

func (p *sqlParser) prim() *sqlExpr {
	e := p.prim0()
	for p.eat("::") {
		oid, _ := p.typ()
		e = &sqlExpr{op: "cast", n: oid, a: []*sqlExpr{e}}
	}
	return e
}

func (p *sqlParser) prim0() *sqlExpr {
	t := p.peek()
	switch t.k {
	case 'n':
		p.i++
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			sqlFail("22003", "integer out of range")
		}
		return &sqlExpr{op: "lit", v: n}
	case 's':
		p.i++
		return &sqlExpr{op: "lit", v: t.s}
	case 'p':
		p.i++
		n, _ := strconv.Atoi(t.s)
		return &sqlExpr{op: "param", n: n}
	case 'o':
		if p.eat("-") {
			return &sqlExpr{op: "neg", a: []*sqlExpr{p.prim()}}
		}
		if p.eat("(") {
			if p.is("select") {
				s := p.sel()
				p.need(")")
				return &sqlExpr{op: "sub", sel: s}
			}
			e := p.expr()
			p.need(")")
			return e
		}
	case 'i', 'q':
		if t.k == 'i' {
			switch {
			case p.eat("null"):
				return &sqlExpr{op: "lit"}
			case p.eat("true"):
				return &sqlExpr{op: "lit", v: true}
			case p.eat("false"):
				return &sqlExpr{op: "lit", v: false}
			case p.eat("exists", "("):
				s := p.sel()
				p.need(")")
				return &sqlExpr{op: "exists", sel: s}
			case p.eat("cast", "("):
				e := p.expr()
				p.need("as")
				oid, _ := p.typ()
				p.need(")")
				return &sqlExpr{op: "cast", n: oid, a: []*sqlExpr{e}}
			case p.is("current_schema") && !p.is("current_schema", "("), p.is("current_user"), p.is("current_database") && !p.is("current_database", "("):
				p.i++
				return &sqlExpr{op: "func", s: t.s}
			case p.eat("case"):
				e := &sqlExpr{op: "case"}
				for p.eat("when") {
					c := p.expr()
					p.need("then")
					e.a = append(e.a, c, p.expr())
				}
				if p.eat("else") {
					e.a = append(e.a, p.expr())
				}
				p.need("end")
				return e
			}
			if sqlReserved[t.s] {
				p.bad()
			}
		}
		p.i++
		if p.eat("(") {
			e := &sqlExpr{op: "func", s: t.s}
			p.eat("distinct")
			if p.eat("*") {
				e.a = append(e.a, &sqlExpr{op: "star"})
			} else if !p.is(")") {
				for {
					e.a = append(e.a, p.expr())
					if !p.eat(",") {
						break
					}
				}
			}
			p.need(")")
			return e
		}
		if p.eat(".") {
			return &sqlExpr{op: "col", t: t.s, s: p.name()}
		}
		return &sqlExpr{op: "col", s: t.s}
	}
	p.bad()
	return nil
}

// --- execution -----------------------------------------------------------------

type sqlResult struct {
	cols []string
	oids []int
	rows [][]interface{}
	tag  string
	n    int
}

// a scope holds the current row of every relation of a query
type sqlScope struct {
	rels  []sqlRel
	outer *sqlScope
	group [][]sqlRel // rows of an aggregate
}

type sqlRel struct {
	name string
	cols []sqlCol
	v    []interface{}
	row  *sqlRow
}

func (s *sqlSess) sees(xmin, xmax *sqlTx) bool {
	if xmin.state != 1 && xmin != s.tx {
		return false
	}
	if xmax != nil && (xmax.state == 1 || xmax == s.tx) {
		return false
	}
	return true
}

func (s *sqlSess) table(name string) *sqlTable {
	if name == "information_schema.tables" || name == "pg_catalog.pg_tables" || name == "pg_tables" {
		t := &sqlTable{name: name}
		for _, c := range []string{"table_catalog", "table_schema", "table_name", "table_type", "schemaname", "tablename"} {
			t.cols = append(t.cols, sqlCol{name: c, oid: oidText})
		}
		for _, x := range s.db.tables {
			if s.sees(x.xmin, x.xmax) {
				t.rows = append(t.rows, &sqlRow{v: []interface{}{s.db.name, "public", x.name, "BASE TABLE", "public", x.name}, xmin: x.xmin})
			}
		}
		return t
	}
	for _, x := range s.db.tables {
		if x.name == name && s.sees(x.xmin, x.xmax) {
			return x
		}
	}
	sqlFail("42P01", "relation %q does not exist", name)
	return nil
}

func (s *sqlSess) newTx() *sqlTx {
	s.db.nextTx++
	return &sqlTx{id: s.db.nextTx, done: make(chan struct{})}
}

func (t *sqlTx) finish(state int) {
	if t.state == 0 {
		t.state = state
		close(t.done)
	}
}

func (t *sqlTx) undoStmt() {
	for i := len(t.undo) - 1; i >= 0; i-- {
		t.undo[i]()
	}
	t.undo = nil
}

func (s *sqlSess) rels(sc *sqlScope, st *sqlStmt, f *sqlFrom) (l []sqlRel, cols []sqlCol) {
	if f.sub != nil {
		r := s.query(f.sub, sc)
		for i := range r.cols {
			cols = append(cols, sqlCol{name: r.cols[i], oid: r.oids[i]})
		}
		for _, v := range r.rows {
			l = append(l, sqlRel{name: f.alias, cols: cols, v: v})
		}
		return l, cols
	}
	t := s.table(f.table)
	for _, r := range t.rows {
		if s.sees(r.xmin, r.xmax) {
			l = append(l, sqlRel{name: f.alias, cols: t.cols, v: r.v, row: r})
		}
	}
	return l, t.cols
}

func sqlHasAgg(e *sqlExpr) bool {
	if e == nil {
		return false
	}
	if e.op == "func" {
		switch e.s {
		case "max", "min", "count", "sum":
			return true
		}
	}
	for _, x := range e.a {
		if sqlHasAgg(x) {
			return true
		}
	}
	return false
}

func (s *sqlSess) query(st *sqlStmt, outer *sqlScope) *sqlResult {
	res := &sqlResult{}
	combos := [][]sqlRel{nil}
	var shape []sqlRel
	for i := range st.from {
		f := &st.from[i]
		sc0 := &sqlScope{outer: outer}
		l, cols := s.rels(sc0, st, f)
		shape = append(shape, sqlRel{name: f.alias, cols: cols})
		var next [][]sqlRel
		for _, c := range combos {
			hit := false
			for _, r := range l {
				n := append(append([]sqlRel(nil), c...), r)
				if f.on == nil || sqlTrue(s.eval(f.on, &sqlScope{rels: n, outer: outer})) {
					next = append(next, n)
					hit = true
				}
			}
			if f.left && !hit {
				next = append(next, append(append([]sqlRel(nil), c...), sqlRel{name: f.alias, cols: cols, v: make([]interface{}, len(cols))}))
			}
		}
		combos = next
	}
	if st.where != nil {
		s.check(st.where, &sqlScope{rels: shape, outer: outer})
		var next [][]sqlRel
		for _, c := range combos {
			if sqlTrue(s.eval(st.where, &sqlScope{rels: c, outer: outer})) {
				next = append(next, c)
			}
		}
		combos = next
	}
	shapeSc := &sqlScope{rels: shape, outer: outer}
	agg := false
	for _, it := range st.items {
		if it.e.op == "star" {
			for _, r := range shape {
				if it.e.t != "" && it.e.t != r.name {
					continue
				}
				for _, c := range r.cols {
					res.cols = append(res.cols, c.name)
					res.oids = append(res.oids, c.oid)
				}
			}
			continue
		}
		s.check(it.e, shapeSc)
		n := it.alias
		if n == "" {
			switch it.e.op {
			case "col", "func":
				n = it.e.s
			case "exists":
				n = "exists"
			default:
				n = "?column?"
			}
		}
		res.cols = append(res.cols, n)
		res.oids = append(res.oids, s.oidOf(it.e, shapeSc))
		agg = agg || sqlHasAgg(it.e)
	}
	type outRow struct {
		v    []interface{}
		sc   *sqlScope
		keys []interface{}
	}
	var out []outRow
	emit := func(sc *sqlScope) {
		var v []interface{}
		for _, it := range st.items {
			if it.e.op == "star" {
				for _, r := range sc.rels {
					if it.e.t == "" || it.e.t == r.name {
						v = append(v, r.v...)
					}
				}
				continue
			}
			v = append(v, s.eval(it.e, sc))
		}
		o := outRow{v: v, sc: sc}
		for _, od := range st.order {
			if od.e.op == "lit" {
				if n, ok := od.e.v.(int64); ok && int(n) <= len(v) && n > 0 {
					o.keys = append(o.keys, v[n-1])
					continue
				}
			}
			if od.e.op == "col" && od.e.t == "" {
				found := -1
				for i, it := range st.items {
					if it.alias == od.e.s {
						found = i
					}
				}
				if found >= 0 {
					o.keys = append(o.keys, v[found])
					continue
				}
			}
			o.keys = append(o.keys, s.eval(od.e, sc))
		}
		out = append(out, o)
	}
	if agg {
		emit(&sqlScope{rels: shape, outer: outer, group: append([][]sqlRel{}, combos...)})
	} else {
		for _, c := range combos {
			if st.forUpd {
				for _, r := range c {
					if r.row != nil && r.row.xmax != nil && r.row.xmax.state == 0 && r.row.xmax != s.tx {
						panic(&sqlWait{r.row.xmax})
					}
				}
			}
			emit(&sqlScope{rels: c, outer: outer})
		}
	}
	if st.distinct {
		seen := map[string]bool{}
		var u []outRow
		for _, o := range out {
			k := sqlKey(o.v)
			if !seen[k] {
				seen[k] = true
				u = append(u, o)
			}
		}
		out = u
	}
	if len(st.order) > 0 {
		sort.SliceStable(out, func(i, j int) bool {
			for k, od := range st.order {
				a, b := out[i].keys[k], out[j].keys[k]
				if a == nil || b == nil {
					if (a == nil) != (b == nil) {
						return (b == nil) != od.desc
					}
					continue
				}
				if c := sqlCmp(a, b); c != 0 {
					return (c < 0) != od.desc
				}
			}
			return false
		})
	}
	if st.offset != nil {
		n := sqlInt(s.eval(st.offset, &sqlScope{outer: outer}))
		if int(n) > len(out) {
			n = int64(len(out))
		}
		out = out[n:]
	}
	if st.limit != nil {
		if v := s.eval(st.limit, &sqlScope{outer: outer}); v != nil && int(sqlInt(v)) < len(out) {
			out = out[:sqlInt(v)]
		}
	}
	for _, o := range out {
		res.rows = append(res.rows, o.v)
	}
	res.n = len(res.rows)
	res.tag = fmt.Sprintf("SELECT %d", res.n)
	return res
}

// check resolves every column name, so that errors do not depend on the rows.
func (s *sqlSess) check(e *sqlExpr, sc *sqlScope) {
	if e == nil {
		return
	}
	if e.op == "col" {
		sc.find(e)
	}
	for _, x := range e.a {
		if x.op != "star" {
			s.check(x, sc)
		}
	}
}

func (sc *sqlScope) find(e *sqlExpr) (*sqlRel, int) {
	for x := sc; x != nil; x = x.outer {
		var hit *sqlRel
		at := -1
		for i := range x.rels {
			r := &x.rels[i]
			if e.t != "" && e.t != r.name {
				continue
			}
			for k := range r.cols {
				if r.cols[k].name == e.s {
					if hit != nil {
						sqlFail("42702", "column reference %q is ambiguous", e.s)
					}
					hit, at = r, k
				}
			}
		}
		if hit != nil {
			return hit, at
		}
	}
	sqlFail("42703", "column %q does not exist", e.s)
	return nil, 0
}

func (s *sqlSess) oidOf(e *sqlExpr, sc *sqlScope) int {
	switch e.op {
	case "lit":
		switch e.v.(type) {
		case int64:
			return oidInt4
		case bool:
			return oidBool
		}
		return oidText
	case "param":
		if e.n-1 < len(s.poids) && s.poids[e.n-1] != 0 {
			return s.poids[e.n-1]
		}
		return oidText
	case "col":
		r, i := sc.find(e)
		return r.cols[i].oid
	case "cast":
		return e.n
	case "neg", "+", "-", "*", "/", "%":
		return s.oidOf(e.a[0], sc)
	case "||":
		return oidText
	case "sub":
		return s.describeSel(e.sel, sc).oids[0]
	case "case":
		return s.oidOf(e.a[1], sc)
	case "func":
		switch e.s {
		case "count", "sum":
			return oidInt8
		case "max", "min", "coalesce", "greatest", "least":
			return s.oidOf(e.a[0], sc)
		case "length", "octet_length":
			return oidInt4
		case "current_database", "current_schema", "current_user", "encode", "lower", "upper":
			return oidText
		case "pg_advisory_lock", "pg_advisory_xact_lock":
			return oidVoid
		case "pg_advisory_unlock", "pg_try_advisory_lock":
			return oidBool
		case "decode":
			return oidBytea
		case "version":
			return oidText
		}
		sqlFail("42883", "function %s does not exist", e.s)
	}
	return oidBool
}

func (s *sqlSess) describeSel(st *sqlStmt, outer *sqlScope) *sqlResult {
	res := &sqlResult{}
	var shape []sqlRel
	for i := range st.from {
		f := &st.from[i]
		if f.sub != nil {
			r := s.describeSel(f.sub, outer)
			var cols []sqlCol
			for k := range r.cols {
				cols = append(cols, sqlCol{name: r.cols[k], oid: r.oids[k]})
			}
			shape = append(shape, sqlRel{name: f.alias, cols: cols})
			continue
		}
		shape = append(shape, sqlRel{name: f.alias, cols: s.table(f.table).cols})
	}
	sc := &sqlScope{rels: shape, outer: outer}
	s.inferFrom(st, sc)
	s.itemShape(st.items, sc, res)
	return res
}

func (s *sqlSess) itemShape(items []sqlItem, sc *sqlScope, res *sqlResult) {
	for _, it := range items {
		if it.e.op == "star" {
			for _, r := range sc.rels {
				if it.e.t == "" || it.e.t == r.name {
					for _, c := range r.cols {
						res.cols = append(res.cols, c.name)
						res.oids = append(res.oids, c.oid)
					}
				}
			}
			continue
		}
		n := it.alias
		if n == "" {
			n = "?column?"
			if it.e.op == "col" || it.e.op == "func" {
				n = it.e.s
			} else if it.e.op == "exists" {
				n = "exists"
			}
		}
		res.cols = append(res.cols, n)
		res.oids = append(res.oids, s.oidOf(it.e, sc))
	}
}

func (s *sqlSess) inferFrom(st *sqlStmt, sc *sqlScope) {
	s.infer(st.where, sc, oidBool)
	for _, f := range st.from {
		s.infer(f.on, sc, oidBool)
	}
	for _, it := range st.items {
		if it.e.op != "star" {
			s.infer(it.e, sc, oidText)
		}
	}
	for _, o := range st.order {
		s.infer(o.e, sc, oidText)
	}
	s.infer(st.limit, sc, oidInt8)
	s.infer(st.offset, sc, oidInt8)
}

// infer gives every parameter the type its context asks for.
func (s *sqlSess) infer(e *sqlExpr, sc *sqlScope, want int) {
	if e == nil {
		return
	}
	switch e.op {
	case "param":
		for len(s.poids) < e.n {
			s.poids = append(s.poids, 0)
		}
		if s.poids[e.n-1] == 0 {
			s.poids[e.n-1] = want
		}
	case "and", "or", "not":
		for _, x := range e.a {
			s.infer(x, sc, oidBool)
		}
	case "cast":
		s.infer(e.a[0], sc, e.n)
	case "in", "between", "=", "<>", "<", ">", "<=", ">=", "+", "-", "*", "/", "%":
		t := 0
		for _, x := range e.a {
			if x.op != "param" && x.op != "lit" {
				t = s.oidOf(x, sc)
			}
		}
		if t == 0 {
			t = oidText
			for _, x := range e.a {
				if x.op == "lit" {
					t = s.oidOf(x, sc)
				}
			}
		}
		for _, x := range e.a {
			s.infer(x, sc, t)
		}
	case "any":
		s.infer(e.a[0], sc, oidText)
		s.infer(e.a[1], sc, oidText)
	case "inq":
		r := s.describeSel(e.sel, sc)
		s.infer(e.a[0], sc, r.oids[0])
	case "exists", "sub":
		s.describeSel(e.sel, sc)
	case "func":
		t := want
		switch e.s {
		case "pg_advisory_lock", "pg_advisory_unlock", "pg_try_advisory_lock", "pg_advisory_xact_lock":
			t = oidInt8
		}
		for _, x := range e.a {
			if x.op != "star" {
				s.infer(x, sc, t)
			}
		}
	default:
		for _, x := range e.a {
			s.infer(x, sc, want)
		}
	}
}

// describe returns the parameter types and the result columns of a statement.
func (s *sqlSess) describe(st *sqlStmt) (poids []int, res *sqlResult) {
	s.poids = nil
	switch st.kind {
	case "select":
		res = s.describeSel(st, nil)
	case "insert":
		t := s.table(st.table)
		cols := st.cols
		if cols == nil {
			for _, c := range t.cols {
				cols = append(cols, c.name)
			}
		}
		for _, r := range st.rows {
			for i, e := range r {
				if i < len(cols) && t.col(cols[i]) >= 0 {
					s.infer(e, &sqlScope{}, t.cols[t.col(cols[i])].oid)
				}
			}
		}
		sc := &sqlScope{rels: []sqlRel{{name: st.table, cols: t.cols}}}
		if st.sel != nil {
			for i, it := range st.sel.items {
				if it.e.op == "param" && i < len(cols) && t.col(cols[i]) >= 0 {
					s.infer(it.e, &sqlScope{}, t.cols[t.col(cols[i])].oid)
				}
			}
			s.describeSel(st.sel, nil)
		}
		s.setShape(st, t, sc)
		res = s.retShape(st, sc)
	case "update":
		t := s.table(st.table)
		sc := &sqlScope{rels: []sqlRel{{name: st.table, cols: t.cols}}}
		s.setShape(st, t, sc)
		s.infer(st.where, sc, oidBool)
		res = s.retShape(st, sc)
	case "delete":
		t := s.table(st.table)
		sc := &sqlScope{rels: []sqlRel{{name: st.table, cols: t.cols}}}
		s.infer(st.where, sc, oidBool)
		res = s.retShape(st, sc)
	}
	return s.poids, res
}

func (s *sqlSess) setShape(st *sqlStmt, t *sqlTable, sc *sqlScope) {
	for _, x := range st.sets {
		if i := t.col(x.col); i >= 0 {
			s.infer(x.e, &sqlScope{rels: append([]sqlRel{{name: "excluded", cols: nil}}, sc.rels...)}, t.cols[i].oid)
		}
	}
}

func (s *sqlSess) retShape(st *sqlStmt, sc *sqlScope) *sqlResult {
	if st.returning == nil {
		return nil
	}
	res := &sqlResult{}
	s.itemShape(st.returning, sc, res)
	return res
}

func sqlTrue(v interface{}) bool { b, ok := v.(bool); return ok && b }

func sqlInt(v interface{}) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case string:
		n, err := strconv.ParseInt(strings.TrimSpace(x), 10, 64)
		if err != nil {
			sqlFail("22P02", "invalid input syntax for type integer: %q", x)
		}
		return n
	}
	sqlFail("42804", "integer expected")
	return 0
}

func sqlCmp(a, b interface{}) int {
	switch x := a.(type) {
	case int64:
		y := sqlInt(b)
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	case string:
		switch y := b.(type) {
		case string:
			return strings.Compare(x, y)
		case int64:
			return -sqlCmp(y, x)
		case []byte:
			return bytes.Compare(sqlConv(x, oidBytea).([]byte), y)
		}
	case []byte:
		if y, ok := b.([]byte); ok {
			return bytes.Compare(x, y)
		}
		return bytes.Compare(x, sqlConv(b, oidBytea).([]byte))
	case bool:
		if y, ok := b.(bool); ok {
			if x == y {
				return 0
			} else if y {
				return -1
			}
			return 1
		}
	}
	sqlFail("42883", "operator does not exist: %T and %T", a, b)
	return 0
}

// sqlConv converts a value to a type.
func sqlConv(v interface{}, oid int) interface{} {
	if v == nil {
		return nil
	}
	switch oid {
	case oidInt4, oidInt8:
		if b, ok := v.([]byte); ok {
			v = string(b)
		}
		n := sqlInt(v)
		if oid == oidInt4 && (n > 1<<31-1 || n < -1<<31) {
			sqlFail("22003", "value %d is out of range for type integer", n)
		}
		return n
	case oidBytea:
		switch x := v.(type) {
		case []byte:
			return x
		case string:
			if strings.HasPrefix(x, "\\x") {
				b, err := hex.DecodeString(x[2:])
				if err != nil {
					sqlFail("22P02", "invalid hexadecimal digit")
				}
				return b
			}
			var b []byte
			for i := 0; i < len(x); i++ {
				if x[i] == '\\' {
					if i+1 < len(x) && x[i+1] == '\\' {
						b = append(b, '\\')
						i++
						continue
					}
					if i+3 < len(x) {
						n, err := strconv.ParseUint(x[i+1:i+4], 8, 8)
						if err == nil {
							b = append(b, byte(n))
							i += 3
							continue
						}
					}
					sqlFail("22P02", "invalid input syntax for type bytea")
				}
				b = append(b, x[i])
			}
			return b
		}
	case oidText, oidVarchar, oidName:
		switch x := v.(type) {
		case string:
			return x
		case int64:
			return strconv.FormatInt(x, 10)
		case bool:
			return strconv.FormatBool(x)
		case []byte:
			return "\\x" + hex.EncodeToString(x)
		}
	case oidBool:
		switch x := v.(type) {
		case bool:
			return x
		case int64:
			return x != 0
		case string:
			switch strings.ToLower(x) {
			case "t", "true", "1", "on", "yes":
				return true
			case "f", "false", "0", "off", "no":
				return false
			}
			sqlFail("22P02", "invalid input syntax for type boolean: %q", x)
		}
	case oidVoid, 0:
		return v
	}
	sqlFail("42804", "cannot convert %T to type %d", v, oid)
	return nil
}

func sqlKey(v []interface{}) string {
	var b strings.Builder
	for _, x := range v {
		fmt.Fprintf(&b, "%T:%v|", x, x)
	}
	return b.String()
}

func (s *sqlSess) eval(e *sqlExpr, sc *sqlScope) interface{} {
	switch e.op {
	case "lit":
		return e.v
	case "param":
		if e.n > len(s.params) {
			sqlFail("08P01", "parameter $%d is missing", e.n)
		}
		return s.params[e.n-1]
	case "col":
		r, i := sc.find(e)
		if r.v == nil {
			return nil
		}
		return r.v[i]
	case "not":
		v := s.eval(e.a[0], sc)
		if v == nil {
			return nil
		}
		return !sqlTrue(v)
	case "and":
		a, b := s.eval(e.a[0], sc), s.eval(e.a[1], sc)
		if a == false || b == false {
			return false
		}
		if a == nil || b == nil {
			return nil
		}
		return true
	case "or":
		a, b := s.eval(e.a[0], sc), s.eval(e.a[1], sc)
		if a == true || b == true {
			return true
		}
		if a == nil || b == nil {
			return nil
		}
		return false
	case "neg":
		v := s.eval(e.a[0], sc)
		if v == nil {
			return nil
		}
		return -sqlInt(v)
	case "=", "<>", "<", ">", "<=", ">=":
		a, b := s.eval(e.a[0], sc), s.eval(e.a[1], sc)
		if a == nil || b == nil {
			return nil
		}
		return sqlRelop(e.op, sqlCmp(a, b))
	case "+", "-", "*", "/", "%":
		a, b := s.eval(e.a[0], sc), s.eval(e.a[1], sc)
		if a == nil || b == nil {
			return nil
		}
		x, y := sqlInt(a), sqlInt(b)
		switch e.op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		}
		if y == 0 {
			sqlFail("22012", "division by zero")
		}
		if e.op == "/" {
			return x / y
		}
		return x % y
	case "||":
		a, b := s.eval(e.a[0], sc), s.eval(e.a[1], sc)
		if a == nil || b == nil {
			return nil
		}
		return sqlConv(a, oidText).(string) + sqlConv(b, oidText).(string)
	case "isnull":
		return (s.eval(e.a[0], sc) == nil) != e.neg
	case "between":
		v, lo, hi := s.eval(e.a[0], sc), s.eval(e.a[1], sc), s.eval(e.a[2], sc)
		if v == nil || lo == nil || hi == nil {
			return nil
		}
		return (sqlCmp(v, lo) >= 0 && sqlCmp(v, hi) <= 0) != e.neg
	case "in", "inq":
		v := s.eval(e.a[0], sc)
		if v == nil {
			return nil
		}
		var l []interface{}
		if e.op == "inq" {
			for _, r := range s.query(e.sel, sc).rows {
				l = append(l, r[0])
			}
		} else {
			for _, x := range e.a[1:] {
				l = append(l, s.eval(x, sc))
			}
		}
		null := false
		for _, x := range l {
			if x == nil {
				null = true
			} else if sqlCmp(v, x) == 0 {
				return !e.neg
			}
		}
		if null {
			return nil
		}
		return e.neg
	case "any":
		v, arr := s.eval(e.a[0], sc), s.eval(e.a[1], sc)
		if v == nil || arr == nil {
			return nil
		}
		for _, x := range sqlArray(arr) {
			if sqlRelop(e.s, sqlCmp(v, x)) {
				return true
			}
		}
		return false
	case "exists":
		return len(s.query(e.sel, sc).rows) > 0
	case "sub":
		r := s.query(e.sel, sc)
		if len(r.rows) > 1 {
			sqlFail("21000", "more than one row returned by a subquery used as an expression")
		}
		if len(r.rows) == 0 {
			return nil
		}
		return r.rows[0][0]
	case "cast":
		return sqlConv(s.eval(e.a[0], sc), e.n)
	case "case":
		i := 0
		for ; i+1 < len(e.a); i += 2 {
			if sqlTrue(s.eval(e.a[i], sc)) {
				return s.eval(e.a[i+1], sc)
			}
		}
		if i < len(e.a) {
			return s.eval(e.a[i], sc)
		}
		return nil
	case "func":
		return s.call(e, sc)
	}
	sqlFail("42601", "unsupported expression %s", e.op)
	return nil
}

func sqlRelop(op string, c int) bool {
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	}
	return c >= 0
}

func sqlArray(v interface{}) (l []interface{}) {
	x, ok := v.(string)
	if !ok || len(x) < 2 || x[0] != '{' {
		sqlFail("22P02", "malformed array literal")
	}
	x = x[1 : len(x)-1]
	if x == "" {
		return nil
	}
	for _, p := range strings.Split(x, ",") {
		l = append(l, strings.ReplaceAll(strings.Trim(p, "\""), "\\\\", "\\"))
	}
	return l
}

func (s *sqlSess) call(e *sqlExpr, sc *sqlScope) interface{} {
	if sqlHasAgg(&sqlExpr{op: "func", s: e.s}) {
		if sc.group == nil {
			sqlFail("42803", "aggregate functions are not allowed here")
		}
		var best interface{}
		n, sum := int64(0), int64(0)
		for _, g := range sc.group {
			var v interface{} = int64(1)
			if len(e.a) > 0 && e.a[0].op != "star" {
				v = s.eval(e.a[0], &sqlScope{rels: g, outer: sc.outer})
			}
			if v == nil {
				continue
			}
			n++
			if e.s == "sum" {
				sum += sqlInt(v)
			}
			if best == nil || e.s == "max" && sqlCmp(v, best) > 0 || e.s == "min" && sqlCmp(v, best) < 0 {
				best = v
			}
		}
		switch e.s {
		case "count":
			return n
		case "sum":
			if n == 0 {
				return nil
			}
			return sum
		}
		return best
	}
	var a []interface{}
	for _, x := range e.a {
		a = append(a, s.eval(x, sc))
	}
	switch e.s {
	case "coalesce":
		for _, v := range a {
			if v != nil {
				return v
			}
		}
		return nil
	case "greatest", "least":
		var best interface{}
		for _, v := range a {
			if v != nil && (best == nil || (sqlCmp(v, best) > 0) == (e.s == "greatest")) {
				best = v
			}
		}
		return best
	case "length", "octet_length":
		switch x := a[0].(type) {
		case nil:
			return nil
		case []byte:
			return int64(len(x))
		case string:
			return int64(len(x))
		}
	case "lower", "upper":
		if a[0] == nil {
			return nil
		}
		if e.s == "lower" {
			return strings.ToLower(sqlConv(a[0], oidText).(string))
		}
		return strings.ToUpper(sqlConv(a[0], oidText).(string))
	case "encode":
		if a[0] == nil {
			return nil
		}
		return hex.EncodeToString(sqlConv(a[0], oidBytea).([]byte))
	case "decode":
		if a[0] == nil {
			return nil
		}
		b, err := hex.DecodeString(sqlConv(a[0], oidText).(string))
		if err != nil {
			sqlFail("22P02", "invalid hexadecimal digit")
		}
		return b
	case "current_database":
		return s.db.name
	case "current_schema":
		return "public"
	case "current_user":
		return "root"
	case "version":
		return "PostgreSQL 13.4"
	case "pg_advisory_lock", "pg_advisory_xact_lock", "pg_try_advisory_lock":
		k := sqlInt(a[0])
		if o := s.db.locks[k]; o != nil && o != s {
			if e.s == "pg_try_advisory_lock" {
				return false
			}
			panic(&sqlWait{o.sessTx()})
		}
		s.db.locks[k] = s
		s.lockN[k]++
		s.sessTx()
		if e.s == "pg_try_advisory_lock" {
			return true
		}
		return ""
	case "pg_advisory_unlock":
		k := sqlInt(a[0])
		if s.db.locks[k] != s {
			return false
		}
		s.lockN[k]--
		if s.lockN[k] <= 0 {
			s.unlock(k)
		}
		return true
	}
	sqlFail("42883", "function %s does not exist", e.s)
	return nil
}

// sessTx stands for the session's advisory locks in waits.
func (s *sqlSess) sessTx() *sqlTx {
	if s.now == nil {
		s.now = s.newTx()
	}
	return s.now
}

func (s *sqlSess) unlock(k int64) {
	delete(s.db.locks, k)
	delete(s.lockN, k)
	if s.now != nil {
		s.now.finish(1)
		s.now = nil
	}
}

// --- writing ---------------------------------------------------------------------

func (t *sqlTable) key(u int, v []interface{}) (string, bool) {
	k := make([]interface{}, 0, 2)
	for _, c := range t.uniq[u].cols {
		if v[c] == nil {
			return "", false
		}
		k = append(k, v[c])
	}
	return sqlKey(k), true
}

// conflict looks for a live row with the same key; it throws sqlWait if another
// transaction has to decide first.
func (s *sqlSess) conflict(t *sqlTable, u int, v []interface{}, self *sqlRow) *sqlRow {
	k, ok := t.key(u, v)
	if !ok {
		return nil
	}
	for _, r := range t.index[u][k] {
		if r == self || r.xmin.state == 2 {
			continue
		}
		if r.xmin.state == 0 && r.xmin != s.tx {
			panic(&sqlWait{r.xmin})
		}
		if r.xmax != nil && r.xmax.state != 2 {
			if r.xmax.state == 1 || r.xmax == s.tx {
				continue
			}
			panic(&sqlWait{r.xmax})
		}
		return r
	}
	return nil
}

func (s *sqlSess) put(t *sqlTable, v []interface{}) *sqlRow {
	for i, c := range t.cols {
		if v[i] == nil && c.notNull {
			sqlFail("23502", "null value in column %q violates not-null constraint", c.name)
		}
		if x, ok := v[i].(string); ok && c.limit > 0 && len(x) > c.limit {
			sqlFail("22001", "value too long for type character varying(%d)", c.limit)
		}
	}
	r := &sqlRow{v: v, xmin: s.tx}
	t.rows = append(t.rows, r)
	for u := range t.uniq {
		if k, ok := t.key(u, v); ok {
			t.index[u][k] = append(t.index[u][k], r)
		}
	}
	tx := s.tx
	tx.writes++
	tx.undo = append(tx.undo, func() { t.drop(r) })
	return r
}

func (t *sqlTable) drop(r *sqlRow) {
	for i := len(t.rows) - 1; i >= 0; i-- {
		if t.rows[i] == r {
			t.rows = append(t.rows[:i], t.rows[i+1:]...)
			break
		}
	}
	for u := range t.uniq {
		if k, ok := t.key(u, r.v); ok {
			l := t.index[u][k]
			for i := range l {
				if l[i] == r {
					t.index[u][k] = append(append([]*sqlRow(nil), l[:i]...), l[i+1:]...)
					break
				}
			}
		}
	}
}

// kill marks a row as deleted by the transaction.
func (s *sqlSess) kill(r *sqlRow) {
	if r.xmax != nil && r.xmax.state == 0 && r.xmax != s.tx {
		panic(&sqlWait{r.xmax})
	}
	old := r.xmax
	r.xmax = s.tx
	s.tx.writes++
	s.tx.undo = append(s.tx.undo, func() { r.xmax = old })
}

func (s *sqlSess) insert(st *sqlStmt) *sqlResult {
	t := s.table(st.table)
	cols := st.cols
	if cols == nil {
		for _, c := range t.cols {
			cols = append(cols, c.name)
		}
	}
	idx := make([]int, len(cols))
	for i, c := range cols {
		if idx[i] = t.col(c); idx[i] < 0 {
			sqlFail("42703", "column %q of relation %q does not exist", c, t.name)
		}
	}
	arb := -1
	if st.conflict && (st.confCols != nil || st.confName != "") {
		for u := range t.uniq {
			if st.confName != "" && t.uniq[u].name == st.confName {
				arb = u
			}
			if len(st.confCols) == len(t.uniq[u].cols) && len(st.confCols) > 0 {
				same := true
				for _, c := range t.uniq[u].cols {
					in := false
					for _, n := range st.confCols {
						in = in || n == t.cols[c].name
					}
					same = same && in
				}
				if same {
					arb = u
				}
			}
		}
		if arb < 0 {
			sqlFail("42P10", "there is no unique or exclusion constraint matching the ON CONFLICT specification")
		}
	}
	var vals [][]interface{}
	if st.sel != nil {
		for _, r := range s.query(st.sel, nil).rows {
			vals = append(vals, r)
		}
	}
	for _, r := range st.rows {
		var v []interface{}
		for _, e := range r {
			v = append(v, s.eval(e, &sqlScope{}))
		}
		vals = append(vals, v)
	}
	res := &sqlResult{}
	ret := func(r *sqlRow) {
		res.n++
		if st.returning != nil {
			s.returnRow(st, t, r, res)
		}
	}
	for _, in := range vals {
		if len(in) > len(idx) {
			sqlFail("42601", "INSERT has more expressions than target columns")
		}
		v := make([]interface{}, len(t.cols))
		given := make([]bool, len(t.cols))
		for i, x := range in {
			v[idx[i]] = sqlConv(x, t.cols[idx[i]].oid)
			given[idx[i]] = true
		}
		for i := range v {
			if !given[i] && t.cols[i].def != nil {
				v[i] = sqlConv(s.eval(t.cols[i].def, &sqlScope{}), t.cols[i].oid)
			}
		}
		for i, c := range t.cols {
			if v[i] == nil && c.notNull {
				sqlFail("23502", "null value in column %q violates not-null constraint", c.name)
			}
		}
		var hit *sqlRow
		if st.conflict {
			for u := range t.uniq {
				if arb >= 0 && u != arb {
					continue
				}
				if hit = s.conflict(t, u, v, nil); hit != nil {
					break
				}
			}
		}
		if hit != nil {
			if st.sets == nil {
				continue
			}
			sc := &sqlScope{rels: []sqlRel{{name: "excluded", cols: t.cols, v: v}}, outer: &sqlScope{rels: []sqlRel{{name: t.name, cols: t.cols, v: hit.v}}}}
			own := &sqlScope{rels: []sqlRel{{name: t.name, cols: t.cols, v: hit.v}}, outer: sc}
			if st.confWhere != nil && !sqlTrue(s.eval(st.confWhere, own)) {
				continue
			}
			if hit.xmin == s.tx {
				// PostgreSQL refuses only rows of the same command; this is close enough
			}
			ret(s.updateRow(t, hit, st.sets, own))
			continue
		}
		for u := range t.uniq {
			if c := s.conflict(t, u, v, nil); c != nil {
				sqlFail("23505", "duplicate key value violates unique constraint %q", t.uniq[u].name)
			}
		}
		ret(s.put(t, v))
	}
	res.tag = fmt.Sprintf("INSERT 0 %d", res.n)
	return res
}

func (s *sqlSess) returnRow(st *sqlStmt, t *sqlTable, r *sqlRow, res *sqlResult) {
	sc := &sqlScope{rels: []sqlRel{{name: t.name, cols: t.cols, v: r.v}}}
	if res.cols == nil {
		s.itemShape(st.returning, sc, res)
	}
	var v []interface{}
	for _, it := range st.returning {
		if it.e.op == "star" {
			v = append(v, r.v...)
		} else {
			v = append(v, s.eval(it.e, sc))
		}
	}
	res.rows = append(res.rows, v)
}

func (s *sqlSess) updateRow(t *sqlTable, r *sqlRow, sets []sqlSet, sc *sqlScope) *sqlRow {
	v := append([]interface{}(nil), r.v...)
	for _, x := range sets {
		i := t.col(x.col)
		if i < 0 {
			sqlFail("42703", "column %q of relation %q does not exist", x.col, t.name)
		}
		v[i] = sqlConv(s.eval(x.e, sc), t.cols[i].oid)
	}
	s.kill(r)
	for u := range t.uniq {
		if c := s.conflict(t, u, v, r); c != nil {
			sqlFail("23505", "duplicate key value violates unique constraint %q", t.uniq[u].name)
		}
	}
	return s.put(t, v)
}

func (s *sqlSess) run(st *sqlStmt) *sqlResult {
	switch st.kind {
	case "select":
		return s.query(st, nil)
	case "insert":
		return s.insert(st)
	case "update", "delete", "truncate":
		t := s.table(st.table)
		res := &sqlResult{tag: "TRUNCATE TABLE"}
		var hit []*sqlRow
		if st.where != nil {
			s.check(st.where, &sqlScope{rels: []sqlRel{{name: t.name, cols: t.cols}}})
		}
		for _, r := range t.rows {
			if !s.sees(r.xmin, r.xmax) {
				continue
			}
			if st.where != nil && !sqlTrue(s.eval(st.where, &sqlScope{rels: []sqlRel{{name: t.name, cols: t.cols, v: r.v}}})) {
				continue
			}
			hit = append(hit, r)
		}
		for _, r := range hit {
			out := r
			if st.kind == "update" {
				out = s.updateRow(t, r, st.sets, &sqlScope{rels: []sqlRel{{name: t.name, cols: t.cols, v: r.v}}})
			} else {
				s.kill(r)
			}
			res.n++
			if st.returning != nil {
				s.returnRow(st, t, out, res)
			}
		}
		if st.kind != "truncate" {
			res.tag = fmt.Sprintf("%s %d", strings.ToUpper(st.kind), res.n)
		}
		return res
	case "create":
		for _, x := range s.db.tables {
			if x.name != st.table || x.xmin.state == 2 {
				continue
			}
			if x.xmin.state == 0 && x.xmin != s.tx {
				panic(&sqlWait{x.xmin})
			}
			if s.sees(x.xmin, x.xmax) {
				if st.ifNot {
					return &sqlResult{tag: "CREATE TABLE"}
				}
				sqlFail("42P07", "relation %q already exists", st.table)
			}
		}
		d := *st.def
		d.rows, d.xmin, d.xmax = nil, s.tx, nil
		d.index = nil
		for range d.uniq {
			d.index = append(d.index, map[string][]*sqlRow{})
		}
		s.db.tables = append(s.db.tables, &d)
		s.tx.writes++
		p := &d
		s.tx.undo = append(s.tx.undo, func() { p.xmin = &sqlTx{state: 2} })
		return &sqlResult{tag: "CREATE TABLE"}
	case "index":
		t := s.table(st.table)
		if st.uniqIdx != nil {
			t.addUnique(st.uniqIdx, false)
			u := len(t.uniq) - 1
			for _, r := range t.rows {
				if k, ok := t.key(u, r.v); ok {
					t.index[u][k] = append(t.index[u][k], r)
				}
			}
		}
		return &sqlResult{tag: "CREATE INDEX"}
	case "drop":
		for _, x := range s.db.tables {
			if x.name == st.table && s.sees(x.xmin, x.xmax) {
				x.xmax = s.tx
				return &sqlResult{tag: "DROP TABLE"}
			}
		}
		if !st.ifNot {
			sqlFail("42P01", "table %q does not exist", st.table)
		}
		return &sqlResult{tag: "DROP TABLE"}
	case "set":
		return &sqlResult{tag: "SET"}
	}
	sqlFail("0A000", "%s is not supported", st.kind)
	return nil
}
