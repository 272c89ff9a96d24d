// Package sq: the indexes that are stored in SQLite databases (C03, C04, C09, C10, C29).
package sq

import (
	"context"
	"database/sql/driver"
	"errors"
	"io"
	"os"
	"strconv"
	"strings"

	sqlite3 "github.com/mattn/go-sqlite3"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// A model of SQLite and of its driver. The symbolic execution uses it in place of the C library;
// replays use the C library itself. Everything above the driver, including database/sql, is real.

type value interface{} // nil, int64, float64, string or []byte

type column struct {
	name     string
	decl     string
	collate  string
	affinity byte // 'i'nteger, 'n'umeric, 't'ext, 'r'eal or 'b'lob
	notNull  bool
}

type uniqueIndex struct {
	name   string
	cols   []int
	unique bool
}

type table struct {
	name    string
	cols    []column
	rows    [][]value // with the row number after the columns
	fts     bool
	pk      int // the column that is the row number, plus one
	next    int64
	indexes []uniqueIndex
}

type database struct {
	tables   []*table
	readers  []*conn // one entry per open cursor
	writer   *conn   // inside of a transaction
	snapshot []*table
}

var databases = map[string]*database{}

type conn struct {
	db      *database
	file    *os.File
	inTx    bool
	journal bool
	closed  bool
}

//sym:redirect (github.com/mattn/go-sqlite3.SQLiteDriver).Open
func driverOpen(d sqlite3.SQLiteDriver, dsn string) (driver.Conn, error) {
	path := strings.TrimPrefix(dsn, "file:")
	if i := strings.IndexByte(path, '?'); i >= 0 {
		if strings.Contains(path[i:], "cache=shared") {
			zzrt.Unsupported("shared cache")
		}
		if strings.Contains(path[i:], "mode=memory") {
			path = ":memory:"
		} else {
			path = path[:i]
		}
	}
	if path == ":memory:" || path == "" {
		return &conn{db: &database{}, journal: true}, nil
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, errors.New("unable to open database file")
	}
	if databases[path] == nil {
		databases[path] = &database{}
	}
	return &conn{db: databases[path], file: f, journal: true}, nil
}

func (c *conn) Close() error {
	if c.closed {
		return nil
	}
	c.closed = true
	if c.inTx {
		c.rollback()
	}
	var left []*conn
	for _, r := range c.db.readers {
		if r != c {
			left = append(left, r)
		}
	}
	c.db.readers = left
	if c.file != nil {
		return c.file.Close()
	}
	return nil
}

func copyTables(all []*table) []*table {
	var out []*table
	for _, t := range all {
		n := *t
		n.rows = append([][]value{}, t.rows...)
		out = append(out, &n)
	}
	return out
}

func (c *conn) rollback() {
	c.inTx = false
	if c.db.writer == c {
		if !c.journal {
			zzrt.Unsupported("rollback without a journal")
		}
		c.db.tables, c.db.writer, c.db.snapshot = c.db.snapshot, nil, nil
	}
}

func (c *conn) commit() {
	c.inTx = false
	if c.db.writer == c {
		c.db.writer, c.db.snapshot = nil, nil
	}
}

// tables as the connection sees them
func (c *conn) tables() []*table {
	if c.db.writer != nil && c.db.writer != c {
		return c.db.snapshot
	}
	return c.db.tables
}

var errLocked = errors.New("database is locked")

// write prepares a change.
func (c *conn) write() error {
	if c.db.writer != nil && c.db.writer != c {
		return errLocked
	}
	for _, r := range c.db.readers {
		if r != c {
			return errLocked
		}
	}
	if c.inTx && c.db.writer == nil {
		c.db.snapshot = copyTables(c.db.tables)
		c.db.writer = c
	}
	return nil
}

func (c *conn) find(name string) *table {
	for _, t := range c.tables() {
		if same(t.name, name) {
			return t
		}
	}
	return nil
}

func same(a, b string) bool { return zzrt.LowerASCII(a) == zzrt.LowerASCII(b) }

type tx struct{ c *conn }

func (t tx) Commit() error   { t.c.commit(); return nil }
func (t tx) Rollback() error { t.c.rollback(); return nil }

func (c *conn) Begin() (driver.Tx, error) {
	if c.inTx {
		return nil, errors.New("cannot start a transaction within a transaction")
	}
	c.inTx = true
	return tx{c}, nil
}

type stmt struct {
	c     *conn
	query string
	nargs int
}

func (c *conn) Prepare(query string) (driver.Stmt, error) {
	toks, err := tokens(query)
	if err != nil {
		return nil, err
	}
	p := &parser{c: c, toks: toks}
	if _, err := p.statement(); err != nil {
		return nil, err
	}
	return &stmt{c, query, p.params}, nil
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return s.nargs }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.c.exec(s.query, args, true)
}
func (s *stmt) Query(args []driver.Value) (driver.Rows, error) { return s.c.query(s.query, args, true) }

func plain(args []driver.NamedValue) []driver.Value {
	out := make([]driver.Value, len(args))
	for i, a := range args {
		if a.Name != "" {
			zzrt.Unsupported("named parameter")
		}
		out[i] = a.Value
	}
	return out
}

func (c *conn) ExecContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Result, error) {
	return c.exec(query, plain(args), false)
}

func (c *conn) QueryContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	return c.query(query, plain(args), false)
}

// run executes the statements of a text one after the other, or only the first one.
func (c *conn) run(query string, args []driver.Value, one bool) (*result, error) {
	toks, err := tokens(query)
	if err != nil {
		return nil, err
	}
	p := &parser{c: c, toks: toks}
	last := &result{}
	for {
		for p.is(";") {
			p.at++
		}
		if p.at >= len(p.toks) {
			return last, nil
		}
		before := p.params
		do, err := p.statement()
		if err != nil {
			return nil, err
		}
		if len(args) < p.params {
			return nil, errors.New("not enough args to execute query")
		}
		bound := make([]value, 0, len(args))
		for _, a := range args[before:p.params] {
			switch a := a.(type) {
			case nil, int64, float64, string:
				bound = append(bound, a)
			case bool:
				bound = append(bound, map[bool]value{true: int64(1), false: int64(0)}[a])
			case []byte:
				bound = append(bound, a)
			default:
				zzrt.Unsupported("type of an argument")
			}
		}
		if hook != nil {
			if err := hook(); err != nil {
				return nil, err
			}
		}
		r, err := do(bound)
		if err != nil {
			return nil, err
		}
		last = r
		if one {
			return last, nil
		}
	}
}

func (c *conn) exec(query string, args []driver.Value, one bool) (driver.Result, error) {
	r, err := c.run(query, args, one)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(r.affected), nil
}

type result struct {
	names    []string
	decls    []string
	rows     [][]value
	affected int64
}

type cursor struct {
	c      *conn
	r      *result
	at     int
	closed bool
}

func (c *conn) query(query string, args []driver.Value, one bool) (driver.Rows, error) {
	r, err := c.run(query, args, one)
	if err != nil {
		return nil, err
	}
	cur := &cursor{c: c, r: r}
	c.db.readers = append(c.db.readers, c)
	return cur, nil
}

func (r *cursor) Columns() []string { return r.r.names }

func (r *cursor) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	for i, c := range r.c.db.readers {
		if c == r.c {
			r.c.db.readers = append(append([]*conn{}, r.c.db.readers[:i]...), r.c.db.readers[i+1:]...)
			break
		}
	}
	return nil
}

func (r *cursor) Next(dest []driver.Value) error {
	if r.closed || r.at >= len(r.r.rows) {
		return io.EOF
	}
	for i := range dest {
		v := r.r.rows[r.at][i]
		if n, ok := v.(int64); ok && r.r.decls[i] == "boolean" {
			v = n > 0
		}
		dest[i] = v
	}
	r.at++
	return nil
}

// Lexer.

type token struct {
	kind byte // 'w'ord, 'q'uoted identifier, 's'tring, 'n'umber, 'p'unctuation
	text string
}

func isWord(c byte) bool {
	return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80
}

var lexed = map[string][]token{}

func tokens(s string) ([]token, error) {
	if out, ok := lexed[s]; ok {
		return out, nil
	}
	out, err := lex(s)
	if err == nil {
		lexed[s] = out
	}
	return out, err
}

func lex(s string) ([]token, error) {
	var out []token
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == 0:
			return out, nil
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			i += 2
			for i < len(s) && !(s[i] == '*' && i+1 < len(s) && s[i+1] == '/') {
				i++
			}
			i += 2
		case c == '"' || c == '\'' || c == '`' || c == '[':
			end := c
			if c == '[' {
				end = ']'
			}
			j, from, text := i+1, i+1, ""
			for {
				if j >= len(s) || s[j] == 0 {
					return nil, errors.New("unrecognized token")
				}
				if s[j] == end {
					if end != ']' && j+1 < len(s) && s[j+1] == end {
						text += s[from : j+1]
						j += 2
						from = j
						continue
					}
					break
				}
				j++
			}
			text += s[from:j]
			kind := byte('q')
			if c == '\'' {
				kind = 's'
			}
			out = append(out, token{kind, text})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
				j++
			}
			if j < len(s) && isWord(s[j]) {
				return nil, errors.New("unrecognized token")
			}
			out = append(out, token{'n', s[i:j]})
			i = j
		case c == '$', c == ':', c == '@', (c == 'x' || c == 'X') && i+1 < len(s) && s[i+1] == '\'':
			zzrt.Unsupported("parameter name or blob")
		case c == '?' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, token{'?', s[i+1 : j]})
			i = j
		case isWord(c):
			j := i
			for j < len(s) && isWord(s[j]) {
				j++
			}
			out = append(out, token{'w', zzrt.LowerASCII(s[i:j])})
			i = j
		default:
			if i+1 < len(s) {
				two := s[i : i+2]
				if two == "==" || two == "!=" || two == "<>" || two == "<=" || two == ">=" || two == "||" {
					out = append(out, token{'p', two})
					i += 2
					continue
				}
			}
			switch c {
			case '(', ')', ',', ';', '*', '=', '<', '>', '?', '.', '+', '-', '/', '%':
			default:
				return nil, errors.New("unrecognized token")
			}
			out = append(out, token{'p', s[i : i+1]})
			i++
		}
	}
	return out, nil
}

// Parser: a statement becomes a function of its parameters.

type parser struct {
	c      *conn
	toks   []token
	at     int
	params int
	first  int // the first parameter of the current statement
	alias  string
	inner  int // depth of the query in others
}

var errSyntax = errors.New("syntax error")

// text of the current token, if it is a word or punctuation
func (p *parser) text() string {
	if p.at < len(p.toks) {
		if k := &p.toks[p.at]; k.kind == 'w' || k.kind == 'p' {
			return k.text
		}
	}
	return ""
}

func (p *parser) is(text string) bool { return p.text() == text }

func (p *parser) take(text string) bool {
	if p.text() == text {
		p.at++
		return true
	}
	return false
}

// take2 takes several tokens or none.
func (p *parser) take2(texts ...string) bool {
	at := p.at
	for _, t := range texts {
		if !p.take(t) {
			p.at = at
			return false
		}
	}
	return true
}

func (p *parser) ident() (string, error) {
	if p.at < len(p.toks) {
		if k := p.toks[p.at]; k.kind == 'w' || k.kind == 'q' || k.kind == 's' {
			p.at++
			return k.text, nil
		}
	}
	return "", errSyntax
}

type action func(args []value) (*result, error)

func (p *parser) end(do action, err error) (action, error) {
	if err != nil {
		return nil, err
	}
	if p.at < len(p.toks) && !p.is(";") {
		return nil, errSyntax
	}
	if p.at < len(p.toks) {
		p.at++
	}
	return do, nil
}

func (p *parser) statement() (action, error) {
	p.first = p.params
	switch {
	case p.take("pragma"):
		return p.end(p.pragma())
	case p.take("begin"):
		for p.take("deferred") || p.take("immediate") || p.take("exclusive") || p.take("transaction") {
		}
		return p.end(func([]value) (*result, error) {
			_, err := p.c.Begin()
			return &result{}, err
		}, nil)
	case p.take("commit"), p.take("end"):
		p.take("transaction")
		return p.end(func([]value) (*result, error) { p.c.commit(); return &result{}, nil }, nil)
	case p.take("rollback"):
		p.take("transaction")
		return p.end(func([]value) (*result, error) { p.c.rollback(); return &result{}, nil }, nil)
	case p.take2("create", "table"):
		return p.end(p.createTable())
	case p.take2("create", "virtual", "table"):
		return p.end(p.createFts())
	case p.take2("create", "index"):
		return p.end(p.createIndex(false))
	case p.take2("create", "unique", "index"):
		return p.end(p.createIndex(true))
	case p.take("drop"):
		return p.end(p.drop())
	case p.take2("delete", "from"):
		return p.end(p.delete())
	case p.take("update"):
		return p.end(p.update())
	case p.take2("insert", "into"), p.take2("insert", "or", "abort", "into"):
		return p.end(p.insert(""))
	case p.take2("insert", "or", "ignore", "into"):
		return p.end(p.insert("ignore"))
	case p.take2("insert", "or", "replace", "into"), p.take2("replace", "into"):
		return p.end(p.insert("replace"))
	case p.is("insert"), p.is("with"), p.is("alter"), p.is("vacuum"), p.is("attach"), p.is("explain"), p.is("reindex"), p.is("analyze"), p.is("savepoint"), p.is("release"), p.is("create"):
		zzrt.Unsupported("statement " + p.toks[p.at].text)
	case p.take("select"):
		return p.end(p.query())
	}
	return nil, errSyntax
}

func (p *parser) pragma() (action, error) {
	name, err := p.ident()
	if err != nil {
		return nil, err
	}
	val := ""
	if p.take("=") {
		if val, err = p.ident(); err != nil {
			if p.at < len(p.toks) && p.toks[p.at].kind == 'n' {
				val = p.toks[p.at].text
				p.at++
			} else {
				return nil, err
			}
		}
	}
	return func([]value) (*result, error) {
		if name == "journal_mode" && val != "" {
			p.c.journal = !same(val, "off")
			return &result{names: []string{"journal_mode"}, decls: []string{""}, rows: [][]value{{val}}}, nil
		}
		if val == "" {
			zzrt.Unsupported("pragma " + name)
		}
		return &result{}, nil
	}, nil
}

func (p *parser) createTable() (action, error) {
	ifNot := p.take2("if", "not", "exists")
	name, err := p.ident()
	if err != nil {
		return nil, err
	}
	if !p.take("(") {
		return nil, errSyntax
	}
	var cols []column
	var made []uniqueIndex
	pk := 0
	list := func() error {
		if !p.take("(") {
			return errSyntax
		}
		x := uniqueIndex{unique: true}
		for {
			name, err := p.ident()
			if err != nil {
				return err
			}
			i := (&table{cols: cols}).column(name)
			if i < 0 {
				return errors.New("unknown column in constraint")
			}
			x.cols = append(x.cols, i)
			if p.take(")") {
				break
			}
			if !p.take(",") {
				return errSyntax
			}
		}
		made = append(made, x)
		return nil
	}
	for {
		if p.is("constraint") || p.is("foreign") || p.is("check") {
			zzrt.Unsupported("table constraint")
		}
		if p.is("primary") || p.is("unique") {
			primary := p.take2("primary", "key")
			if !primary {
				p.take("unique")
			}
			if err := list(); err != nil {
				return nil, err
			}
			if c := made[len(made)-1].cols; primary && len(c) == 1 && cols[c[0]].decl == "integer" {
				pk = c[0] + 1
			}
			if p.take(")") {
				break
			}
			if !p.take(",") {
				return nil, errSyntax
			}
			continue
		}
		c := column{collate: "binary", affinity: 'b'}
		if c.name, err = p.ident(); err != nil {
			return nil, err
		}
		for p.at < len(p.toks) && !p.is(",") && !p.is(")") {
			switch {
			case p.take2("not", "null"):
				c.notNull = true
			case p.take("collate"):
				if c.collate, err = p.ident(); err != nil {
					return nil, err
				}
				c.collate = zzrt.LowerASCII(c.collate)
				if c.collate != "binary" && c.collate != "nocase" && c.collate != "rtrim" {
					return nil, errors.New("no such collation sequence: " + c.collate)
				}
			case p.take("null"):
			case p.take2("primary", "key"):
				p.take("asc")
				p.take("autoincrement")
				if c.decl == "integer" {
					pk = len(cols) + 1
				} else {
					made = append(made, uniqueIndex{unique: true, cols: []int{len(cols)}})
				}
			case p.take("unique"):
				made = append(made, uniqueIndex{unique: true, cols: []int{len(cols)}})
			case p.is("default"), p.is("check"), p.is("references"), p.is("constraint"), p.is("generated"), p.is("as"), p.is("on"), p.is("("):
				zzrt.Unsupported("column constraint")
			default:
				w, err := p.ident()
				if err != nil {
					return nil, err
				}
				if c.decl != "" {
					c.decl += " "
				}
				c.decl += w
			}
		}
		switch {
		case strings.Contains(c.decl, "int"):
			c.affinity = 'i'
		case strings.Contains(c.decl, "char"), strings.Contains(c.decl, "clob"), strings.Contains(c.decl, "text"):
			c.affinity = 't'
		case c.decl == "", strings.Contains(c.decl, "blob"):
		case strings.Contains(c.decl, "real"), strings.Contains(c.decl, "floa"), strings.Contains(c.decl, "doub"):
			c.affinity = 'r'
		default:
			c.affinity = 'n'
		}
		for _, o := range cols {
			if same(o.name, c.name) {
				return nil, errors.New("duplicate column name: " + c.name)
			}
		}
		cols = append(cols, c)
		if p.take(")") {
			break
		}
		if !p.take(",") {
			return nil, errSyntax
		}
	}
	if p.is("without") || p.is("strict") {
		zzrt.Unsupported("table option")
	}
	if strings.HasPrefix(name, "sqlite_") {
		return nil, errors.New("object name reserved for internal use")
	}
	if !ifNot && p.c.find(name) != nil {
		return nil, errors.New("table already exists")
	}
	return func([]value) (*result, error) {
		if p.c.find(name) != nil {
			return &result{}, nil
		}
		if err := p.c.write(); err != nil {
			return nil, err
		}
		p.c.db.tables = append(p.c.db.tables, &table{name: name, cols: cols, pk: pk, next: 1, indexes: made})
		return &result{}, nil
	}, nil
}

func (p *parser) createFts() (action, error) {
	ifNot := p.take2("if", "not", "exists")
	name, err := p.ident()
	if err != nil {
		return nil, err
	}
	if !p.take2("using", "fts5", "(") {
		return nil, errSyntax
	}
	t := &table{name: name, fts: true, next: 1}
	var problem error
	for {
		w, err := p.ident()
		if err != nil {
			return nil, err
		}
		if p.take("=") {
			v, err := p.ident()
			if err != nil {
				return nil, err
			}
			switch w {
			case "prefix":
				for _, f := range strings.Fields(strings.Replace(v, ",", " ", -1)) {
					if n, err := strconv.Atoi(f); err != nil || n <= 0 || n > 999 {
						problem = errors.New("prefix length out of range")
					}
				}
			case "tokenize":
				f := strings.Fields(v)
				if len(f) == 0 || f[0] != "unicode61" && f[0] != "ascii" && f[0] != "porter" && f[0] != "trigram" {
					problem = errors.New("no such tokenizer")
				} else if len(f) > 1 {
					zzrt.Unsupported("tokenizer options")
				}
			default:
				zzrt.Unsupported("fts5 option")
			}
		} else {
			for _, c := range t.cols {
				if same(c.name, w) {
					problem = errors.New("duplicate column name: " + w)
				}
			}
			if same(w, "rank") || same(w, "rowid") {
				problem = errors.New("reserved fts5 column name: " + w)
			}
			c := column{name: w, affinity: 'b', collate: "binary"}
			if p.take("unindexed") {
				c.decl = "unindexed"
			}
			t.cols = append(t.cols, c)
		}
		if p.take(")") {
			break
		}
		if !p.take(",") {
			return nil, errSyntax
		}
	}
	return func([]value) (*result, error) {
		if p.c.find(name) != nil {
			if ifNot {
				return &result{}, nil
			}
			return nil, errors.New("table already exists")
		}
		if problem != nil {
			return nil, problem
		}
		if err := p.c.write(); err != nil {
			return nil, err
		}
		p.c.db.tables = append(p.c.db.tables, t)
		return &result{}, nil
	}, nil
}

func (p *parser) createIndex(unique bool) (action, error) {
	ifNot := p.take2("if", "not", "exists")
	x := uniqueIndex{unique: unique}
	var err error
	if x.name, err = p.ident(); err != nil {
		return nil, err
	}
	if !p.take("on") {
		return nil, errSyntax
	}
	on, err := p.ident()
	if err != nil {
		return nil, err
	}
	t := p.c.find(on)
	if t == nil {
		return nil, errors.New("no such table: " + on)
	}
	if !p.take("(") {
		return nil, errSyntax
	}
	for {
		col, err := p.ident()
		if err != nil {
			return nil, err
		}
		if p.is("(") {
			zzrt.Unsupported("index on an expression")
		}
		if t.column(col) < 0 {
			return nil, errors.New("no such column: " + col)
		}
		x.cols = append(x.cols, t.column(col))
		if p.take("collate") {
			if _, err := p.ident(); err != nil {
				return nil, err
			}
			if unique {
				zzrt.Unsupported("collation of a unique index")
			}
		}
		_ = p.take("asc") || p.take("desc")
		if p.take(")") {
			break
		}
		if !p.take(",") {
			return nil, errSyntax
		}
	}
	if p.is("where") {
		zzrt.Unsupported("partial index")
	}
	if p.c.indexed(x.name) != nil {
		if ifNot {
			return func([]value) (*result, error) { return &result{}, nil }, nil
		}
		return nil, errors.New("index already exists")
	}
	if p.c.find(x.name) != nil {
		return nil, errors.New("there is already a table with this name")
	}
	return func([]value) (*result, error) {
		if err := p.c.write(); err != nil {
			return nil, err
		}
		if unique {
			for i, row := range t.rows {
				for _, other := range t.rows[:i] {
					if x.conflict(t, row, other) {
						return nil, errors.New("UNIQUE constraint failed")
					}
				}
			}
		}
		t.indexes = append(t.indexes, x)
		return &result{}, nil
	}, nil
}

// indexed returns the table that has an index.
func (c *conn) indexed(name string) *table {
	for _, t := range c.tables() {
		for _, x := range t.indexes {
			if x.name != "" && same(x.name, name) {
				return t
			}
		}
	}
	return nil
}

// conflict tells if an unique index forbids two rows.
func (x uniqueIndex) conflict(t *table, a, b []value) bool {
	if !x.unique {
		return false
	}
	for _, i := range x.cols {
		if a[i] == nil || b[i] == nil || !equals(a[i], b[i], t.cols[i].collate) {
			return false
		}
	}
	return true
}

func (p *parser) drop() (action, error) {
	if p.take("index") {
		return p.dropIndex()
	}
	if !p.take("table") {
		zzrt.Unsupported("drop")
	}
	ifExists := p.take2("if", "exists")
	name, err := p.ident()
	if err != nil {
		return nil, err
	}
	if p.c.find(name) == nil && !ifExists {
		return nil, errors.New("no such table: " + name)
	}
	return func([]value) (*result, error) {
		if err := p.c.write(); err != nil {
			return nil, err
		}
		var left []*table
		for _, t := range p.c.db.tables {
			if !same(t.name, name) {
				left = append(left, t)
			}
		}
		p.c.db.tables = left
		return &result{}, nil
	}, nil
}

func (p *parser) dropIndex() (action, error) {
	ifExists := p.take2("if", "exists")
	name, err := p.ident()
	if err != nil {
		return nil, err
	}
	t := p.c.indexed(name)
	if t == nil && !ifExists {
		return nil, errors.New("no such index: " + name)
	}
	return func([]value) (*result, error) {
		if err := p.c.write(); err != nil || t == nil {
			return &result{}, err
		}
		var left []uniqueIndex
		for _, x := range t.indexes {
			if x.name == "" || !same(x.name, name) {
				left = append(left, x)
			}
		}
		t.indexes = left
		return &result{}, nil
	}, nil
}

func (t *table) column(name string) int {
	for i, c := range t.cols {
		if same(c.name, name) {
			return i
		}
	}
	return -1
}

func (p *parser) table() (*table, error) {
	name, err := p.ident()
	if err != nil {
		return nil, err
	}
	if p.at < len(p.toks) && p.toks[p.at].text == "." && p.toks[p.at].kind == 'p' {
		p.at++
		if !same(name, "main") {
			return nil, errors.New("no such table: " + name)
		}
		if name, err = p.ident(); err != nil {
			return nil, err
		}
	}
	t := p.c.find(name)
	if t == nil {
		if same(name, "sqlite_master") || same(name, "sqlite_schema") {
			t = &table{name: "sqlite_master"}
			for _, c := range []string{"type", "name", "tbl_name", "rootpage", "sql"} {
				t.cols = append(t.cols, column{name: c, affinity: 't', collate: "binary"})
			}
			for _, o := range p.c.tables() {
				t.insert([]value{"table", o.name, o.name, int64(1), ""})
				for _, x := range o.indexes {
					if x.name != "" {
						t.insert([]value{"index", x.name, o.name, int64(1), ""})
					}
				}
			}
			p.alias = t.name
			return t, nil
		}
		return nil, errors.New("no such table: " + name)
	}
	p.alias = t.name
	return t, nil
}

// insert adds a row without the constraints.
func (t *table) insert(row []value) {
	if t.next == 0 {
		t.next = 1
	}
	id := t.next
	if t.pk > 0 {
		if row[t.pk-1] == nil {
			row[t.pk-1] = id
		}
		id = row[t.pk-1].(int64)
	}
	row = append(row, id)
	at := len(t.rows)
	if t.pk > 0 {
		for at > 0 && t.rows[at-1][len(t.cols)].(int64) > id {
			at--
		}
	}
	if id >= t.next {
		t.next = id + 1
	}
	t.rows = append(append(append([][]value{}, t.rows[:at]...), row), t.rows[at:]...)
}

func (p *parser) where(t *table) (*node, error) {
	if !p.take("where") {
		return nil, nil
	}
	return p.expr(t)
}

func (p *parser) delete() (action, error) {
	t, err := p.table()
	if err != nil {
		return nil, err
	}
	cond, err := p.where(t)
	if err != nil {
		return nil, err
	}
	first := p.first
	return func(args []value) (*result, error) {
		if err := p.c.write(); err != nil {
			return nil, err
		}
		r := &result{}
		var left [][]value
		for _, row := range t.rows {
			yes := cond == nil
			if !yes {
				v, err := cond.eval(t, row, args, first)
				if err != nil {
					return nil, err
				}
				yes = truth(v) == 1
			}
			if yes {
				r.affected++
			} else {
				left = append(left, row)
			}
		}
		t.rows = left
		return r, nil
	}, nil
}

func (p *parser) update() (action, error) {
	t, err := p.table()
	if err != nil {
		return nil, err
	}
	if !p.take("set") {
		return nil, errSyntax
	}
	var cols []int
	var vals []*node
	for {
		name, err := p.ident()
		if err != nil {
			return nil, err
		}
		i := t.column(name)
		if i < 0 {
			return nil, errors.New("no such column: " + name)
		}
		if !p.take("=") {
			return nil, errSyntax
		}
		v, err := p.expr(t)
		if err != nil {
			return nil, err
		}
		cols, vals = append(cols, i), append(vals, v)
		if !p.take(",") {
			break
		}
	}
	cond, err := p.where(t)
	if err != nil {
		return nil, err
	}
	first := p.first
	return func(args []value) (*result, error) {
		if err := p.c.write(); err != nil {
			return nil, err
		}
		r := &result{}
		for n, row := range t.rows {
			if cond != nil {
				v, err := cond.eval(t, row, args, first)
				if err != nil {
					return nil, err
				}
				if truth(v) != 1 {
					continue
				}
			}
			changed := append([]value{}, row...)
			for k, i := range cols {
				v, err := vals[k].eval(t, row, args, first)
				if err != nil {
					return nil, err
				}
				if changed[i], err = t.cols[i].store(v); err != nil {
					return nil, err
				}
				if i == t.pk-1 {
					zzrt.Unsupported("update of a row number")
				}
			}
			for _, x := range t.indexes {
				for k, other := range t.rows {
					if k != n && x.conflict(t, changed, other) {
						return nil, errors.New("UNIQUE constraint failed")
					}
				}
			}
			t.rows[n] = changed
			r.affected++
		}
		return r, nil
	}, nil
}

// store converts a value to the affinity of a column.
func (c column) store(v value) (value, error) {
	if v == nil {
		if c.notNull {
			return nil, errors.New("NOT NULL constraint failed: " + c.name)
		}
		return nil, nil
	}
	return affine(c.affinity, v), nil
}

func affine(affinity byte, v value) value {
	switch affinity {
	case 'b':
		return v
	case 'i', 'n', 'r':
		switch v := v.(type) {
		case int64:
			if affinity == 'r' {
				return float64(v)
			}
			return v
		case float64:
			if affinity != 'r' {
				zzrt.Unsupported("float in an integer column")
			}
			return v
		case string:
			zzrt.Unsupported("text in a numeric column")
		}
		return v
	}
	switch v.(type) {
	case int64, float64:
		zzrt.Unsupported("number in a text column")
	}
	return v
}

func (p *parser) insert(or string) (action, error) {
	t, err := p.table()
	if err != nil {
		return nil, err
	}
	var cols []int
	if p.take("(") {
		for {
			name, err := p.ident()
			if err != nil {
				return nil, err
			}
			i := t.column(name)
			if i < 0 {
				return nil, errors.New("table has no column named " + name)
			}
			cols = append(cols, i)
			if p.take(")") {
				break
			}
			if !p.take(",") {
				return nil, errSyntax
			}
		}
	} else {
		for i := range t.cols {
			cols = append(cols, i)
		}
	}
	if !p.take("values") {
		zzrt.Unsupported("insert from a query")
	}
	var all [][]*node
	for {
		if !p.take("(") {
			return nil, errSyntax
		}
		var vals []*node
		for {
			v, err := p.expr(nil)
			if err != nil {
				return nil, err
			}
			vals = append(vals, v)
			if p.take(")") {
				break
			}
			if !p.take(",") {
				return nil, errSyntax
			}
		}
		if len(vals) != len(cols) {
			return nil, errors.New("values for columns")
		}
		all = append(all, vals)
		if !p.take(",") {
			break
		}
	}
	if p.is("on") || p.is("returning") {
		zzrt.Unsupported("upsert")
	}
	first := p.first
	return func(args []value) (*result, error) {
		if err := p.c.write(); err != nil {
			return nil, err
		}
		before, n := t.rows, int64(0)
	next:
		for _, vals := range all {
			row := make([]value, len(t.cols))
			for k, i := range cols {
				v, err := vals[k].eval(nil, nil, args, first)
				if err != nil {
					return nil, err
				}
				row[i] = v
			}
			for i := range row {
				if i == t.pk-1 && row[i] == nil {
					continue
				}
				var err error
				if row[i], err = t.cols[i].store(row[i]); err != nil {
					if or == "ignore" {
						continue next
					}
					t.rows = before
					return nil, err
				}
				if _, ok := row[i].(int64); i == t.pk-1 && !ok {
					t.rows = before
					return nil, errors.New("datatype mismatch")
				}
			}
			if t.pk > 0 || len(t.indexes) > 0 {
				var left [][]value
				for _, other := range t.rows {
					clash := t.pk > 0 && row[t.pk-1] != nil && row[t.pk-1] == other[t.pk-1]
					for _, x := range t.indexes {
						clash = clash || x.conflict(t, row, other)
					}
					if !clash {
						left = append(left, other)
					} else if or == "ignore" {
						continue next
					} else if or == "" {
						t.rows = before
						return nil, errors.New("UNIQUE constraint failed")
					}
				}
				t.rows = left
			}
			t.insert(row)
			n++
		}
		return &result{affected: n}, nil
	}, nil
}

func (p *parser) query() (action, error) {
	distinct := p.take("distinct")
	p.take("all")
	// the table comes after the columns
	from, depth := -1, 0
	for i := p.at; i < len(p.toks); i++ {
		k := p.toks[i]
		if k.kind == 'p' && k.text == "(" {
			depth++
		} else if k.kind == 'p' && k.text == ")" {
			if depth--; depth < 0 {
				break
			}
		} else if k.kind == 'p' && k.text == ";" {
			break
		} else if depth == 0 && k.kind == 'w' && k.text == "from" {
			from = i
			break
		}
	}
	var t *table
	after := 0
	if from >= 0 {
		at := p.at
		p.at = from + 1
		if p.is("(") {
			zzrt.Unsupported("query of a query")
		}
		var err error
		if t, err = p.table(); err != nil {
			return nil, err
		}
		switch p.text() {
		case "", ")", ",", ";", "where", "order", "limit", "group", "join", "left", "inner", "cross", "natural", "union", "indexed", "not":
			if p.at < len(p.toks) && p.toks[p.at].kind == 'q' {
				p.alias, _ = p.ident()
			}
		default:
			p.take("as")
			if p.alias, err = p.ident(); err != nil {
				return nil, err
			}
		}
		if p.is("indexed") || p.is("not") {
			zzrt.Unsupported("choice of an index")
		}
		after = p.at
		p.at = at
	}
	r := &result{}
	var exprs []*node
	aliases := map[string]*node{}
	var count *node
	for {
		if p.take("*") {
			if t == nil {
				return nil, errors.New("no tables specified")
			}
			for i, c := range t.cols {
				exprs = append(exprs, &node{op: "col", col: i})
				r.names, r.decls = append(r.names, c.name), append(r.decls, zzrt.LowerASCII(c.decl))
			}
		} else {
			start := p.at
			e, err := p.expr(t)
			if err != nil {
				return nil, err
			}
			name, decl := p.toks[start].text, ""
			if e.op == "col" {
				name, decl = t.cols[e.col].name, zzrt.LowerASCII(t.cols[e.col].decl)
			}
			if p.take("as") {
				if name, err = p.ident(); err != nil {
					return nil, err
				}
				aliases[zzrt.LowerASCII(name)] = e
			}
			if e.op == "count" {
				count = e
			}
			exprs, r.names, r.decls = append(exprs, e), append(r.names, name), append(r.decls, decl)
		}
		if !p.take(",") {
			break
		}
	}
	var cond *node
	var order []*node
	var desc []bool
	if from >= 0 {
		if p.at != from {
			return nil, errSyntax
		}
		p.at = after
		var err error
		if cond, err = p.where(t); err != nil {
			return nil, err
		}
		if p.is("group") || p.is("join") || p.is(",") || p.is("union") || p.is("left") || p.is("inner") {
			zzrt.Unsupported("kind of query")
		}
		if p.take2("order", "by") {
			for {
				var e *node
				if p.at < len(p.toks) && (p.toks[p.at].kind == 'w' || p.toks[p.at].kind == 'q') {
					if e = aliases[zzrt.LowerASCII(p.toks[p.at].text)]; e != nil {
						p.at++
					}
				}
				if e == nil {
					if e, err = p.expr(t); err != nil {
						return nil, err
					}
				}
				if n, ok := e.v.(int64); ok && e.op == "lit" {
					if n < 1 || n > int64(len(exprs)) {
						return nil, errors.New("ORDER BY term out of range")
					}
					e = exprs[n-1]
				}
				order = append(order, e)
				desc = append(desc, p.take("desc"))
				p.take("asc")
				if !p.take(",") {
					break
				}
			}
		}
	}
	var limited, skipped *node
	if p.take("limit") {
		var err error
		if limited, err = p.expr(nil); err != nil {
			return nil, err
		}
		comma := p.take(",")
		if comma || p.take("offset") {
			if skipped, err = p.expr(nil); err != nil {
				return nil, err
			}
		}
		if comma {
			limited, skipped = skipped, limited
		}
	}
	if p.is("union") || p.is("except") || p.is("intersect") {
		zzrt.Unsupported("kind of query")
	}
	first := p.first
	return func(args []value) (*result, error) {
		out := &result{names: r.names, decls: r.decls}
		limit, skip := int64(-1), int64(0)
		for i, n := range []*node{limited, skipped} {
			if n == nil {
				continue
			}
			v, err := n.eval(nil, nil, args, first)
			if err != nil {
				return nil, err
			}
			k, ok := v.(int64)
			if !ok {
				zzrt.Unsupported("limit")
			}
			if i == 0 {
				limit = k
			} else {
				skip = k
			}
		}
		rows := [][]value{nil}
		if t != nil {
			rows = t.rows
		}
		var kept [][]value
		for _, row := range rows {
			if cond != nil {
				v, err := cond.eval(t, row, args, first)
				if err != nil {
					return nil, err
				}
				if truth(v) != 1 {
					continue
				}
			}
			kept = append(kept, row)
		}
		for i := range kept {
			for j := i; j > 0; j-- {
				swap := false
				for k, e := range order {
					a, err := e.eval(t, kept[j-1], args, first)
					if err != nil {
						return nil, err
					}
					b, err := e.eval(t, kept[j], args, first)
					if err != nil {
						return nil, err
					}
					collate := e.collate
					if collate == "" {
						collate = "binary"
					}
					if c := compare(a, b, collate); c != 0 {
						swap = (c > 0) != desc[k]
						break
					}
				}
				if !swap {
					break
				}
				kept[j-1], kept[j] = kept[j], kept[j-1]
			}
		}
		if count != nil {
			if len(exprs) != 1 || limited != nil {
				zzrt.Unsupported("several results with count")
			}
			n := int64(len(kept))
			if count.l != nil {
				for _, row := range kept {
					v, err := count.l.eval(t, row, args, first)
					if err != nil {
						return nil, err
					}
					if v == nil {
						n--
					}
				}
			}
			out.rows = [][]value{{n}}
			return out, nil
		}
		for _, row := range kept {
			if limit == 0 {
				break
			}
			var vals []value
			for _, e := range exprs {
				v, err := e.eval(t, row, args, first)
				if err != nil {
					return nil, err
				}
				vals = append(vals, v)
			}
			if distinct && contains(out.rows, vals) {
				continue
			}
			if skip > 0 {
				skip--
				if distinct {
					zzrt.Unsupported("offset with distinct")
				}
				continue
			}
			limit--
			out.rows = append(out.rows, vals)
		}
		return out, nil
	}, nil
}

func contains(rows [][]value, vals []value) bool {
	for _, row := range rows {
		all := true
		for i, v := range vals {
			all = all && equals(row[i], v, "binary")
		}
		if all {
			return true
		}
	}
	return false
}

// Expressions.

type node struct {
	op       string
	col      int
	v        value
	collate  string
	explicit bool
	l, r     *node
	args     []*node
	sub      action
}

// call runs a function of the SQL language.
func (n *node) call(t *table, row []value, args []value, first int) (value, error) {
	name := n.v.(string)
	if name == "printf" || name == "format" || name == "replace" || name == "quote" {
		var all []value
		for _, a := range n.args {
			v, err := a.eval(t, row, args, first)
			if err != nil {
				return nil, err
			}
			all = append(all, v)
		}
		return text(name, all)
	}
	var v value
	for _, a := range n.args {
		var err error
		if v, err = a.eval(t, row, args, first); err != nil || v != nil {
			if err != nil {
				return nil, err
			}
			break
		}
	}
	if v == nil || name == "coalesce" || name == "ifnull" {
		return v, nil
	}
	s, ok := v.(string)
	if !ok {
		zzrt.Unsupported(name + " of a number")
	}
	for i := 0; i < len(s); i++ {
		if s[i] == 0 || s[i] >= 0x80 {
			zzrt.Unsupported(name + " of this text")
		}
	}
	switch name {
	case "lower":
		return zzrt.LowerASCII(s), nil
	case "upper":
		b := []byte(s)
		for i, c := range b {
			b[i] = byte(zzrt.IteInt(zzrt.And(c >= 'a', c <= 'z'), int(c)-32, int(c)))
		}
		return string(b), nil
	case "length":
		return int64(len(s)), nil
	}
	if name != "rtrim" {
		for len(s) > 0 && s[0] == ' ' {
			s = s[1:]
		}
	}
	if name != "ltrim" {
		for len(s) > 0 && s[len(s)-1] == ' ' {
			s = s[:len(s)-1]
		}
	}
	return s, nil
}

// like compares with a pattern, without regard to the case of ASCII letters.
func like(s, pattern string) bool {
	if pattern == "" {
		return s == ""
	}
	if pattern[0] == '%' {
		for i := 0; i <= len(s); i++ {
			if like(s[i:], pattern[1:]) {
				return true
			}
		}
		return false
	}
	if s == "" || pattern[0] != '_' && s[:1] != pattern[:1] {
		return false
	}
	return like(s[1:], pattern[1:])
}

func (p *parser) expr(t *table) (*node, error) {
	l, err := p.and(t)
	for err == nil && p.take("or") {
		var r *node
		r, err = p.and(t)
		l = &node{op: "or", l: l, r: r}
	}
	return l, err
}

func (p *parser) and(t *table) (*node, error) {
	l, err := p.not(t)
	for err == nil && p.take("and") {
		var r *node
		r, err = p.not(t)
		l = &node{op: "and", l: l, r: r}
	}
	return l, err
}

func (p *parser) not(t *table) (*node, error) {
	if p.take("not") {
		l, err := p.not(t)
		return &node{op: "not", l: l}, err
	}
	return p.comparison(t)
}

func (p *parser) comparison(t *table) (*node, error) {
	l, err := p.operand(t)
	for err == nil {
		switch p.text() {
		case "", ")", ",", ";", "and", "or", "from", "where", "order", "limit":
			return l, nil
		}
		if p.is("not") && p.at+1 < len(p.toks) {
			// NOT IN, NOT LIKE, NOT BETWEEN
			if k := p.toks[p.at+1]; k.kind == 'w' && (k.text == "in" || k.text == "like" || k.text == "between" || k.text == "glob") {
				zzrt.Unsupported("not " + k.text)
			}
		}
		op := ""
		switch {
		case p.take("="), p.take("=="):
			op = "="
		case p.take("!="), p.take("<>"):
			op = "!="
		case p.take2("is", "not"):
			op = "isnot"
		case p.take("is"):
			op = "is"
		case p.take2("not", "null"), p.take("notnull"):
			l = &node{op: "isnot", l: l, r: &node{op: "lit"}}
			continue
		case p.take("isnull"):
			l = &node{op: "is", l: l, r: &node{op: "lit"}}
			continue
		case p.take("<"):
			op = "<"
		case p.take("<="):
			op = "<="
		case p.take(">"):
			op = ">"
		case p.take(">="):
			op = ">="
		case p.take("match"):
			op = "match"
		case p.take("in"):
			if !p.take("(") {
				zzrt.Unsupported("in without a list")
			}
			var all *node
			for {
				r, err := p.expr(t)
				if err != nil {
					return nil, err
				}
				one := &node{op: "=", l: l, r: r}
				if all == nil {
					all = one
				} else {
					all = &node{op: "or", l: all, r: one}
				}
				if p.take(")") {
					break
				}
				if !p.take(",") {
					return nil, errSyntax
				}
			}
			l = all
			continue
		case p.take("like"):
			op = "like"
		case p.take("between"):
			var low, high *node
			if low, err = p.operand(t); err != nil {
				return nil, err
			}
			if !p.take("and") {
				return nil, errSyntax
			}
			if high, err = p.operand(t); err != nil {
				return nil, err
			}
			l = &node{op: "and", l: &node{op: ">=", l: l, r: low}, r: &node{op: "<=", l: l, r: high}}
			continue
		case p.is("glob"), p.is("regexp"), p.is("+"), p.is("-"), p.is("*"), p.is("/"), p.is("%"):
			zzrt.Unsupported("operator " + p.toks[p.at].text)
		default:
			return l, nil
		}
		var r *node
		r, err = p.operand(t)
		l = &node{op: op, l: l, r: r}
	}
	return l, err
}

func (p *parser) operand(t *table) (*node, error) {
	n, err := p.joined(t)
	for err == nil && p.take("collate") {
		var name string
		if name, err = p.ident(); err == nil {
			name = zzrt.LowerASCII(name)
			if name != "binary" && name != "nocase" && name != "rtrim" {
				return nil, errors.New("no such collation sequence: " + name)
			}
			n = &node{op: "collate", l: n, collate: name, explicit: true}
		}
	}
	return n, err
}

func (p *parser) joined(t *table) (*node, error) {
	n, err := p.primary(t)
	for err == nil && p.take("||") {
		var r *node
		r, err = p.primary(t)
		n = &node{op: "||", l: n, r: r}
	}
	return n, err
}

// inside parses a query between parentheses.
func (p *parser) inside(t *table) (action, error) {
	alias := p.alias
	p.inner++
	do, err := p.query()
	p.inner--
	p.alias = alias
	if err == nil && !p.take(")") {
		err = errSyntax
	}
	return do, err
}

func (p *parser) primary(t *table) (*node, error) {
	if p.take2("exists", "(", "select") {
		do, err := p.inside(t)
		return &node{op: "exists", sub: do}, err
	}
	if p.take2("(", "select") {
		do, err := p.inside(t)
		return &node{op: "query", sub: do}, err
	}
	if p.take("-") {
		n, err := p.primary(t)
		return &node{op: "neg", l: n}, err
	}
	if p.take("+") {
		return p.primary(t)
	}
	if p.is("cast") || p.is("case") {
		zzrt.Unsupported("expression " + p.text())
	}
	if p.at < len(p.toks) && p.toks[p.at].kind == '?' {
		n, err := strconv.Atoi(p.toks[p.at].text)
		if err != nil || n < 1 || n > 32766 {
			return nil, errors.New("variable number")
		}
		if p.at++; p.params < p.first+n {
			p.params = p.first + n
		}
		return &node{op: "param", col: n - 1}, nil
	}
	if p.take("(") {
		n, err := p.expr(t)
		if err == nil && !p.take(")") {
			err = errSyntax
		}
		return n, err
	}
	if p.take("?") {
		p.params++
		return &node{op: "param", col: p.params - 1 - p.first}, nil
	}
	if p.at >= len(p.toks) {
		return nil, errSyntax
	}
	k := p.toks[p.at]
	p.at++
	switch k.kind {
	case 's':
		return &node{op: "lit", v: k.text}, nil
	case 'n':
		n, err := strconv.ParseInt(k.text, 10, 64)
		if err != nil {
			zzrt.Unsupported("number " + k.text)
		}
		return &node{op: "lit", v: n}, nil
	case 'p':
		return nil, errSyntax
	}
	if k.kind == 'w' && k.text == "null" {
		return &node{op: "lit"}, nil
	}
	if p.take("(") {
		if k.text == "count" && t != nil {
			if !p.take2("*", ")") {
				if p.is("distinct") {
					zzrt.Unsupported("count of different values")
				}
				n, err := p.expr(t)
				if err == nil && !p.take(")") {
					err = errSyntax
				}
				return &node{op: "count", l: n}, err
			}
			return &node{op: "count"}, nil
		}
		switch k.text {
		case "trim", "ltrim", "rtrim", "lower", "upper", "coalesce", "ifnull", "length", "printf", "format", "replace", "quote":
			n := &node{op: "call", v: k.text}
			for {
				e, err := p.expr(t)
				if err != nil {
					return nil, err
				}
				n.args = append(n.args, e)
				if p.take(")") {
					break
				}
				if !p.take(",") {
					return nil, errSyntax
				}
			}
			switch k.text {
			case "printf", "format":
				return n, nil
			case "replace":
				if len(n.args) != 3 {
					return nil, errors.New("wrong number of arguments")
				}
				return n, nil
			}
			if one := k.text != "coalesce" && k.text != "ifnull"; one != (len(n.args) == 1) {
				zzrt.Unsupported("arguments of " + k.text)
			}
			return n, nil
		}
		zzrt.Unsupported("function " + k.text)
	}
	name, qualified := k.text, false
	if p.take(".") {
		table := name
		var err error
		if name, err = p.ident(); err != nil {
			return nil, err
		}
		if qualified = true; t == nil || !same(table, p.alias) {
			if p.inner > 0 {
				zzrt.Unsupported("query that depends on another one")
			}
			return nil, errors.New("no such column: " + table + "." + name)
		}
	}
	if t != nil {
		if i := t.column(name); i >= 0 {
			if i >= 3 && t.name == "sqlite_master" {
				zzrt.Unsupported("column of the catalogue")
			}
			return &node{op: "col", col: i, collate: t.cols[i].collate}, nil
		}
		if t.fts && !qualified && same(name, t.name) {
			return &node{op: "self"}, nil
		}
		if same(name, "rowid") || same(name, "oid") || same(name, "_rowid_") {
			return &node{op: "rowid"}, nil
		}
		if t.fts && same(name, "rank") {
			zzrt.Unsupported("rank")
		}
	}
	if p.inner > 0 {
		zzrt.Unsupported("query that depends on another one")
	}
	if k.kind == 'q' && !qualified {
		return &node{op: "lit", v: name}, nil
	}
	return nil, errors.New("no such column: " + name)
}

func logical(b bool) value {
	if b {
		return int64(1)
	}
	return int64(0)
}

// truth of a value: 1, 0 or -1 for null
func truth(v value) int {
	switch v := v.(type) {
	case nil:
		return -1
	case int64:
		if v != 0 {
			return 1
		}
		return 0
	case float64:
		if v != 0 {
			return 1
		}
		return 0
	}
	zzrt.Unsupported("text as a condition")
	return 0
}

func (n *node) eval(t *table, row []value, args []value, first int) (value, error) {
	switch n.op {
	case "lit":
		return n.v, nil
	case "param":
		return args[n.col], nil
	case "col":
		return row[n.col], nil
	case "collate":
		return n.l.eval(t, row, args, first)
	case "count":
		return nil, nil
	case "rowid":
		return row[len(t.cols)], nil
	case "exists", "query":
		r, err := n.sub(args)
		if err != nil {
			return nil, err
		}
		if n.op == "exists" {
			return logical(len(r.rows) > 0), nil
		}
		if len(r.names) != 1 {
			return nil, errors.New("sub-select returns several columns")
		}
		if len(r.rows) == 0 {
			return nil, nil
		}
		return r.rows[0][0], nil
	case "call":
		return n.call(t, row, args, first)
	}
	if n.op == "self" {
		zzrt.Unsupported("name of a full-text table as a value")
	}
	if n.op == "match" && (!t.fts || n.l.op != "self" && n.l.op != "col") {
		return nil, errors.New("unable to use function MATCH in the requested context")
	}
	var l value
	var err error
	if n.op != "match" {
		if l, err = n.l.eval(t, row, args, first); err != nil {
			return nil, err
		}
	}
	switch n.op {
	case "not":
		if b := truth(l); b >= 0 {
			return logical(b == 0), nil
		}
		return nil, nil
	case "neg":
		switch l := l.(type) {
		case nil:
			return nil, nil
		case int64:
			if l != -1<<63 {
				return -l, nil
			}
		}
		zzrt.Unsupported("negative value")
	}
	r, err := n.r.eval(t, row, args, first)
	if err != nil {
		return nil, err
	}
	switch n.op {
	case "and":
		a, b := truth(l), truth(r)
		if a == 0 || b == 0 {
			return int64(0), nil
		}
		if a < 0 || b < 0 {
			return nil, nil
		}
		return int64(1), nil
	case "or":
		a, b := truth(l), truth(r)
		if a == 1 || b == 1 {
			return int64(1), nil
		}
		if a < 0 || b < 0 {
			return nil, nil
		}
		return int64(0), nil
	case "match":
		yes, err := match(t, n.l, row, r)
		return logical(yes), err
	}
	if n.op != "is" && n.op != "isnot" && (l == nil || r == nil) {
		return nil, nil
	}
	if n.op == "||" {
		a, ok := l.(string)
		b, ok2 := r.(string)
		if !ok || !ok2 {
			zzrt.Unsupported("number as a text")
		}
		return a + b, nil
	}
	if n.op == "like" {
		a, ok := l.(string)
		b, ok2 := r.(string)
		if !ok || !ok2 {
			zzrt.Unsupported("like with a number")
		}
		for _, s := range []string{a, b} {
			for i := 0; i < len(s); i++ {
				if s[i] == 0 || s[i] >= 0x80 {
					zzrt.Unsupported("like with this text")
				}
			}
		}
		return logical(like(zzrt.LowerASCII(a), zzrt.LowerASCII(b))), nil
	}
	numbers(t, n.l, r)
	numbers(t, n.r, l)
	collate := "binary"
	switch {
	case n.l.explicit:
		collate = n.l.collate
	case n.r.explicit:
		collate = n.r.collate
	case n.l.op == "col":
		collate = n.l.collate
	case n.r.op == "col":
		collate = n.r.collate
	}
	switch n.op {
	case "=", "is":
		return logical(equals(l, r, collate)), nil
	case "!=", "isnot":
		return logical(!equals(l, r, collate)), nil
	}
	c := compare(l, r, collate)
	switch n.op {
	case "<":
		return logical(c < 0), nil
	case "<=":
		return logical(c <= 0), nil
	case ">":
		return logical(c > 0), nil
	case ">=":
		return logical(c >= 0), nil
	}
	zzrt.Unsupported("operator " + n.op)
	return nil, nil
}

// numbers refuses the comparisons that convert one of the values first.
func numbers(t *table, n *node, other value) {
	if n.op != "col" || t == nil {
		return
	}
	_, text := other.(string)
	switch a := t.cols[n.col].affinity; {
	case (a == 'i' || a == 'n' || a == 'r') && text:
		zzrt.Unsupported("number column compared with text")
	case a == 't' && other != nil && !text:
		zzrt.Unsupported("text column compared with a number")
	}
}

// text runs a function that makes a text.
func text(name string, args []value) (value, error) {
	str := func(v value) string {
		s, ok := v.(string)
		if !ok {
			zzrt.Unsupported(name + " of a number")
		}
		return s
	}
	switch name {
	case "replace":
		for _, a := range args {
			if a == nil {
				return nil, nil
			}
		}
		s, from, to := str(args[0]), str(args[1]), str(args[2])
		if from == "" || from[0] == 0 {
			return s, nil
		}
		return strings.Replace(s, from, to, -1), nil
	case "quote":
		switch a := args[0].(type) {
		case nil:
			return "NULL", nil
		case int64:
			return strconv.FormatInt(a, 10), nil
		}
		return "'" + double(str(args[0]), '\'') + "'", nil
	}
	if len(args) == 0 || args[0] == nil {
		return nil, nil
	}
	f, out := str(args[0]), ""
	args = args[1:]
	for i := 0; i < len(f); i++ {
		if f[i] == 0 {
			break
		}
		if f[i] != '%' {
			out += f[i : i+1]
			continue
		}
		if i++; i >= len(f) {
			zzrt.Unsupported("format")
		}
		if f[i] == '%' {
			out += "%"
			continue
		}
		var v value
		if len(args) > 0 {
			v, args = args[0], args[1:]
		}
		switch c := f[i]; c {
		case 'w', 'q', 'Q', 's':
			s, quote := "", byte('\'')
			if c == 'w' {
				quote = '"'
			}
			if v == nil {
				if c == 'Q' {
					out += "NULL"
				} else if c != 's' {
					out += "(NULL)"
				}
				continue
			}
			if s = str(v); c == 's' {
				for k := 0; k < len(s); k++ {
					if s[k] == 0 {
						s = s[:k]
					}
				}
				out += s
			} else if s = double(s, quote); c == 'Q' {
				out += "'" + s + "'"
			} else {
				out += s
			}
		case 'd', 'i':
			n, ok := v.(int64)
			if !ok {
				zzrt.Unsupported("format of a text as a number")
			}
			out += strconv.FormatInt(n, 10)
		default:
			zzrt.Unsupported("format")
		}
	}
	return out, nil
}

// double writes the quotes of a text twice, up to a null byte.
func double(s string, quote byte) string {
	out, from := "", 0
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			s = s[:i]
			break
		}
		if s[i] == quote {
			out += s[from:i+1] + string([]byte{quote})
			from = i + 1
		}
	}
	return out + s[from:]
}

func class(v value) int {
	switch v.(type) {
	case nil:
		return 0
	case int64, float64:
		return 1
	case string:
		return 2
	}
	return 3
}

func keyOf(s, collate string) string {
	switch collate {
	case "nocase":
		for i := 0; i < len(s); i++ {
			if s[i] == 0 {
				zzrt.Unsupported("nocase with a null byte")
			}
		}
		return zzrt.LowerASCII(s)
	case "rtrim":
		for len(s) > 0 && s[len(s)-1] == ' ' {
			s = s[:len(s)-1]
		}
	}
	return s
}

func equals(a, b value, collate string) bool {
	if class(a) != class(b) {
		return false
	}
	switch a := a.(type) {
	case nil:
		return true
	case string:
		return keyOf(a, collate) == keyOf(b.(string), collate)
	case []byte:
		return string(a) == string(b.([]byte))
	case int64:
		if b, ok := b.(int64); ok {
			return a == b
		}
	case float64:
		if b, ok := b.(float64); ok {
			return a == b
		}
	}
	return compare(a, b, collate) == 0
}

func compare(a, b value, collate string) int {
	if x, y := class(a), class(b); x != y {
		return x - y
	}
	switch a := a.(type) {
	case nil:
		return 0
	case string:
		return strings.Compare(keyOf(a, collate), keyOf(b.(string), collate))
	case []byte:
		return strings.Compare(string(a), string(b.([]byte)))
	case int64:
		switch b := b.(type) {
		case int64:
			if a < b {
				return -1
			} else if a > b {
				return 1
			}
			return 0
		case float64:
			return -floatWithInt(b, a)
		}
	case float64:
		switch b := b.(type) {
		case int64:
			return floatWithInt(a, b)
		case float64:
			if a < b {
				return -1
			} else if a > b {
				return 1
			}
			return 0
		}
	}
	return 0
}

func floatWithInt(f float64, i int64) int {
	if f < -9223372036854775808.0 {
		return -1
	}
	if f >= 9223372036854775808.0 {
		return 1
	}
	n := int64(f)
	if n < i {
		return -1
	} else if n > i {
		return 1
	}
	if f < float64(n) {
		return -1
	} else if f > float64(n) {
		return 1
	}
	return 0
}

// A search of a full-text table: words and phrases joined by AND (which may be left out), OR and NOT.
type term struct {
	words  []string
	prefix bool
	neg    bool
}

func letter(c byte) bool {
	return zzrt.Or(zzrt.Or(zzrt.And(c >= 'a', c <= 'z'), zzrt.And(c >= 'A', c <= 'Z')), zzrt.And(c >= '0', c <= '9'))
}

// words splits an ASCII text.
func words(s string) (all []string, ok bool) {
	from := -1
	for k := 0; k <= len(s); k++ {
		if k < len(s) && s[k] >= 0x80 {
			return nil, false
		}
		inside := k < len(s) && letter(s[k])
		if inside && from < 0 {
			from = k
		}
		if !inside && from >= 0 {
			all = append(all, zzrt.LowerASCII(s[from:k]))
			from = -1
		}
	}
	return all, true
}

// terms gives alternatives of terms, all of which are required.
func terms(q string) (all [][]term, ok bool) {
	var cur []term
	wanted, neg := true, false
	for k := 0; k < len(q); {
		if q[k] == ' ' {
			k++
			continue
		}
		end := k
		var x term
		if q[k] == '"' {
			end++
			for end < len(q) && q[end] != '"' && q[end] != 0 {
				end++
			}
			if end >= len(q) || q[end] == 0 {
				return nil, false
			}
			if x.words, ok = words(q[k+1 : end]); !ok || len(x.words) == 0 {
				return nil, false
			}
			if end++; end < len(q) && q[end] == '"' {
				return nil, false
			}
		} else {
			for end < len(q) && letter(q[end]) {
				end++
			}
			if end == k {
				return nil, false
			}
			switch q[k:end] {
			case "OR":
				if wanted {
					return nil, false
				}
				all, cur, wanted, neg = append(all, cur), nil, true, false
				k = end
				continue
			case "AND", "NOT":
				if wanted || neg || len(all) > 0 {
					return nil, false
				}
				wanted, neg = true, q[k:end] == "NOT"
				k = end
				continue
			case "NEAR":
				return nil, false
			}
			x.words = []string{zzrt.LowerASCII(q[k:end])}
		}
		for end < len(q) && q[end] == ' ' {
			end++
		}
		if end < len(q) && q[end] == '*' {
			x.prefix = true
			end++
		}
		if end < len(q) && (q[end] == '*' || q[end] == ':' || q[end] == '+' || q[end] == '.') {
			return nil, false
		}
		if neg && !wanted {
			return nil, false
		}
		x.neg = neg
		cur, wanted = append(cur, x), false
		k = end
	}
	if wanted {
		return nil, false
	}
	return append(all, cur), true
}

func (x term) in(text []string) bool {
	found := false
	for i := 0; i+len(x.words) <= len(text); i++ {
		all := true
		for k, w := range x.words {
			t := text[i+k]
			if x.prefix && k == len(x.words)-1 {
				all = zzrt.And(all, len(t) >= len(w) && t[:len(w)] == w)
			} else {
				all = zzrt.And(all, t == w)
			}
		}
		found = zzrt.Or(found, all)
	}
	return found
}

// match: any other search can have any result.
func match(t *table, left *node, row []value, searched value) (bool, error) {
	q, ok := searched.(string)
	if !ok {
		return anyMatch()
	}
	alternatives, ok := terms(q)
	if !ok {
		return anyMatch()
	}
	var texts [][]string
	for i, c := range t.cols {
		if c.decl == "unindexed" || left.op == "col" && left.col != i || row[i] == nil {
			continue
		}
		s, ok := row[i].(string)
		if !ok {
			return anyMatch()
		}
		text, ok := words(s)
		if !ok {
			return anyMatch()
		}
		texts = append(texts, text)
	}
	found := false
	for _, all := range alternatives {
		yes := true
		for _, x := range all {
			any := false
			for _, text := range texts {
				any = zzrt.Or(any, x.in(text))
			}
			yes = zzrt.And(yes, any != x.neg)
		}
		found = zzrt.Or(found, yes)
	}
	return found, nil
}

func anyMatch() (bool, error) {
	switch zzrt.Guess(3) {
	case 0:
		return false, nil
	case 1:
		return true, nil
	}
	return false, errors.New("fts5: syntax error")
}
