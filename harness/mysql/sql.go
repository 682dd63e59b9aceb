package mysql

import (
	"bytes"
	"encoding/base64"
	"errors"
	"os"
	"strconv"
	"strings"
	"time"

	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

// A database that interprets the part of SQL which this package uses. Tables have the columns and
// primary keys of tools/create_schema.sh, and 32 partitions by the first 5 bits of the key. The
// order of the rows of a table is not defined without ORDER BY, GROUP_CONCAT truncates at 1024 bytes.

type vxRow = []any // nil, []byte, int64

type vxTable struct {
	cols []string
	key  int // the first columns are the primary key
	rows []vxRow
}

type vxSQL struct {
	tables map[string]*vxTable
	files  map[string][]byte // under the engine
	vars   map[string]any    // @variables
	now    string            // last argument of prune_expired
	back   bool              // tables are read backwards
	// faults
	failTable string // the statements that use this table fail ...
	failPart  int    // ... if they use this partition (-1: any)
	failAfter int    // ... after this many of them
	failRow   int    // after this row (-1: the whole statement fails)
	failed    bool
	statement int
}

var errVx = errors.New("the database fails")
var errVxSyntax = errors.New("You have an error in your SQL syntax")

func vxNewSQL() *vxSQL {
	t := func(key int, cols ...string) *vxTable { return &vxTable{cols: cols, key: key} }
	return &vxSQL{tables: map[string]*vxTable{
		"domains":                  t(1, "domain_id", "domain_name"),
		"certs":                    t(1, "cert_id", "parent_id", "expiration", "payload"),
		"domain_certs":             t(2, "domain_id", "cert_id"),
		"policies":                 t(1, "policy_id", "parent_id", "expiration", "payload"),
		"domain_policies":          t(2, "domain_id", "policy_id"),
		"domain_payloads":          t(1, "domain_id", "cert_ids", "cert_ids_id", "policy_ids", "policy_ids_id"),
		"dirty":                    t(1, "domain_id", "coalesced"),
		"root":                     t(0, "key32"),
		"ctlog_server_last_status": t(1, "url_hash", "size", "sth"),
		"tree":                     t(1, "key32", "value"),
	}, files: map[string][]byte{}, vars: map[string]any{}, failRow: -1}
}

// fault reports whether the statement on the table (with the partition) fails.
func (d *vxSQL) fault(table string, part int) bool {
	if d.failed || d.failTable != table || d.failPart >= 0 && d.failPart != part {
		return false
	}
	if d.failAfter > 0 {
		d.failAfter--
		return false
	}
	d.failed = true
	return true
}

func (t *vxTable) put(row vxRow, replace bool) int64 {
	for i, r := range t.rows {
		same := true
		for k := 0; k < t.key; k++ {
			same = same && vxEqual(r[k], row[k])
		}
		if same {
			if !replace {
				return 0
			}
			t.rows[i] = row
			return 2
		}
	}
	t.rows = append(t.rows, row)
	return 1
}

func (t *vxTable) col(name string) int {
	for i, c := range t.cols {
		if c == name {
			return i
		}
	}
	return -1
}

// vxValue converts an argument of a statement like database/sql and the driver.
func vxValue(a any) any {
	switch v := a.(type) {
	case nil:
		return nil
	case []byte:
		if v == nil {
			return nil
		}
		return append([]byte{}, v...)
	case string:
		return []byte(v)
	case int:
		return int64(v)
	case int64:
		return v
	case uint64:
		return int64(v)
	case uint:
		return int64(v)
	case bool:
		if v {
			return int64(1)
		}
		return int64(0)
	case time.Time:
		return []byte(v.UTC().Format(time.DateTime))
	}
	zvx.Unsupported("an argument of this type")
	return nil
}

func vxEqual(a, b any) bool {
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	if x, ok := a.(int64); ok {
		y, ok := b.(int64)
		return ok && x == y
	}
	return false
}

// vxLess compares the values of a column (NULL is first).
func vxLess(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b != nil
	}
	if x, ok := a.([]byte); ok {
		return bytes.Compare(x, b.([]byte)) < 0
	}
	return a.(int64) < b.(int64)
}

func vxTrue(a any) bool {
	v, ok := a.(int64)
	return ok && v != 0
}

// ---- statements ----

type vxParser struct {
	d    *vxSQL
	toks []string
	pos  int
	args []any
	used int
	bad  bool
	part int // partition of the statement
	errs error
	rowE int // rows before an error
}

func vxTokens(s string) (toks []string) {
	word := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '@'
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t':
			i++
		case word(c):
			j := i
			for j < len(s) && word(s[j]) {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
		case c == '`':
			j := i + 1 + strings.IndexByte(s[i+1:], '`')
			toks = append(toks, s[i+1:j])
			i = j + 1
		case c == '\'' || c == '"':
			j := i + 1
			for s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			toks = append(toks, "'"+s[i+1:j])
			i = j + 1
		case (c == '<' || c == '>' || c == '!') && i+1 < len(s) && (s[i+1] == '=' || s[i+1] == '>'):
			toks = append(toks, s[i:i+2])
			i += 2
		default:
			toks = append(toks, s[i:i+1])
			i++
		}
	}
	return
}

func (p *vxParser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}

func (p *vxParser) next() string {
	t := p.peek()
	p.pos++
	return t
}

func vxUpper(s string) string {
	if s != "" && s[0] == '\'' {
		return s
	}
	return strings.ToUpper(s)
}

// accept consumes the words if they are next.
func (p *vxParser) accept(words ...string) bool {
	for i, w := range words {
		if p.pos+i >= len(p.toks) || vxUpper(p.toks[p.pos+i]) != w {
			return false
		}
	}
	p.pos += len(words)
	return true
}

type vxSyntaxError struct{}

func (p *vxParser) expect(words ...string) {
	if !p.accept(words...) {
		panic(vxSyntaxError{})
	}
}

func (p *vxParser) name() string {
	t := p.next()
	if t == "" || t[0] == '\'' || !(t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z' || t[0] == '_' || t[0] == '@') {
		panic(vxSyntaxError{})
	}
	return t
}

// vxRel is an intermediate table; cols are alias.column.
type vxRel struct {
	alias []string
	cols  []string
	rows  []vxRow
	order bool // the order is defined
}

func (r *vxRel) find(name string) int {
	alias := ""
	if i := strings.IndexByte(name, '.'); i >= 0 {
		alias, name = name[:i], name[i+1:]
	}
	for i, c := range r.cols {
		if c == name && (alias == "" || alias == r.alias[i]) {
			return i
		}
	}
	panic(vxSyntaxError{})
}

// vxExpr is an expression on a row of a relation (agg: on the rows of a group).
type vxExpr struct {
	name string
	agg  bool
	eval func(r *vxRel, rows []vxRow) any
}

func vxBool(b bool) any {
	if b {
		return int64(1)
	}
	return int64(0)
}

func (p *vxParser) table() *vxTable {
	n := p.name()
	t := p.d.tables[n]
	if t == nil {
		panic(vxSyntaxError{})
	}
	return t
}

func (p *vxParser) fault(table string, part int) {
	if p.d.fault(table, part) {
		p.errs, p.rowE = errVx, p.d.failRow
	}
}

// partition parses PARTITION (pN).
func (p *vxParser) partition() int {
	if !p.accept("PARTITION") {
		return -1
	}
	p.expect("(")
	n, err := strconv.Atoi(p.name()[1:])
	if err != nil || n >= NumPartitions {
		panic(vxSyntaxError{})
	}
	p.expect(")")
	return n
}

func (p *vxParser) source() *vxRel {
	var r *vxRel
	alias := ""
	if p.accept("(") {
		r = p.query()
		p.expect(")")
	} else {
		alias = p.peek()
		t := p.table()
		part := p.partition()
		p.fault(alias, part)
		r = &vxRel{cols: t.cols}
		for _, row := range t.rows {
			if part < 0 || int(row[0].([]byte)[0]>>3) == part {
				r.rows = append(r.rows, row)
			}
		}
		if p.d.back {
			for i, j := 0, len(r.rows)-1; i < j; i, j = i+1, j-1 {
				r.rows[i], r.rows[j] = r.rows[j], r.rows[i]
			}
		}
	}
	if p.accept("AS") {
		alias = p.name()
	} else if t := vxUpper(p.peek()); t != "" && t[0] >= 'A' && t[0] <= 'Z' && !vxKeyword(t) {
		alias = p.name()
	}
	r.alias = make([]string, len(r.cols))
	for i := range r.alias {
		r.alias[i] = alias
	}
	return r
}

func vxKeyword(t string) bool {
	switch t {
	case "WHERE", "ORDER", "GROUP", "LIMIT", "LEFT", "INNER", "JOIN", "ON", "UNION", "FORCE", "HAVING", "RIGHT", "CROSS", "USING":
		return true
	}
	return false
}

func (p *vxParser) query() *vxRel {
	r := p.core()
	for p.accept("UNION") {
		all := p.accept("ALL")
		q := p.core()
		if len(q.cols) != len(r.cols) {
			panic(vxSyntaxError{})
		}
		r = &vxRel{cols: r.cols, rows: append(append([]vxRow{}, r.rows...), q.rows...)}
		if !all {
			r.rows = vxDistinct(r.rows)
		}
	}
	return r
}

func vxDistinct(rows []vxRow) (out []vxRow) {
next:
	for _, a := range rows {
		for _, b := range out {
			same := true
			for i := range a {
				same = same && (a[i] == nil && b[i] == nil || vxEqual(a[i], b[i]))
			}
			if same {
				continue next
			}
		}
		out = append(out, a)
	}
	return
}

func (p *vxParser) core() *vxRel {
	p.expect("SELECT")
	distinct := p.accept("DISTINCT")
	var items []vxExpr
	star := p.accept("*")
	for !star {
		e := p.expr()
		if p.accept("AS") {
			e.name = p.name()
		}
		items = append(items, e)
		if !p.accept(",") {
			break
		}
	}
	r := &vxRel{rows: []vxRow{nil}}
	if p.accept("FROM") {
		r = p.source()
		for {
			left := p.accept("LEFT")
			if !left && !p.accept("INNER") && vxUpper(p.peek()) != "JOIN" {
				break
			}
			p.expect("JOIN")
			s := p.source()
			j := &vxRel{alias: append(append([]string{}, r.alias...), s.alias...), cols: append(append([]string{}, r.cols...), s.cols...)}
			p.expect("ON")
			on := p.expr()
			for _, a := range r.rows {
				n := len(j.rows)
				for _, b := range s.rows {
					row := append(append(vxRow{}, a...), b...)
					if vxTrue(on.eval(j, []vxRow{row})) {
						j.rows = append(j.rows, row)
					}
				}
				if left && len(j.rows) == n {
					j.rows = append(j.rows, append(append(vxRow{}, a...), make(vxRow, len(s.cols))...))
				}
			}
			r = j
		}
	}
	if p.accept("WHERE") {
		e := p.expr()
		var rows []vxRow
		for _, row := range r.rows {
			if vxTrue(e.eval(r, []vxRow{row})) {
				rows = append(rows, row)
			}
		}
		r.rows = rows
	}
	if vxUpper(p.peek()) == "GROUP" || vxUpper(p.peek()) == "HAVING" || vxUpper(p.peek()) == "FORCE" {
		zvx.Unsupported("a clause of SQL")
	}
	if p.accept("ORDER", "BY") {
		p.order(r)
	}
	if p.accept("LIMIT") {
		from, n := int64(0), p.number()
		if p.accept(",") {
			from, n = n, p.number()
		} else if p.accept("OFFSET") {
			from = p.number()
		}
		for ; from > 0 && len(r.rows) > 0; from-- {
			r.rows = r.rows[1:]
		}
		for int64(len(r.rows)) > n {
			r.rows = r.rows[:len(r.rows)-1]
		}
	}
	if star {
		return r
	}
	out, agg := &vxRel{}, false
	for _, e := range items {
		out.cols = append(out.cols, e.name)
		agg = agg || e.agg
	}
	if agg {
		var row vxRow
		for _, e := range items {
			row = append(row, e.eval(r, r.rows))
		}
		out.rows = []vxRow{row}
		return out
	}
	for _, in := range r.rows {
		var row vxRow
		for _, e := range items {
			row = append(row, e.eval(r, []vxRow{in}))
		}
		out.rows = append(out.rows, row)
	}
	if distinct {
		out.rows = vxDistinct(out.rows)
	}
	return out
}

func (p *vxParser) order(r *vxRel) {
	e := p.expr()
	desc := p.accept("DESC")
	if !desc {
		p.accept("ASC")
	}
	if vxUpper(p.peek()) == "," {
		zvx.Unsupported("order by several columns")
	}
	rows := append([]vxRow{}, r.rows...)
	for i := 1; i < len(rows); i++ {
		for j := i; j > 0; j-- {
			a, b := e.eval(r, rows[j-1:j]), e.eval(r, rows[j:j+1])
			if desc {
				a, b = b, a
			}
			if !vxLess(b, a) {
				break
			}
			rows[j-1], rows[j] = rows[j], rows[j-1]
		}
	}
	r.rows = rows
}

func (p *vxParser) arg() any {
	if p.used >= len(p.args) {
		panic(vxSyntaxError{})
	}
	p.used++
	return vxValue(p.args[p.used-1])
}

func (p *vxParser) number() int64 {
	t := p.next()
	if t == "?" {
		n, ok := p.arg().(int64)
		if !ok || n < 0 {
			panic(vxSyntaxError{})
		}
		return n
	}
	n, err := strconv.Atoi(t)
	if err != nil {
		panic(vxSyntaxError{})
	}
	return int64(n)
}

func (p *vxParser) expr() vxExpr {
	a := p.and()
	for p.accept("OR") {
		x, y := a, p.and()
		a = vxExpr{agg: x.agg || y.agg, eval: func(r *vxRel, rows []vxRow) any {
			return vxBool(vxTrue(x.eval(r, rows)) || vxTrue(y.eval(r, rows)))
		}}
	}
	return a
}

func (p *vxParser) and() vxExpr {
	a := p.cmp()
	for p.accept("AND") {
		x, y := a, p.cmp()
		a = vxExpr{agg: x.agg || y.agg, eval: func(r *vxRel, rows []vxRow) any {
			return vxBool(vxTrue(x.eval(r, rows)) && vxTrue(y.eval(r, rows)))
		}}
	}
	return a
}

func (p *vxParser) cmp() vxExpr {
	if p.accept("NOT") {
		x := p.cmp()
		return vxExpr{agg: x.agg, eval: func(r *vxRel, rows []vxRow) any {
			v := x.eval(r, rows)
			if v == nil {
				return nil
			}
			return vxBool(!vxTrue(v))
		}}
	}
	a := p.primary()
	if p.accept("IS") {
		not := p.accept("NOT")
		p.expect("NULL")
		return vxExpr{agg: a.agg, eval: func(r *vxRel, rows []vxRow) any { return vxBool((a.eval(r, rows) == nil) != not) }}
	}
	not := p.accept("NOT")
	if p.accept("IN") {
		p.expect("(")
		var list []vxExpr
		if vxUpper(p.peek()) == "SELECT" {
			for _, row := range p.query().rows {
				v := row[0]
				list = append(list, vxExpr{eval: func(*vxRel, []vxRow) any { return v }})
			}
		} else {
			for {
				list = append(list, p.expr())
				if !p.accept(",") {
					break
				}
			}
		}
		p.expect(")")
		return vxExpr{eval: func(r *vxRel, rows []vxRow) any {
			v := a.eval(r, rows)
			for _, e := range list {
				if vxEqual(v, e.eval(r, rows)) {
					return vxBool(!not)
				}
			}
			return vxBool(not)
		}}
	}
	if not {
		panic(vxSyntaxError{})
	}
	op := p.peek()
	switch op {
	case "=", "<", ">", "<=", ">=", "<>", "!=":
		p.next()
		b := p.primary()
		return vxExpr{agg: a.agg || b.agg, eval: func(r *vxRel, rows []vxRow) any {
			x, y := a.eval(r, rows), b.eval(r, rows)
			if x == nil || y == nil {
				return nil
			}
			switch op {
			case "=":
				return vxBool(vxEqual(x, y))
			case "<":
				return vxBool(vxLess(x, y))
			case ">":
				return vxBool(vxLess(y, x))
			case "<=":
				return vxBool(!vxLess(y, x))
			case ">=":
				return vxBool(!vxLess(x, y))
			}
			return vxBool(!vxEqual(x, y))
		}}
	}
	return a
}

func vxConst(v any) vxExpr { return vxExpr{eval: func(*vxRel, []vxRow) any { return v }} }

func (p *vxParser) primary() vxExpr {
	t := p.next()
	switch {
	case t == "":
		panic(vxSyntaxError{})
	case t == "?":
		return vxConst(p.arg())
	case t == "(":
		if vxUpper(p.peek()) == "SELECT" {
			zvx.Unsupported("a scalar subquery")
		}
		e := p.expr()
		p.expect(")")
		return e
	case t[0] == '\'':
		return vxConst([]byte(t[1:]))
	case t[0] >= '0' && t[0] <= '9':
		n, err := strconv.Atoi(t)
		if err != nil {
			panic(vxSyntaxError{})
		}
		return vxConst(int64(n))
	case t[0] == '@':
		d := p.d
		return vxExpr{name: t, eval: func(*vxRel, []vxRow) any { return d.vars[t] }}
	}
	switch u := vxUpper(t); u {
	case "TRUE":
		return vxConst(int64(1))
	case "FALSE":
		return vxConst(int64(0))
	case "NULL":
		return vxConst(nil)
	case "CASE":
		var conds, vals []vxExpr
		def := vxConst(nil)
		for p.accept("WHEN") {
			conds = append(conds, p.expr())
			p.expect("THEN")
			vals = append(vals, p.expr())
		}
		if p.accept("ELSE") {
			def = p.expr()
		}
		p.expect("END")
		return vxExpr{eval: func(r *vxRel, rows []vxRow) any {
			for i, c := range conds {
				if vxTrue(c.eval(r, rows)) {
					return vals[i].eval(r, rows)
				}
			}
			return def.eval(r, rows)
		}}
	case "COUNT", "GROUP_CONCAT", "FROM_BASE64", "TO_BASE64", "COALESCE", "IFNULL":
		if p.peek() != "(" {
			break
		}
		p.next()
		return p.function(u)
	case "SELECT", "FROM", "WHERE", "UNION", "VALUES", "INTO", "SET", "ORDER", "LIMIT", "JOIN":
		panic(vxSyntaxError{})
	}
	if p.peek() == "(" {
		zvx.Unsupported("SQL function " + t)
	}
	return vxExpr{name: t[strings.IndexByte(t, '.')+1:], eval: func(r *vxRel, rows []vxRow) any { return rows[0][r.find(t)] }}
}

func (p *vxParser) function(name string) vxExpr {
	if name == "COUNT" {
		all := p.accept("*")
		var e vxExpr
		if !all {
			e = p.expr()
		}
		p.expect(")")
		return vxExpr{agg: true, eval: func(r *vxRel, rows []vxRow) any {
			n := int64(0)
			for i := range rows {
				if all || e.eval(r, rows[i:i+1]) != nil {
					n++
				}
			}
			return n
		}}
	}
	args := []vxExpr{p.expr()}
	if name == "GROUP_CONCAT" {
		sep := ","
		if vxUpper(p.peek()) == "ORDER" {
			zvx.Unsupported("ordered concatenation")
		}
		if p.accept("SEPARATOR") {
			sep = p.next()[1:]
		}
		p.expect(")")
		return vxExpr{agg: true, eval: func(r *vxRel, rows []vxRow) any {
			var b []byte
			for i := range rows {
				if i > 0 {
					b = append(b, sep...)
				}
				switch v := args[0].eval(r, rows[i:i+1]).(type) {
				case []byte:
					b = append(b, v...)
				case int64:
					if v == 0 || v == 1 {
						b = append(b, '0'+byte(v))
					} else {
						b = append(b, strconv.Itoa(int(v))...)
					}
				}
			}
			if len(rows) == 0 {
				return nil
			}
			if len(b) > 1024 {
				b = b[:1024]
			}
			return b
		}}
	}
	for p.accept(",") {
		args = append(args, p.expr())
	}
	p.expect(")")
	return vxExpr{eval: func(r *vxRel, rows []vxRow) any {
		v := args[0].eval(r, rows)
		switch name {
		case "FROM_BASE64":
			b, ok := v.([]byte)
			if !ok {
				return nil
			}
			out, err := base64.StdEncoding.DecodeString(string(b))
			if err != nil {
				return nil
			}
			return out
		case "TO_BASE64":
			if b, ok := v.([]byte); ok {
				return []byte(base64.StdEncoding.EncodeToString(b))
			}
			return nil
		}
		for _, e := range args[1:] {
			if v == nil {
				v = e.eval(r, rows)
			}
		}
		return v
	}}
}

// run executes a statement. If the rows end with an error, it is returned in rowErr.
func (d *vxSQL) run(query string, args []any) (r *vxRel, affected int64, rowErr, err error) {
	d.statement++
	p := &vxParser{d: d, toks: vxTokens(query), args: args}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(vxSyntaxError); !ok {
				panic(e)
			}
			r, affected, rowErr, err = nil, 0, nil, errVxSyntax
		}
	}()
	commit := func() {}
	switch {
	case vxUpper(p.peek()) == "SELECT":
		r = p.query()
	case p.accept("INSERT"), p.accept("REPLACE"):
		replace := vxUpper(p.toks[0]) == "REPLACE"
		if !replace {
			if !p.accept("IGNORE") {
				zvx.Unsupported("insert without ignore")
			}
		}
		p.accept("INTO")
		name := p.peek()
		t := p.table()
		p.fault(name, -1)
		cols := p.columns(t)
		if !p.accept("VALUES") {
			p.expect("VALUE")
		}
		var rows []vxRow
		for {
			row := make(vxRow, len(t.cols))
			p.expect("(")
			for i, c := range cols {
				if i > 0 {
					p.expect(",")
				}
				row[c] = p.expr().eval(nil, nil)
			}
			p.expect(")")
			rows = append(rows, row)
			if !p.accept(",") {
				break
			}
		}
		commit = func() {
			for _, row := range rows {
				affected += t.put(row, replace)
			}
		}
	case p.accept("DELETE", "FROM"):
		name := p.peek()
		t := p.table()
		p.fault(name, -1)
		cond := vxConst(int64(1))
		if p.accept("WHERE") {
			cond = p.expr()
		}
		commit = func() {
			var rows []vxRow
			for _, row := range t.rows {
				if vxTrue(cond.eval(&vxRel{cols: t.cols, alias: make([]string, len(t.cols))}, []vxRow{row})) {
					affected++
				} else {
					rows = append(rows, row)
				}
			}
			t.rows = rows
		}
	case p.accept("TRUNCATE"):
		p.accept("TABLE")
		name := p.peek()
		t := p.table()
		p.fault(name, -1)
		commit = func() { t.rows = nil }
	case p.accept("LOAD", "DATA"):
		commit = p.load(&affected)
	case p.accept("CALL"):
		commit = p.call()
	default:
		zvx.Unsupported("SQL statement " + p.peek())
	}
	p.accept(";")
	if p.pos != len(p.toks) || p.used != len(p.args) {
		panic(vxSyntaxError{})
	}
	if p.errs != nil && (r == nil || p.rowE < 0) {
		return nil, 0, nil, p.errs
	}
	commit()
	if p.errs != nil {
		if len(r.rows) > p.rowE {
			r.rows = r.rows[:p.rowE]
		}
		rowErr = p.errs
	}
	return
}

// columns parses the list of columns of an insertion.
func (p *vxParser) columns(t *vxTable) (cols []int) {
	p.expect("(")
	for {
		c := t.col(p.name())
		if c < 0 {
			panic(vxSyntaxError{})
		}
		cols = append(cols, c)
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return
}

// load parses LOAD DATA (the default of ESCAPED BY is a backslash).
func (p *vxParser) load(affected *int64) func() {
	if !p.accept("CONCURRENT") {
		p.accept("LOW_PRIORITY")
	}
	p.accept("LOCAL")
	p.expect("INFILE")
	file := p.primary().eval(nil, nil).([]byte)
	replace := p.accept("REPLACE")
	if !replace {
		p.expect("IGNORE")
	}
	p.expect("INTO", "TABLE")
	name := p.peek()
	t := p.table()
	p.fault(name, -1)
	term, encl, esc, line := "\t", "", "\\", "\n"
	str := func() string {
		s := p.next()[1:]
		switch s {
		case `\n`:
			return "\n"
		case `\t`:
			return "\t"
		case `\\`:
			return `\`
		}
		return s
	}
	if p.accept("FIELDS") || p.accept("COLUMNS") {
		for {
			if p.accept("TERMINATED", "BY") {
				term = str()
			} else if p.accept("ENCLOSED", "BY") || p.accept("OPTIONALLY", "ENCLOSED", "BY") {
				encl = str()
			} else if p.accept("ESCAPED", "BY") {
				esc = str()
			} else {
				break
			}
		}
	}
	if p.accept("LINES", "TERMINATED", "BY") {
		line = str()
	}
	if len(term) != 1 || len(encl) > 1 || len(esc) > 1 || len(line) != 1 {
		zvx.Unsupported("separators of several characters")
	}
	var vars []string
	p.expect("(")
	for {
		vars = append(vars, p.name())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	var cols []int
	var sets []vxExpr
	if p.accept("SET") {
		for {
			cols = append(cols, t.col(p.name()))
			p.expect("=")
			sets = append(sets, p.expr())
			if !p.accept(",") {
				break
			}
		}
	}
	d := p.d
	return func() {
		for _, in := range vxFields(d.read(string(file)), term[0], encl, esc, line[0]) {
			row := make(vxRow, len(t.cols))
			zvx.Assert(len(in) == len(vars), "a row of a file has a wrong number of columns")
			for i, v := range vars {
				var val any
				if in[i] != nil {
					val = in[i]
				}
				if v[0] == '@' {
					d.vars[v] = val
				} else {
					row[t.col(v)] = val
				}
			}
			for i, c := range cols {
				row[c] = sets[i].eval(nil, nil)
			}
			*affected += t.put(row, replace)
		}
	}
}

// read returns the content of a file of the server.
func (d *vxSQL) read(name string) []byte {
	if b, ok := d.files[name]; ok || zvx.Symbolic() {
		zvx.Assert(ok, "a file is loaded that does not exist")
		return b
	}
	b, err := os.ReadFile(name)
	zvx.Assert(err == nil, "a file is loaded that does not exist")
	return b
}

func vxFields(b []byte, term byte, encl, esc string, line byte) (rows [][][]byte) {
	for len(b) > 0 {
		var row [][]byte
		for end := false; !end; {
			col := []byte{}
			enclosed := encl != "" && len(b) > 0 && b[0] == encl[0]
			quoted, escaped := enclosed, false
			if quoted {
				b = b[1:]
			}
			for end = true; len(b) > 0; {
				c := b[0]
				b = b[1:]
				if esc != "" && c == esc[0] && len(b) > 0 {
					e := b[0]
					b = b[1:]
					escaped = escaped || e == 'N'
					switch e {
					case '0':
						e = 0
					case 'b':
						e = '\b'
					case 'n':
						e = '\n'
					case 'r':
						e = '\r'
					case 't':
						e = '\t'
					case 'Z':
						e = 26
					}
					col = append(col, e)
					continue
				}
				if quoted {
					if c == encl[0] && len(b) > 0 && b[0] == encl[0] {
						b = b[1:]
					} else if c == encl[0] && (len(b) == 0 || b[0] == term || b[0] == line) {
						quoted = false
						continue
					}
					col = append(col, c)
					continue
				}
				if c == term {
					end = false
					break
				}
				if c == line {
					break
				}
				col = append(col, c)
			}
			if !enclosed && (string(col) == "NULL" || escaped && string(col) == "N") {
				col = nil
			}
			row = append(row, col)
		}
		rows = append(rows, row)
	}
	return
}

// call runs one of the procedures of the schema.
func (p *vxParser) call() func() {
	name := p.name()
	p.expect("(")
	var args []any
	var out string
	for {
		if t := p.peek(); t != "" && t[0] == '@' {
			out = p.next()
		} else {
			args = append(args, p.expr().eval(nil, nil))
		}
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	d := p.d
	switch name {
	case "prune_expired":
		p.fault("certs", -1)
		now := args[0].([]byte)
		return func() {
			d.now = string(now)
			t := d.tables["certs"]
			var rows []vxRow
			for _, r := range t.rows {
				if !vxLess(r[t.col("expiration")], any(now)) {
					rows = append(rows, r)
				}
			}
			t.rows = rows
		}
	case "calc_dirty_domains":
		part, chunk := int(args[0].(int64)), args[1].(int64)
		p.fault("dirty", part)
		return func() {
			t, n := d.tables["dirty"], int64(0)
			for _, r := range t.rows {
				if n < chunk && int(r[0].([]byte)[0]>>3) == part && vxEqual(r[1], int64(0)) {
					r[1] = int64(1)
					n++
				}
			}
			d.vars[out] = n
		}
	}
	zvx.Unsupported("procedure " + name)
	return nil
}
