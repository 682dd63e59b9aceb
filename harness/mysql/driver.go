package mysql

import (
	"bufio"
	"context"
	"database/sql"
	"database/sql/driver"
	"io"
	"io/fs"
	"os"
	"strconv"
	"strings"

	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

// database/sql on the interpreter: with a driver when run natively, with stand-ins under the engine.

//vx:stub (*database/sql.DB).QueryContext => vxQueryContext
//vx:stub (*database/sql.DB).Query => vxQuery
//vx:stub (*database/sql.DB).QueryRowContext => vxQueryRowContext
//vx:stub (*database/sql.DB).QueryRow => vxQueryRow
//vx:stub (*database/sql.DB).ExecContext => vxExecContext
//vx:stub (*database/sql.DB).Exec => vxExec
//vx:stub (*database/sql.DB).Conn => vxConnOf
//vx:stub (*database/sql.Conn).ExecContext => vxConnExec
//vx:stub (*database/sql.Conn).QueryContext => vxConnQuery
//vx:stub (*database/sql.Conn).QueryRowContext => vxConnQueryRow
//vx:stub (*database/sql.Conn).Close => vxConnClose
//vx:stub (*database/sql.Rows).Next => vxNext
//vx:stub (*database/sql.Rows).Scan => vxScan
//vx:stub (*database/sql.Rows).Err => vxErr
//vx:stub (*database/sql.Rows).Close => vxRowsClose
//vx:stub (*database/sql.Row).Scan => vxRowScan
//vx:stub (*database/sql.Row).Err => vxRowErr

type vxRowsState struct {
	rows []vxRow
	cur  vxRow
	err  error // after the rows
	seen error // reported by Err
	open bool
}

var vxDB *vxSQL
var vxOpenRows map[*sql.Rows]*vxRowsState
var vxOpenRow map[*sql.Row]*vxRowsState
var vxConns int // connections in use

// vxOpenDB connects to the database.
func vxOpenDB(d *vxSQL) *mysqlDB {
	vxDB = d
	vxOpenRows, vxOpenRow, vxConns = map[*sql.Rows]*vxRowsState{}, map[*sql.Row]*vxRowsState{}, 0
	vxFiles, vxFileCount = map[*os.File]*vxFile{}, 0
	if zvx.Symbolic() {
		return &mysqlDB{db: new(sql.DB)}
	}
	return &mysqlDB{db: sql.OpenDB(vxConnector{})}
}

// vxClosed: all connections are free again.
func vxClosed(c *mysqlDB) bool {
	if !zvx.Symbolic() {
		return c.db.Stats().InUse == 0
	}
	for _, r := range vxOpenRows {
		if r.open {
			return false
		}
	}
	return vxConns == 0
}

func vxQueryContext(_ *sql.DB, ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	rel, _, rowErr, err := vxDB.run(q, args)
	if err != nil {
		return nil, err
	}
	r := new(sql.Rows)
	vxOpenRows[r] = &vxRowsState{rows: rel.rows, err: rowErr, open: true}
	return r, nil
}

func vxQuery(db *sql.DB, q string, args ...any) (*sql.Rows, error) {
	return vxQueryContext(db, context.Background(), q, args...)
}

func vxQueryRowContext(_ *sql.DB, ctx context.Context, q string, args ...any) *sql.Row {
	r, s := new(sql.Row), &vxRowsState{}
	rel, _, rowErr, err := vxDB.run(q, args)
	if err == nil {
		s.rows, s.err = rel.rows, rowErr
	} else {
		s.seen = err
	}
	if e := ctx.Err(); e != nil {
		s.rows, s.seen = nil, e
	}
	vxOpenRow[r] = s
	return r
}

func vxQueryRow(db *sql.DB, q string, args ...any) *sql.Row {
	return vxQueryRowContext(db, context.Background(), q, args...)
}

type vxResult int64

func (r vxResult) LastInsertId() (int64, error) { return 0, nil }
func (r vxResult) RowsAffected() (int64, error) { return int64(r), nil }

func vxExecContext(_ *sql.DB, ctx context.Context, q string, args ...any) (sql.Result, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	_, n, _, err := vxDB.run(q, args)
	if err != nil {
		return nil, err
	}
	return vxResult(n), nil
}

func vxExec(db *sql.DB, q string, args ...any) (sql.Result, error) {
	return vxExecContext(db, context.Background(), q, args...)
}

func vxConnOf(_ *sql.DB, ctx context.Context) (*sql.Conn, error) {
	vxConns++
	return new(sql.Conn), ctx.Err()
}

func vxConnExec(_ *sql.Conn, ctx context.Context, q string, args ...any) (sql.Result, error) {
	return vxExecContext(nil, ctx, q, args...)
}

func vxConnQuery(_ *sql.Conn, ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	return vxQueryContext(nil, ctx, q, args...)
}

func vxConnQueryRow(_ *sql.Conn, ctx context.Context, q string, args ...any) *sql.Row {
	return vxQueryRowContext(nil, ctx, q, args...)
}

func vxConnClose(*sql.Conn) error {
	vxConns--
	return nil
}

func vxNext(r *sql.Rows) bool {
	s := vxOpenRows[r]
	if !s.open {
		return false
	}
	if len(s.rows) == 0 {
		s.seen, s.open = s.err, false
		return false
	}
	s.cur, s.rows = s.rows[0], s.rows[1:]
	return true
}

func vxErr(r *sql.Rows) error { return vxOpenRows[r].seen }

func vxRowsClose(r *sql.Rows) error {
	vxOpenRows[r].open = false
	return nil
}

func vxScan(r *sql.Rows, dest ...any) error { return vxAssign(vxOpenRows[r].cur, dest) }

func vxRowErr(r *sql.Row) error { return vxOpenRow[r].seen }

func vxRowScan(r *sql.Row, dest ...any) error {
	s := vxOpenRow[r]
	if s.seen != nil {
		return s.seen
	}
	if len(s.rows) == 0 {
		if s.err != nil {
			return s.err
		}
		return sql.ErrNoRows
	}
	return vxAssign(s.rows[0], dest)
}

func vxAssign(row vxRow, dest []any) error {
	if len(row) != len(dest) {
		return errVxSyntax
	}
	for i, v := range row {
		b, isBytes := v.([]byte)
		n, isInt := v.(int64)
		if isBytes {
			if m, err := strconv.Atoi(string(b)); err == nil {
				n = int64(m)
			}
		}
		switch p := dest[i].(type) {
		case *[]byte:
			*p = nil
			if isBytes {
				*p = append([]byte{}, b...)
			} else if isInt {
				*p = []byte(strconv.Itoa(int(n)))
			}
		case *string:
			if !isBytes {
				return errVxSyntax
			}
			*p = string(b)
		case *sql.NullString:
			*p = sql.NullString{String: string(b), Valid: isBytes}
		case *int64:
			if v == nil {
				return errVxSyntax
			}
			*p = n
		case *uint64:
			if v == nil {
				return errVxSyntax
			}
			*p = uint64(n)
		case *int:
			if v == nil {
				return errVxSyntax
			}
			*p = int(n)
		case *bool:
			*p = n != 0
		default:
			zvx.Unsupported("a destination of this type")
		}
	}
	return nil
}

// ---- native ----

type vxConnector struct{}
type vxDriverConn struct{}
type vxDriverRows struct {
	cols []string
	rows []vxRow
	err  error
}

func (vxConnector) Connect(context.Context) (driver.Conn, error) { return vxDriverConn{}, nil }
func (vxConnector) Driver() driver.Driver                        { return nil }
func (vxDriverConn) Prepare(string) (driver.Stmt, error)         { return nil, errVxSyntax }
func (vxDriverConn) Close() error                                { return nil }
func (vxDriverConn) Begin() (driver.Tx, error)                   { return nil, errVxSyntax }

func vxNamed(in []driver.NamedValue) (out []any) {
	for _, a := range in {
		out = append(out, a.Value)
	}
	return
}

func (vxDriverConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	rel, _, rowErr, err := vxDB.run(q, vxNamed(args))
	if err != nil {
		return nil, err
	}
	r := &vxDriverRows{cols: rel.cols, rows: rel.rows, err: rowErr}
	return r, nil
}

func (vxDriverConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	_, n, _, err := vxDB.run(q, vxNamed(args))
	if err != nil {
		return nil, err
	}
	return vxResult(n), nil
}

func (r *vxDriverRows) Columns() []string { return r.cols }
func (r *vxDriverRows) Close() error      { return nil }
func (r *vxDriverRows) Next(dest []driver.Value) error {
	if len(r.rows) == 0 {
		if r.err != nil {
			return r.err
		}
		return io.EOF
	}
	for i, v := range r.rows[0] {
		dest[i] = v
	}
	r.rows = r.rows[1:]
	return nil
}

// ---- files (under the engine) ----

//vx:stub os.CreateTemp => vxCreateTemp
//vx:stub os.Remove => vxRemove
//vx:stub os.Chmod => vxChmod
//vx:stub (*os.File).Write => vxWrite
//vx:stub (*os.File).WriteString => vxWriteString
//vx:stub (*os.File).Close => vxClose
//vx:stub (*os.File).Name => vxName
//vx:stub bufio.NewWriterSize => vxNewWriterSize

type vxFile struct {
	name   string
	closed bool
}

var vxFiles map[*os.File]*vxFile
var vxFileCount int

func vxCreateTemp(dir, pattern string) (*os.File, error) {
	vxFileCount++
	f := new(os.File)
	name := dir + "/" + strings.Replace(pattern, "*", strconv.Itoa(vxFileCount), 1)
	vxFiles[f] = &vxFile{name: name}
	vxDB.files[name] = nil
	return f, nil
}

func vxRemove(name string) error {
	if _, ok := vxDB.files[name]; !ok {
		return os.ErrNotExist
	}
	delete(vxDB.files, name)
	return nil
}

func vxChmod(name string, mode fs.FileMode) error {
	if _, ok := vxDB.files[name]; !ok {
		return os.ErrNotExist
	}
	return nil
}

func vxWrite(f *os.File, b []byte) (int, error) {
	s := vxFiles[f]
	if s.closed {
		return 0, os.ErrClosed
	}
	vxDB.files[s.name] = append(vxDB.files[s.name], b...)
	return len(b), nil
}

func vxWriteString(f *os.File, b string) (int, error) { return vxWrite(f, []byte(b)) }

func vxClose(f *os.File) error {
	if vxFiles[f].closed {
		return os.ErrClosed
	}
	vxFiles[f].closed = true
	return nil
}

func vxName(f *os.File) string { return vxFiles[f].name }

func vxNewWriterSize(w io.Writer, size int) *bufio.Writer {
	b := new(bufio.Writer)
	b.Reset(w)
	return b
}
