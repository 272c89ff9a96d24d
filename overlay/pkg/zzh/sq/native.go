//go:build zzcgo

package sq

import (
	"context"
	"database/sql/driver"
	_ "unsafe"

	sqlite3 "github.com/mattn/go-sqlite3"
)

// Puts the hook between database/sql and the library. Only in the native builds.

//go:linkname drivers database/sql.drivers
var drivers map[string]driver.Driver

func init() { drivers["sqlite3"] = hooked{drivers["sqlite3"]} }

type hooked struct{ driver.Driver }

func (d hooked) Open(dsn string) (driver.Conn, error) {
	c, err := d.Driver.Open(dsn)
	if err != nil {
		return nil, err
	}
	return &hookedConn{c.(*sqlite3.SQLiteConn)}, nil
}

func before() error {
	if hook == nil {
		return nil
	}
	return hook()
}

type hookedConn struct{ *sqlite3.SQLiteConn }

func (c *hookedConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := before(); err != nil {
		return nil, err
	}
	return c.SQLiteConn.ExecContext(ctx, q, args)
}

func (c *hookedConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err := before(); err != nil {
		return nil, err
	}
	return c.SQLiteConn.QueryContext(ctx, q, args)
}

func (c *hookedConn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}

func (c *hookedConn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	s, err := c.SQLiteConn.PrepareContext(ctx, q)
	if err != nil {
		return nil, err
	}
	return &hookedStmt{s.(*sqlite3.SQLiteStmt)}, nil
}

type hookedStmt struct{ *sqlite3.SQLiteStmt }

func (s *hookedStmt) Exec(args []driver.Value) (driver.Result, error) {
	if err := before(); err != nil {
		return nil, err
	}
	return s.SQLiteStmt.Exec(args)
}

func (s *hookedStmt) Query(args []driver.Value) (driver.Rows, error) {
	if err := before(); err != nil {
		return nil, err
	}
	return s.SQLiteStmt.Query(args)
}

func (s *hookedStmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	if err := before(); err != nil {
		return nil, err
	}
	return s.SQLiteStmt.ExecContext(ctx, args)
}

func (s *hookedStmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	if err := before(); err != nil {
		return nil, err
	}
	return s.SQLiteStmt.QueryContext(ctx, args)
}
