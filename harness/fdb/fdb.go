// Package fdb is a fake database/sql driver whose every answer is decided by the harness.
package fdb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"io"
)

// Answer is what the environment replies to one statement.
type Answer struct {
	Err     error
	RowErr  error // error delivered while iterating, after Rows
	Columns []string
	Rows    [][]driver.Value
}

// Handler sees every statement sent to the server, with its arguments.
type Handler func(kind, query string, args []any) Answer

type connector struct{ h Handler }

// Open returns a *sql.DB with one connection and the given handler.
func Open(h Handler) *sql.DB {
	db := sql.OpenDB(&connector{h})
	db.SetMaxOpenConns(4)
	return db
}

func (c *connector) Connect(context.Context) (driver.Conn, error) { return &conn{c.h}, nil }
func (c *connector) Driver() driver.Driver                        { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, driver.ErrBadConn }

type conn struct{ h Handler }

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &stmt{c, q}, nil }
func (c *conn) Close() error                          { return nil }
func (c *conn) Begin() (driver.Tx, error) {
	a := c.h("exec", "BEGIN", nil)
	return tx{c}, a.Err
}

type tx struct{ c *conn }

func (t tx) Commit() error   { return t.c.h("exec", "COMMIT", nil).Err }
func (t tx) Rollback() error { return t.c.h("exec", "ROLLBACK", nil).Err }

func vals(args []driver.NamedValue) []any {
	var r []any
	for _, a := range args {
		r = append(r, a.Value)
	}
	return r
}

func (c *conn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	a := c.h("query", q, vals(args))
	if a.Err != nil {
		return nil, a.Err
	}
	return &rows{a: a}, nil
}

func (c *conn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	a := c.h("exec", q, vals(args))
	if a.Err != nil {
		return nil, a.Err
	}
	return driver.RowsAffected(0), nil
}

type stmt struct {
	c *conn
	q string
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	var v []any
	for _, a := range args {
		v = append(v, a)
	}
	a := s.c.h("exec", s.q, v)
	return driver.RowsAffected(0), a.Err
}
func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	var v []any
	for _, a := range args {
		v = append(v, a)
	}
	a := s.c.h("query", s.q, v)
	if a.Err != nil {
		return nil, a.Err
	}
	return &rows{a: a}, nil
}

type rows struct {
	a Answer
	i int
}

func (r *rows) Columns() []string { return r.a.Columns }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i >= len(r.a.Rows) {
		if r.a.RowErr != nil {
			return r.a.RowErr
		}
		return io.EOF
	}
	copy(dest, r.a.Rows[r.i])
	r.i++
	return nil
}
