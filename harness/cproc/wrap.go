package main

import (
	"errors"
	"io"
	"net/http"

	"github.com/mrasu/GravityR/zz_verif/fdb"
)

// wrap makes the SQL server h fail as f says.
func wrap(f *fault, h fdb.Handler) fdb.Handler {
	return func(kind, q string, args []any) fdb.Answer {
		switch f.next() {
		case "refuse":
			return fdb.Answer{Err: errors.New(f.Text)}
		case "cut":
			panic("cut")
		case "half":
			a := h(kind, q, args)
			if len(a.Rows) == 0 {
				a.Err = errors.New(f.Text)
			} else {
				a.RowErr = errors.New(f.Text)
			}
			return a
		}
		return h(kind, q, args)
	}
}

func readAll(r *http.Response) ([]byte, error) { return io.ReadAll(r.Body) }
