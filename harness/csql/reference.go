package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/mrasu/GravityR/zz_verif/env"
)

// base is a column of a real table.
type base struct{ table, col string }

// uses says how a query uses columns of real tables: false = only referenced, true =
// used in a condition (WHERE or ON).
type uses map[base]bool

func (u uses) add(b base, cond bool) { u[b] = u[b] || cond }

// reference computes, from first principles, the set of indexes worth trying:
//   - every ordering of every non-empty set of condition columns,
//   - every ordering of all condition columns followed by all other referenced columns in
//     alphabetical order (when there are any),
//   - not those made of primary key columns only,
//   - not those already in the database.
//
// The result is ordered by table, then length, then column names.
func reference(s *env.Schema, u uses) []string {
	tables := map[string][2][]string{}
	for b, cond := range u {
		t := tables[b.table]
		if cond {
			t[0] = append(t[0], b.col)
		} else {
			t[1] = append(t[1], b.col)
		}
		tables[b.table] = t
	}
	type cand struct {
		table string
		cols  []string
	}
	var all []cand
	for name, t := range tables {
		conds, refs := t[0], t[1]
		sort.Strings(conds)
		sort.Strings(refs)
		var list [][]string
		var rec func(cur []string, rest []string)
		rec = func(cur, rest []string) {
			if len(cur) > 0 {
				list = append(list, append([]string{}, cur...))
			}
			if len(rest) == 0 && len(refs) > 0 {
				list = append(list, append(append([]string{}, cur...), refs...))
			}
			for i, r := range rest {
				next := append(append([]string{}, rest[:i]...), rest[i+1:]...)
				rec(append(append([]string{}, cur...), r), next)
			}
		}
		rec(nil, conds)
		st := s.Table(name)
		for _, cols := range list {
			onlyPK := true
			for _, c := range cols {
				pk := false
				for _, p := range st.PK {
					if strings.EqualFold(p, c) {
						pk = true
					}
				}
				onlyPK = onlyPK && pk
			}
			exists := false
			for _, i := range s.Indexes {
				if i.Table == name && strings.EqualFold(strings.Join(i.Cols, "\x00"), strings.Join(cols, "\x00")) {
					exists = true
				}
			}
			if !onlyPK && !exists {
				all = append(all, cand{name, cols})
			}
		}
	}
	sort.Slice(all, func(i, j int) bool {
		a, b := all[i], all[j]
		if a.table != b.table {
			return a.table < b.table
		}
		if len(a.cols) != len(b.cols) {
			return len(a.cols) < len(b.cols)
		}
		for k := range a.cols {
			if a.cols[k] != b.cols[k] {
				return a.cols[k] < b.cols[k]
			}
		}
		return false
	})
	var out []string
	for _, c := range all {
		out = append(out, c.table+"("+strings.Join(c.cols, ",")+")")
	}
	return out
}

func sorted(l []string) []string {
	o := append([]string{}, l...)
	sort.Strings(o)
	return o
}

func lower(l []string) []string {
	var o []string
	for _, s := range l {
		o = append(o, strings.ToLower(s))
	}
	return o
}

// diff describes the difference of two lists as sets (duplicates count).
func diff(got, want []string) string {
	g, w := map[string]int{}, map[string]int{}
	for _, x := range got {
		g[x]++
	}
	for _, x := range want {
		w[x]++
	}
	var d []string
	for k, n := range w {
		if g[k] < n {
			d = append(d, "missing "+k)
		}
	}
	for k, n := range g {
		if n > w[k] {
			if w[k] == 0 {
				d = append(d, "unexpected "+k)
			} else {
				d = append(d, "repeated "+k)
			}
		}
	}
	sort.Strings(d)
	if len(d) > 8 {
		d = append(d[:8], fmt.Sprintf("… %d more", len(d)-8))
	}
	return strings.Join(d, "; ")
}
