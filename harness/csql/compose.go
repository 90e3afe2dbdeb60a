package main

import (
	"fmt"
	"strings"

	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
)

func init() {
	checks["C08"] = c08
	checks["C09"] = c09
}

// colNames are chosen so that their order differs by byte, length and number.
var colNames = []string{"k10", "k2", "k", "ka", "k_a", "j", "l1"}

func c08(r *mc.Run) {
	n := r.Pick(6, 6)
	r.Bound(fmt.Sprintf("one table: every assignment of {unused, referenced, condition} to %d columns x every set of primary key columns x 3 backends; condition columns taken from WHERE, from ON or from both", n))
	r.Bound("two tables: every assignment to 3 columns of each x primary keys x table names in either order")
	r.Assume("the role of a column is expressed by a simple query; how roles are found in arbitrary queries is C06/C07")
	r.Explore(mc.Options{Name: "one-table", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		cols := colNames[:n]
		t := env.Table{Name: "t", Cols: cols}
		var ref, cond []string
		u := uses{}
		for _, cl := range cols {
			switch c.Choose(cl, 3) {
			case 1:
				ref = append(ref, cl)
				u.add(base{"t", cl}, false)
			case 2:
				cond = append(cond, cl)
				u.add(base{"t", cl}, true)
			}
		}
		pk := 0
		if be == "postgres" || r.Thorough() {
			pk = c.Choose("primary key", 1<<n)
		} else {
			// a few representative keys: none, each single column, all used, all but one
			keys := []int{0, 1<<n - 1, 1<<(n-1) - 1}
			for i := 0; i < n; i++ {
				keys = append(keys, 1<<i)
			}
			pk = keys[c.Choose("primary key", len(keys))]
		}
		for i, cl := range cols {
			if pk&(1<<i) != 0 {
				t.PK = append(t.PK, cl)
			}
		}
		g := &gen{c: c, be: be, s: &env.Schema{Tables: []env.Table{t}}, u: u}
		return g.judge(roleSQL([]string{"t"}, [][]string{ref}, [][]string{cond}, c.Choose("order", 2) == 1), true, nil)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "two-tables", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		names := [][]string{{"t1", "t10"}, {"t2", "t10"}}[c.Choose("names", 2)]
		u := uses{}
		s := &env.Schema{}
		var refs, conds [][]string
		for ti, tn := range names {
			t := env.Table{Name: tn, Cols: []string{"k2", "k10", "k"}}
			for i := range t.Cols {
				t.Cols[i] += []string{"", "x"}[ti]
			}
			var ref, cond []string
			for _, cl := range t.Cols {
				switch c.Choose(tn+"."+cl, 3) {
				case 1:
					ref = append(ref, cl)
					u.add(base{tn, cl}, false)
				case 2:
					cond = append(cond, cl)
					u.add(base{tn, cl}, true)
				}
			}
			switch c.Choose("primary key of "+tn, 3) {
			case 1:
				t.PK = t.Cols[:1]
			case 2:
				t.PK = t.Cols[1:]
			}
			s.Tables = append(s.Tables, t)
			refs, conds = append(refs, ref), append(conds, cond)
		}
		g := &gen{c: c, be: be, s: s, u: u}
		return g.judge(roleSQL(names, refs, conds, false), true, nil)
	})
	if r.Violated() {
		return
	}
	r.Bound("many condition columns: 6 and 7 condition columns (13699 candidates) and 6 with 2 referenced")
	r.Explore(mc.Options{Name: "many-columns", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		k := []int{5, 6, 7}[c.Choose("conditions", r.Pick(2, 3))]
		cols := append([]string{}, colNames...)
		cols = append(cols, "zz", "a")
		u := uses{}
		cond := cols[:k]
		ref := cols[7:][:c.Choose("referenced", 3)]
		for _, x := range cond {
			u.add(base{"t", x}, true)
		}
		for _, x := range ref {
			u.add(base{"t", x}, false)
		}
		g := &gen{c: c, be: be, s: &env.Schema{Tables: []env.Table{{Name: "t", Cols: cols, PK: cols[:c.Choose("pk", 3)]}}}, u: u}
		return g.judge(roleSQL([]string{"t"}, [][]string{ref}, [][]string{cond}, false), true, nil)
	})
}

// roleSQL is a query giving the columns their roles.
func roleSQL(tables []string, refs, conds [][]string, rev bool) string {
	s := sel{items: "1"}
	var items, wh []string
	for i, t := range tables {
		for _, c := range refs[i] {
			items = append(items, t+"."+c)
		}
		for _, c := range conds[i] {
			wh = append(wh, t+"."+c+" = 1")
		}
	}
	if rev {
		for i, j := 0, len(items)-1; i < j; i, j = i+1, j-1 {
			items[i], items[j] = items[j], items[i]
		}
		for i, j := 0, len(wh)-1; i < j; i, j = i+1, j-1 {
			wh[i], wh[j] = wh[j], wh[i]
		}
	}
	if len(items) > 0 {
		s.items = strings.Join(items, ", ")
	}
	s.where = strings.Join(wh, " AND ")
	s.from = strings.Join(tables, ", ")
	return s.String()
}

// c09 -----------------------------------------------------------------------

func c09(r *mc.Run) {
	r.Bound("two tables, condition columns x,y and CreatedAt of one table and x,z of the other, one referenced column each; every set of up to 4 (thorough 5) existing indexes from a pool of 26: equal, prefix, extension, reordered, on the other table, on a table not in the query, differently cased, on an expression, with the same index name on two tables")
	pool := func(be string) []env.Index {
		l := []env.Index{}
		add := func(table string, cols ...string) {
			l = append(l, env.Index{Table: table, Name: fmt.Sprintf("i%02d", len(l)), Cols: cols})
		}
		add("a", "x")
		add("a", "y")
		add("a", "x", "y")
		add("a", "y", "x")
		add("a", "CreatedAt")
		add("a", "CreatedAt", "x")
		add("a", "x", "y", "CreatedAt")
		add("a", "y", "CreatedAt", "x")
		add("a", "x", "y", "CreatedAt", "name") // exactly a suggestion with the referenced column
		add("a", "x", "y", "CreatedAt", "name", "id")
		add("a", "name")
		add("a", "name", "x")
		add("a", "id", "x")
		add("b", "x")
		add("b", "z")
		add("b", "x", "z")
		add("b", "z", "x", "name")
		add("b", "x", "z", "name", "aid")
		add("b", "y")
		add("c", "x")
		add("c", "x", "y")
		add("a", "lower(x)")
		add("a", "lower(x)", "y")
		add("a", "x", "lower(y)")
		if be == "mysql" {
			// column names are reported in the case of their definition, which may differ from the query's
			add("a", "X", "Y")
			add("b", "Z")
		} else {
			add("a", "CreatedAt", "y", "x", "name")
			add("b", "name", "x", "z")
		}
		return l
	}
	r.Explore(mc.Options{Name: "existing-indexes", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		p := pool(be)
		s := &env.Schema{Tables: []env.Table{
			{Name: "a", Cols: []string{"id", "x", "y", "name", "CreatedAt"}, PK: []string{"id"}},
			{Name: "b", Cols: []string{"id", "aid", "x", "z", "name", "y"}, PK: []string{"id", "aid"}},
			{Name: "c", Cols: []string{"cid", "x", "y"}, PK: []string{"cid"}},
		}}
		n := c.Choose("existing", r.Pick(5, 6))
		at := 0
		for i := 0; i < n; i++ {
			if at >= len(p) {
				return nil
			}
			at += c.Choose("index", len(p)-at)
			s.Indexes = append(s.Indexes, p[at])
			at++
		}
		u := uses{}
		for _, b := range []base{{"a", "x"}, {"a", "y"}, {"a", "CreatedAt"}, {"b", "x"}, {"b", "z"}} {
			u.add(b, true)
		}
		u.add(base{"a", "name"}, false)
		u.add(base{"b", "name"}, false)
		ca := `"CreatedAt"`
		if be == "mysql" {
			ca = "CreatedAt"
		}
		if n <= 2 {
			// rows of a column that is in several indexes come in no particular order
			pf := c.Flip("primary key first")
			g := &gen{c: c, be: be, s: s, u: u}
			return g.judgeWorld("SELECT a.name, b.name FROM a JOIN b ON a.x = b.x WHERE a.y = 1 AND a."+ca+" > 2 AND b.z = 3", true, nil, func(w *env.World) { w.PKRowFirst = pf })
		}
		g := &gen{c: c, be: be, s: s, u: u}
		return g.judge("SELECT a.name, b.name FROM a JOIN b ON a.x = b.x WHERE a.y = 1 AND a."+ca+" > 2 AND b.z = 3", true, nil)
	})
	if r.Violated() {
		return
	}
	r.Bound("primary keys: all sets of up to 2 existing indexes containing primary key columns: an index with a primary key column and others is still suggested, one of primary key columns only is not")
	r.Explore(mc.Options{Name: "primary-keys", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		s := &env.Schema{Tables: []env.Table{{Name: "b", Cols: []string{"id", "aid", "x"}, PK: [][]string{{"id", "aid"}, {"aid"}, {"id", "aid", "x"}, {}}[c.Choose("pk", 4)]}}}
		pool := [][]string{{"id", "x"}, {"aid", "id"}, {"x", "aid"}, {"x"}, {"id", "aid", "x"}, {"x", "aid", "id"}, {"aid"}, {"id"}}
		n := c.Choose("existing", 4)
		at := 0
		for i := 0; i < n; i++ {
			if at >= len(pool) {
				return nil
			}
			at += c.Choose("index", len(pool)-at)
			s.Indexes = append(s.Indexes, env.Index{Table: "b", Name: fmt.Sprintf("j%d", at), Cols: pool[at]})
			at++
		}
		u := uses{}
		for _, x := range []string{"id", "aid", "x"} {
			u.add(base{"b", x}, true)
		}
		pf := c.Flip("primary key first")
		g := &gen{c: c, be: be, s: s, u: u}
		return g.judgeWorld("SELECT 1 FROM b WHERE id = 1 AND aid > 2 AND x < 3", true, nil, func(w *env.World) { w.PKRowFirst = pf })
	})
}
