package env

import (
	"database/sql/driver"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

// The catalogs answer what the request asks for, and are adversarial about what it does
// not ask for: without ORDER BY rows come in an unexpected order, without a filter on the
// schema rows of another schema come along.

var (
	reInfoSchema = regexp.MustCompile(`(?is)^\s*SELECT\s+(.*?)\s+FROM\s+information_schema\.(\w+)(?:\s+(?:AS\s+)?(\w+))?\s+WHERE\s+(.*?)(?:\s+ORDER\s+BY\s+(.*?))?\s*;?\s*$`)
	reSelItem    = regexp.MustCompile("(?is)^(?:\\w+\\.)?`?(\\w+)`?(?:\\s+(?:AS\\s+)?`?(\\w+)`?)?$")
	reCondEq     = regexp.MustCompile("(?is)^\\(?\\s*(?:\\w+\\.)?`?(\\w+)`?\\s*=\\s*(\\?|'[^']*')\\s*\\)?$")
	reCondIn     = regexp.MustCompile("(?is)^\\(?\\s*(?:\\w+\\.)?`?(\\w+)`?\\s+IN\\s*\\(([^()]*)\\)\\s*\\)?$")
	reAnd        = regexp.MustCompile(`(?i)\s+AND\s+`)
	reOrderItem  = regexp.MustCompile("(?is)^(?:\\w+\\.)?`?(\\w+)`?(?:\\s+(ASC|DESC))?$")
)

// foreign is a schema with the same tables but everything else different.
func (w *World) foreign() *Schema {
	f := &Schema{}
	for _, t := range w.Schema.Tables {
		f.Tables = append(f.Tables, Table{Name: t.Name, Cols: append([]string{"foreign_col"}, t.Cols...), PK: append([]string{"foreign_col"}, t.Cols...)})
		for _, c := range t.Cols {
			f.Indexes = append(f.Indexes, Index{t.Name, "foreign_" + t.Name + "_" + c, []string{c}})
		}
	}
	return f
}

// allIndexes are the indexes of s including those of primary keys.
func allIndexes(s *Schema, mysql bool) []Index {
	var out []Index
	for _, t := range s.Tables {
		if len(t.PK) > 0 {
			n := t.Name + "_pkey"
			if mysql {
				n = "PRIMARY"
			}
			out = append(out, Index{t.Name, n, t.PK})
		}
	}
	return append(out, s.Indexes...)
}

func (w *World) infoSchemaRows(table string) []map[string]string {
	var rows []map[string]string
	add := func(schema string, s *Schema) {
		switch table {
		case "columns":
			for _, t := range s.Tables {
				for i, c := range t.Cols {
					key := ""
					for _, x := range s.Indexes {
						if x.Table == t.Name && len(x.Cols) > 0 && strings.EqualFold(x.Cols[0], c) {
							key = "MUL"
						}
					}
					if has(t.PK, c) {
						key = "PRI"
					}
					rows = append(rows, map[string]string{"TABLE_SCHEMA": schema, "TABLE_NAME": t.Name, "COLUMN_NAME": c, "COLUMN_KEY": key, "ORDINAL_POSITION": strconv.Itoa(i + 1)})
				}
			}
		case "statistics":
			for _, x := range allIndexes(s, true) {
				for i, c := range x.Cols {
					if strings.Contains(c, "(") {
						c = "\x00"
					}
					nu := "1"
					if x.Name == "PRIMARY" {
						nu = "0"
					}
					rows = append(rows, map[string]string{"TABLE_SCHEMA": schema, "TABLE_NAME": x.Table, "INDEX_NAME": x.Name, "COLUMN_NAME": c, "SEQ_IN_INDEX": strconv.Itoa(i + 1), "NON_UNIQUE": nu})
				}
			}
		}
	}
	add(w.DBName, w.Schema)
	add("zz_other", w.foreign())
	for i, j := 0, len(rows)-1; i < j; i, j = i+1, j-1 {
		rows[i], rows[j] = rows[j], rows[i]
	}
	return rows
}

// infoSchema evaluates a query on MySQL's information_schema; ok is false when the query
// is not of a form it understands.
func (w *World) infoSchema(raw string, args []string) (cols []string, out [][]driver.Value, ok bool) {
	m := reInfoSchema.FindStringSubmatch(raw)
	if m == nil {
		return
	}
	rows := w.infoSchemaRows(strings.ToLower(m[2]))
	if len(rows) == 0 {
		return
	}
	var from []string
	for _, it := range strings.Split(m[1], ",") {
		x := reSelItem.FindStringSubmatch(strings.TrimSpace(it))
		if x == nil {
			return
		}
		n := strings.ToUpper(x[1])
		if _, known := rows[0][n]; !known {
			return
		}
		from = append(from, n)
		if x[2] != "" {
			cols = append(cols, x[2])
		} else {
			cols = append(cols, x[1])
		}
	}
	k := 0
	val := func(t string) (string, bool) {
		t = strings.TrimSpace(t)
		if t == "?" {
			k++
			if k > len(args) {
				return "", false
			}
			return args[k-1], true
		}
		if len(t) >= 2 && t[0] == '\'' {
			return t[1 : len(t)-1], true
		}
		return "", false
	}
	for _, c := range reAnd.Split(strings.TrimSpace(m[4]), -1) {
		c = strings.TrimSpace(c)
		name := ""
		var vals []string
		if x := reCondEq.FindStringSubmatch(c); x != nil {
			v, good := val(x[2])
			if !good {
				return
			}
			name, vals = strings.ToUpper(x[1]), []string{v}
		} else if x := reCondIn.FindStringSubmatch(c); x != nil {
			name = strings.ToUpper(x[1])
			for _, t := range strings.Split(x[2], ",") {
				v, good := val(t)
				if !good {
					return
				}
				vals = append(vals, v)
			}
		} else {
			return
		}
		var keep []map[string]string
		for _, r := range rows {
			if has(vals, r[name]) {
				keep = append(keep, r)
			}
		}
		rows = keep
	}
	type key struct {
		n    string
		desc bool
	}
	var keys []key
	if strings.TrimSpace(m[5]) != "" {
		for _, it := range strings.Split(m[5], ",") {
			x := reOrderItem.FindStringSubmatch(strings.TrimSpace(it))
			if x == nil {
				return
			}
			keys = append(keys, key{strings.ToUpper(x[1]), strings.EqualFold(x[2], "DESC")})
		}
	}
	sort.SliceStable(rows, func(i, j int) bool {
		for _, q := range keys {
			a, b := rows[i][q.n], rows[j][q.n]
			if a == b {
				continue
			}
			less := a < b
			if x, e1 := strconv.Atoi(a); e1 == nil {
				if y, e2 := strconv.Atoi(b); e2 == nil {
					less = x < y
				}
			}
			return less != q.desc
		}
		return false
	})
	for _, r := range rows {
		var v []driver.Value
		for _, n := range from {
			if r[n] == "\x00" {
				v = append(v, nil)
			} else {
				v = append(v, r[n])
			}
		}
		out = append(out, v)
	}
	return cols, out, true
}

// infoSchemaDefault answers requests written in a way infoSchema does not understand.
func (w *World) infoSchemaDefault(kind string, args []string) ([]string, [][]driver.Value) {
	q := "SELECT TABLE_NAME, COLUMN_NAME, COLUMN_KEY FROM information_schema.columns"
	o := " ORDER BY TABLE_NAME, ORDINAL_POSITION"
	if kind == "indexes" {
		q = "SELECT TABLE_NAME, INDEX_NAME, COLUMN_NAME FROM information_schema.statistics"
		o = " ORDER BY TABLE_NAME, INDEX_NAME, SEQ_IN_INDEX"
	}
	ts := []string{"''"}
	for _, a := range args {
		if w.Schema.Table(a) != nil {
			ts = append(ts, "'"+a+"'")
		}
	}
	cols, rows, _ := w.infoSchema(q+" WHERE TABLE_SCHEMA = '"+w.DBName+"' AND TABLE_NAME IN ("+strings.Join(ts, ", ")+")"+o, nil)
	return cols, rows
}

var (
	rePlain      = regexp.MustCompile(`\A[a-z_][a-z0-9_]*\z`)
	reNsp        = regexp.MustCompile(`(?i)nspname\s*(=|IN\b)|regnamespace`)
	reSubscripts = regexp.MustCompile(`(?i)GENERATE_SUBSCRIPTS\s*\([^)]*\)\s+AS\s+(\w+)`)
	reLeftIndex  = regexp.MustCompile(`(?i)(LEFT|FULL)\s+(OUTER\s+)?JOIN\s+pg_index\b`)
	rePkUnique   = regexp.MustCompile(`(?i)indisunique`)
	rePkReal     = regexp.MustCompile(`(?i)indisprimary|contype|pg_constraint`)
	reNoSystem   = regexp.MustCompile(`(?i)attnum\s*>=?\s*[01]\b|[01]\s*<=?\s*(pg_attribute\.)?attnum|attnum\s+BETWEEN`)
	reJoinIndex  = regexp.MustCompile(`(?i)FROM\s+pg_class\b[\s\S]*JOIN\s+pg_index\b`)
)

// PgDef is how PG_GET_INDEXDEF shows a column.
func PgDef(c string) string {
	if rePlain.MatchString(c) || strings.Contains(c, "(") {
		return c
	}
	return `"` + strings.ReplaceAll(c, `"`, `""`) + `"`
}

// pgShape is what a request on PostgreSQL's catalog asks for.
type pgShape struct {
	schema   bool // restricted to a schema
	inner    bool // only columns which take part in an index
	unique   bool // unique indexes pass for primary keys
	system   bool // system columns come along
	unsorted bool // columns of an index in no order
	shift    int  // columns of an index are counted from here
}

func (p pgShape) def(cols []string) []string {
	out := append([]string{}, cols...)
	if p.unsorted {
		for a, b := 0, len(out)-1; a < b; a, b = a+1, b-1 {
			out[a], out[b] = out[b], out[a]
		}
	}
	if p.shift != 0 {
		sh := make([]string, len(out))
		for k := range sh {
			if j := k + p.shift; j >= 0 && j < len(out) {
				sh[k] = out[j]
			}
		}
		return sh
	}
	return out
}

type memo struct {
	m sync.Map
	n atomic.Int64
}

func (c *memo) get(key string, f func() any) any {
	if v, ok := c.m.Load(key); ok {
		return v
	}
	v := f()
	if c.n.Add(1) < 20000 {
		c.m.Store(key, v)
	}
	return v
}

var shapes, classes, orders memo

func pgShapeOf(raw string) pgShape {
	return shapes.get(raw, func() any {
		p := pgShape{
			schema: reNsp.MatchString(raw),
			inner:  reJoinIndex.MatchString(raw) && !reLeftIndex.MatchString(raw),
			unique: rePkUnique.MatchString(raw) && !rePkReal.MatchString(raw),
			system: !reNoSystem.MatchString(raw),
		}
		if m := reSubscripts.FindStringSubmatch(raw); m != nil {
			ok, _ := regexp.MatchString(`(?i)ORDER\s+BY\s+`+m[1]+`\b(\s+ASC\b)?(\s*$|\s*[^\sD])`, raw)
			p.unsorted = !ok
			if d := regexp.MustCompile(`(?i)PG_GET_INDEXDEF\s*\([^,]*,\s*` + m[1] + `\s*(?:\+\s*(\d+)\s*)?[,)]`).FindStringSubmatch(raw); d != nil {
				n, _ := strconv.Atoi(d[1])
				p.shift = n - 1
			}
		}
		return p
	}).(pgShape)
}

func (w *World) pgSchemas(p pgShape, args []string) []*Schema {
	var ss []*Schema
	if w.DBName == "" || has(args, w.DBName) {
		ss = append(ss, w.Schema)
	}
	if !p.schema {
		if len(ss) == 0 {
			ss = append(ss, w.Schema)
		}
		ss = append(ss, w.foreign())
	}
	return ss
}

// pgColumns rows: table, column, is primary key. A column appears once per index it
// takes part in, in no particular order among these.
func (w *World) pgColumns(raw string, args []string) [][]string {
	var out [][]string
	p := pgShapeOf(raw)
	for _, s := range w.pgSchemas(p, args) {
		ts := append([]Table{}, s.Tables...)
		sort.SliceStable(ts, func(i, j int) bool { return ts[i].Name < ts[j].Name })
		all := allIndexes(s, false)
		for _, t := range ts {
			if !has(args, t.Name) {
				continue
			}
			if p.system && !p.inner {
				for _, c := range []string{"tableoid", "ctid"} {
					out = append(out, []string{t.Name, c, "f"})
				}
			}
			for _, c := range t.Cols {
				n := 0
				for _, i := range all {
					if i.Table != t.Name || !has(i.Cols, c) {
						continue
					}
					pk := "f"
					if p.unique || i.Name == t.Name+"_pkey" {
						pk = "t"
					}
					out = append(out, []string{t.Name, c, pk})
					n++
				}
				if n == 0 {
					if p.inner {
						continue
					}
					out = append(out, []string{t.Name, c, "f"})
				}
				if n > 1 && !w.PKRowFirst {
					k := len(out)
					out[k-n], out[k-1] = out[k-1], out[k-n]
				}
			}
		}
	}
	return out
}

func (w *World) pgIndexes(raw string, args []string) []Index {
	var out []Index
	p := pgShapeOf(raw)
	for _, s := range w.pgSchemas(p, args) {
		for _, i := range allIndexes(s, false) {
			if !has(args, i.Table) {
				continue
			}
			x := Index{Table: i.Table, Name: i.Name}
			for _, c := range i.Cols {
				x.Cols = append(x.Cols, PgDef(c))
			}
			x.Cols = p.def(x.Cols)
			out = append(out, x)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].Table != out[j].Table {
			return out[i].Table < out[j].Table
		}
		return out[i].Name < out[j].Name
	})
	return out
}

// inOrder puts the named columns in the order the request mentions them.
func inOrder(raw string, names []string) []int {
	return orders.get(strings.Join(names, ",")+"\x00"+raw, func() any {
		pos := make([]int, len(names))
		for i, n := range names {
			pos[i] = 1 << 30
			if l := regexp.MustCompile(`(?i)\bAS\s+"?` + n + `"?\b`).FindStringIndex(raw); l != nil {
				pos[i] = l[0]
			}
		}
		idx := make([]int, len(names))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool { return pos[idx[a]] < pos[idx[b]] })
		return idx
	}).([]int)
}

func permute(raw string, names []string, rows [][]string) [][]string {
	idx := inOrder(raw, names)
	all := append([][]string{names}, rows...)
	var out [][]string
	for _, r := range all {
		var x []string
		for _, i := range idx {
			x = append(x, r[i])
		}
		out = append(out, x)
	}
	return out
}
