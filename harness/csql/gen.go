package main

import (
	"fmt"
	"strings"

	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
)

// Queries are generated together with their meaning: whenever the generator writes a
// column it knows, by construction, which columns of which real tables it stands for.

func sqlSchema() *env.Schema {
	return &env.Schema{Tables: []env.Table{
		{Name: "a", Cols: []string{"id", "x", "y", "name", "CreatedAt"}, PK: []string{"id"}},
		{Name: "b", Cols: []string{"id", "aid", "x", "z", "name"}, PK: []string{"id", "aid"}},
		{Name: "c", Cols: []string{"cid", "bid", "w"}, PK: []string{"cid"}},
	}}
}

// col is a column visible in some scope.
type col struct {
	src   string // alias of the table or derived table
	name  string
	bases []base
}

type source struct {
	alias string
	table string
	cols  []col
	level int  // of a source of an enclosing query: how far out (0 = nearest)
	hid   bool // its alias is taken by a nearer source
}

func tableSource(s *env.Schema, table, alias string) source {
	if alias == "" {
		alias = table
	}
	src := source{alias: alias, table: table}
	for _, n := range s.Table(table).Cols {
		src.cols = append(src.cols, col{alias, n, []base{{table, n}}})
	}
	return src
}

type gen struct {
	merged map[string]bool // alias.column of columns shared by USING or NATURAL JOIN
	c      *mc.Ctx
	be     string
	s      *env.Schema
	u      uses
}

func newGen(c *mc.Ctx, be string) *gen { return &gen{c: c, be: be, s: sqlSchema(), u: uses{}} }

const (
	qualified = iota
	unqualified
	quoted
	upper
	nStyles
)

func (g *gen) q(n string) string {
	if g.be == "mysql" {
		return "`" + n + "`"
	}
	return `"` + n + `"`
}

// ident writes a name so that the database understands it as n.
func (g *gen) ident(n string, style int) string {
	if style == quoted || (g.be != "mysql" && strings.ToLower(n) != n) || strings.ContainsAny(n, "._ ") && strings.Contains(n, ".") {
		return g.q(n)
	}
	if style == upper {
		return strings.ToUpper(n)
	}
	return n
}

// write renders a reference to column c, recording its use.
func (g *gen) write(c col, style int, cond bool, visible []source) string {
	for _, b := range c.bases {
		g.u.add(b, cond)
	}
	if style == unqualified {
		n, m := 0, 0
		for _, s := range visible {
			for _, x := range s.cols {
				if strings.EqualFold(x.name, c.name) {
					n++
					if g.merged[s.alias+"."+x.name] {
						m++
					}
				}
			}
		}
		if n == 1 || n == m {
			return g.ident(c.name, style)
		}
	}
	a := c.src
	if style == upper && g.be == "mysql" {
		// aliases and tables are written as they were declared
		return a + "." + g.ident(c.name, style)
	}
	return g.ident(a, style) + "." + g.ident(c.name, style)
}

func allCols(srcs []source) []col {
	var out []col
	for _, s := range srcs {
		out = append(out, s.cols...)
	}
	return out
}

// tmpl is an expression with n column places {0}..{n-1}.
type tmpl struct {
	text string
	n    int
	leaf bool // places take only plain columns
}

func fill(t tmpl, args []string) string {
	s := t.text
	for i, a := range args {
		s = strings.ReplaceAll(s, fmt.Sprintf("{%d}", i), a)
	}
	return s
}

var commonTemplates = []tmpl{
	{"{0}", 1, false},
	{"({0})", 1, false},
	{"-{0}", 1, false},
	{"NOT {0}", 1, false},
	{"{0} = 1", 1, false},
	{"'v' <> {0}", 1, false},
	{"{0} + {1}", 2, false},
	{"{0} * 2 - {1} / {2}", 3, false},
	{"{0} = 1 AND {1} > 2", 2, false},
	{"{0} = 1 OR {1} = 2 AND NOT {2} < 3", 3, false},
	{"{0} BETWEEN {1} AND {2}", 3, false},
	{"{0} NOT BETWEEN 1 AND {1}", 2, false},
	{"CASE {0} WHEN {1} THEN {2} ELSE {3} END", 4, false},
	{"CASE WHEN {0} = 1 THEN {1} WHEN {2} IS NULL THEN 4 END", 3, false},
	{"{0} IN (1, {1}, 'v')", 2, false},
	{"{0} NOT IN (1, 2)", 1, false},
	{"({0}, {1}) IN ((1, 2), (3, {2}))", 3, false},
	{"({0}, {1}) = (1, {2})", 3, false},
	{"{0} IS NULL", 1, false},
	{"{0} IS NOT NULL", 1, false},
	{"{0} IS TRUE", 1, false},
	{"{0} IS NOT FALSE", 1, false},
	{"{0} LIKE {1}", 2, false},
	{"{0} NOT LIKE 'v%'", 1, false},
	{"LOWER({0})", 1, false},
	{"COALESCE({0}, {1}, 1)", 2, false},
	{"NULLIF({0}, {1})", 2, false},
	{"CONCAT({0}, '-', {1})", 2, false},
	{"CAST({0} AS CHAR(10))", 1, false},
	{"TRIM(LEADING 'v' FROM {0})", 1, false},
	{"TRIM({0})", 1, false},
	{"SUBSTRING({0} FROM 2 FOR {1})", 2, false},
	{"POSITION({0} IN {1})", 2, false},
	{"EXTRACT(YEAR FROM {0})", 1, false},
	{"COUNT(*)", 0, false},
	{"COUNT({0})", 1, false},
	{"COUNT(DISTINCT {0})", 1, false},
	{"MAX({0}) + MIN({1})", 2, false},
	{"SUM({0}) OVER (PARTITION BY {1} ORDER BY {2})", 3, false},
	{"ROW_NUMBER() OVER (ORDER BY {0} DESC, {1})", 2, false},
	{"SUM({0}) OVER (ORDER BY {1} ROWS 2 PRECEDING)", 2, false},
	{"SUM({0}) OVER (ORDER BY {1} ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)", 2, false},
	{"LAG({0}, 1) OVER (PARTITION BY {1}, {2} ORDER BY {3})", 4, false},
	{"NULL", 0, false},
	{"TRUE", 0, false},
	{"1.5", 0, false},
	{"NOW()", 0, false},
}

var mysqlTemplates = append(append([]tmpl{}, commonTemplates...), []tmpl{
	{"{0} <=> {1}", 2, false},
	{"{0} XOR {1}", 2, false},
	{"!{0}", 1, false},
	{"{0} REGEXP {1}", 2, false},
	{"{0} IS UNKNOWN", 1, false},
	{"ROW({0}, {1}) < ROW(1, 2)", 2, false},
	{"MATCH ({0}, {1}) AGAINST ('v' IN BOOLEAN MODE)", 2, true},
	{"MATCH ({0}) AGAINST ('v')", 1, true},
	{"CONVERT({0}, CHAR)", 1, false},
	{"CONVERT({0} USING utf8mb4)", 1, false},
	{"BINARY {0}", 1, false},
	{"{0} COLLATE utf8mb4_bin", 1, false},
	{"IF({0}, {1}, {2})", 3, false},
	{"IFNULL({0}, {1})", 2, false},
	{"TRIM(BOTH {0} FROM {1})", 2, false},
	{"DATE_ADD({0}, INTERVAL {1} DAY)", 2, false},
	{"{0} - INTERVAL 1 DAY", 1, false},
	{"TIMESTAMPDIFF(DAY, {0}, {1})", 2, false},
	{"GET_FORMAT(DATE, 'USA')", 0, false},
	{"@v", 0, false},
	{"@v := {0}", 1, false},
	{"?", 0, false},
	{"{0} -> '$.k'", 1, true},
	{"GROUP_CONCAT(DISTINCT {0} ORDER BY {1} SEPARATOR ',')", 2, false},
	{"COUNT(DISTINCT {0}, {1})", 2, false},
	{"STDDEV({0})", 1, false},
	{"{0} DIV 2 % {1}", 2, false},
	{"{0} | {1} & ~{2}", 3, false},
	{"JSON_EXTRACT({0}, '$.k')", 1, false},
	{"FIELD({0}, {1}, 'v')", 2, false},
}...)

var pgTemplates = append(append([]tmpl{}, commonTemplates...), []tmpl{
	{"{0}::text", 1, false},
	{"({0})::integer = (($1)::integer)", 1, false},
	{"{0} ILIKE {1}", 2, false},
	{"{0} SIMILAR TO 'v'", 1, false},
	{"{0} ~ {1}", 2, false},
	{"{0} !~* 'v'", 1, false},
	{"{0} IS DISTINCT FROM {1}", 2, false},
	{"{0} IS UNKNOWN", 1, false},
	{"{0} BETWEEN SYMMETRIC {1} AND {2}", 3, false},
	{"{0} || {1}", 2, false},
	{"{0} -> 'k'", 1, false},
	{"{0} ->> {1}", 2, false},
	{"{0} @> '{}'", 1, false},
	{"{0} = ANY (ARRAY[{1}, 2])", 2, false},
	{"{0} = ANY ($1)", 1, false},
	{"{0} <> ALL (ARRAY[1, 2])", 1, false},
	{"ARRAY[{0}, {1}]", 2, false},
	{"ROW({0}, {1})", 2, false},
	{"({0}) COLLATE \"C\"", 1, false},
	{"GREATEST({0}, {1}, 3)", 2, false},
	{"({0} AT TIME ZONE 'UTC')", 1, false},
	{"OVERLAY({0} PLACING {1} FROM 1 FOR 2)", 2, false},
	{"{0} + INTERVAL '1 day'", 1, false},
	{"DATE '2020-01-01'", 0, false},
	{"MAX({0}) FILTER (WHERE {1} = 1)", 2, false},
	{"ARRAY_AGG({0} ORDER BY {1})", 2, false},
	{"STRING_AGG({0}, ',' ORDER BY {1} DESC)", 2, false},
	{"SUM({0}) FILTER (WHERE {1} > 0) OVER (PARTITION BY {2})", 3, false},
	{"row_to_json(ROW({0}))", 1, false},
	{"{0} # {1} << 2", 2, false},
	{"$1", 0, false},
	{"CURRENT_DATE", 0, false},
}...)

func templates(be string) []tmpl {
	if be == "mysql" {
		return mysqlTemplates
	}
	return pgTemplates
}

// clauses of one SELECT.
type sel struct {
	items, from, where, group, having, order, tail string
}

func (s sel) String() string {
	t := "SELECT " + s.items + " FROM " + s.from
	if s.where != "" {
		t += " WHERE " + s.where
	}
	if s.group != "" {
		t += " GROUP BY " + s.group
	}
	if s.having != "" {
		t += " HAVING " + s.having
	}
	if s.order != "" {
		t += " ORDER BY " + s.order
	}
	return t + s.tail
}

var positions = []string{"select", "select-as", "where", "on", "group", "having", "order"}

func isCond(pos string) bool { return pos == "where" || pos == "on" }

// judge runs the query on the real code and compares with the reference. Only the
// tables in only (all when nil) are compared.
func (g *gen) judge(query string, ordered bool, only map[string]bool) error {
	return g.judgeWorld(query, ordered, only, nil)
}

func (g *gen) judgeWorld(query string, ordered bool, only map[string]bool, setup func(*env.World)) error {
	g.c.Note(query)
	g.c.Observe(query)
	for _, i := range g.s.Indexes {
		g.c.Observe("existing: %s(%s)", i.Table, strings.Join(i.Cols, ","))
	}
	w := drive.NewWorld(g.be, g.s)
	if setup != nil {
		setup(w)
	}
	got, err := drive.Suggest(g.be, w, query)
	if err != nil {
		return fmt.Errorf("%s: query `%s` was refused: %v", g.be, query, err)
	}
	want := reference(g.s, g.u)
	if g.be == "mysql" {
		// MySQL's column names are case insensitive
		got, want = lower(got), lower(want)
	}
	if only != nil {
		f := func(l []string) (o []string) {
			for _, t := range l {
				if only[t[:strings.Index(t, "(")]] {
					o = append(o, t)
				}
			}
			return o
		}
		got, want = f(got), f(want)
	}
	g.c.Observe("-> %s", strings.Join(got, " "))
	if d := diff(got, want); d != "" {
		return fmt.Errorf("%s: suggestions of `%s` are wrong: %s", g.be, query, d)
	}
	if ordered {
		for i := range got {
			if got[i] != want[i] {
				return fmt.Errorf("%s: suggestions of `%s` are not in order: position %d has %s, want %s", g.be, query, i, got[i], want[i])
			}
		}
	}
	return nil
}
