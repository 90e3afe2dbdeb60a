package main

import (
	"fmt"
	"strings"

	"github.com/mrasu/GravityR/zz_verif/mc"
)

func init() {
	checks["C06"] = c06
	checks["C07"] = c07
}

func c06(r *mc.Run) {
	r.Assume("column metadata answered by the simulated MySQL server is what information_schema reports")
	analysis(r, []string{"mysql"})
	if r.Violated() {
		return
	}
	r.Bound("mysql subqueries: outer SELECT with IN / EXISTS / scalar / ANY subqueries over other tables; only the outer tables' suggestions are judged")
	r.Explore(mc.Options{Name: "outer-of-subquery", DevBound: -1}, mysqlSubqueries)
}

func c07(r *mc.Run) {
	r.Assume("column metadata answered by the simulated PostgreSQL / Hasura server is what the catalog reports")
	analysis(r, []string{"postgres", "hasura"})
	if r.Violated() {
		return
	}
	pgSubqueries(r)
}

func analysis(r *mc.Run, bes []string) {
	be := func(c *mc.Ctx) string {
		if len(bes) == 1 {
			return bes[0]
		}
		return bes[c.Choose("backend", len(bes))]
	}
	nt := len(templates(bes[0]))
	r.Bound(fmt.Sprintf("expressions: %d templates x 7 positions x every start column of a two-table query; templates nested in each other to depth %d", nt, r.Pick(2, 2)))
	r.Explore(mc.Options{Name: "expressions", DevBound: -1}, func(c *mc.Ctx) error { return exprQuery(c, be(c), 1) })
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "nested-expressions", DevBound: -1}, func(c *mc.Ctx) error { return exprQuery(c, bes[0], 2) })
	if r.Violated() {
		return
	}
	r.Bound("roles: every assignment of 4 columns of one table and 1 of another to sets of clauses")
	r.Explore(mc.Options{Name: "roles", DevBound: -1}, func(c *mc.Ctx) error { return roleQuery(c, bes[0], r.Thorough()) })
	if r.Violated() {
		return
	}
	r.Bound("sources: every FROM shape (joins by ON, USING and NATURAL (MySQL), comma lists, self joins, swapped aliases, three tables) x two column references x clause x naming style")
	r.Explore(mc.Options{Name: "sources", DevBound: -1}, func(c *mc.Ctx) error { return sourceQuery(c, be(c), r.Thorough()) })
	if r.Violated() {
		return
	}
	r.Bound("output names: 3 FROM shapes x one or two outputs (column, expression, aggregate; unnamed or named new, like another column, like a column of two tables) x the name used bare in ORDER BY or GROUP BY (MySQL: also in expressions and HAVING), quoted or not")
	r.Explore(mc.Options{Name: "output-names", DevBound: -1}, func(c *mc.Ctx) error { return outputNames(c, bes[:1], r.Thorough()) })
}

// place puts expr in the clause pos.
func place(s *sel, on *string, pos, expr string) {
	and := func(p *string, e, sep string) {
		if *p == "" {
			*p = e
		} else {
			*p += sep + e
		}
	}
	switch pos {
	case "select":
		and(&s.items, expr, ", ")
	case "select-as":
		and(&s.items, expr+" AS k", ", ")
	case "where":
		and(&s.where, expr, " AND ")
	case "on":
		and(on, expr, " AND ")
	case "group":
		and(&s.group, expr, ", ")
	case "having":
		and(&s.having, expr, " AND ")
	case "order":
		and(&s.order, expr, ", ")
	}
}

func exprQuery(c *mc.Ctx, be string, depth int) error {
	g := newGen(c, be)
	ts := templates(be)
	t := ts[c.Choose("template", len(ts))]
	pos := positions[c.Choose("position", len(positions))]
	srcs := []source{tableSource(g.s, "a", ""), tableSource(g.s, "b", "")}
	cols := allCols(srcs)
	args := make([]string, t.n)
	if depth == 1 {
		off := 0
		step := 1
		if t.n > 0 {
			off = c.Choose("first", len(cols))
			step = 1 + 2*c.Choose("step", 2)
		}
		for i := range args {
			args[i] = g.write(cols[(off+i*step)%len(cols)], qualified, isCond(pos), srcs)
		}
	} else {
		if t.n == 0 || t.leaf {
			return nil
		}
		hole := c.Choose("hole", t.n)
		in := ts[c.Choose("inner", len(ts))]
		k := 0
		next := func() string {
			k++
			// a.x b.z a.y b.x a.name b.name ...
			return g.write(cols[[]int{1, 8, 2, 7, 3, 9, 5, 6}[k-1]], qualified, isCond(pos), srcs)
		}
		for i := range args {
			if i == hole {
				ia := make([]string, in.n)
				for j := range ia {
					ia[j] = next()
				}
				args[i] = "(" + fill(in, ia) + ")"
			} else {
				args[i] = next()
			}
		}
		if strings.Contains(in.text, "OVER (") && strings.Contains(t.text, "OVER (") || be == "mysql" && strings.Contains(in.text, ":=") {
			return nil
		}
	}
	expr := fill(t, args)
	if pos == "group" || pos == "order" {
		expr = "(" + expr + ")"
	}
	s := sel{}
	on := "1 = 1"
	place(&s, &on, pos, expr)
	if s.items == "" {
		s.items = "1"
	}
	s.from = "a JOIN b ON " + on
	return g.judge(s.String(), false, nil)
}

func roleQuery(c *mc.Ctx, be string, deep bool) error {
	g := newGen(c, be)
	roles := [][]string{{}, {"select"}, {"where"}, {"on"}, {"group"}, {"order"}, {"having"}, {"select", "where"}, {"where", "order"}, {"on", "group"}, {"select", "on", "order"}}
	srcs := []source{tableSource(g.s, "a", ""), tableSource(g.s, "b", "")}
	s := sel{}
	on := ""
	n := 3
	if deep {
		n = 4
	}
	idx := []int{1, 3, 0, 2}
	use := func(cl col) {
		for _, p := range roles[c.Choose(cl.src+"."+cl.name, len(roles))] {
			e := g.write(cl, qualified, isCond(p), srcs)
			if p == "where" || p == "on" || p == "having" {
				e += " = 1"
			}
			place(&s, &on, p, e)
		}
	}
	for _, i := range idx[:n] {
		use(srcs[0].cols[i])
	}
	use(srcs[1].cols[3])
	use(srcs[1].cols[1])
	if s.items == "" {
		s.items = "1"
	}
	s.from = "a JOIN b ON " + on
	if on == "" {
		s.from = "a CROSS JOIN b"
	}
	return g.judge(s.String(), false, nil)
}

type shape struct {
	text string // $n is replaced by the n-th source's "table AS alias"; #i.j=#k.l conditions
	srcs [][2]string
	ons  [][2][2]string // pairs of (alias, col) joined by ON, in order of %ON
}

var commonShapes = []shape{
	{"a", [][2]string{{"a", ""}}, nil},
	{"a AS t", [][2]string{{"a", "t"}}, nil},
	{"a t", [][2]string{{"a", "t"}}, nil},
	{"a, b", [][2]string{{"a", ""}, {"b", ""}}, nil},
	{"a AS b, b AS a", [][2]string{{"a", "b"}, {"b", "a"}}, nil},
	{"a JOIN b ON %ON", [][2]string{{"a", ""}, {"b", ""}}, [][2][2]string{{{"a", "id"}, {"b", "aid"}}}},
	{"b JOIN a ON %ON", [][2]string{{"b", ""}, {"a", ""}}, [][2][2]string{{{"a", "x"}, {"b", "x"}}}},
	{"a LEFT JOIN b ON %ON", [][2]string{{"a", ""}, {"b", ""}}, [][2][2]string{{{"a", "y"}, {"b", "z"}}}},
	{"a t RIGHT OUTER JOIN b u ON %ON", [][2]string{{"a", "t"}, {"b", "u"}}, [][2][2]string{{{"t", "name"}, {"u", "name"}}}},
	{"a CROSS JOIN b", [][2]string{{"a", ""}, {"b", ""}}, nil},
	{"a AS p INNER JOIN a AS q ON %ON", [][2]string{{"a", "p"}, {"a", "q"}}, [][2][2]string{{{"p", "x"}, {"q", "y"}}}},
	{"a JOIN b ON %ON JOIN c ON %ON", [][2]string{{"a", ""}, {"b", ""}, {"c", ""}}, [][2][2]string{{{"a", "x"}, {"b", "z"}}, {{"c", "bid"}, {"b", "id"}}}},
	{"a t LEFT JOIN b u ON %ON LEFT JOIN c v ON %ON", [][2]string{{"a", "t"}, {"b", "u"}, {"c", "v"}}, [][2][2]string{{{"t", "name"}, {"u", "name"}}, {{"v", "w"}, {"t", "y"}}}},
	{"a, b JOIN c ON %ON", [][2]string{{"a", ""}, {"b", ""}, {"c", ""}}, [][2][2]string{{{"c", "bid"}, {"b", "z"}}}},
	{"a, b u, c", [][2]string{{"a", ""}, {"b", "u"}, {"c", ""}}, nil},
	{"a AS b JOIN b AS c ON %ON JOIN c AS a ON %ON", [][2]string{{"a", "b"}, {"b", "c"}, {"c", "a"}}, [][2][2]string{{{"b", "y"}, {"c", "z"}}, {{"a", "w"}, {"c", "aid"}}}},
	{"a p, a q, b", [][2]string{{"a", "p"}, {"a", "q"}, {"b", ""}}, nil},
}

var mysqlShapes = append(append([]shape{}, commonShapes...), []shape{
	{"`a`", [][2]string{{"a", ""}}, nil},
	{"a AS `t`", [][2]string{{"a", "t"}}, nil},
	{"a AS T", [][2]string{{"a", "T"}}, nil},
	{"(a, b)", [][2]string{{"a", ""}, {"b", ""}}, nil},
	{"a STRAIGHT_JOIN b ON %ON", [][2]string{{"a", ""}, {"b", ""}}, [][2][2]string{{{"a", "y"}, {"b", "z"}}}},
	{"a JOIN (b JOIN c ON %ON) ON %ON", [][2]string{{"a", ""}, {"b", ""}, {"c", ""}}, [][2][2]string{{{"c", "bid"}, {"b", "z"}}, {{"a", "y"}, {"b", "name"}}}},
	{"a FORCE INDEX (i) JOIN b USE INDEX (j) ON %ON", [][2]string{{"a", ""}, {"b", ""}}, [][2][2]string{{{"a", "y"}, {"b", "z"}}}},
	{"a JOIN b USING (x)", [][2]string{{"a", ""}, {"b", ""}}, nil},
	{"a t LEFT JOIN b u USING (x, `Name`)", [][2]string{{"a", "t"}, {"b", "u"}}, nil},
	{"a JOIN b USING (x) JOIN a AS d USING (x)", [][2]string{{"a", ""}, {"b", ""}, {"a", "d"}}, nil},
	{"a JOIN b USING (name) JOIN c ON %ON", [][2]string{{"a", ""}, {"b", ""}, {"c", ""}}, [][2][2]string{{{"c", "bid"}, {"b", "z"}}}},
	{"c JOIN (b JOIN a USING (x)) ON %ON", [][2]string{{"c", ""}, {"b", ""}, {"a", ""}}, [][2][2]string{{{"a", "y"}, {"c", "w"}}}},
	{"a NATURAL JOIN b", [][2]string{{"a", ""}, {"b", ""}}, nil},
	{"a p NATURAL LEFT JOIN b q", [][2]string{{"a", "p"}, {"b", "q"}}, nil},
	{"a NATURAL JOIN c", [][2]string{{"a", ""}, {"c", ""}}, nil},
	{"(a JOIN b ON %ON) JOIN c ON %ON", [][2]string{{"a", ""}, {"b", ""}, {"c", ""}}, [][2][2]string{{{"a", "y"}, {"b", "z"}}, {{"a", "name"}, {"c", "w"}}}},
}...)

var pgShapes = append(append([]shape{}, commonShapes...), []shape{
	{`"a"`, [][2]string{{"a", ""}}, nil},
	{`A`, [][2]string{{"a", ""}}, nil},
	{`public.a`, [][2]string{{"a", ""}}, nil},
	{`"public"."a" JOIN public.b ON %ON`, [][2]string{{"a", ""}, {"b", ""}}, [][2][2]string{{{"a", "y"}, {"b", "z"}}}},
	{`a AS "T"`, [][2]string{{"a", "T"}}, nil},
	{`a AS "t.base"`, [][2]string{{"a", "t.base"}}, nil},
	{`a AS T`, [][2]string{{"a", "t"}}, nil},
	{`a FULL OUTER JOIN b ON %ON`, [][2]string{{"a", ""}, {"b", ""}}, [][2][2]string{{{"a", "y"}, {"b", "z"}}}},
	{`a JOIN b ON %ON, c`, [][2]string{{"a", ""}, {"b", ""}, {"c", ""}}, [][2][2]string{{{"a", "y"}, {"b", "z"}}}},
	{`ONLY a`, [][2]string{{"a", ""}}, nil},
}...)

// mergedCols lists, for shapes with USING or NATURAL JOIN, the columns compared by them.
var mergedCols = map[string][]string{
	"a JOIN b USING (x)":                       {"a.x", "b.x"},
	"a t LEFT JOIN b u USING (x, `Name`)":      {"t.x", "u.x", "t.name", "u.name"},
	"a JOIN b USING (x) JOIN a AS d USING (x)": {"a.x", "b.x", "d.x"},
	"a JOIN b USING (name) JOIN c ON %ON":      {"a.name", "b.name"},
	"c JOIN (b JOIN a USING (x)) ON %ON":       {"a.x", "b.x"},
	"a NATURAL JOIN b":                         {"a.id", "b.id", "a.x", "b.x", "a.name", "b.name"},
	"a p NATURAL LEFT JOIN b q":                {"p.id", "q.id", "p.x", "q.x", "p.name", "q.name"},
}

func find(srcs []source, alias, name string) col {
	for _, s := range srcs {
		if s.alias == alias {
			for _, c := range s.cols {
				if c.name == name {
					return c
				}
			}
		}
	}
	panic("no " + alias + "." + name)
}

func sourceQuery(c *mc.Ctx, be string, deep bool) error {
	g := newGen(c, be)
	shapes := pgShapes
	if be == "mysql" {
		shapes = mysqlShapes
	}
	sh := shapes[c.Choose("from", len(shapes))]
	var srcs []source
	for _, p := range sh.srcs {
		srcs = append(srcs, tableSource(g.s, p[0], p[1]))
	}
	s := sel{from: sh.text}
	g.merged = map[string]bool{}
	for _, m := range mergedCols[sh.text] {
		p := strings.Split(m, ".")
		g.write(find(srcs, p[0], p[1]), qualified, true, srcs)
		g.merged[m] = true
	}
	for _, o := range sh.ons {
		l := g.write(find(srcs, o[0][0], o[0][1]), qualified, true, srcs)
		r := g.write(find(srcs, o[1][0], o[1][1]), qualified, true, srcs)
		s.from = strings.Replace(s.from, "%ON", l+" = "+r, 1)
	}
	cols := allCols(srcs)
	var on string
	nref := 2
	for i := 0; i < nref; i++ {
		cl := cols[c.Choose("column", len(cols))]
		ps := []string{"select", "where", "order", "group"}
		style := 0
		if i == 0 {
			style = c.Choose("style", nStyles)
		} else if !deep {
			ps = ps[1:3]
		}
		p := ps[c.Choose("clause", len(ps))]
		e := g.write(cl, style, isCond(p), srcs)
		if p == "where" {
			e += " = 1"
		}
		place(&s, &on, p, e)
	}
	if s.items == "" {
		s.items = []string{"*", "1"}[c.Choose("items", 2)]
	}
	return g.judge(s.String(), false, nil)
}

func mysqlSubqueries(c *mc.Ctx) error {
	g := newGen(c, "mysql")
	srcs := []source{tableSource(g.s, "a", []string{"", "t"}[c.Choose("alias", 2)])}
	inner := []string{
		"SELECT bid FROM c WHERE w = 1",
		"SELECT MAX(z) FROM b",
		"SELECT z FROM b JOIN c ON c.bid = b.id WHERE w = 2 ORDER BY b.name LIMIT 1",
		"SELECT bid FROM c WHERE w IN (SELECT z FROM b WHERE name = 'v')",
	}[c.Choose("inner", 4)]
	form := []string{"{0} IN (%s)", "{0} NOT IN (%s)", "EXISTS (%s) AND {0} = 1", "{0} = (%s)", "{0} > ALL (%s)", "{0} = ANY (%s) OR {1} = 2", "({0}, {1}) = (%s)", "COALESCE((%s), {0})", "NOT EXISTS (%s) AND {0} BETWEEN 1 AND {1}"}
	f := form[c.Choose("form", len(form))]
	pos := positions[c.Choose("position", len(positions))]
	if pos == "on" {
		return nil
	}
	o := c.Choose("first", len(srcs[0].cols))
	var args []string
	for i := 0; i < strings.Count(f, "{"); i++ {
		args = append(args, g.write(srcs[0].cols[(o+i)%len(srcs[0].cols)], qualified, isCond(pos), srcs))
	}
	s := sel{from: "a"}
	if srcs[0].alias != "a" {
		s.from = "a " + srcs[0].alias
	}
	var on string
	e := fill(tmpl{text: strings.Replace(f, "%s", inner, 1)}, args)
	if pos == "order" || pos == "group" {
		e = "(" + e + ")"
	}
	place(&s, &on, pos, e)
	other := srcs[0].cols[c.Choose("other", len(srcs[0].cols))]
	p2 := []string{"select", "where"}[c.Choose("other-in", 2)]
	e2 := g.write(other, c.Choose("style", 2), isCond(p2), srcs)
	if p2 == "where" {
		e2 += " = 7"
	}
	place(&s, &on, p2, e2)
	if s.items == "" {
		s.items = "1"
	}
	return g.judge(s.String(), false, map[string]bool{"a": true})
}
