package main

import (
	"fmt"
	"strings"

	"github.com/mrasu/GravityR/zz_verif/mc"
)

// Subqueries of PostgreSQL. A block is one SELECT; it is generated together with the
// columns it outputs, each of which stands for the columns of real tables it is computed
// from. Blocks are nested as derived tables, LATERAL derived tables and subqueries in
// expressions.

type blockOpt struct {
	depth   int  // levels of subqueries allowed below
	derived bool // used as a table: outputs must have names
	small   bool // reduced menus
	lean    bool // reduced menus, but everything in FROM
	single  bool // exactly one output
	exists  bool // outputs do not matter
	outer   []source
}

type sub struct {
	*gen
	nAlias int
	thin   bool // few columns are offered at every place
}

func srcCols(s source, small bool) []col {
	want := map[string]bool{"x": true, "y": true, "z": true, "name": true, "w": true, "bid": true}
	if s.table == "" {
		return s.cols
	}
	var o []col
	for _, c := range s.cols {
		if want[c.name] && !(small && c.name == "name") {
			o = append(o, c)
		}
	}
	return o
}

// unambiguous tells whether name denotes exactly one column of srcs.
func count(srcs []source, name string) int {
	n := 0
	for _, s := range srcs {
		for _, c := range s.cols {
			if c.name == name {
				n++
			}
		}
	}
	return n
}

type ref struct {
	c     col
	text  string
	outer bool
}

// refs lists every way to write a column in a block with sources own inside outer.
func (s *sub) refs(own, outer []source, small bool) []ref {
	var out []ref
	add := func(src source, isOuter bool) {
		for _, c := range srcCols(src, small) {
			dup := 0
			for _, x := range src.cols {
				if x.name == c.name {
					dup++
				}
			}
			if dup > 1 {
				continue
			}
			out = append(out, ref{c, s.ident(c.src, 0) + "." + s.ident(c.name, 0), isOuter})
			if !isOuter && count(own, c.name) == 1 || isOuter && count(own, c.name) == 0 && bare(outer, src, c.name) {
				out = append(out, ref{c, s.ident(c.name, 0), isOuter})
			}
		}
	}
	for _, o := range own {
		add(o, false)
	}
	for _, o := range outer {
		hidden := o.hid
		for _, w := range own {
			hidden = hidden || w.alias == o.alias
		}
		if !hidden {
			add(o, true)
		}
	}
	if s.thin {
		// of every source the last column, of own columns also the first, as written both ways
		var t []ref
		for i, r := range out {
			if i == 0 || i+1 == len(out) || out[i+1].c.src != r.c.src || out[i+1].outer != r.outer {
				t = append(t, r)
			}
		}
		out = t
	}
	return out
}

func (s *sub) use(r ref, cond bool) string {
	for _, b := range r.c.bases {
		s.u.add(b, cond)
	}
	return r.text
}

func (s *sub) pick(label string, rs []ref) ref { return rs[s.c.Choose(label, len(rs))] }

func asSource(alias string, outs []col) source {
	src := source{alias: alias}
	for _, o := range outs {
		src.cols = append(src.cols, col{alias, o.name, o.bases})
	}
	return src
}

func (s *sub) alias() string {
	s.nAlias++
	return fmt.Sprintf("q%d", s.nAlias)
}

// overlay returns what a subquery sees: own of the query it stands in, nearest, and outer.
func overlay(outer, own []source) []source {
	var o []source
	for _, x := range outer {
		for _, y := range own {
			x.hid = x.hid || x.alias == y.alias
		}
		x.level++
		o = append(o, x)
	}
	for _, y := range own {
		y.level, y.hid = 0, false
		o = append(o, y)
	}
	return o
}

// bare tells whether name alone denotes the column of the source src of an enclosing query.
func bare(outer []source, src source, name string) bool {
	n := 0
	for _, o := range outer {
		k := count([]source{o}, name)
		if k > 0 && o.level < src.level {
			return false
		}
		if o.level == src.level {
			n += k
		}
	}
	return n == 1
}

// from generates a FROM clause.
func (s *sub) from(o blockOpt) (string, []source) {
	a, b := tableSource(s.s, "a", ""), tableSource(s.s, "b", "")
	at, ba := tableSource(s.s, "a", "t"), tableSource(s.s, "b", "a")
	kinds := []string{"a", "a AS t", "b", "b AS a", "a JOIN b"}
	if o.small {
		kinds = []string{"b", "b AS a"}
	}
	if o.depth > 0 {
		if o.small {
			kinds = append(kinds, "(q)", "a, LATERAL (q)") // hides a of the query around
		} else {
			kinds = append(kinds, "(q)", "(q) AS b", "a JOIN (q)", "(q), a AS t", "a, LATERAL (q)", "a LEFT JOIN LATERAL (q)")
		}
	}
	k := kinds[s.c.Choose("from", len(kinds))]
	in := blockOpt{depth: o.depth - 1, derived: true, small: o.small || o.depth < 2, outer: o.outer}
	if o.depth == 1 && !o.small {
		in.small = false
	}
	derived := func(alias string) (string, source) {
		t, outs := s.block(in)
		return "(" + t + ") AS " + alias, asSource(alias, outs)
	}
	join := func(l, r source) string {
		for i, c := range r.cols {
			if count([]source{r}, c.name) == 1 {
				r.cols = r.cols[i:]
				break
			}
		}
		cond := s.use(ref{c: l.cols[0], text: s.ident(l.alias, 0) + "." + s.ident(l.cols[0].name, 0)}, true)
		return cond + " = " + s.use(ref{c: r.cols[0], text: s.ident(r.alias, 0) + "." + s.ident(r.cols[0].name, 0)}, true)
	}
	switch k {
	case "a":
		return "a", []source{a}
	case "a AS t":
		return "a AS t", []source{at}
	case "b":
		return "b", []source{b}
	case "b AS a":
		return "b AS a", []source{ba}
	case "a JOIN b":
		l, r := find([]source{a}, "a", "y"), find([]source{b}, "b", "z")
		return "a JOIN b ON " + s.use(ref{c: l, text: "a.y"}, true) + " = " + s.use(ref{c: r, text: "b.z"}, true), []source{a, b}
	case "(q)":
		t, q := derived(s.alias())
		return t, []source{q}
	case "(q) AS b":
		t, q := derived("b")
		return t, []source{q}
	case "a JOIN (q)":
		t, q := derived(s.alias())
		return "a JOIN " + t + " ON " + join(a, q), []source{a, q}
	case "(q), a AS t":
		t, q := derived(s.alias())
		return t + ", a AS t", []source{q, at}
	case "a, LATERAL (q)":
		in.outer = overlay(o.outer, []source{a})
		t, q := derived(s.alias())
		return "a, LATERAL " + t, []source{a, q}
	default:
		in.outer = overlay(o.outer, []source{a})
		t, q := derived(s.alias())
		return "a LEFT JOIN LATERAL " + t + " ON " + join(a, q), []source{a, q}
	}
}

// items generates the select list and returns the outputs.
func (s *sub) items(o blockOpt, own []source) (string, []col) {
	if o.exists && s.c.Flip("const item") {
		return "1", nil
	}
	type item struct {
		text string
		outs []col
		refs []ref
	}
	var menu []item
	rs := s.refs(own, o.outer, o.small)
	for i, r := range rs {
		menu = append(menu, item{r.text, []col{{name: r.c.name, bases: r.c.bases}}, []ref{r}})
		if !o.single && !o.small || r.outer {
			menu = append(menu, item{r.text + " AS k", []col{{name: "k", bases: r.c.bases}}, []ref{r}})
		}
		if !o.small && i+1 < len(rs) && i%2 == 0 {
			n := rs[i+1]
			menu = append(menu, item{"coalesce(" + r.text + ", " + n.text + ") AS name", []col{{name: "name", bases: append(append([]base{}, r.c.bases...), n.c.bases...)}}, []ref{r, n}})
			if !o.single {
				menu = append(menu, item{r.text + " AS x, " + n.text + " AS y", []col{{name: "x", bases: r.c.bases}, {name: "y", bases: n.c.bases}}, []ref{r, n}})
			}
		}
	}
	if o.small && len(rs) > 1 {
		menu = append(menu, item{rs[0].text + " + " + rs[1].text + " AS k", []col{{name: "k", bases: append(append([]base{}, rs[0].c.bases...), rs[1].c.bases...)}}, []ref{rs[0], rs[1]}})
	}
	if !o.single {
		var all []col
		for _, w := range own {
			for _, c := range w.cols {
				all = append(all, col{name: c.name, bases: c.bases})
			}
		}
		menu = append(menu, item{"*", all, nil})
		if !o.small || len(own) > 1 {
			w := own[len(own)-1]
			var cs []col
			for _, c := range w.cols {
				cs = append(cs, col{name: c.name, bases: c.bases})
			}
			menu = append(menu, item{w.alias + ".*", cs, nil})
		}
	}
	m := menu[s.c.Choose("items", len(menu))]
	for _, r := range m.refs {
		s.use(r, false)
	}
	return m.text, m.outs
}

var forms = []struct {
	text   string
	exists bool
}{
	{"%c IN (%s)", false}, {"EXISTS (%s)", true}, {"%c = (%s)", false},
	{"%c > ANY (%s)", false}, {"NOT EXISTS (%s) OR %c = 1", true}, {"COALESCE((%s), %c)", false}, {"CASE WHEN (%s) = %c THEN 1 END", false},
}

func (s *sub) fieldSub(o blockOpt, own []source, cond bool) string {
	fs := forms
	if o.small {
		fs = forms[:2]
	}
	f := fs[s.c.Choose("form", len(fs))]
	text := f.text
	if strings.Contains(text, "%c") {
		rs := s.refs(own, nil, true)
		text = strings.Replace(text, "%c", s.use(rs[0], cond), 1)
	}
	t, _ := s.block(blockOpt{depth: o.depth - 1, small: true, single: !f.exists, exists: f.exists, outer: overlay(o.outer, own)})
	return strings.Replace(text, "%s", t, 1)
}

func (s *sub) where(o blockOpt, own []source) string {
	kinds := []string{"", "col", "cols"}
	if o.small || o.lean {
		kinds = []string{"", "col"}
	}
	if len(o.outer) > 0 {
		kinds = append(kinds, "correlated")
	}
	switch kinds[s.c.Choose("where", len(kinds))] {
	case "":
		return ""
	case "col":
		rs := s.refs(own, o.outer, true)
		return s.use(s.pick("cond", rs), true) + " = 1"
	case "cols":
		rs := s.refs(own, o.outer, true)
		l := s.use(s.pick("cond", rs), true)
		return l + " > 0 AND " + s.use(rs[len(rs)-1], true) + " < 5"
	default:
		var ins, outs []ref
		for _, r := range s.refs(own, o.outer, true) {
			if r.outer {
				outs = append(outs, r)
			} else {
				ins = append(ins, r)
			}
		}
		if len(outs) == 0 {
			return ""
		}
		l := s.use(ins[s.c.Choose("inner col", min(2, len(ins)))], true)
		return l + " = " + s.use(s.pick("outer col", outs), true)
	}
}

func (s *sub) block(o blockOpt) (string, []col) {
	q := sel{}
	var own []source
	q.from, own = s.from(o)
	fieldAt := ""
	if o.depth > 0 && !strings.Contains(q.from, "(SELECT") {
		ps := []string{"", "where", "select", "on", "having", "order", "group"}
		if o.small {
			ps = ps[:3]
		}
		fieldAt = ps[s.c.Choose("subquery in", len(ps))]
	}
	var outs []col
	var on string
	if fieldAt != "" {
		// the subquery is what is explored here: the rest is kept simple
		if fieldAt == "on" {
			if strings.Contains(q.from, "JOIN") {
				fieldAt = "where"
			} else {
				q.from += " JOIN c ON "
				own = append(own, tableSource(s.s, "c", ""))
			}
		}
		e := s.fieldSub(o, own, isCond(fieldAt))
		q.items, outs = s.firstItem(own)
		if fieldAt == "on" {
			q.from += e
		} else {
			if fieldAt == "select" {
				e += " AS s"
			} else if fieldAt == "group" || fieldAt == "order" {
				e = "(" + e + ")"
			}
			place(&q, &on, fieldAt, e)
		}
		return q.String(), outs
	}
	full := o.small
	if o.lean {
		o.small, s.thin = true, true
	}
	q.items, outs = s.items(o, own)
	o.small, s.thin = full, s.thin && !o.lean
	q.where = s.where(o, own)
	if !o.small && !o.exists {
		// what a derived table is grouped or ordered by has to be one of its outputs (see
		// orderedDerived)
		var rs []ref
		for _, r := range s.refs(own, nil, true) {
			n, same := 0, 0
			for _, x := range outs {
				if x.name == r.c.name {
					n++
					if fmt.Sprint(x.bases) == fmt.Sprint(r.c.bases) {
						same++
					}
				}
			}
			if !o.derived || n == 1 && same == 1 {
				rs = append(rs, r)
			}
		}
		ts := []string{"", "order", "group"}
		if len(rs) == 0 || o.lean {
			ts = ts[:1]
		}
		switch ts[s.c.Choose("tail", len(ts))] {
		case "order":
			q.order = s.use(rs[0], false) + " DESC"
			q.tail = " LIMIT 3 OFFSET 1"
		case "group":
			q.group = s.use(rs[len(rs)-1], false)
			q.having = "COUNT(*) > 1"
		}
	}
	return q.String(), outs
}

func (s *sub) firstItem(own []source) (string, []col) {
	rs := s.refs(own, nil, true)
	r := rs[len(rs)-1]
	return s.use(r, false), []col{{name: r.c.name, bases: r.c.bases}}
}

func pgSubqueries(r *mc.Run) {
	hasuraShapes(r)
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "ordered-derived-table", DevBound: -1}, orderedDerived)
	if r.Violated() {
		return
	}
	bes := []string{"postgres", "hasura"}
	r.Bound("subqueries: every query of a grammar of derived tables, LATERAL derived tables and subqueries in expressions (7 forms x 6 clauses), two levels with full menus and three with reduced menus, x item and condition forms, correlation and shadowing; columns qualified and unqualified")
	r.Explore(mc.Options{Name: "subqueries-2-levels", DevBound: -1}, func(c *mc.Ctx) error {
		s := &sub{gen: newGen(c, bes[0])}
		t, _ := s.block(blockOpt{depth: 1, lean: !r.Thorough()})
		return s.judge(t, false, nil)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "subqueries-3-levels", DevBound: -1}, func(c *mc.Ctx) error {
		s := &sub{gen: newGen(c, bes[c.Choose("backend", len(bes))]), thin: !r.Thorough()}
		t, _ := s.block(blockOpt{depth: 2, small: true})
		return s.judge(t, false, nil)
	})
	if r.Violated() {
		return
	}
}

// orderedDerived: a derived table ordered or grouped by a column it does not output (known
// finding: the column is taken for an output).
func orderedDerived(c *mc.Ctx) error {
	g := newGen(c, "postgres")
	in := []struct {
		sql  string
		refs []string
	}{{"SELECT x FROM b ORDER BY name", []string{"x", "name"}}, {"SELECT x FROM b GROUP BY x, name", []string{"x", "name"}}}[c.Choose("inner", 2)]
	for _, r := range in.refs {
		g.u.add(base{"b", r}, false)
	}
	g.u.add(base{"b", "x"}, true)
	g.u.add(base{"a", "x"}, true)
	g.u.add(base{"a", "name"}, false)
	out := []string{"SELECT a.name", "SELECT name", "SELECT q.x"}[c.Choose("select", 3)]
	w := []string{"", " WHERE a.name = 1", " WHERE name = 1"}[c.Choose("where", 3)]
	if w != "" {
		g.u.add(base{"a", "name"}, true)
	} else if out == "SELECT q.x" {
		return nil
	}
	return g.judge(out+" FROM ("+in.sql+") q JOIN a ON q.x = a.x"+w, false, nil)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
