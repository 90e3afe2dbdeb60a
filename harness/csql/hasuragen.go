package main

import (
	"strconv"
	"strings"

	"github.com/mrasu/GravityR/zz_verif/mc"
)

// SQL in the shape Hasura generates it from GraphQL.

type rel struct {
	name, table string
	parentCol   string
	col         string
	object      bool
}

var rels = map[string][]rel{
	"a": {{"bs", "b", "id", "aid", false}, {"named", "b", "name", "name", false}},
	"b": {{"owner", "a", "aid", "id", true}, {"cs", "c", "id", "bid", false}},
	"c": {{"parent", "b", "bid", "id", true}},
}

func dq(s string) string { return `"` + s + `"` }

func (s *sub) useBase(table, name string, cond bool) { s.u.add(base{table, name}, cond) }

// hasuraSelect renders the select of one (root or relationship) node.
func (s *sub) hasuraSelect(name, alias, table string, link *rel, parentAlias, parentTable string, depth int) string {
	var cols []string
	for _, c := range srcCols(tableSource(s.s, table, ""), false) {
		cols = append(cols, c.name)
	}
	bs := alias + ".base"
	// fields
	var fields []string
	sets := [][]int{{0}, {0, 1}, {}, {2}}
	if depth == 0 || s.thin {
		sets = sets[:2]
	}
	if depth == 0 && s.thin {
		sets = sets[:1]
	}
	for _, i := range sets[s.c.Choose(name+" fields", len(sets))] {
		if i < len(cols) {
			s.useBase(table, cols[i], false)
			fields = append(fields, dq(bs)+"."+dq(cols[i])+" AS "+dq(cols[i]))
		}
	}
	// base select
	var conds []string
	if link != nil {
		s.useBase(parentTable, link.parentCol, true)
		s.useBase(table, link.col, true)
		conds = append(conds, "(("+dq(parentAlias+".base")+"."+dq(link.parentCol)+") = ("+dq(link.col)+"))")
	}
	pub := `"public".` + dq(table)
	nw := 4
	if depth == 0 {
		nw = 2
	} else if s.thin {
		nw = 3
	}
	if depth == 0 && s.thin {
		nw = 1
	}
	switch s.c.Choose(name+" where", nw) {
	case 1:
		c := cols[s.c.Choose("where col", 2)]
		s.useBase(table, c, true)
		conds = append(conds, "(("+pub+"."+dq(c)+") = (('v') :: varchar))")
	case 2:
		for _, r := range rels[table] {
			if r.object {
				continue
			}
			be := "__be_0_" + r.table
			s.useBase(table, r.parentCol, true)
			s.useBase(r.table, r.col, true)
			in := srcCols(tableSource(s.s, r.table, ""), false)
			c := in[len(in)-1].name
			s.useBase(r.table, c, true)
			conds = append(conds, `(EXISTS (SELECT 1 FROM "public".`+dq(r.table)+" AS "+dq(be)+" WHERE (((("+dq(be)+"."+dq(r.col)+") = ("+pub+"."+dq(r.parentCol)+")) AND ('true')) AND ((("+dq(be)+"."+dq(c)+") > ((1) :: integer)) AND ('true')))))")
			break
		}
	case 3:
		c := cols[len(cols)-1]
		s.useBase(table, c, true)
		s.useBase(table, cols[0], true)
		conds = append(conds, "((("+pub+"."+dq(c)+") = (($1) :: integer)) OR (("+pub+"."+dq(cols[0])+") IS NULL))")
	}
	b := "SELECT * FROM " + pub
	if len(conds) == 0 {
		conds = []string{"('true')"}
	}
	b += " WHERE (" + strings.Join(conds, " AND ") + ")"
	order, agg := "", "json_agg("+dq(name)+")"
	if link == nil || !link.object {
		no := 3 - depth0(depth)
		if s.thin {
			no = 1 + depth/2
		}
		switch s.c.Choose(name+" order", no) {
		case 1:
			c := cols[len(cols)-1]
			s.useBase(table, c, false)
			order = ", " + dq(bs) + "." + dq(c) + " AS " + dq(name+".pg."+c)
			agg = "json_agg(" + dq(name) + " ORDER BY " + dq(name+".pg."+c) + " ASC)"
		case 2:
			s.useBase(table, cols[0], false)
			b += " ORDER BY " + dq(cols[0]) + " DESC LIMIT 2"
		}
	} else {
		b += " LIMIT 1"
	}
	from := "(" + b + ") AS " + dq(bs)
	// relationships
	if depth > 0 {
		rs := rels[table]
		n := 1 << len(rs)
		if depth < 2 && len(rs) > 1 {
			n = 3 // none, the first or the second
		}
		set := s.c.Choose(name+" relationships", n)
		for i, r := range rs {
			if set&(1<<i) == 0 {
				continue
			}
			kind := ".ar."
			if r.object {
				kind = ".or."
			}
			ca := alias + kind + name + "." + r.name
			r := r
			t := s.hasuraSelect(r.name, ca, r.table, &r, alias, table, depth-1)
			from += " LEFT OUTER JOIN LATERAL (" + t + ") AS " + dq(ca) + " ON ('true')"
			fields = append(fields, dq(ca)+"."+dq(r.name)+" AS "+dq(r.name))
		}
	}
	if len(fields) == 0 {
		fields = []string{"'" + table + "' AS \"__typename\""}
	}
	row := "row_to_json((SELECT \"_e\" FROM (SELECT " + strings.Join(fields, ", ") + ") AS \"_e\")) AS " + dq(name)
	if link != nil && link.object {
		return "SELECT " + row + " FROM " + from
	}
	return "SELECT coalesce(" + agg + ", '[]') AS " + dq(name) + " FROM (SELECT " + row + order + " FROM " + from + ") AS " + dq(alias)
}

func depth0(d int) int {
	if d == 0 {
		return 1
	}
	return 0
}

func hasuraShapes(r *mc.Run) {
	r.Bound("Hasura-generated shapes: root table x fields x filters (comparison, EXISTS over a relationship, OR) x ordering x array/object relationships, two relationship levels")
	for _, d := range []int{1, 2} {
		d := d
		r.Explore(mc.Options{Name: "hasura-shapes-" + strconv.Itoa(d), DevBound: -1}, func(c *mc.Ctx) error {
			s := &sub{gen: newGen(c, "hasura"), thin: d > 1 && !r.Thorough()}
			t := []string{"a", "b", "c"}[c.Choose("root table", 3)]
			return s.judge(s.hasuraSelect("root", "_root", t, nil, "", "", d), false, nil)
		})
		if r.Violated() {
			return
		}
	}
}
