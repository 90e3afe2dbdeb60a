package main

import (
	"fmt"
	"strings"

	"github.com/mrasu/GravityR/zz_verif/mc"
)

// outputNames: a bare name in ORDER BY denotes an output of the SELECT before a column, in
// GROUP BY (and, for MySQL, in HAVING and in expressions) a column before an output. What
// denotes an output uses no column which the select list does not use already.
func outputNames(c *mc.Ctx, bes []string, deep bool) error {
	g := newGen(c, bes[c.Choose("backend", len(bes))])
	a, b := tableSource(g.s, "a", ""), tableSource(g.s, "b", "")
	t, u := tableSource(g.s, "a", "t"), tableSource(g.s, "b", "name")
	froms := []struct {
		text string
		srcs []source
		on   [2][2]string
	}{
		{"a", []source{a}, [2][2]string{}},
		{"a JOIN b ON ", []source{a, b}, [2][2]string{{"a", "y"}, {"b", "z"}}},
		{"a AS t LEFT JOIN b AS name ON ", []source{t, u}, [2][2]string{{"t", "x"}, {"name", "aid"}}},
	}
	f := froms[c.Choose("from", len(froms))]
	s := sel{from: f.text}
	if f.on[0][0] != "" {
		s.from += g.write(find(f.srcs, f.on[0][0], f.on[0][1]), qualified, true, f.srcs) + " = " + g.write(find(f.srcs, f.on[1][0], f.on[1][1]), qualified, true, f.srcs)
	}
	type out struct {
		name  string
		alias bool
		src   string
	}
	var outs []out
	cols := allCols(f.srcs)
	var offered []col
	for _, x := range cols {
		if x.name == "x" || x.name == "y" || x.name == "z" && deep || x.name == "name" {
			offered = append(offered, x)
		}
	}
	aliases := []string{"", "k", "y", "name", "z"}
	var items []string
	for i := 0; i < 2; i++ {
		cl := offered[c.Choose("column", len(offered))]
		form := 0
		if i == 0 || deep {
			form = c.Choose("form", 3)
		}
		al := aliases[c.Choose("alias", len(aliases))]
		e := g.write(cl, qualified, false, f.srcs)
		switch form {
		case 1:
			e = "COALESCE(" + e + ", 1)"
		case 2:
			if i == 1 {
				return nil
			}
			e = "COUNT(" + e + ")"
		}
		o := out{al, al != "", cl.src + "." + cl.name}
		if form > 0 {
			o.src = e
			if al == "" {
				o.name = ""
			}
		} else if al == "" {
			o.name = cl.name
		}
		if al != "" {
			style := quoted * i
			if deep {
				style = c.Choose("style", 2) * quoted
			}
			e += " AS " + g.ident(al, style)
		}
		items = append(items, e)
		outs = append(outs, o)
		if c.Flip("one item") {
			break
		}
	}
	s.items = strings.Join(items, ", ")
	names := []string{"k", "y", "name", "z", "x"}
	n := names[c.Choose("name", len(names))]
	kinds := []string{"order", "group"}
	if g.be == "mysql" {
		kinds = append(kinds, "order-expr", "group-expr", "having")
	}
	kind := kinds[c.Choose("clause", len(kinds))]
	match := map[string]bool{}
	aliased := 0
	for _, o := range outs {
		if o.name == n {
			match[o.src] = true
			if o.alias {
				aliased++
			}
		}
	}
	inFrom := 0
	var from col
	for _, x := range cols {
		if x.name == n {
			inFrom++
			from = x
		}
	}
	switch {
	case kind == "order" && len(match) == 1:
	case kind == "order" && len(match) > 1:
		return nil // ambiguous
	case inFrom == 1:
		for _, b := range from.bases {
			g.u.add(b, false)
		}
	case inFrom == 0 && len(match) == 1 && aliased > 0 && kind != "order":
	default:
		return nil // ambiguous or unknown
	}
	written := quoted * (len(outs) - 1)
	if deep {
		written = quoted * c.Choose("written", 2)
	}
	w := g.ident(n, written)
	switch kind {
	case "order":
		s.order = w + []string{"", " DESC"}[len(outs)-1]
	case "group":
		s.group = w
	case "order-expr":
		s.order = "COALESCE(" + w + ", 1), 1"
	case "group-expr":
		s.group = "COALESCE(" + w + ", 1)"
	case "having":
		s.having = w + " > 1"
	}
	if err := g.judge(s.String(), false, nil); err != nil {
		return fmt.Errorf("%w (%s by %s)", err, kind, n)
	}
	return nil
}
