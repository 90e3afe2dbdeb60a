package main

import (
	"fmt"
	"strings"

	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
)

func init() { checks["C11"] = c11 }

// survive runs the command with an arbitrary text: it must end with a report or an error.
// A panic or a hang is reported by the explorer.
func survive(c *mc.Ctx, be, q string) error {
	c.Note(q)
	c.Observe("%s: %s", be, q)
	w := drive.NewWorld(be, sqlSchema())
	got, err := drive.Suggest(be, w, q)
	if err != nil {
		c.Observe("error")
		return nil
	}
	c.Observe("-> %s", strings.Join(got, " "))
	// what is reported names only columns that exist
	for _, t := range got {
		name, cols, _ := strings.Cut(strings.TrimSuffix(t, ")"), "(")
		tb := w.Schema.Table(name)
		if tb == nil {
			return fmt.Errorf("%s: query `%s` got a suggestion for an unknown table: %s", be, q, t)
		}
		for _, cl := range strings.Split(cols, ",") {
			ok := false
			for _, x := range tb.Cols {
				ok = ok || strings.EqualFold(x, cl)
			}
			if !ok {
				return fmt.Errorf("%s: query `%s` got a suggestion for an unknown column: %s", be, q, t)
			}
		}
	}
	return nil
}

func mustRefuse(c *mc.Ctx, be, q, why string) error {
	c.Note(q)
	c.Observe("%s: %s (%s)", be, q, why)
	w := drive.NewWorld(be, sqlSchema())
	got, err := drive.Suggest(be, w, q)
	if err != nil {
		c.Observe("error")
		return nil
	}
	return fmt.Errorf("%s: query `%s` was not refused although %s; got %v", be, q, why, got)
}

func c11(r *mc.Run) {
	r.Assume("the MySQL and PostgreSQL parsers (third party) terminate; the servers' own errors for the query are not relied on: the simulated servers answer every EXPLAIN")
	toks := []string{"*", ",", "x", "a.x", "nope", "FROM", "a", "b t", "JOIN", "ON", "WHERE", "=", "1", "(", ")", "AS", "GROUP BY", "ORDER BY", "UNION", "SELECT", "NULL", ";", "IN", "'v"}
	n := r.Pick(3, 4)
	r.Bound(fmt.Sprintf("every text of SELECT followed by up to %d out of %d tokens, on the three commands", n, len(toks)))
	r.Explore(mc.Options{Name: "token-sequences", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		q := []string{"SELECT", "SELECT * FROM a", "SELECT x FROM a WHERE"}[c.Choose("start", 3)]
		k := c.Choose("length", n+1)
		for i := 0; i < k; i++ {
			q += " " + toks[c.Choose("token", len(toks))]
		}
		return survive(c, be, q)
	})
	if r.Violated() {
		return
	}

	heads := []string{"x", "*", "a.*", "t.*", "nope", "nope.x", "1", "", "x AS", "x y z", "COUNT(*)", "(SELECT 1)", "(SELECT z FROM b)", "(SELECT nope FROM b)", "(SELECT x, y FROM a)", "DISTINCT x", "ALL x", "x, *", "*, *", "EXISTS (SELECT 1)", "(1, 2)", "ROW(x)", "(a).x", "(a).*", "a", "public.a.x", "other.a.x", "shop.a.x", "x[1]", "SUM(x) OVER w", "SUM(x) OVER (ROWS UNBOUNDED PRECEDING)", "CASE END", "$1", "?", "@@version", "ARRAY(SELECT 1)", "INTERVAL '1 day'", "-x", "x IS", "DEFAULT"}
	froms := []string{"", "FROM a", "FROM a AS t", "FROM a, b", "FROM nope", "FROM (SELECT 1) AS q", "FROM (SELECT x FROM a) AS t", "FROM (SELECT * FROM nope) AS t", "FROM (VALUES (1)) AS t", "FROM a JOIN b", "FROM a JOIN b USING (x)", "FROM a NATURAL JOIN b", "FROM (a JOIN b ON a.x = b.x)", "FROM a JOIN b ON nope = 1", "FROM a JOIN (SELECT 1) ON 1 = 1", "FROM generate_series(1, 2) AS g", "FROM ROWS FROM (f(1)) AS g", "FROM shop.a", "FROM public.a", "FROM other.a", "FROM a.b.c", "FROM a AS t (p, q)", "FROM a LEFT JOIN LATERAL (SELECT x) AS t ON TRUE", "FROM [SELECT 1]", "FROM [53 AS t]", "FROM a PARTITION (p)", "FROM dual", "FROM a TABLESAMPLE SYSTEM (1)", "FROM (SELECT x FROM a UNION SELECT 1) AS t", "FROM ((a))", "FROM (WITH q AS (SELECT 1) SELECT * FROM q) AS t", "FROM a@i"}
	tails := []string{"", "WHERE x = 1", "WHERE nope = 1", "WHERE x IN (SELECT 1)", "WHERE x IN (SELECT x FROM a UNION SELECT 2)", "WHERE x = ANY (VALUES (1))", "WHERE (SELECT 1)", "WHERE x = (SELECT a.x FROM b)", "WHERE x IN ()", "GROUP BY x", "GROUP BY 1", "GROUP BY x WITH ROLLUP", "GROUP BY ROLLUP (x)", "HAVING COUNT(*) > 1", "ORDER BY 1", "ORDER BY nope", "ORDER BY x NULLS LAST", "ORDER BY INDEX a@i", "LIMIT 1", "LIMIT x", "LIMIT 1, 2", "LIMIT 1 OFFSET 2", "LIMIT ALL", "OFFSET 1", "FETCH FIRST 1 ROW ONLY", "FOR UPDATE", "WINDOW w AS (PARTITION BY x)", "UNION SELECT 1", "UNION ALL SELECT x FROM b", "EXCEPT SELECT 1", "INTO OUTFILE 'f'", "PROCEDURE ANALYSE()", "; SELECT 1", ";", "-- c", "/* c", "# c", ") ", "WHERE x = 'v", "\x00"}
	r.Bound(fmt.Sprintf("every combination of %d select lists x %d FROM clauses x %d rests, valid or not, on the three commands", len(heads), len(froms), len(tails)))
	r.Explore(mc.Options{Name: "fragments", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		q := "SELECT " + heads[c.Choose("items", len(heads))] + " " + froms[c.Choose("from", len(froms))] + " " + tails[c.Choose("rest", len(tails))]
		return survive(c, be, q)
	})
	if r.Violated() {
		return
	}

	odd := []string{"", " ", "\n\t", ";", ";;", "-- c", "/* c */", "/* c", "\x00", "\xff\xfe", "SELECT", "(", ")", "()", "''", "\"", "'", "`", "SELECT '", "WITH", "TABLE a", "VALUES (1)", "(SELECT x FROM a)", "((SELECT x FROM a))", "((SELECT x FROM a) UNION (SELECT 1))", "EXPLAIN SELECT x FROM a", "SHOW TABLES", "SET x = 1", "BEGIN", "DECLARE c CURSOR FOR SELECT 1", "PREPARE p AS SELECT 1", "EXECUTE p", "CALL f()", "DO 1", "SELECT x INTO t FROM a", "CREATE TABLE t AS SELECT x FROM a", "COPY a FROM stdin", "SELECT 😀", "SELECT x FROM a WHERE name = '😀'", "ＳＥＬＥＣＴ 1", "SELECT 1e999999", "SELECT 99999999999999999999999999999999999999", "SELECT -", "SELECT x FROM a WHERE x = 0x", "SELECT 1.1.1", "SELECT $", "SELECT $99999999999"}
	wrap := []string{"%", "% ", " %", "%;", "-- c\n%", "/* c */ %", "%\x00", "%; %"}
	r.Bound(fmt.Sprintf("%d odd texts x %d surroundings; parentheses, subqueries, operators, joins and IN lists nested/repeated up to 200 times", len(odd), len(wrap)))
	r.Explore(mc.Options{Name: "odd-texts", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		return survive(c, be, strings.ReplaceAll(wrap[c.Choose("wrap", len(wrap))], "%", odd[c.Choose("text", len(odd))]))
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "long-texts", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		k := []int{1, 2, 10, 60, 200}[c.Choose("times", 5)]
		rep := func(s string) string { return strings.Repeat(s, k) }
		var q string
		switch c.Choose("what", 8) {
		case 0:
			q = "SELECT " + rep("(") + "x" + rep(")") + " FROM a"
		case 1:
			q = "SELECT x FROM a WHERE " + rep("NOT ") + "x"
		case 2:
			q = "SELECT x FROM a WHERE x = 1" + rep(" OR x = 1 AND y = 2")
		case 3:
			q = "SELECT x FROM a WHERE x IN (1" + rep(", 1") + ")"
		case 4:
			q = "SELECT 1 FROM a"
			for i := 0; i < k && i < 30; i++ {
				q += fmt.Sprintf(" JOIN b AS t%d ON t%d.x = a.x", i, i)
			}
		case 5:
			if k > 60 {
				k = 60
			}
			q = "SELECT x FROM a WHERE x = " + rep("(SELECT x FROM a WHERE x = ") + "1" + rep(")")
		case 6:
			if k > 60 {
				k = 60
			}
			q = "SELECT x FROM " + rep("(SELECT x FROM ") + "a" + rep(") AS q")
		case 7:
			q = "SELECT x FROM a WHERE " + rep("CASE WHEN x THEN ") + "1" + rep(" END")
		}
		return survive(c, be, q)
	})
	if r.Violated() {
		return
	}

	// names that do not exist, in every place a name can stand in
	bad := []string{"nope", "a.nope", "nope.x", "t.z", "u.x", "z.x"}
	r.Bound("unknown columns, tables and aliases (also real names hidden by an alias) in every expression form x clause: refused")
	r.Explore(mc.Options{Name: "unknown-names", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		ts := templates(be)
		t := ts[c.Choose("template", len(ts))]
		if t.n == 0 {
			return nil
		}
		pos := positions[c.Choose("position", len(positions))]
		hole := c.Choose("hole", t.n)
		name := bad[c.Choose("name", len(bad))]
		args := make([]string, t.n)
		for i := range args {
			args[i] = "t.x"
		}
		args[hole] = name
		s := sel{}
		on := "1 = 1"
		e := fill(t, args)
		if pos == "group" || pos == "order" {
			e = "(" + e + ")"
		}
		place(&s, &on, pos, e)
		if s.items == "" {
			s.items = "1"
		}
		s.from = "a AS t JOIN b AS v ON " + on
		return mustRefuse(c, be, s.String(), "`"+name+"` does not exist")
	})
	if r.Violated() {
		return
	}
	type bq struct {
		q, why string
		pgOnly bool
	}
	whole := []bq{
		{"SELECT 1 FROM nope", "the table does not exist", false},
		{"SELECT 1 FROM a JOIN nope ON 1 = 1", "the table does not exist", false},
		{"SELECT 1 FROM a, nope", "the table does not exist", false},
		{"SELECT x FROM a AS t WHERE a.x = 1", "a is hidden by its alias", false},
		{"SELECT b.x FROM a", "b is not in FROM", false},
		{"SELECT nope.* , x FROM a", "the table does not exist", true},
		{"SELECT q.y FROM (SELECT x FROM a) AS q", "y is not an output", true},
		{"SELECT y FROM (SELECT x FROM a) AS q", "y is not an output", true},
		{"SELECT q.x FROM (SELECT x AS k FROM a) AS q", "x is renamed", true},
		{"SELECT q.k FROM (SELECT z AS k FROM a) AS q", "z is not a column of a", true},
		{"SELECT 1 FROM (SELECT x FROM nope) AS q", "the table does not exist", true},
		{"SELECT 1 FROM a, (SELECT a.y FROM b) AS q", "a is not visible without LATERAL", true},
		{"SELECT a.x FROM (SELECT x FROM a) AS q", "a is not visible outside", true},
		{"SELECT x FROM a WHERE x IN (SELECT nope FROM b)", "the column does not exist", true},
		{"SELECT x FROM a WHERE EXISTS (SELECT 1 FROM nope)", "the table does not exist", true},
		{"SELECT x FROM a WHERE EXISTS (SELECT 1 FROM b WHERE b.y = 1)", "the column does not exist", true},
		{"SELECT z FROM a WHERE EXISTS (SELECT z FROM b)", "z is visible in the subquery only", true},
		{"SELECT b.z FROM a WHERE EXISTS (SELECT z FROM b)", "b is visible in the subquery only", true},
		{"SELECT x FROM other.a", "another schema is not supported", true},
		{"SELECT other.a.x FROM a", "another schema is not supported", true},
		{"SELECT x FROM a UNION SELECT x FROM b", "UNION is not supported", false},
		{"SELECT x FROM a INTERSECT SELECT x FROM b", "INTERSECT is not supported", true},
		{"SELECT x FROM a EXCEPT SELECT x FROM b", "EXCEPT is not supported", true},
		{"SELECT 1 FROM (SELECT x FROM a UNION SELECT x FROM b) AS q", "UNION is not supported", true},
		{"SELECT x FROM a WHERE x IN (SELECT x FROM a UNION SELECT x FROM b)", "UNION is not supported", true},
		{"SELECT x FROM a NATURAL JOIN c", "NATURAL JOIN is not supported", true},
		{"SELECT 1 FROM a NATURAL JOIN b", "NATURAL JOIN is not supported", true},
		{"SELECT a.y FROM a NATURAL JOIN b", "NATURAL JOIN is not supported", true},
		{"SELECT b.z FROM a NATURAL LEFT JOIN b WHERE a.y = 1", "NATURAL JOIN is not supported", true},
		{"WITH q AS (SELECT x FROM a) SELECT x FROM q", "WITH is not supported", false},
		{"WITH q AS (SELECT x FROM a) SELECT y FROM a", "WITH is not supported", false},
		{"WITH q AS (SELECT x FROM b) SELECT y FROM a WHERE x IN (SELECT x FROM q)", "WITH is not supported", false},
		{"WITH a AS (SELECT 1 AS y) SELECT y FROM a", "WITH is not supported", false},
		{"SELECT y FROM a WHERE x IN (WITH q AS (SELECT x FROM b) SELECT x FROM q)", "WITH is not supported", true},
		{"SELECT x FROM a INTO OUTFILE 'f'", "INTO is not supported", false},
		{"SELECT x INTO z FROM a", "INTO is not supported", false},
		{"SELECT x AS k FROM a WHERE k = 1", "an output is not visible in WHERE", false},
		{"SELECT x AS k FROM a ORDER BY kk", "there is no such name", false},
		{"SELECT x AS k FROM a GROUP BY a.k", "a has no such column", false},
		{"SELECT x AS k FROM a ORDER BY a.k", "a has no such column", false},
		{"SELECT x AS k, k FROM a", "an output is not visible in SELECT", false},
		{"SELECT MAX(y) AS k FROM a GROUP BY x HAVING k > 1", "an output is not visible in HAVING", true},
		{"SELECT x AS k FROM a ORDER BY k + 1", "an output is not visible in an expression", true},
		{"SELECT x AS k FROM a JOIN b ON k = b.z", "an output is not visible in ON", false},
		{"SELECT x FROM a JOIN b USING (y)", "b has no such column", false},
		{"SELECT 1 FROM a JOIN b USING (nope)", "there is no such column", false},
		{"SELECT SUM(x) OVER w FROM a WINDOW w AS (PARTITION BY y)", "WINDOW is not supported", true},
		{"SELECT x FROM a; SELECT y FROM a", "there are two statements", false},
		{"SELECT x FROM a; DELETE FROM a", "there are two statements", false},
		{"", "it is empty", false}, {" ", "it is empty", false}, {";", "it is empty", false}, {"-- x", "it is empty", false},
		{"SELECT x FROM", "it is not valid", false}, {"SELECT x FROM a WHERE", "it is not valid", false}, {"SELECT x FROM a WHERE x = 'v", "it is not valid", false}, {"SELEC x FROM a", "it is not valid", false},
		{"UPDATE a SET x = 1", "it is not a SELECT", false}, {"DELETE FROM a", "it is not a SELECT", false}, {"INSERT INTO a (x) VALUES (1)", "it is not a SELECT", false}, {"DROP TABLE a", "it is not a SELECT", false}, {"VALUES (1)", "it is not a SELECT", true},
	}
	r.Bound(fmt.Sprintf("%d queries with names that are out of scope or constructs that are not supported, x letter case and a trailing semicolon: refused", len(whole)))
	r.Explore(mc.Options{Name: "out-of-scope", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		b := whole[c.Choose("query", len(whole))]
		if b.pgOnly && be == "mysql" {
			return nil
		}
		q := b.q
		if c.Flip("semicolon") {
			q += ";"
		}
		return mustRefuse(c, be, q, b.why)
	})
	_ = env.ErrInjected
}
