// Checks of determinism under every map iteration order.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/maporder"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
	"github.com/rs/zerolog"
)

func schema() *env.Schema {
	return &env.Schema{Tables: []env.Table{
		{Name: "a", Cols: []string{"id", "x", "y", "name", "k"}, PK: []string{"id"}},
		{Name: "b", Cols: []string{"id", "aid", "x", "z", "name"}, PK: []string{"id", "aid"}},
		{Name: "c", Cols: []string{"cid", "bid", "w"}, PK: []string{"cid"}},
		// names which read the same when they are put together
		{Name: "d", Cols: []string{"x", "xx", "x_x", "X"}, PK: nil},
		{Name: "d_x", Cols: []string{"x", "xx"}, PK: nil},
	}, Indexes: []env.Index{{Table: "a", Name: "i1", Cols: []string{"x", "y"}}, {Table: "a", Name: "i2", Cols: []string{"y"}}, {Table: "b", Name: "i1b", Cols: []string{"z"}}}}
}

type query struct {
	text string
	only string // backend, "" = all
	dev  int    // deviation bound in the quick tier
}

var queries = []query{
	{"SELECT 1 FROM a WHERE x = 1", "", 2},
	{"SELECT name FROM a WHERE x = 1 AND k = 2", "", 2},
	{"SELECT name, y FROM a WHERE x = 1", "", 2},
	{"SELECT y, name, k FROM a", "", 2},
	{"SELECT name FROM a WHERE x = 1 AND y = 2 AND k = 3", "", 2},
	{"SELECT k, y FROM a WHERE x = 1 AND name = 2", "", 2},
	{"SELECT a.name FROM a JOIN b ON a.id = b.aid", "", 2},
	{"SELECT a.name, z FROM a, b WHERE a.x = b.x", "", 2},
	{"SELECT y FROM a JOIN b ON a.id = aid WHERE z = 1", "", 2},
	{"SELECT w FROM a, b, c WHERE a.x = z AND bid = b.id", "", 2},
	{"SELECT t.name, u.name FROM a AS t, a AS u WHERE t.x = u.y", "", 2},
	{"SELECT b.x FROM a AS b, b AS a WHERE a.z = b.y", "", 2},
	{"SELECT * FROM a WHERE x = 1 AND k = 2", "", 2},
	{"SELECT * FROM a JOIN b ON a.x = b.z", "", 2},
	{"SELECT q.x FROM (SELECT x, y FROM a) AS q WHERE q.y = 1", "pg", 2},
	{"SELECT q.k FROM (SELECT * FROM a) AS q WHERE q.x = 1", "pg", 2},
	{"SELECT w FROM (SELECT * FROM a, c) AS q WHERE y = 1", "pg", 2},
	{"SELECT q.x, r.z FROM (SELECT x FROM a) AS q, (SELECT z FROM b) AS r", "pg", 2},
	{"SELECT z FROM (SELECT x FROM a WHERE name = 1) AS q JOIN b ON q.x = b.x WHERE b.name = 2", "pg", 2},
	{"SELECT y FROM a WHERE EXISTS (SELECT 1 FROM b WHERE z = y AND b.x = a.x)", "pg", 2},
	{"SELECT y FROM a WHERE x IN (SELECT z FROM b WHERE name = 1)", "pg", 2},
	{"SELECT y, (SELECT w FROM c WHERE bid = k) FROM a", "pg", 2},
	{"SELECT a.y, q.z FROM a, LATERAL (SELECT z FROM b WHERE b.x = a.x AND aid = y) AS q", "pg", 2},
	{"SELECT q.w FROM a LEFT JOIN LATERAL (SELECT * FROM c WHERE bid = a.id) AS q ON q.cid = a.k", "pg", 2},
	{"SELECT q1.x FROM (SELECT q2.x FROM (SELECT x, y FROM a WHERE k = 1) AS q2 WHERE q2.y = 1) AS q1", "pg", 2},
	{"SELECT y FROM a WHERE x = (SELECT MAX(z) FROM b) AND k IN (SELECT w FROM c)", "pg", 2},
	{"SELECT z, w FROM (SELECT y FROM a) AS q, b, c WHERE y = z AND bid = aid", "pg", 2},
	{"SELECT 1 FROM d WHERE x = 1 AND xx = 2", "", 2},
	{"SELECT x FROM d WHERE x_x = 1 AND x = 2", "", 2},
	{`SELECT 1 FROM d WHERE x = 1 AND "X" = 2`, "pg", 2},
	{"SELECT d.x FROM d, d_x WHERE d.xx = 1 AND d_x.x = 2", "", 2},
	{"SELECT y FROM a WHERE EXISTS (SELECT 1 FROM b, LATERAL (SELECT w FROM c WHERE w = x) q)", "pg", 2},
	{"SELECT y FROM a WHERE EXISTS (SELECT 1 FROM b WHERE EXISTS (SELECT 1 FROM c WHERE w = x AND cid = k))", "pg", 2},
	{"SELECT x FROM a JOIN b USING (x)", "my", 2},
	{"SELECT id, y FROM a JOIN b USING (id) WHERE z = 1", "my", 2},
	{"SELECT x FROM a NATURAL JOIN b ORDER BY name", "my", 2},
	{"SELECT q.x FROM (SELECT x FROM b ORDER BY name) q JOIN a ON q.x = a.x WHERE name = 1", "pg", 2},
	{"SELECT name FROM (SELECT x FROM b ORDER BY name) q JOIN a ON q.x = a.x", "pg", 2},
}

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	r := mc.Start(os.Args[1])
	if r.Prop == "C10" {
		c10(r)
	}
	r.Finish()
}

func observe(be string, w *env.World, q string, examine bool) (string, error) {
	out := report.Path()
	defer os.Remove(out)
	if err := drive.Run(be, w, q, examine, nil, out); err != nil {
		return "", err
	}
	m, err := report.Read(out)
	if err != nil {
		return "", err
	}
	d := drive.Data(be, m)
	// options name the report file, which differs by execution
	delete(d, "examinationCommandOptions")
	b, _ := json.Marshal(d)
	return string(b), nil
}

var base = map[string]string{}

func c10(r *mc.Run) {
	r.Assume("a map iteration visits entries in slot order from a start chosen by the runtime (Go's map with up to 8 entries: every start is explored; larger maps: 8 starts of the first group)")
	r.Assume("database answers are the same in every run, apart from the order of rows the queries leave open")
	r.Bound(fmt.Sprintf("%d queries x backends, every start of every map iteration in the tool's own code with up to 2 (thorough: 3) non-default starts in an execution; existing indexes reported under permuted names and primary key rows first or last", len(queries)))
	for qi := range queries {
		q := queries[qi]
		bes := drive.Backends
		switch q.only {
		case "pg":
			bes = bes[1:]
		case "my":
			bes = bes[:1]
		}
		dev := q.dev + r.Pick(0, 1)
		r.Explore(mc.Options{Name: fmt.Sprintf("query-%02d", qi), DevBound: dev, Serialize: true}, func(c *mc.Ctx) error {
			be := bes[c.Choose("backend", len(bes))]
			c.Note(q.text)
			mk := func(v int) *env.World {
				s := schema()
				if v&1 != 0 {
					s.Indexes[0].Name, s.Indexes[1].Name = "i9", "i0"
				}
				w := drive.NewWorld(be, s)
				w.PKRowFirst = v&2 != 0
				return w
			}
			key := be + "\x00" + q.text
			want, ok := base[key]
			if !ok {
				var err error
				maporder.With(func(string, int) int { return 0 }, func() { want, err = observe(be, mk(0), q.text, false) })
				if err != nil {
					return fmt.Errorf("%s: query `%s` failed: %v", be, q.text, err)
				}
				base[key] = want
			}
			w := mk(c.Deviate("rows", 4))
			var got string
			var err error
			maporder.With(c.Deviate, func() { got, err = observe(be, w, q.text, false) })
			if err != nil {
				return fmt.Errorf("%s: query `%s` failed under another map iteration order: %v", be, q.text, err)
			}
			c.Observe("%s", q.text)
			if got != want {
				return fmt.Errorf("%s: report of query `%s` depends on map iteration order:\n  once  %s\n  again %s", be, q.text, want, got)
			}
			return nil
		})
		if r.Violated() {
			return
		}
	}
	fmt.Printf("[C10] controlled map iterations: %d\n", maporder.Points.Load())
	if maporder.Points.Load() > 0 {
		r.Tally("map_iterations_controlled")
	}
}
