// Package drive runs the `db suggest` commands end to end against a simulated world.
package drive

import (
	"fmt"
	"os"
	"strings"

	"github.com/mrasu/GravityR/cmd/db/suggest"
	"github.com/mrasu/GravityR/cmd/db/suggest/hasura"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
)

var Backends = []string{"mysql", "postgres", "hasura"}

var MyPlan = []string{
	"-> Filter: (a.x = 1)  (cost=1.10 rows=1) (actual time=0.100..0.200 rows=1 loops=1)",
	"    -> Table scan on a  (cost=1.00 rows=10) (actual time=0.050..0.150 rows=10 loops=1)",
}
var PgPlan = []string{
	"Seq Scan on a  (cost=0.00..1.00 rows=1 width=4) (actual time=0.010..0.020 rows=1 loops=1)",
	"  Filter: (x = 1)",
	"Planning Time: 0.100 ms",
	"Execution Time: 0.200 ms",
}
var HasuraPlan = []string{
	"Aggregate  (cost=1.00..1.01 rows=1 width=32)",
	"  ->  Seq Scan on a  (cost=0.00..1.00 rows=1 width=4)",
	"        Filter: (x = 1)",
}

const DBName = "shop"

func SchemaName(be string) string {
	if be == "mysql" {
		return DBName
	}
	return "public"
}

func NewWorld(be string, s *env.Schema) *env.World {
	w := &env.World{Schema: s, ApplyDDL: true, DBName: SchemaName(be)}
	switch be {
	case "mysql":
		w.Plan = MyPlan
	case "postgres":
		w.Plan = PgPlan
	default:
		w.Plan = HasuraPlan
	}
	return w
}

const Gql = "query Q($v: Int) { a(where: {x: {_eq: $v}}) { y } }"
const GqlVars = `{"v": 1, "s": "it's", "n": null, "f": false, "e": "", "z": 0, "l": [], "o": {"n": null}}`

// Run executes one suggest command against w. For hasura, sql is what hasura reports.
func Run(be string, w *env.World, sql string, examine bool, idx []string, out string) error {
	switch be {
	case "mysql":
		db := w.MySQL()
		defer db.Close()
		return suggest.VerifMySQL(out, db, DBName, sql, examine, idx)
	case "postgres":
		db := w.Postgres()
		defer db.Close()
		return suggest.VerifPostgres(out, db, "public", sql, examine, idx)
	default:
		w.HasuraSQL = sql
		cli := w.Hasura("")
		defer w.Close()
		return hasura.VerifPostgres(out, cli, Gql, GqlVars, examine, idx)
	}
}

func DataKey(be string) []string {
	switch be {
	case "mysql":
		return []string{"suggestData", "mysql"}
	case "postgres":
		return []string{"suggestData", "postgres"}
	}
	return []string{"suggestData", "hasura", "postgres"}
}

func Data(be string, m map[string]any) map[string]any {
	d, _ := report.At(m, DataKey(be)...).(map[string]any)
	return d
}

func ObserveEvents(c *mc.Ctx, w *env.World) {
	for _, e := range w.Log() {
		c.Observe(e.String())
	}
}

func IndexesString(l []env.Index) string {
	var o []string
	for _, i := range l {
		o = append(o, fmt.Sprintf("%s.%s(%s)", i.Table, i.Name, strings.Join(i.Cols, ",")))
	}
	return strings.Join(o, " ")
}

func Tgt(table string, cols []string) string { return table + "(" + strings.Join(cols, ",") + ")" }

func OptToTarget(o string) (string, []string) {
	p := strings.SplitN(o, ":", 2)
	return p[0], strings.Split(p[1], "+")
}

// Suggest runs the command without examination and returns the suggested indexes as
// "table(col,col)" in the order they are reported.
func Suggest(be string, w *env.World, sql string) ([]string, error) {
	out := report.Path()
	defer os.Remove(out)
	if err := Run(be, w, sql, false, nil, out); err != nil {
		return nil, err
	}
	m, err := report.Read(out)
	if err != nil {
		return nil, err
	}
	return report.Targets(Data(be, m)["indexTargets"]), nil
}
