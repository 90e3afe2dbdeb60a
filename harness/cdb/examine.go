package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"strings"
	"time"

	mysqldrv "github.com/go-sql-driver/mysql"
	"github.com/lib/pq"
	"github.com/mrasu/GravityR/zz_verif/clock"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
)

const long1 = "a_very_long_column_name_that_goes_on_first"
const long2 = "a_very_long_column_name_that_goes_on_second"

func examSchema() *env.Schema {
	return &env.Schema{
		Tables: []env.Table{
			{Name: "a", Cols: []string{"id", "x", "y", "c123456789012345678", "d1234567890123456789", long1, long2}, PK: []string{"id"}},
			{Name: "b", Cols: []string{"id", "x", "aid", long1}, PK: []string{"id"}},
		},
		Indexes: []env.Index{{Table: "a", Name: "idx_a_id_y", Cols: []string{"id", "y"}}, {Table: "b", Name: "x", Cols: []string{"x", "aid"}}},
	}
}

var optPool = []string{
	"a:x", "b:x", "a:x+y", "a:" + long1, "a:" + long2 + "+x", "b:" + long1,
	"a:y", "a:c123456789012345678", "a:d1234567890123456789", "a:y+x", "a:nope",
}

// queries whose suggestions are examined when no -i is given.
var candidateQueries = []string{
	"SELECT y FROM a WHERE x = 1",
	"SELECT a.y FROM a INNER JOIN b ON a.id = b.aid WHERE b.x = 1",
	"SELECT x FROM a WHERE " + long1 + " = 1 AND " + long2 + " = 2",
	"SELECT id FROM a WHERE id = 1",
}

func init() {
	checks["C01"] = c01
	checks["C02"] = c02
}

// chooseTargets enumerates every list of up to max options (repetition and every order
// included), or no option at all with one of the candidate queries.
func chooseTargets(c *mc.Ctx, pool []string, max int) (idx []string, query string) {
	query = candidateQueries[0]
	n := c.Choose("n-options", max+1)
	if n == 0 {
		query = candidateQueries[c.Choose("query", len(candidateQueries))]
		return nil, query
	}
	for i := 0; i < n; i++ {
		idx = append(idx, pool[c.Choose("option", len(pool))])
	}
	return idx, query
}

func c01(r *mc.Run) {
	r.Assume("DDL is atomic and a failing CREATE/DROP reported by the server had no effect; the process is not killed during examination")
	pool := optPool
	body := func(maxList int) mc.Body {
		return func(c *mc.Ctx) error {
			be := backends[c.Choose("backend", 3)]
			s := examSchema()
			w := newWorld(be, s)
			idx, q := chooseTargets(c, pool, maxList)
			failed := 0 // requests the server refused
			failedDrop := map[string]bool{}
			taken := map[string]bool{} // indexes of somebody else under the names the tool came up with
			fault := func(e *env.Event) int {
				switch e.Kind {
				case "exec", "query", "ddl-create", "ddl-drop":
				default:
					return 0
				}
				n := 3 // two kinds of error
				if be == "hasura" && e.Kind == "query" {
					n = 4 // errors inside a 200 response
				}
				if e.Kind == "ddl-create" {
					n = 4 // the name is taken
				}
				f := c.Deviate("fault@"+e.Kind, n)
				if e.Kind == "ddl-create" && f == 3 {
					taken[e.Table+"."+e.Index] = true
					w.AddLive(env.Index{Table: e.Table, Name: e.Index, Cols: []string{"id"}})
					failed++
					return 4
				}
				if f > 0 {
					failed++
					if e.Kind == "ddl-drop" {
						failedDrop[e.Index] = true
					}
				}
				return f
			}
			if be == "hasura" {
				w.HTTPFault = func(e *env.Event) (int, string, error, bool, bool) {
					switch fault(e) {
					case 1:
						return 500, `{"error":"boom"}`, nil, false, true
					case 2:
						return 0, "", errors.New("connection refused"), false, true
					case 3:
						return 200, `{"errors":[{"message":"boom"}]}`, nil, false, true
					case 4:
						return 400, fmt.Sprintf(`{"code":"postgres-error","error":"query execution failed","internal":{"error":{"message":"relation \"%s\" already exists","status_code":"42P07"}},"path":"$"}`, e.Index), nil, false, true
					}
					return 0, "", nil, false, false
				}
			} else {
				w.Fault = func(e *env.Event) error {
					my := be == "mysql"
					switch fault(e) {
					case 0:
						return nil
					case 1:
						return env.ErrInjected
					case 4:
						if my {
							return &mysqldrv.MySQLError{Number: 1061, Message: "Duplicate key name '" + e.Index + "'"}
						}
						return &pq.Error{Severity: "ERROR", Code: "42P07", Message: fmt.Sprintf("relation %q already exists", e.Index)}
					}
					switch {
					case my && e.Kind == "ddl-drop":
						return &mysqldrv.MySQLError{Number: 1205, Message: "Lock wait timeout exceeded; try restarting transaction"}
					case my:
						return &mysqldrv.MySQLError{Number: 3024, Message: "Query execution was interrupted, maximum statement execution time exceeded"}
					case e.Kind == "ddl-drop":
						return &pq.Error{Severity: "ERROR", Code: "55P03", Message: "canceling statement due to lock timeout"}
					}
					return &pq.Error{Severity: "ERROR", Code: "57014", Message: "canceling statement due to statement timeout"}
				}
			}
			for _, o := range idx {
				if o == "a:nope" {
					failed++ // the server will refuse it, unless something failed before
				}
			}
			out := report.Path()
			defer os.Remove(out)
			err := run(be, w, q, true, idx, out)
			observeEvents(c, w)
			c.Observe("err=%v", err != nil)

			// every index in the server that was not there before must be one whose drop the
			// server refused; nothing that was there before may be gone.
			before := map[string]bool{}
			for _, i := range s.Indexes {
				before[i.Table+"."+i.Name] = true
			}
			for i := range taken {
				before[i] = true
			}
			for _, i := range w.Current() {
				if before[i.Table+"."+i.Name] {
					delete(before, i.Table+"."+i.Name)
					continue
				}
				if !failedDrop[i.Name] {
					return fmt.Errorf("temporary index %s on %s(%s) was left behind in the database", i.Name, i.Table, strings.Join(i.Cols, ","))
				}
			}
			for k := range before {
				return fmt.Errorf("existing index %s was dropped", k)
			}
			// never two temporary indexes at once, every drop names what was created
			live := map[string]string{}
			for _, e := range w.Log() {
				switch e.Kind {
				case "ddl-create":
					if len(live) > 0 && failed == 0 {
						return fmt.Errorf("a second temporary index was created before the previous one was dropped")
					}
					live[e.Index] = e.Table
				case "ddl-drop":
					t, ok := live[e.Index]
					if !ok {
						return fmt.Errorf("drop of %q, which this run did not create", e.Index)
					}
					if be == "mysql" && t != e.Table {
						return fmt.Errorf("index created on %q but dropped on %q", t, e.Table)
					}
					delete(live, e.Index)
				case "exec", "query", "explain", "columns", "indexes":
				default:
					return fmt.Errorf("unexpected statement sent: %s", e.Raw)
				}
			}
			if failed > 0 && err == nil {
				return fmt.Errorf("the database refused %d request(s) but the command reported success", failed)
			}
			if failed == 0 && err != nil {
				return fmt.Errorf("nothing failed but the command reported %v", err)
			}
			return nil
		}
	}
	r.Bound(fmt.Sprintf("3 backends; all option lists of length <=%d over a pool of %d options (long, repeated, reordered, unknown columns); every pattern of at most %d refused requests", r.Pick(3, 3), len(pool), r.Pick(2, 3)))
	r.Explore(mc.Options{Name: "lists-with-faults", DevBound: r.Pick(2, 3)}, body(3))
	if r.Violated() {
		return
	}
	// every fault pattern whatsoever, shorter lists
	pool = []string{"a:x", "b:" + long1, "a:" + long2 + "+x"}
	r.Explore(mc.Options{Name: "all-fault-patterns", DevBound: -1}, body(r.Pick(5, 7)))
}

func c02(r *mc.Run) {
	r.Assume("durations are observed under the Go runtime's virtual clock: a measured time is exactly what the simulated server took")
	pool := optPool[:10]
	maxList := r.Pick(4, 5)
	delays := [][]int{{5, 70, 900, 1, 33, 17, 250, 8, 64, 128}, {0, 0, 0, 0, 0, 0, 0, 0, 0}, {1000, 1, 0, 2500, 3, 77, 12, 5, 6, 19}}
	r.Bound(fmt.Sprintf("3 backends; all option lists of length <=%d over a pool of %d; %d patterns of query durations", maxList, len(pool), len(delays)))
	r.Explore(mc.Options{Name: "measurements", DevBound: -1}, func(c *mc.Ctx) (err error) {
		be := backends[c.Choose("backend", 3)]
		s := examSchema()
		idx, q := chooseTargets(c, pool, maxList)
		dl := delays[c.Choose("delays", len(delays))]
		dlOf := func(k int) int { return dl[k%len(dl)] + 11*(k/len(dl)) }
		w := newWorld(be, s)
		nExec := 0
		var during []string
		w.OnEvent = func(e *env.Event) {
			switch e.Kind {
			case "exec", "query":
				var extra []env.Index
				for _, i := range w.Current() {
					if !hasIndex(s.Indexes, i) {
						extra = append(extra, i)
					}
				}
				var ts []string
				for _, i := range extra {
					ts = append(ts, tgt(i.Table, i.Cols))
				}
				during = append(during, strings.Join(ts, " "))
				time.Sleep(time.Duration(dlOf(nExec)) * time.Millisecond)
				nExec++
			case "ddl-create":
				time.Sleep(4321 * time.Millisecond)
			case "ddl-drop":
				time.Sleep(1777 * time.Millisecond)
			default:
				time.Sleep(777 * time.Millisecond)
			}
		}
		out := report.Path()
		defer os.Remove(out)
		var rerr error
		clock.Virtual(func() { rerr = run(be, w, q, true, idx, out) })
		observeEvents(c, w)
		if rerr != nil {
			return fmt.Errorf("examination failed: %v", rerr)
		}
		m, rerr := report.Read(out)
		if rerr != nil {
			return rerr
		}
		d := data(be, m)
		want := []string{}
		if len(idx) > 0 {
			for _, o := range idx {
				t, cs := optToTarget(o)
				want = append(want, tgt(t, cs))
			}
		} else {
			want = append(want, report.Targets(d["indexTargets"])...)
		}
		// what the server saw
		wantDuring := append([]string{""}, want...)
		if strings.Join(during, "|") != strings.Join(wantDuring, "|") {
			return fmt.Errorf("temporary indexes present at each execution of the query: %q, want %q", during, wantDuring)
		}
		for _, e := range w.Log() {
			if e.Kind == "exec" && e.Raw != q {
				return fmt.Errorf("executed %q instead of the given query", e.Raw)
			}
			if e.Kind == "query" {
				if e.Raw != gql {
					return fmt.Errorf("executed %q instead of the given query", e.Raw)
				}
				var v any
				if json.Unmarshal([]byte(gqlVars), &v) != nil || !reflect.DeepEqual(v, e.Vars) {
					return fmt.Errorf("executed with variables %v", e.Vars)
				}
			}
		}
		// what is reported
		er := d["examinationResult"]
		c.Observe("result=%v", er)
		if got := fmt.Sprint(report.At(er, "originalTimeMillis")); got != fmt.Sprint(dlOf(0)) {
			return fmt.Errorf("original time reported as %s ms, took %d ms", got, dlOf(0))
		}
		irs, _ := report.At(er, "indexResults").([]any)
		if len(irs) != len(want) {
			return fmt.Errorf("%d results for %d examined indexes", len(irs), len(want))
		}
		for i, ir := range irs {
			if got := report.Target(report.At(ir, "indexTarget")); got != want[i] {
				return fmt.Errorf("result %d is for %s, want %s", i, got, want[i])
			}
			if got := fmt.Sprint(report.At(ir, "executionTimeMillis")); got != fmt.Sprint(dlOf(i+1)) {
				return fmt.Errorf("time with %s reported as %s ms, took %d ms", want[i], got, dlOf(i+1))
			}
		}
		return nil
	})
}

func hasIndex(l []env.Index, i env.Index) bool {
	for _, x := range l {
		if x.Table == i.Table && x.Name == i.Name {
			return true
		}
	}
	return false
}
