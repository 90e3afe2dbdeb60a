// Checks of `db dig performance-insights` (C20, C21): a simulated RDS and Performance Insights
// answer the real command, and its requests and report are judged.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/mrasu/GravityR/cmd/db/dig"
	"github.com/mrasu/GravityR/infra/aws"
	"github.com/mrasu/GravityR/zz_verif/clock"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
	"github.com/rs/zerolog"
)

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	r := mc.Start(os.Args[1])
	map[string]func(*mc.Run){"C20": c20, "C21": c21}[os.Args[1]](r)
	r.Finish()
}

const week = 7 * 24 * time.Hour

func (s *sim) run(out, start string, http bool) error {
	if http {
		cfg := s.config()
		return dig.VerifPI(out, start, aws.NewRds(cfg), aws.NewPerformanceInsights(cfg))
	}
	return dig.VerifPI(out, start, aws.NewRdsWithCli(rdsCli{s}), aws.NewPerformanceInsightsWithCli(piCli{s}))
}

// judgeRequests: each MySQL instance is asked for the whole week, for both groupings, nobody else.
func (s *sim) judgeRequests(start time.Time, slack time.Duration) error {
	type k struct{ res, group string }
	m := map[k][]request{}
	for _, q := range s.reqs {
		if q.token != "" {
			continue // next page of a request
		}
		m[k{q.res, q.group}] = append(m[k{q.res, q.group}], q)
		if q.metric != "db.load.avg" || q.svc != "RDS" {
			return fmt.Errorf("metric %q of service %q is asked", q.metric, q.svc)
		}
	}
	for _, q := range s.reqs {
		if q.next == "" {
			continue
		}
		n := 0
		for _, x := range s.reqs {
			if x.token == q.next && x.res == q.res && x.group == q.group && x.start == q.start && x.end == q.end {
				n++
			}
		}
		if n != 1 {
			return fmt.Errorf("%s/%s: the next page of %s to %s is asked for %d times", q.res, q.group, tm(q.start), tm(q.end), n)
		}
	}
	for _, i := range s.insts {
		for _, g := range []string{"db.sql", "db.sql_tokenized"} {
			l := m[k{i.res, g}]
			delete(m, k{i.res, g})
			if i.engine != "mysql" {
				if len(l) > 0 {
					return fmt.Errorf("%s is asked for, a %s instance", i.name, i.engine)
				}
				continue
			}
			sort.Slice(l, func(a, b int) bool { return l[a].start < l[b].start })
			cur := start.Unix()
			for _, q := range l {
				if d := q.start - cur; d > 0 && cur != start.Unix() || d > int64(slack/time.Second) {
					return fmt.Errorf("%s/%s: nothing is asked between %s and %s", i.name, g, tm(cur), tm(q.start))
				} else if d < 0 && cur != start.Unix() || d < -int64(slack/time.Second) {
					return fmt.Errorf("%s/%s: %s to %s is asked twice, or is before the start", i.name, g, tm(q.start), tm(cur))
				}
				if q.end <= q.start || q.end-q.start > 24*3600 {
					return fmt.Errorf("%s/%s: a request from %s to %s", i.name, g, tm(q.start), tm(q.end))
				}
				cur = q.end
			}
			if d := cur - start.Add(week).Unix(); d > int64(slack/time.Second) || -d > int64(slack/time.Second) {
				return fmt.Errorf("%s/%s: the week from %s is asked until %s only or too far", i.name, g, start.UTC(), tm(cur))
			}
		}
	}
	for x := range m {
		return fmt.Errorf("resource %q group %q is asked for", x.res, x.group)
	}
	return nil
}

func tm(u int64) string { return time.Unix(u, 0).UTC().Format(time.RFC3339) }

// loads: hour -> database -> sql|tid -> [sum, max]
type loads map[int64]map[string]map[string][2]float64

func (s *sim) want(start time.Time, withFirst bool) loads {
	w := loads{}
	end := start.Add(week)
	for h := start.UTC().Truncate(time.Hour); !h.After(end); h = h.Add(time.Hour) {
		w[h.Unix()] = map[string]map[string][2]float64{}
	}
	lo := start.Unix()
	if withFirst {
		lo -= mod(lo, 300)
	}
	name := map[string]string{}
	for _, i := range s.insts {
		if i.engine == "mysql" {
			name[i.res] = i.name
		}
	}
	for _, p := range s.points {
		t := time.Unix(p.at, 0)
		n, ok := name[p.res]
		if !ok || p.at < lo || !t.Before(end) || p.v == 0 {
			continue
		}
		h := p.at - mod(p.at, 3600)
		if w[h][n] == nil {
			if w[h] == nil {
				w[h] = map[string]map[string][2]float64{}
			}
			w[h][n] = map[string][2]float64{}
		}
		k := p.sql + "|" + p.tid
		x := w[h][n][k]
		w[h][n][k] = [2]float64{x[0] + p.v, math.Max(x[1], p.v)}
	}
	return w
}

func readLoads(v any) (loads, error) {
	w := loads{}
	l, ok := v.([]any)
	if !ok {
		return nil, fmt.Errorf("no loads in the report")
	}
	prev := int64(math.MinInt64)
	for _, t := range l {
		n, _ := report.At(t, "timestamp").(json.Number)
		ms, err := n.Int64()
		if err != nil || ms%3600000 != 0 {
			return nil, fmt.Errorf("%v is not an hour", report.At(t, "timestamp"))
		}
		h := ms / 1000
		if h <= prev {
			return nil, fmt.Errorf("hour %s is repeated or out of order", tm(h))
		}
		prev = h
		w[h] = map[string]map[string][2]float64{}
		dbs, _ := report.At(t, "databases").([]any)
		for _, d := range dbs {
			dn := fmt.Sprint(report.At(d, "name"))
			if w[h][dn] != nil {
				return nil, fmt.Errorf("database %s is listed twice at %s", dn, tm(h))
			}
			w[h][dn] = map[string][2]float64{}
			sqls, _ := report.At(d, "sqls").([]any)
			for _, q := range sqls {
				k := fmt.Sprintf("%v|%v", report.At(q, "sql"), report.At(q, "tokenizedId"))
				if _, ok := w[h][dn][k]; ok {
					return nil, fmt.Errorf("SQL %s of %s is listed twice at %s", k, dn, tm(h))
				}
				f := func(n string) float64 {
					x, _ := report.At(q, n).(json.Number)
					y, err := x.Float64()
					if err != nil {
						return math.NaN()
					}
					return y
				}
				w[h][dn][k] = [2]float64{f("loadSum"), f("loadMax")}
			}
		}
	}
	return w, nil
}

func (a loads) diff(b loads) error { // b: reported
	for h, dbs := range a {
		if _, ok := b[h]; !ok {
			return fmt.Errorf("hour %s is missing", tm(h))
		}
		for d, sqls := range dbs {
			for q, v := range sqls {
				g, ok := b[h][d][q]
				if !ok {
					return fmt.Errorf("hour %s of %s: the load of %q is missing", tm(h), d, q)
				}
				for i, n := range []string{"sum", "maximum"} {
					if !(math.Abs(v[i]-g[i]) < 1e-9) {
						return fmt.Errorf("hour %s of %s: the %s of %q is %v, %v is reported", tm(h), d, n, q, v[i], g[i])
					}
				}
			}
		}
	}
	for h, dbs := range b {
		if _, ok := a[h]; !ok {
			return fmt.Errorf("hour %s does not belong to the period", tm(h))
		}
		for d, sqls := range dbs {
			for q := range sqls {
				if _, ok := a[h][d][q]; !ok {
					return fmt.Errorf("hour %s of %s: %q had no load", tm(h), d, q)
				}
			}
		}
	}
	return nil
}

func (s *sim) judgeReport(out string, start time.Time) error {
	m, err := report.Read(out)
	if err != nil {
		return err
	}
	d := report.At(m, "digData", "performanceInsights")
	for _, k := range []string{"sqlDbLoads", "tokenizedSqlDbLoads"} {
		l, err := readLoads(report.At(d, k))
		if err != nil {
			return fmt.Errorf("%s: %v", k, err)
		}
		// whether the period the start lies in belongs to the week is left open
		if err := s.want(start, false).diff(l); err != nil {
			if s.want(start, true).diff(l) != nil {
				return fmt.Errorf("%s: %v", k, err)
			}
		}
	}
	return nil
}

var startTexts = []string{
	"2001-02-03T04:00:00Z", "2001-02-03T04:05:00Z", "2001-02-03T04:17:23Z", "2001-02-03T04:59:59+00:00",
	"2024-02-26T23:55:00+09:00", "2023-12-28T10:32:10-03:30", "2001-02-03T04:15:00+05:45", "1969-12-31T20:00:00-05:00", "2024-03-29T01:30:00+01:00",
}

func parse(s string) time.Time {
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		panic(err)
	}
	return t
}

func names(l []instance) string {
	var o []string
	for _, i := range l {
		o = append(o, i.name+"("+i.engine+")")
	}
	return strings.Join(o, ",")
}

// C20 ------------------------------------------------------------------------

func c20(r *mc.Run) {
	engines := []string{"mysql", "postgres", "aurora-mysql"}
	r.Bound("instances: every list of 0..4 (thorough 5) instances over 3 engines x every page size of RDS x empty pages (of RDS, of Performance Insights) x 9 start times with different zones and alignment, through the SDK's HTTP layer")
	r.Bound("failures: every request of a run with up to 2 instances (one page or one page per instance) x 6 kinds of failure, with and without a previous report")
	r.Bound("start times: 9 valid and 12 invalid texts; no start time (the real clock)")
	r.Assume("the AWS SDK (request signing, retries, decoding) is trusted; retries are switched off")
	r.Explore(mc.Options{Name: "instances", DevBound: -1}, func(c *mc.Ctx) error {
		n := c.Choose("instances", r.Pick(5, 6))
		s := &sim{total: true}
		for i := 0; i < n; i++ {
			s.insts = append(s.insts, instance{fmt.Sprintf("gravity-%d", i), fmt.Sprintf("db-%d", i), engines[c.Choose("engine", len(engines))]})
		}
		if n > 1 {
			s.rdsPage = c.Choose("page", n)
		}
		st := startTexts[0]
		if n <= 2 {
			st = startTexts[c.Choose("start", len(startTexts))]
		}
		s.empty = []int{0, 1, 4, 5}[c.Choose("empty pages", 4)]
		out := report.Path()
		defer os.Remove(out)
		d := fmt.Sprintf("instances %s, %d per page, empty pages %d, from %s", names(s.insts), s.rdsPage, s.empty, st)
		if err := s.run(out, st, true); err != nil {
			return fmt.Errorf("%s: %v", d, err)
		}
		c.Observe("%s: %d requests", d, len(s.reqs))
		if err := s.judgeRequests(parse(st), 0); err != nil {
			return fmt.Errorf("%s: %v", d, err)
		}
		return s.judgeReport(out, parse(st))
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "failures", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("instances", 2)
		mk := func() *sim {
			s := &sim{total: true}
			for i := 0; i < n; i++ {
				s.insts = append(s.insts, instance{fmt.Sprintf("g%d", i), fmt.Sprintf("db-%d", i), "mysql"})
			}
			return s
		}
		pg := c.Choose("page", n)
		s := mk()
		s.rdsPage = pg
		o0 := report.Path()
		if err := s.run(o0, startTexts[0], true); err != nil {
			return err
		}
		os.Remove(o0)
		total := s.n
		s = mk()
		s.rdsPage = pg
		s.failAt = c.Choose("failing request", total)
		f := faults[c.Choose("failure", len(faults))]
		s.fail = f.f
		out := report.Path()
		defer os.Remove(out)
		old := c.Flip("previous report")
		if old {
			os.WriteFile(out, []byte("previous"), 0o644)
		}
		err := s.run(out, startTexts[0], true)
		c.Observe("%d instances, request %d of %d: %s -> %v", n, s.failAt, total, f.name, err != nil)
		d := fmt.Sprintf("%d instances, request %d of %d fails with %s", n, s.failAt, total, f.name)
		if err == nil {
			return fmt.Errorf("%s: the command succeeds", d)
		}
		return untouched(out, old, d)
	})
	if r.Violated() {
		return
	}
	r.Bound(fmt.Sprintf("local zones: UTC, %s x every half day (and the minute before it) of the eight days before 7 instants, 6 of which are changes of summer time, written with the zone's offset then or in UTC; the same moments as the present without a start time", strings.Join(zones, ", ")))
	inZones(r, func(z string, loc *time.Location) {
		r.Explore(mc.Options{Name: "zone " + z, DevBound: -1}, func(c *mc.Ctx) error {
			t := near[c.Choose("change", len(near))].Add(-time.Duration(c.Choose("half days before", 17)) * 12 * time.Hour)
			if c.Flip("minute before") {
				t = t.Add(-time.Minute)
			}
			s := &sim{insts: []instance{{"g", "db-1", "mysql"}}}
			out := report.Path()
			defer os.Remove(out)
			d, want := "", t
			var err error
			switch c.Choose("start", 3) {
			case 0:
				d = t.In(loc).Format(time.RFC3339)
				err = s.run(out, d, false)
			case 1:
				d = t.UTC().Format(time.RFC3339)
				err = s.run(out, d, false)
			case 2:
				d = "seven days before " + t.In(loc).Format(time.RFC3339)
				want = t.Add(-week)
				clock.Virtual(func() {
					time.Sleep(time.Until(t))
					err = s.run(out, "", false)
				})
			}
			d += ", local zone " + z
			if err != nil {
				return fmt.Errorf("from %s: %v", d, err)
			}
			c.Observe("from %s: %d requests", d, len(s.reqs))
			if err := s.judgeRequests(want, 0); err != nil {
				return fmt.Errorf("from %s: %v", d, err)
			}
			return s.judgeReport(out, want)
		})
	})
	if r.Violated() {
		return
	}
	bad := []string{"2001-02-03", "2001-02-03 04:00:00", "04:00:00", "now", "7d", "2001-02-30T04:00:00Z", "2001-02-03T25:00:00Z", "2001-02-03T04:00:00", " 2001-02-03T04:00:00Z", "2001-02-03T04:00:00Zx", "981173106", "-"}
	r.Explore(mc.Options{Name: "start", DevBound: -1}, func(c *mc.Ctx) error {
		i := c.Choose("start", len(bad)+1)
		s := &sim{insts: []instance{{"g", "db-1", "mysql"}}}
		out := report.Path()
		defer os.Remove(out)
		if i < len(bad) {
			old := c.Flip("previous report")
			if old {
				os.WriteFile(out, []byte("previous"), 0o644)
			}
			if err := s.run(out, bad[i], true); err == nil {
				return fmt.Errorf("start %q is accepted", bad[i])
			}
			return untouched(out, old, "start "+bad[i])
		}
		a := time.Now()
		if err := s.run(out, "", true); err != nil {
			return err
		}
		b := time.Now()
		return s.judgeRequests(a.Add(b.Sub(a)/2).Add(-week), b.Sub(a)+2*time.Second)
	})
}

var zones = []string{"America/New_York", "Europe/Lisbon", "Australia/Lord_Howe", "Asia/Kathmandu"}

// changes of summer time in these zones, and a day without any
var near = []time.Time{time.Date(2025, 3, 9, 7, 0, 0, 0, time.UTC), time.Date(2025, 11, 2, 6, 0, 0, 0, time.UTC), time.Date(2025, 3, 30, 1, 0, 0, 0, time.UTC), time.Date(2025, 10, 26, 1, 0, 0, 0, time.UTC),
	time.Date(2025, 4, 5, 15, 0, 0, 0, time.UTC), time.Date(2025, 10, 4, 15, 30, 0, 0, time.UTC), time.Date(2025, 6, 1, 0, 0, 0, 0, time.UTC)}

// inZones calls f with each local time zone.
func inZones(r *mc.Run, f func(z string, loc *time.Location)) {
	for _, z := range append([]string{"UTC"}, zones...) {
		loc, err := time.LoadLocation(z)
		if err != nil || r.Violated() {
			continue // no zone information here
		}
		old := time.Local
		time.Local = loc
		f(z, loc)
		time.Local = old
	}
}

func untouched(out string, old bool, d string) error {
	b, err := os.ReadFile(out)
	if old && (err != nil || string(b) != "previous") {
		return fmt.Errorf("%s: the previous report was changed", d)
	}
	if !old && err == nil {
		return fmt.Errorf("%s: a report was written", d)
	}
	return nil
}

// C21 ------------------------------------------------------------------------

type ident struct{ sql, tid string }

func c21(r *mc.Run) {
	ids := []ident{{"SELECT 1", "T1"}, {"SELECT 2", "T1"}, {"SELECT 1", "T2"}, {"select 1", "T1"}}
	vals := []float64{0.25, 0.00002, 10}
	r.Bound("every placement of 1..2 (thorough 3, over fewer identities) points over 12 times (around the start, hours, half days and the end) x 2 databases x 4 SQL identities (same text, same tokenized id, different case) x 3 values x 9 start times")
	r.Bound("one SQL with points in every hour and around every half day for all start times; metrics split over pages of 1..3, with empty pages before the first one and in between; entries without value, time or dimensions; other metrics; the total")
	r.Assume("Performance Insights answers as documented: bounds are aligned to the five-minute period (start down, end up), points lie in [start, end), values are finite")
	times := func(st time.Time) []int64 {
		f := st.Unix() - mod(st.Unix(), 300)
		h := st.Unix() - mod(st.Unix(), 3600) + 3600
		w := int64(12 * 3600)
		e := st.Add(week).Unix()
		l := []int64{f, f + 300, h - 300, h, f + w - 300, f + w, f + w + 300, f + 7*w, h + 7*w, e - mod(e, 300), e - mod(e, 300) - 300, f + 13*w}
		return l
	}
	judge := func(c *mc.Ctx, s *sim, st string, http bool) error {
		out := report.Path()
		defer os.Remove(out)
		err := s.run(out, st, http)
		if err == nil {
			err = s.judgeReport(out, parse(st))
		}
		c.Observe("from %s: %v", st, s.points)
		if err != nil {
			var l []string
			for _, p := range s.points {
				l = append(l, fmt.Sprintf("%s %q/%s at %s: %v", p.res, p.sql, p.tid, tm(p.at), p.v))
			}
			return fmt.Errorf("from %s, loads %s: %v", st, strings.Join(l, "; "), err)
		}
		return nil
	}
	insts := []instance{{"orders", "db-1", "mysql"}, {"users", "db-2", "mysql"}, {"pg", "db-3", "postgres"}}
	r.Explore(mc.Options{Name: "points", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("points", r.Pick(2, 3))
		s := &sim{insts: insts, total: true}
		nst, nt, nid, nv := len(startTexts), 12, len(ids), len(vals)
		if n == 2 {
			nst, nv = r.Pick(3, 9), r.Pick(2, 3)
		} else if n == 3 {
			nst, nt, nid, nv = 2, 6, 3, 2
		}
		st := startTexts[[]int{2, 0, 4, 1, 3, 5, 6, 7, 8}[c.Choose("start", nst)]]
		ts := times(parse(st))
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			id := ids[c.Choose("sql", nid)]
			p := point{res: insts[c.Choose("database", 2)].res, sql: id.sql, tid: id.tid, at: ts[c.Choose("time", nt)]}
			k := fmt.Sprint(p)
			p.v = vals[c.Choose("value", nv)]
			if seen[k] { // a SQL has one value per time
				continue
			}
			seen[k] = true
			s.points = append(s.points, p)
		}
		return judge(c, s, st, false)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "dense", DevBound: -1}, func(c *mc.Ctx) error {
		st := startTexts[c.Choose("start", len(startTexts))]
		s := &sim{insts: insts, total: true, piPage: c.Choose("page", 4), empty: c.Choose("empty pages", 4)}
		if s.empty == 0 || r.Thorough() {
			s.total, s.extra, s.rdsPage = !c.Flip("total"), c.Flip("extra"), c.Choose("rds page", 2)
		}
		t0 := parse(st)
		for i, id := range ids[:1+c.Choose("sqls", len(ids))] {
			step := []int64{300, 900, 3300}[i%3]
			for x := t0.Unix() - mod(t0.Unix(), 300) - 3*300; x < t0.Add(week).Unix()+3*300; x += step {
				s.points = append(s.points, point{res: insts[i%2].res, sql: id.sql, tid: id.tid, at: x, v: float64(mod(x/300, 7)) / 4})
			}
		}
		out := report.Path()
		defer os.Remove(out)
		if err := s.run(out, st, c.Flip("http")); err != nil {
			return err
		}
		c.Observe("%s %d", st, len(s.points))
		if err := s.judgeReport(out, t0); err != nil {
			return fmt.Errorf("from %s, a point every few minutes: %v", st, err)
		}
		return nil
	})
	if r.Violated() {
		return
	}
	r.Bound("local zones: UTC, " + strings.Join(zones, ", ") + "; a point every five minutes or hour from every start of up to seven days (whole or and a half) before 6 changes of summer time, written with the zone's offset or in UTC")
	inZones(r, func(z string, loc *time.Location) {
		r.Explore(mc.Options{Name: "zone " + z, DevBound: -1}, func(c *mc.Ctx) error {
			t := near[c.Choose("change", len(near))].Add(-time.Duration(c.Choose("half days before", 16)) * 12 * time.Hour).Add(-time.Duration(c.Choose("minutes before", 3)) * 17 * time.Minute)
			st := t.UTC().Format(time.RFC3339)
			if c.Flip("local") {
				st = t.In(loc).Format(time.RFC3339)
			}
			s := &sim{insts: insts, total: true}
			step := []int64{300, 3600}[c.Choose("step", 2)]
			for x := t.Unix() - mod(t.Unix(), 300) - 3*300; x < t.Add(week).Unix()+3*300; x += step {
				s.points = append(s.points, point{res: insts[0].res, sql: ids[0].sql, tid: ids[0].tid, at: x, v: float64(mod(x/300, 7)) / 4})
			}
			out := report.Path()
			defer os.Remove(out)
			if err := s.run(out, st, false); err != nil {
				return err
			}
			c.Observe("%s %s %d", z, st, len(s.points))
			if err := s.judgeReport(out, t); err != nil {
				return fmt.Errorf("from %s, local zone %s, a point every %d s: %v", st, z, step, err)
			}
			return nil
		})
	})
}
