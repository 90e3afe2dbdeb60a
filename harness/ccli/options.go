package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/jsim"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
)

// spell writes option name with value v in one of its spellings.
func spell(k int, short, long, v string) []string {
	switch k {
	case 1:
		return []string{"--" + long, v}
	case 2:
		return []string{"--" + long + "=" + v}
	case 3:
		return []string{"-" + short + "=" + v}
	case 4:
		return []string{"-" + short + v}
	}
	return []string{"-" + short, v}
}

var optQueries = []string{
	okSQL,
	"-- first\nSELECT x FROM a WHERE s = 'v'",
	" \tSELECT x\n  FROM a\n\tWHERE s = 'it''s, \"x\"=1'  ",
	"SELECT x FROM a WHERE s = '$HOME `id` %s \\\\ é'",
	"SELECT x FROM a /* c */ WHERE s = 'v' -- end",
}

var optIndexes = []struct {
	text, target string // target "": malformed
}{
	{"a:x", "a(x)"}, {"a:x+s", "a(x,s)"}, {"b:z", "b(z)"}, {"a:x,b:z", ""}, {"a:x b:z", ""}, {"a", ""}, {"", ""},
}

var optVars = []string{`{}`, `{"v": 1, "s": "it's"}`, ` {"v":[1,{"a":null}],"é":"a,b=c"} `, `{"n": 12345678901234567890}`}

func c25(r *mc.Run) {
	r.Bound("suggest mysql/postgres/hasura: every combination of <=3 deviations from the plain call among: other query, spelling of each option, order, 0..3 given indexes of 7, examination, variables, verbose, odd output paths, an omitted required option, an unknown option")
	r.Bound("dig jaeger: all combinations of service, minimum duration, threshold, count (given in either spelling or default) with 13 starts, and the omitted or malformed ones")
	r.Explore(mc.Options{Name: "suggest", DevBound: r.Pick(3, 4), Serialize: true}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		w := drive.NewWorld(be, schema())
		set := map[string]string{}
		query := optQueries[c.Deviate("query", len(optQueries))]
		switch be {
		case "mysql":
			myServer(w)
			set = map[string]string{"DB_USERNAME": "u", "DB_DATABASE": drive.DBName}
		case "postgres":
			s, err := pgServer("unix", pgSocket(), w)
			if err != nil {
				panic(err)
			}
			defer s.Close()
			set = map[string]string{"DB_USERNAME": "u", "DB_DATABASE": "d", "DB_HOST": scratch("pg")}
		default:
			w.HasuraSQL = okSQL
			set = map[string]string{"HASURA_URL": "http://" + w.Serve(), "HASURA_ADMIN_SECRET": env.HasuraSecret}
			defer w.Close()
			if query != okSQL {
				query = "query Q { " + query + " }"
			}
		}
		out := report.Path()
		switch c.Deviate("output", 4) {
		case 1:
			out += " x'y$z"
		case 2:
			out = strings.TrimSuffix(out, ".html")
		case 3:
			out += "é.txt"
		}
		defer os.Remove(out)

		var parts [][]string
		bad := ""
		if omit := c.Deviate("omit", 3); omit != 1 {
			parts = append(parts, spell(c.Deviate("spelling of -o", 4), "o", "output", out))
			if omit == 2 {
				bad = "no query"
			}
		} else {
			bad = "no output"
		}
		if bad != "no query" {
			parts = append(parts, spell(c.Deviate("spelling of -q", 4), "q", "query", query))
		}
		examine := c.Deviate("examine", 3)
		switch examine {
		case 1:
			parts = append(parts, []string{"--with-examine"})
		case 2:
			parts = append(parts, []string{"--with-examine=true"})
		}
		var idx []string
		badIndex := false
		for i := 0; i < 3; i++ {
			k := c.Deviate("index", len(optIndexes)+1)
			if k == 0 {
				break
			}
			o := optIndexes[k-1]
			sp := 0
			if o.text != "" {
				sp = c.Deviate("spelling of -i", 5)
			}
			parts = append(parts, spell(sp, "i", "index", o.text))
			if o.target == "" {
				badIndex = true
			}
			idx = append(idx, o.target)
		}
		vars := "{}"
		if be == "hasura" {
			if k := c.Deviate("variables", len(optVars)+1); k > 0 {
				vars = optVars[k-1]
				parts = append(parts, spell(1+c.Deviate("spelling of variables", 2), "", "json-variables", vars))
			} else if c.Deviate("broken variables", 2) == 1 {
				parts = append(parts, []string{"--json-variables", `{"a":`})
				bad = "broken variables"
			}
		}
		if c.Deviate("verbose", 2) == 1 {
			parts = append(parts, []string{"-v"})
		}
		if c.Deviate("unknown", 2) == 1 {
			parts = append(parts, []string{"--no-such-option"})
			bad = "unknown option"
		}
		if c.Deviate("order", 2) == 1 {
			for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
				parts[i], parts[j] = parts[j], parts[i]
			}
			for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
		args := []string{"db", "suggest"}
		if be == "hasura" {
			args = append(args, "hasura")
			args = append(args, "postgres")
		} else {
			args = append(args, be)
		}
		if len(parts) > 0 && c.Deviate("option before the command", 2) == 1 && strings.HasPrefix(parts[0][0], "-v") {
			args = append(append([]string{}, parts[0]...), args...)
			parts = parts[1:]
		}
		for _, p := range parts {
			args = append(args, p...)
		}
		c.Note(fmt.Sprintf("%q", args))
		err := gr(set, args...)
		drive.ObserveEvents(c, w)
		what := fmt.Sprintf("gr %q", args)
		ev := w.Log()
		if bad != "" {
			if err == nil {
				return fmt.Errorf("%s: the command succeeded (%s)", what, bad)
			}
			if report.Exists(out) {
				return fmt.Errorf("%s: a report was written (%s)", what, bad)
			}
			if len(ev) > 0 {
				return fmt.Errorf("%s: %d requests were sent, the first one being %q (%s)", what, len(ev), ev[0].Raw, bad)
			}
			return nil
		}
		if badIndex {
			if err == nil {
				return fmt.Errorf("%s: a malformed index was accepted", what)
			}
			for _, e := range ev {
				if strings.HasPrefix(e.Kind, "ddl") {
					return fmt.Errorf("%s: %q was sent in spite of a malformed index", what, e.Raw)
				}
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s: the command failed: %v", what, err)
		}
		var created []string
		explained := 0
		for _, e := range ev {
			switch {
			case e.Kind == "ddl-create":
				created = append(created, drive.Tgt(e.Table, e.Cols))
			case e.Kind == "explain" && be != "hasura":
				explained++
				if !strings.HasPrefix(strings.ToUpper(e.Raw), "EXPLAIN") || !strings.HasSuffix(e.Raw, query) {
					return fmt.Errorf("%s: the server was asked %q", what, e.Raw)
				}
			case be == "hasura" && strings.HasSuffix(strings.TrimSuffix(pathOf(e.URL), "/"), "/graphql/explain"):
				explained++
				q, v, ok := gqlOf(e.Body)
				if !ok || q != query || !sameJSON(v, vars) {
					return fmt.Errorf("%s: hasura was asked %s", what, e.Body)
				}
			}
		}
		if explained == 0 {
			return fmt.Errorf("%s: the query was not explained", what)
		}
		m, rerr := report.Read(out)
		if rerr != nil {
			return fmt.Errorf("%s: %v", what, rerr)
		}
		d := drive.Data(be, m)
		qField := "query"
		if be == "hasura" {
			qField = "gql"
		}
		if got, ok := d[qField]; ok && got != query {
			return fmt.Errorf("%s: the report shows the query %q", what, got)
		}
		want := idx
		if len(idx) == 0 {
			want = report.Targets(d["indexTargets"])
		}
		if examine == 0 {
			want = nil
		}
		if strings.Join(want, " ") != strings.Join(created, " ") {
			return fmt.Errorf("%s: created %v instead of %v", what, created, want)
		}
		return nil
	})
	if r.Violated() {
		return
	}
	c25Jaeger(r)
}

func pathOf(u string) string {
	if i := strings.Index(u, "://"); i >= 0 {
		u = u[i+3:]
	}
	if i := strings.IndexByte(u, '/'); i >= 0 {
		return strings.SplitN(u[i:], "?", 2)[0]
	}
	return "/"
}

func gqlOf(b []byte) (string, any, bool) {
	var m struct {
		Query struct {
			Query     string          `json:"query"`
			Variables json.RawMessage `json:"variables"`
		} `json:"query"`
	}
	if json.Unmarshal(b, &m) != nil {
		return "", nil, false
	}
	return m.Query.Query, string(m.Query.Variables), true
}

func sameJSON(a any, b string) bool {
	dec := func(s string) any {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		var v any
		if d.Decode(&v) != nil {
			return "undecodable"
		}
		return v
	}
	return reflect.DeepEqual(dec(a.(string)), dec(b))
}

var sockOnce sync.Once

func pgSocket() string {
	sockOnce.Do(func() { os.MkdirAll(scratch("pg"), 0o755) })
	p := scratch("pg") + "/.s.PGSQL.5432"
	os.Remove(p)
	return p
}

// ---------------------------------------------------------------- jaeger

func c25Jaeger(r *mc.Run) {
	type req struct {
		lo, hi time.Time
		svc    string
		min    time.Duration
		n      int32
	}
	var mu sync.Mutex
	var reqs []req
	addr, stop, err := jsim.Listen(func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error {
		mu.Lock()
		first := len(reqs) == 0
		x := req{svc: q.ServiceName, n: q.NumTraces}
		x.lo = time.Unix(q.StartTimeMin.GetSeconds(), int64(q.StartTimeMin.GetNanos()))
		x.hi = time.Unix(q.StartTimeMax.GetSeconds(), int64(q.StartTimeMax.GetNanos()))
		x.min = time.Duration(q.DurationMin.GetSeconds())*time.Second + time.Duration(q.DurationMin.GetNanos())
		reqs = append(reqs, x)
		mu.Unlock()
		if first { // traces with 1..8 calls of one service
			for k := 1; k <= 8; k++ {
				spans := []jsim.Span{{ID: 1, Name: "root", Svc: "front", Start: 1, End: 1000}}
				for i := 0; i < k; i++ {
					spans = append(spans, jsim.Span{ID: uint64(2 + i), Parent: 1, Name: "call", Svc: "back", Start: uint64(10 + i), End: uint64(20 + i)})
				}
				if err := send(jsim.Chunk(uint64(k), spans, 0)); err != nil {
					return err
				}
			}
		}
		return nil
	})
	if err != nil {
		panic(err)
	}
	defer stop()
	set := map[string]string{"JAEGER_UI_URL": "http://ui", "JAEGER_GRPC_ADDRESS": addr}
	now := time.Now()
	z := time.FixedZone("", 5*3600+1800)
	starts := []struct {
		text string
		t    time.Time
		ok   bool
	}{
		{"", time.Time{}, true},
		{text: now.Add(-48 * time.Hour).UTC().Format(time.RFC3339), ok: true}, {text: now.Add(-48 * time.Hour).In(z).Format(time.RFC3339), ok: true},
		{text: now.Add(-30 * 24 * time.Hour).Format(time.RFC3339Nano), ok: true}, {text: now.Add(-23*time.Hour - 59*time.Minute).Format(time.RFC3339), ok: true},
		{text: now.Add(-90 * time.Minute).In(z).Format(time.RFC3339), ok: true}, {text: now.Add(-10 * time.Minute).UTC().Format(time.RFC3339), ok: true},
		{text: "2023-02-28T23:30:00Z", ok: true}, {text: "2024-02-28T23:30:00-11:00", ok: true},
		{text: "yesterday"}, {text: "2023-02-30T00:00:00Z"}, {text: "2023-02-28 23:30:00"}, {text: "2023-02-28T23:30:00"},
	}
	services := []string{"bff", "a b/ç", ""}
	r.Explore(mc.Options{Name: "jaeger", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		args := []string{"app", "dig", "jaeger"}
		out := report.Path()
		defer os.Remove(out)
		bad := ""
		args = append(args, spell(c.Choose("spelling", 2), "o", "output", out)...)
		long := c.Choose("option spelling", 2)
		svc := ""
		if k := c.Choose("service", len(services)+1); k > 0 {
			svc = services[k-1]
			args = append(args, spell(long, "s", "service-name", svc)...)
			if svc == "" {
				return nil // an empty name is not specified
			}
		} else {
			bad = "no service"
		}
		minD, thr, cnt := 1000, 5, 500
		if k := c.Choose("duration", 5); k > 0 {
			minD = []int{0, 1, 2500, 7200000}[k-1]
			args = append(args, spell(long, "d", "min-duration-millisecond", fmt.Sprint(minD))...)
		}
		if k := c.Choose("threshold", 4); k > 0 {
			thr = []int{0, 3, 8}[k-1]
			args = append(args, spell(long, "t", "same-service-threshold", fmt.Sprint(thr))...)
		}
		if k := c.Choose("count", 4); k > 0 {
			cnt = []int{1, 1000, 1000000}[k-1]
			args = append(args, spell(long, "c", "count", fmt.Sprint(cnt))...)
		}
		lateStart := r.Pick(1, len(starts))
		if minD == 1000 && thr == 5 || r.Thorough() {
			lateStart = len(starts)
		}
		st := starts[c.Choose("start", lateStart)]
		if st.text != "" {
			args = append(args, spell(1+long, "", "start-from", st.text)...)
			if !st.ok {
				bad = "malformed start"
			}
		}
		c.Note(fmt.Sprintf("%q", args))
		mu.Lock()
		reqs = nil
		mu.Unlock()
		t0 := time.Now()
		err := gr(set, args...)
		t1 := time.Now()
		mu.Lock()
		got := append([]req{}, reqs...)
		mu.Unlock()
		what := fmt.Sprintf("gr %q", args)
		c.Observe(fmt.Sprintf("%d requests, err=%v", len(got), err != nil))
		if bad != "" {
			if err == nil || len(got) > 0 || report.Exists(out) {
				return fmt.Errorf("%s: went on in spite of %s (err=%v, %d requests)", what, bad, err, len(got))
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s: the command failed: %v", what, err)
		}
		start := t0.Add(-24 * time.Hour)
		slack := t1.Sub(t0)
		if st.text != "" {
			start, _ = time.Parse(time.RFC3339, st.text)
			slack = 0
		}
		end := start.Add(24 * time.Hour)
		endSlack := slack
		if end.After(t0) {
			end, endSlack = t0, t1.Sub(t0)
		}
		sort.Slice(got, func(i, j int) bool { return got[i].lo.Before(got[j].lo) })
		if len(got) == 0 {
			return fmt.Errorf("%s: nothing was asked", what)
		}
		// whole seconds; the last window may reach beyond the end
		near := func(a, b time.Time, s time.Duration) bool {
			d := a.Sub(b)
			return d > -time.Second && d <= s
		}
		if !near(got[0].lo, start, slack) || !near(got[len(got)-1].hi, end, endSlack+30*time.Minute) {
			return fmt.Errorf("%s: asked for the period %s to %s instead of %s to %s", what, got[0].lo, got[len(got)-1].hi, start, end)
		}
		for _, q := range got {
			if q.svc != svc || q.min != time.Duration(minD)*time.Millisecond || q.n != int32(cnt) {
				return fmt.Errorf("%s: asked for service %q, duration %s, %d traces", what, q.svc, q.min, q.n)
			}
		}
		m, rerr := report.Read(out)
		if rerr != nil {
			return fmt.Errorf("%s: %v", what, rerr)
		}
		d := report.At(m, "digData", "jaeger")
		same, _ := report.At(d, "sameServiceTraces").([]any)
		wantSame := 8 - thr
		if len(same) != wantSame {
			return fmt.Errorf("%s: %d traces call one service more than %d times instead of %d", what, len(same), thr, wantSame)
		}
		if slow, _ := report.At(d, "slowTraces").([]any); len(slow) != 8 {
			return fmt.Errorf("%s: %d slow traces instead of 8", what, len(slow))
		}
		if fmt.Sprint(report.At(d, "slowThresholdMilli")) != fmt.Sprint(minD) || fmt.Sprint(report.At(d, "sameServiceThreshold")) != fmt.Sprint(thr) {
			return fmt.Errorf("%s: the report shows the thresholds %v and %v", what, report.At(d, "slowThresholdMilli"), report.At(d, "sameServiceThreshold"))
		}
		return nil
	})
}
