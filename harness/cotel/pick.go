package main

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	"github.com/mrasu/GravityR/cmd/app/dig"
	"github.com/mrasu/GravityR/cmd/flag"
	ijaeger "github.com/mrasu/GravityR/infra/jaeger"
	ojaeger "github.com/mrasu/GravityR/otel/jaeger"
	"github.com/mrasu/GravityR/otel/omodel"
	"github.com/mrasu/GravityR/zz_verif/jsim"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// C17 ------------------------------------------------------------------------

func flat(id uint64, dur uint64) *api_v3.SpansResponseChunk {
	return jsim.Chunk(id, []jsim.Span{{ID: id, Name: fmt.Sprintf("op%d", id), Svc: "bff", Start: base + id*ms, End: base + id*ms + dur*ms}}, 0)
}

// judgeSlow: the reported durations are the largest ones, in descending order, every trace once.
func judgeSlow(durs []uint64, limit int, ids []string, got []uint64) error {
	w := append([]uint64{}, durs...)
	sort.Slice(w, func(i, j int) bool { return w[i] > w[j] })
	if len(w) > limit {
		w = w[:limit]
	}
	if fmt.Sprint(w) != fmt.Sprint(got) {
		return fmt.Errorf("durations %v are reported, the %d longest are %v", got, limit, w)
	}
	seen := map[string]bool{}
	for _, i := range ids {
		if seen[i] {
			return fmt.Errorf("trace %s is reported twice", i)
		}
		seen[i] = true
	}
	return nil
}

func c17(r *mc.Run) {
	r.Bound("slow traces: every sequence of up to 6 durations out of 4 through the command; 0..103 and 250 traces in 6 orders with ties (the limit is 100); picker alone: every sequence of up to 7 durations out of 4 with limits 0..5")
	r.Bound("same-service: every combination of access counts 0..4 for a second service and two databases, nested or flat, x thresholds 0..6; up to 3 traces with counts 1..4 x thresholds")
	r.Explore(mc.Options{Name: "slow-few", DevBound: -1}, func(c *mc.Ctx) error {
		n := c.Choose("traces", 7)
		var durs []uint64
		var ch []*api_v3.SpansResponseChunk
		for i := 0; i < n; i++ {
			d := uint64([]int{5, 1, 2000, 7}[c.Choose("duration", 4)])
			durs = append(durs, d)
			ch = append(ch, flat(uint64(i+1), d))
		}
		rep, err := run(ch, 0)
		if err != nil {
			return fmt.Errorf("durations %v: the command failed: %v", durs, err)
		}
		c.Observe("%v", durs)
		var ids []string
		var got []uint64
		for _, t := range rep.slow {
			ids = append(ids, t.id)
			got = append(got, uint64(t.root.end-t.root.start))
		}
		if e := judgeSlow(durs, 100, ids, got); e != nil {
			return fmt.Errorf("durations %v: %v", durs, e)
		}
		if len(rep.same) != n {
			return fmt.Errorf("durations %v: with threshold 0, %d of %d traces are reported as same-service", durs, len(rep.same), n)
		}
		return nil
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "slow-many", DevBound: -1}, func(c *mc.Ctx) error {
		n := c.Choose("traces", 105)
		if n == 104 {
			n = 250
		}
		order := c.Choose("order", 6)
		var durs []uint64
		var ch []*api_v3.SpansResponseChunk
		for i := 0; i < n; i++ {
			d := uint64(0)
			switch order {
			case 0:
				d = uint64(i + 1)
			case 1:
				d = uint64(n - i)
			case 2:
				d = uint64(i*37%n + 1)
			case 3:
				d = uint64(i%3 + 1)
			case 4:
				d = 9
			default:
				d = uint64(n/2-i) * uint64(n/2-i)
			}
			durs = append(durs, d)
			ch = append(ch, flat(uint64(i+1), d))
		}
		rep, err := run(ch, 5)
		if err != nil {
			return fmt.Errorf("%d traces: the command failed: %v", n, err)
		}
		c.Observe("%d order %d", n, order)
		var ids []string
		var got []uint64
		for _, t := range rep.slow {
			ids = append(ids, t.id)
			got = append(got, uint64(t.root.end-t.root.start))
		}
		if e := judgeSlow(durs, 100, ids, got); e != nil {
			return fmt.Errorf("%d traces, durations %v: %v", n, durs, e)
		}
		return nil
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "picker", DevBound: -1}, func(c *mc.Ctx) error {
		n := c.Choose("traces", r.Pick(8, 9))
		limit := 1 + c.Choose("limit", 5)
		var durs []uint64
		var tr []*omodel.TraceTree
		for i := 0; i < n; i++ {
			d := uint64(c.Choose("duration", 4))
			durs = append(durs, d)
			tr = append(tr, &omodel.TraceTree{Root: &omodel.Span{Name: fmt.Sprint(i), StartTimeUnixNano: base + uint64(i), EndTimeUnixNano: base + uint64(i) + d}})
		}
		var ids []string
		var got []uint64
		for _, t := range ojaeger.NewTracePicker(tr).PickSlowTraces(limit) {
			ids = append(ids, t.Root.Name)
			got = append(got, t.Root.EndTimeUnixNano-t.Root.StartTimeUnixNano)
		}
		if e := judgeSlow(durs, limit, ids, got); e != nil {
			return fmt.Errorf("durations %v: %v", durs, e)
		}
		return nil
	})
	if r.Violated() {
		return
	}
	access := func(c *mc.Ctx, id uint64, s2, db1, db2, shape, names int) []jsim.Span {
		spans := []jsim.Span{{ID: 1, Name: "root", Svc: "bff", Start: base, End: base + 100*ms}}
		last := uint64(1)
		n := uint64(1)
		add := func(svc, db string) {
			n++
			p := uint64(1)
			if shape == 1 && svc != "bff" {
				p = last
			}
			if shape == 2 && db != "" && last != 1 {
				p = last
			}
			spans = append(spans, jsim.Span{ID: n, Parent: p, Name: fmt.Sprintf("op%d", n), Svc: svc, DB: db, Start: base + n*ms, End: base + (n+1)*ms})
			if db == "" {
				last = n
			}
		}
		for i := 0; i < s2; i++ {
			svc := "user"
			if names > 0 && i%2 == 1 { // another service, alike by name
				svc = []string{"User", "user ", "user-db"}[names-1]
			}
			add(svc, "")
		}
		for i := 0; i < db1; i++ {
			add("bff", "mysql")
		}
		for i := 0; i < db2; i++ {
			add("user", "redis")
		}
		return spans
	}
	r.Explore(mc.Options{Name: "same-service", DevBound: -1}, func(c *mc.Ctx) error {
		spans := access(c, 1, c.Choose("user", 5), c.Choose("mysql", 5), c.Choose("redis", 5), c.Choose("shape", 3), c.Choose("names", 4))
		th := c.Choose("threshold", 7)
		return judgeSame(c, [][]jsim.Span{spans}, th)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "same-service-lists", DevBound: -1}, func(c *mc.Ctx) error {
		n := c.Choose("traces", 4)
		var l [][]jsim.Span
		for i := 0; i < n; i++ {
			k := c.Choose("accesses", 4)
			l = append(l, access(c, uint64(i+1), 0, k, 3-k, 0, 0))
		}
		return judgeSame(c, l, c.Choose("threshold", 5))
	})
}

func judgeSame(c *mc.Ctx, traces [][]jsim.Span, th int) error {
	var ch []*api_v3.SpansResponseChunk
	wantSame := map[string]int{}
	wantAll := map[string]int{}
	var ds []string
	for i, spans := range traces {
		ch = append(ch, jsim.Chunk(uint64(i+1), spans, 1))
		w := forest(spans)
		m := maxCount(compacted(w[0], nil)[0])
		id := jsim.TraceHex(uint64(i + 1))
		wantAll[id] = m
		if m > th {
			wantSame[id] = m
		}
		ds = append(ds, describe(spans))
	}
	d := strings.Join(ds, " | ")
	rep, err := run(ch, th)
	if err != nil {
		return fmt.Errorf("traces %s: the command failed: %v", d, err)
	}
	c.Observe("%v threshold %d", wantAll, th)
	chk := func(kind string, want map[string]int, got []*vtrace) error {
		seen := map[string]bool{}
		for _, t := range got {
			m, ok := want[t.id]
			if !ok || seen[t.id] {
				return fmt.Errorf("traces %s, threshold %d: trace %s must not be among the %s traces (counts %v)", d, th, t.id, kind, wantAll)
			}
			seen[t.id] = true
			if int64(m) != t.count {
				return fmt.Errorf("traces %s: the most accessed service of trace %s is entered %d times, %d is reported", d, t.id, m, t.count)
			}
		}
		if len(seen) != len(want) {
			return fmt.Errorf("traces %s, threshold %d: %d of %d %s traces are reported", d, th, len(seen), len(want), kind)
		}
		return nil
	}
	if err := chk("same-service", wantSame, rep.same); err != nil {
		return err
	}
	return chk("slow", wantAll, rep.slow)
}

// C18 ------------------------------------------------------------------------

// own is the part of the span not covered by its direct children, counted unit by unit.
func own(s jsim.Span, kids []*want, unit uint64) uint64 {
	n := uint64(0)
	for t := s.Start; t < s.End; t += unit {
		cov := false
		for _, k := range kids {
			if k.sp.Start <= t && t < k.sp.End {
				cov = true
				break
			}
		}
		if !cov {
			n += unit
		}
	}
	return n
}

func consumption(w *want, unit uint64, m map[string]uint64) {
	m[w.svc] += own(w.sp, w.kids, unit)
	for _, k := range w.kids {
		consumption(k, unit, m)
	}
}

func c18(r *mc.Run) {
	g := 6
	r.Bound(fmt.Sprintf("one span with up to 3 (thorough 4) children, every placement of their intervals on a grid of %d points around the parent's interval: own time of the span itself", g+1))
	r.Bound("through the command: up to 2 children (thorough 3) on the grid, in every assignment of 3 services and chain or flat shape, each case with a reference service whose time is just below and just above the maximum, so that the maximum is determined exactly")
	r.Assume("a span does not end before it starts; which service is shown when several have the same maximum, or when no time was consumed at all, is left open")
	type iv struct{ s, e int }
	var ivs []iv
	for s := 0; s <= g; s++ {
		for e := s; e <= g; e++ {
			ivs = append(ivs, iv{s, e})
		}
	}
	r.Explore(mc.Options{Name: "own-time", DevBound: -1}, func(c *mc.Ctx) error {
		n := c.Choose("children", r.Pick(4, 5))
		p := jsim.Span{Start: base + 1, End: base + 5}
		sp := &omodel.Span{StartTimeUnixNano: p.Start, EndTimeUnixNano: p.End}
		var kids []*want
		for i := 0; i < n; i++ {
			x := ivs[c.Choose("interval", len(ivs))]
			k := jsim.Span{Start: base + uint64(x.s), End: base + uint64(x.e)}
			kids = append(kids, &want{sp: k})
			sp.Children = append(sp.Children, &omodel.Span{StartTimeUnixNano: k.Start, EndTimeUnixNano: k.End})
		}
		if a, b := sp.CalcConsumedTime(), own(p, kids, 1); a != b {
			return fmt.Errorf("a span [1-5] with children %v consumed %d, not %d", ivsOf(kids), b, a)
		}
		return nil
	})
	if r.Violated() {
		return
	}
	judge := func(c *mc.Ctx, spans []jsim.Span) error {
		const unit = 10 * ms
		w := compacted(forest(spans)[0], nil)[0]
		m := map[string]uint64{}
		consumption(w, unit, m)
		max := uint64(0)
		for _, v := range m {
			if v > max {
				max = v
			}
		}
		if max == 0 {
			return nil
		}
		winners := map[string]bool{}
		for k, v := range m {
			if v == max {
				winners[k] = true
			}
		}
		mk := func(d int64) []jsim.Span { // a call far away from everything else, of a service of its own
			st := base + 100000*ms
			return append(append([]jsim.Span{}, spans...), jsim.Span{ID: 99, Parent: 1, Name: "ruler", Svc: "ruler", Start: st, End: uint64(int64(st+max) + d)})
		}
		for _, k := range []struct {
			sp []jsim.Span
			id string
		}{{spans, ""}, {mk(-unit / 2), ""}, {mk(unit / 2), "ruler"}} {
			rep, err := run([]*api_v3.SpansResponseChunk{jsim.Chunk(7, k.sp, 1)}, 100)
			if err != nil || len(rep.slow) != 1 {
				return fmt.Errorf("spans %s: %v", describe(k.sp), err)
			}
			top := rep.slow[0].top
			c.Observe("%s -> %s", describe(k.sp), top)
			if k.id == "" && !winners[top] || k.id != "" && top != k.id {
				return fmt.Errorf("spans %s: service %q is reported as consuming most time, the times are %v (ruler: %v)", describe(k.sp), top, m, k.id)
			}
		}
		return nil
	}
	r.Explore(mc.Options{Name: "report", DevBound: -1}, func(c *mc.Ctx) error {
		n := c.Choose("children", r.Pick(3, 4))
		spans := []jsim.Span{{ID: 1, Name: "root", Svc: "s1", Start: base + 10*ms, End: base + 50*ms}}
		var step []iv
		for _, x := range ivs {
			if n < 2 || (x.s%2 == 1 || x.e%2 == 1) && n == 2 || n == 3 && x.s%2 == 1 && x.e%2 == 1 {
				step = append(step, x)
			}
		}
		for i := 0; i < n; i++ {
			x := step[c.Choose("interval", len(step))]
			p := uint64(1)
			if i > 0 {
				p = uint64(1 + c.Choose("parent", i+1))
			}
			spans = append(spans, jsim.Span{ID: uint64(i + 2), Parent: p, Name: fmt.Sprintf("op%d", i), Svc: []string{"s2", "s1", "s3"}[c.Choose("service", r.Pick(2, 3))], Start: base + uint64(x.s)*10*ms, End: base + uint64(x.e)*10*ms})
		}
		return judge(c, spans)
	})
}

func ivsOf(l []*want) []string {
	var o []string
	for _, k := range l {
		o = append(o, fmt.Sprintf("[%d-%d]", k.sp.Start-base, k.sp.End-base))
	}
	return o
}

// C19 ------------------------------------------------------------------------

type asked struct{ min, max time.Time }

// judgeAsked: consecutive windows of half an hour cover the period.
func judgeAsked(l []asked, start, end time.Time) error {
	if !start.Before(end) {
		if len(l) != 0 {
			return fmt.Errorf("%d requests for an empty period", len(l))
		}
		return nil
	}
	s := start.Truncate(time.Second)
	e := end.Truncate(time.Second)
	cur := s
	for i, w := range l {
		if w.min.After(cur) {
			return fmt.Errorf("nothing is asked between %s and %s (request %d)", cur.UTC(), w.min.UTC(), i)
		}
		if w.max.Sub(w.min) != 30*time.Minute {
			return fmt.Errorf("request %d asks for %s instead of 30 minutes", i, w.max.Sub(w.min))
		}
		if w.min.Before(s) || !w.min.Before(end) {
			return fmt.Errorf("request %d asks for %s-%s, outside of the period", i, w.min.UTC(), w.max.UTC())
		}
		if w.max.After(cur) {
			cur = w.max
		}
	}
	if cur.Before(e) {
		return fmt.Errorf("nothing is asked from %s to the end %s", cur.UTC(), end.UTC())
	}
	if max := int(math.Ceil(end.Sub(start).Minutes() / 30)); len(l) != max {
		return fmt.Errorf("%d requests instead of %d", len(l), max)
	}
	return nil
}

func c19(r *mc.Run) {
	r.Bound("periods: 60 lengths around multiples of 30 minutes from 0 to 24h30m x 7 starts (whole seconds, fractions, before 1970, other zones) x 6 minimum durations")
	r.Bound("answers: up to 5 windows, each with 0..2 traces, neighbouring windows sharing a trace or not")
	r.Bound("failures: every failing request out of up to 4 windows x 6 status codes x failing before, after one or after two of the traces")
	r.Bound("the command itself with flags and environment over TCP: start times before, around and after 24 hours ago, bad values, missing settings")
	r.Assume("Jaeger is asked with a precision of one second")
	starts := []time.Time{t0, t0.Add(500 * time.Millisecond), t0.Add(999999999), time.Date(2024, 12, 31, 23, 50, 0, 1, time.UTC), t0.In(time.FixedZone("x", 5*3600+1800)), time.Date(1969, 12, 31, 23, 0, 0, 0, time.UTC), time.Date(2024, 3, 10, 1, 45, 0, 0, time.FixedZone("y", -5*3600))}
	var lens []time.Duration
	for _, k := range []int{0, 1, 2, 3, 10, 47, 48, 49} {
		for _, d := range []time.Duration{0, time.Nanosecond, 400 * time.Millisecond, time.Second, -time.Second, -time.Nanosecond, 15 * time.Minute} {
			lens = append(lens, time.Duration(k)*30*time.Minute+d)
		}
	}
	r.Explore(mc.Options{Name: "periods", DevBound: -1}, func(c *mc.Ctx) error {
		start := starts[c.Choose("start", len(starts))]
		end := start.Add(lens[c.Choose("length", len(lens))])
		milli := []int{0, 1, 999, 1000, 1001, 61234}[c.Choose("minimum duration", 6)]
		count := []int{1, 500, 2147483647}[c.Choose("count", 3)]
		svc := []string{"bff", "a b/ü"}[c.Choose("service", 2)]
		var l []asked
		var bad error
		out := report.Path()
		defer os.Remove(out)
		err := jsim.With(func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error {
			a, b := jsim.Bounds(q)
			l = append(l, asked{a, b})
			d := time.Duration(q.GetDurationMin().GetSeconds())*time.Second + time.Duration(q.GetDurationMin().GetNanos())
			if q.GetServiceName() != svc || q.GetNumTraces() != int32(count) || d != time.Duration(milli)*time.Millisecond || q.GetOperationName() != "" || q.GetDurationMax() != nil && (q.GetDurationMax().GetSeconds() != 0 || q.GetDurationMax().GetNanos() != 0) || len(q.GetAttributes()) != 0 {
				bad = fmt.Errorf("asked with the filters %v, given: service %q, %d traces, %d ms", q, svc, count, milli)
			}
			if q.GetDurationMin().GetNanos() < 0 || q.GetDurationMin().GetNanos() > 999999999 {
				bad = fmt.Errorf("minimum duration %v is not a valid one", q.GetDurationMin())
			}
			return nil
		}, func(cli *ijaeger.Client) error {
			return dig.VerifJaeger(out, cli, svc, milli, 5, count, start, end, "http://ui/x?y=1&z")
		})
		if err != nil {
			return fmt.Errorf("the command failed: %v", err)
		}
		c.Observe("%d requests", len(l))
		if bad != nil {
			return bad
		}
		if e := judgeAsked(l, start, end); e != nil {
			return fmt.Errorf("period %s to %s: %v", start, end, e)
		}
		rep, err := readReport(out)
		if err != nil {
			return err
		}
		if rep.data["uiPath"] != "http://ui/x?y=1&z" || num(rep.data["slowThresholdMilli"]) != int64(milli) || num(rep.data["sameServiceThreshold"]) != 5 {
			return fmt.Errorf("the report shows other settings than given: %v %v %v", rep.data["uiPath"], rep.data["slowThresholdMilli"], rep.data["sameServiceThreshold"])
		}
		return nil
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "answers", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("windows", r.Pick(4, 5))
		next := uint64(0)
		var ans [][]uint64
		want := map[uint64]bool{}
		for i := 0; i < n; i++ {
			var a []uint64
			k := c.Choose("traces", 3)
			for j := 0; j < k; j++ {
				if j == 0 && i > 0 && len(ans[i-1]) > 0 && c.Flip("same trace as in the window before") {
					a = append(a, ans[i-1][len(ans[i-1])-1])
					continue
				}
				next++
				a = append(a, next)
				want[next] = true
			}
			ans = append(ans, a)
		}
		i := 0
		out := report.Path()
		defer os.Remove(out)
		err := jsim.With(func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error {
			defer func() { i++ }()
			if i >= len(ans) {
				return nil
			}
			for _, t := range ans[i] {
				if err := send(flat(t, 10*t)); err != nil {
					return err
				}
			}
			return nil
		}, func(cli *ijaeger.Client) error {
			return dig.VerifJaeger(out, cli, "bff", 1, 0, 500, t0, t0.Add(time.Duration(n)*30*time.Minute-time.Minute), "u")
		})
		c.Observe("%v", ans)
		if err != nil {
			return fmt.Errorf("answers %v: the command failed: %v", ans, err)
		}
		rep, err := readReport(out)
		if err != nil {
			return err
		}
		for kind, l := range map[string][]*vtrace{"slow": rep.slow, "same-service": rep.same} {
			seen := map[string]bool{}
			for _, t := range l {
				if seen[t.id] {
					return fmt.Errorf("answers %v: trace %s is twice among the %s traces", ans, t.id, kind)
				}
				seen[t.id] = true
			}
			for t := range want {
				if !seen[jsim.TraceHex(t)] {
					return fmt.Errorf("answers %v: trace %d is not among the %s traces", ans, t, kind)
				}
			}
		}
		return nil
	})
	if r.Violated() {
		return
	}
	cds := []codes.Code{codes.Internal, codes.Unavailable, codes.NotFound, codes.Canceled, codes.DeadlineExceeded, codes.Unimplemented}
	r.Explore(mc.Options{Name: "failures", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("windows", 4)
		at := c.Choose("failing", n)
		code := cds[c.Choose("code", len(cds))]
		after := c.Choose("after traces", 3)
		old := c.Flip("a report exists")
		i := 0
		out := report.Path()
		defer os.Remove(out)
		if old {
			os.WriteFile(out, []byte("previous"), 0o644)
		}
		err := jsim.With(func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error {
			k := i
			i++
			for j := 0; j < 2; j++ {
				if k == at && j == after {
					return status.Error(code, "broken")
				}
				if err := send(flat(uint64(10*k+j+1), 5)); err != nil {
					return err
				}
			}
			if k == at {
				return status.Error(code, "broken")
			}
			return nil
		}, func(cli *ijaeger.Client) error {
			return dig.VerifJaeger(out, cli, "bff", 1, 0, 500, t0, t0.Add(time.Duration(n)*30*time.Minute-time.Minute), "u")
		})
		c.Observe("%v", err != nil)
		if err == nil {
			return fmt.Errorf("request %d failed with %s after %d traces, but the command succeeded", at, code, after)
		}
		b, e := os.ReadFile(out)
		if old && string(b) != "previous" {
			return fmt.Errorf("request %d failed with %s, but the previous report was overwritten", at, code)
		}
		if !old && e == nil {
			return fmt.Errorf("request %d failed with %s, but a report was written", at, code)
		}
		return nil
	})
	if r.Violated() {
		return
	}
	// the command with its flags: one address and one set of flags per execution, in sequence
	r.Explore(mc.Options{Name: "command", DevBound: -1, Serialize: true, Workers: 1}, func(c *mc.Ctx) error {
		ago := []time.Duration{0, 48 * time.Hour, 24 * time.Hour, 23 * time.Hour, 25*time.Hour + 7*time.Minute, 40 * time.Minute, -time.Hour}[c.Choose("start", 7)]
		form := c.Choose("form", 3)
		miss := c.Choose("missing setting", 3)
		var l []asked
		var bad error
		addr, stop, err := jsim.Listen(func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error {
			a, b := jsim.Bounds(q)
			l = append(l, asked{a, b})
			if q.GetServiceName() != "s-1" || q.GetNumTraces() != 77 || q.GetDurationMin().GetSeconds() != 2 || q.GetDurationMin().GetNanos() != 345000000 {
				bad = fmt.Errorf("asked with %v", q)
			}
			return nil
		})
		if err != nil {
			return nil
		}
		defer stop()
		out := report.Path()
		defer os.Remove(out)
		flag.AppFlag.Output = out
		set := func(k, v string) {
			if v == "" {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, v)
			}
		}
		set("JAEGER_UI_URL", "http://ui")
		set("JAEGER_GRPC_ADDRESS", addr)
		if miss == 1 {
			set("JAEGER_UI_URL", "")
		}
		if miss == 2 {
			set("JAEGER_GRPC_ADDRESS", "")
		}
		now := time.Now()
		start := now.Add(-ago)
		txt := ""
		wantErr := miss > 0
		if ago != 0 {
			switch form {
			case 0:
				txt = start.UTC().Format(time.RFC3339)
			case 1:
				txt = start.In(time.FixedZone("z", -(9*3600 + 1800))).Format(time.RFC3339)
			default:
				txt = start.Format("2006-01-02 15:04:05")
				wantErr = true
			}
			start = start.Truncate(time.Second)
		} else {
			start = now.Add(-24 * time.Hour)
		}
		f := dig.JaegerCmd.Flags()
		for k, v := range map[string]string{"service-name": "s-1", "min-duration-millisecond": "2345", "same-service-threshold": "3", "count": "77", "start-from": txt} {
			if err := f.Set(k, v); err != nil {
				return fmt.Errorf("flag %s=%s: %v", k, v, err)
			}
		}
		err = dig.JaegerCmd.RunE(dig.JaegerCmd, nil)
		if wantErr {
			if err == nil {
				return fmt.Errorf("start %q, missing setting %d: no error", txt, miss)
			}
			if report.Exists(out) || len(l) > 0 {
				return fmt.Errorf("start %q, missing setting %d: refused, but %d requests and a report", txt, miss, len(l))
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("start %q: the command failed: %v", txt, err)
		}
		if bad != nil {
			return bad
		}
		end := start.Add(24 * time.Hour)
		if end.After(now) {
			end = now
		}
		// the command's own clock may be a little later than ours
		if ago == 0 && len(l) > 0 {
			d := l[0].min.Sub(start.Truncate(time.Second))
			if d < 0 || d > 20*time.Second {
				return fmt.Errorf("without a start time the first request starts at %s, not 24 hours ago (%s)", l[0].min, start)
			}
			start, end = l[0].min, l[0].min.Add(24*time.Hour)
		}
		c.Observe("%d requests", len(l))
		if e := judgeAsked(l, start, end); e != nil {
			return fmt.Errorf("start %q (now %s): %v", txt, now, e)
		}
		rep, err := readReport(out)
		if err != nil {
			return err
		}
		if num(rep.data["slowThresholdMilli"]) != 2345 || num(rep.data["sameServiceThreshold"]) != 3 || rep.data["uiPath"] != "http://ui" {
			return fmt.Errorf("the report shows other settings than given: %v", rep.data)
		}
		return nil
	})
}
