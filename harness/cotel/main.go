// Checks of `app dig jaeger` (C15-C19), end to end: a simulated Jaeger server answers the real
// command over gRPC and the written report is judged.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	"github.com/mrasu/GravityR/cmd/app/dig"
	ijaeger "github.com/mrasu/GravityR/infra/jaeger"
	"github.com/mrasu/GravityR/zz_verif/jsim"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
	"github.com/rs/zerolog"
)

var checks = map[string]func(*mc.Run){"C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19}

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	r := mc.Start(os.Args[1])
	checks[os.Args[1]](r)
	r.Finish()
}

const ms = 1000000 // nanoseconds
var t0 = time.Date(2024, 3, 5, 10, 17, 23, 0, time.UTC)
var base = uint64(t0.UnixNano())

// vspan is a span shown in a report.
type vspan struct {
	name, id, svc string
	start, end    int64
	kids          []*vspan
}

type vtrace struct {
	id, top string
	count   int64
	root    *vspan
}

type jreport struct {
	slow, same []*vtrace
	data       map[string]any
}

func num(v any) int64 {
	n, _ := v.(json.Number)
	i, err := n.Int64()
	if err != nil {
		return -1
	}
	return i
}

func readSpan(v any) *vspan {
	s := &vspan{name: fmt.Sprint(report.At(v, "name")), id: fmt.Sprint(report.At(v, "spanId")), svc: fmt.Sprint(report.At(v, "serviceName")), start: num(report.At(v, "startTimeMillis")), end: num(report.At(v, "endTimeMillis"))}
	l, _ := report.At(v, "children").([]any)
	for _, c := range l {
		s.kids = append(s.kids, readSpan(c))
	}
	return s
}

func readTraces(v any) []*vtrace {
	var out []*vtrace
	l, _ := v.([]any)
	for _, t := range l {
		out = append(out, &vtrace{id: fmt.Sprint(report.At(t, "traceId")), top: fmt.Sprint(report.At(t, "timeConsumingServiceName")), count: num(report.At(t, "sameServiceAccessCount")), root: readSpan(report.At(t, "root"))})
	}
	return out
}

func (s *vspan) String() string {
	var l []string
	for _, k := range s.kids {
		l = append(l, k.String())
	}
	return fmt.Sprintf("%s#%s@%s[%d-%d](%s)", s.name, strings.TrimLeft(s.id, "0"), s.svc, s.start-base0, s.end-base0, strings.Join(l, " "))
}

var base0 = int64(base / ms)

// run executes the command for one window; every chunk is one trace of the answer.
func run(chunks []*api_v3.SpansResponseChunk, threshold int) (*jreport, error) {
	out := report.Path()
	defer os.Remove(out)
	err := jsim.With(func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error {
		for _, c := range chunks {
			if err := send(c); err != nil {
				return err
			}
		}
		return nil
	}, func(cli *ijaeger.Client) error {
		return dig.VerifJaeger(out, cli, "bff", 1000, threshold, 500, t0, t0.Add(10*time.Minute), "http://ui")
	})
	if err != nil {
		return nil, err
	}
	return readReport(out)
}

func readReport(out string) (*jreport, error) {
	m, err := report.Read(out)
	if err != nil {
		return nil, err
	}
	d, _ := report.At(m, "digData", "jaeger").(map[string]any)
	if d == nil {
		return nil, fmt.Errorf("the report has no Jaeger data")
	}
	return &jreport{slow: readTraces(d["slowTraces"]), same: readTraces(d["sameServiceTraces"]), data: d}, nil
}

func byRoot(l []*vtrace) map[string]*vtrace {
	m := map[string]*vtrace{}
	for _, t := range l {
		m[t.root.id] = t
	}
	return m
}

func permutation(c *mc.Ctx, label string, n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var out []int
	for len(left) > 0 {
		k := c.Choose(label, len(left))
		out = append(out, left[k])
		left = append(left[:k:k], left[k+1:]...)
	}
	return out
}

// expected trees: the oracle works on the generated spans only.
type want struct {
	sp   jsim.Span
	svc  string // shown service
	kids []*want
}

func (w *want) String() string {
	var l []string
	for _, k := range w.kids {
		l = append(l, k.String())
	}
	return fmt.Sprintf("%s#%x@%s[%d-%d](%s)", w.sp.Name, w.sp.ID, w.svc, int64(w.sp.Start/ms)-base0, int64(w.sp.End/ms)-base0, strings.Join(l, " "))
}

func forest(spans []jsim.Span) []*want {
	m := map[uint64]*want{}
	for _, s := range spans {
		m[s.ID] = &want{sp: s, svc: s.Svc}
	}
	var roots []*want
	for _, s := range spans {
		if p := m[s.Parent]; s.Parent != 0 && p != nil {
			p.kids = append(p.kids, m[s.ID])
		} else {
			roots = append(roots, m[s.ID])
		}
	}
	var srt func(l []*want)
	srt = func(l []*want) {
		sort.SliceStable(l, func(i, j int) bool { return l[i].sp.Start < l[j].sp.Start })
		for _, w := range l {
			srt(w.kids)
		}
	}
	srt(roots)
	return roots
}

func judgeRoots(spans []jsim.Span, roots []*want, rep *jreport) error {
	got := byRoot(rep.slow)
	if len(rep.slow) != len(roots) || len(got) != len(roots) {
		return fmt.Errorf("the spans form %d trees, the report shows %d", len(roots), len(rep.slow))
	}
	for _, w := range roots {
		g := got[jsim.SpanHex(w.sp.ID)]
		if g == nil {
			return fmt.Errorf("no tree with root %x in the report", w.sp.ID)
		}
		if a, b := g.root.String(), w.String(); a != b {
			return fmt.Errorf("the report shows %s, the spans are %s", a, b)
		}
		if g.id != jsim.TraceHex(7) {
			return fmt.Errorf("trace id %s instead of %s", g.id, jsim.TraceHex(7))
		}
	}
	return nil
}

func describe(spans []jsim.Span) string {
	var l []string
	for _, s := range spans {
		l = append(l, fmt.Sprintf("{id %x parent %x %s svc=%s db=%q %d-%d}", s.ID, s.Parent, s.Name, s.Svc, s.DB, int64(s.Start/ms)-base0, int64(s.End/ms)-base0))
	}
	return strings.Join(l, " ")
}
