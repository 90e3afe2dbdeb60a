package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	appdig "github.com/mrasu/GravityR/cmd/app/dig"
	ijaeger "github.com/mrasu/GravityR/infra/jaeger"
	"github.com/mrasu/GravityR/zz_verif/browser"
	"github.com/mrasu/GravityR/zz_verif/jsim"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
)

type tspan struct {
	svc        string
	start, end int64
	kids       []*tspan
}

type ttrace struct {
	id, top string
	count   int64
	root    *tspan
}

func readT(v any) *tspan {
	s := &tspan{svc: fmt.Sprint(report.At(v, "serviceName")), start: int64(fnum(report.At(v, "startTimeMillis"))), end: int64(fnum(report.At(v, "endTimeMillis")))}
	l, _ := report.At(v, "children").([]any)
	for _, k := range l {
		s.kids = append(s.kids, readT(k))
	}
	return s
}

func readTs(v any) []*ttrace {
	var out []*ttrace
	l, _ := v.([]any)
	for _, t := range l {
		out = append(out, &ttrace{fmt.Sprint(report.At(t, "traceId")), fmt.Sprint(report.At(t, "timeConsumingServiceName")), int64(fnum(report.At(t, "sameServiceAccessCount"))), readT(report.At(t, "root"))})
	}
	return out
}

// arrows renders the calls of a trace: "from>to" and the returns "from<to"; "*n" are n more.
func arrows(s *tspan) []string {
	var out []string
	for i := 0; i < len(s.kids); i++ {
		k := s.kids[i]
		if len(k.kids) > 0 {
			out = append(out, s.svc+">"+k.svc)
			out = append(out, arrows(k)...)
			out = append(out, k.svc+">"+s.svc)
			continue
		}
		n := 1
		for i+n < len(s.kids) && len(s.kids[i+n].kids) == 0 && s.kids[i+n].svc == k.svc {
			n++
		}
		show := n
		if n > 4 {
			show = 3
		}
		for j := 0; j < show; j++ {
			out = append(out, s.svc+">"+k.svc)
		}
		if n > show {
			out = append(out, fmt.Sprintf("%s>%s*%d", s.svc, k.svc, n-show))
		}
		i += n - 1
	}
	return out
}

var reArrow = regexp.MustCompile(`^\s*(\S+?)\s*->>\s*(\S+?)\s*:(.*)$`)
var reMore = regexp.MustCompile(`(?i)more (\d+) times`)

// diagram reads a sequence diagram.
func diagram(s string) ([]string, error) {
	lines := strings.FieldsFunc(s, func(r rune) bool { return r == '\n' || r == '\r' })
	var out []string
	head := false
	var active []string
	more := ""
	for _, l := range lines {
		l = strings.TrimSpace(l)
		switch {
		case l == "":
		case l == "sequenceDiagram":
			head = true
		case strings.HasPrefix(l, "activate "):
			active = append(active, l[9:])
		case strings.HasPrefix(l, "deactivate "):
			if len(active) == 0 || active[len(active)-1] != l[11:] {
				return nil, fmt.Errorf("%s is deactivated while %v are active", l[11:], active)
			}
			active = active[:len(active)-1]
		default:
			g := reArrow.FindStringSubmatch(l)
			if g == nil {
				return nil, fmt.Errorf("line %q", l)
			}
			if m := reMore.FindStringSubmatch(g[3]); m != nil {
				more = g[1] + ">" + g[2]
				out = append(out, more+"*"+m[1])
				continue
			}
			if strings.TrimSpace(g[3]) == "" && more == g[1]+">"+g[2] {
				continue // hints at the repetition
			}
			more = ""
			out = append(out, g[1]+">"+g[2])
		}
	}
	if !head || len(active) > 0 {
		return nil, fmt.Errorf("the diagram is unbalanced: %q", s)
	}
	return out, nil
}

func thousands(n int64) string {
	s := fmt.Sprint(n)
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	return s
}

// judgeTraces judges a table of traces; it returns the buttons that show diagrams.
func judgeTraces(ts []*ttrace, ui string, sec *browser.Node) (map[string]*browser.Node, error) {
	if sec == nil {
		return nil, fmt.Errorf("the section is missing")
	}
	by := map[string]*ttrace{}
	for _, t := range ts {
		by[t.id] = t
	}
	btn := map[string]*browser.Node{}
	last := int64(-1)
	for _, tr := range sec.All("tr") {
		c := cells(tr)
		if len(c) < 4 {
			if len(c) > 0 && len(ts) > 0 {
				return nil, fmt.Errorf("a row reads %q", tr.String())
			}
			continue
		}
		id := strings.TrimSpace(c[0].String())
		t := by[id]
		if t == nil || btn[id] != nil {
			return nil, fmt.Errorf("trace %q is listed", id)
		}
		d := t.root.end - t.root.start
		if g := strings.TrimSpace(c[1].String()); g != thousands(d)+"ms" {
			return nil, fmt.Errorf("the duration of trace %s is shown as %q, it is %d ms", id, g, d)
		}
		if last >= 0 && d > last {
			return nil, fmt.Errorf("the traces are not sorted by duration")
		}
		last = d
		if g := browser.Squeeze(c[2].String()); g != thousands(t.count)+" times" {
			return nil, fmt.Errorf("the repetitions of trace %s are shown as %q, there are %d", id, g, t.count)
		}
		if g := strings.TrimSpace(c[3].String()); g != t.top {
			return nil, fmt.Errorf("the service of trace %s is shown as %q, it is %q", id, g, t.top)
		}
		b := control(tr, "button", "Show diagram")
		a := tr.All("a")
		if b == nil || len(a) != 1 {
			return nil, fmt.Errorf("trace %s has no button or %d links", id, len(a))
		}
		btn[id] = b
		if h, w := fmt.Sprint(a[0].Attr["href"]), strings.TrimRight(ui, "/")+"/trace/"+id; h != w {
			return nil, fmt.Errorf("the link of trace %s leads to %s instead of %s", id, h, w)
		}
	}
	if len(btn) != len(ts) {
		return nil, fmt.Errorf("%d of %d traces are listed", len(btn), len(ts))
	}
	return btn, nil
}

const msec = 1000000

var tbase = uint64(t0.UnixNano())

func runTraces(out, ui string, traces [][]jsim.Span, threshold int) error {
	return jsim.With(func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error {
		for i, t := range traces {
			if err := send(jsim.Chunk(uint64(i+1), t, 1)); err != nil {
				return err
			}
		}
		return nil
	}, func(cli *ijaeger.Client) error {
		return appdig.VerifJaeger(out, cli, "bff", 1000, threshold, 500, t0, t0.Add(10*time.Minute), ui)
	})
}

var sections = []string{"Slow traces", "Same service traces"}

func c29(r *mc.Run) {
	n := r.Pick(5, 6)
	runs := r.Pick(7, 9)
	r.Bound(fmt.Sprintf("traces: every tree of up to %d spans with every assignment of 3 services; every run of 1..%d calls among other calls; 0..3 traces of every order of 3 durations; 5 addresses of the user interface; every sequence of up to 3 opened and closed diagrams", n, runs))
	r.Assume("en-US number format; service names of letters, digits, - and _")
	svcs := []string{"bff", "user-svc", "db_1"}
	judge := func(c *mc.Ctx, traces [][]jsim.Span, ui string, threshold, depth int) error {
		out := report.Path()
		defer os.Remove(out)
		if err := runTraces(out, ui, traces, threshold); err != nil {
			return err
		}
		m, st, err := open("mermaid", out)
		if err != nil {
			return err
		}
		d := report.At(m, "digData", "jaeger")
		lists := [][]*ttrace{readTs(report.At(d, "slowTraces")), readTs(report.At(d, "sameServiceTraces"))}
		if len(lists[0]) != len(traces) {
			return fmt.Errorf("the report has %d of %d traces", len(lists[0]), len(traces))
		}
		all := map[string]*ttrace{}
		cur := st[0]
		var acts []browser.Act
		for i := 0; ; i++ {
			type choice struct {
				id  string
				btn *browser.Node
			}
			var cs []choice
			for k, ts := range lists {
				b, err := judgeTraces(ts, ui, cur.Section(sections[k]))
				if err != nil {
					return fmt.Errorf("%s: %v", sections[k], err)
				}
				for id, x := range b {
					cs = append(cs, choice{id, x})
				}
				for _, t := range ts {
					all[t.id] = t
				}
			}
			sort.Slice(cs, func(a, b int) bool { return *cs[a].btn.Ctl < *cs[b].btn.Ctl })
			if i == depth || len(cs) == 0 {
				return nil
			}
			k := c.Choose("show", len(cs))
			acts = append(acts, browser.Click(*cs[k].btn.Ctl))
			if st, err = reopen("mermaid", m, acts...); err != nil {
				return err
			}
			cur = st[len(st)-1]
			if len(cur.Diagrams) == 0 {
				return fmt.Errorf("no diagram was drawn")
			}
			t := all[cs[k].id]
			got, err := diagram(cur.Diagrams[len(cur.Diagrams)-1])
			if err != nil {
				return fmt.Errorf("the diagram of %s: %v", t.id, err)
			}
			want := arrows(t.root)
			if len(t.root.kids) == 0 {
				want = []string{t.root.svc + ">" + t.root.svc}
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				return fmt.Errorf("the diagram shows %v, the calls are %v", got, want)
			}
			shown := false
			for _, dl := range cur.Root().All("dialog") {
				if dl.Attr["closed"] == true {
					continue
				}
				shown = true
				if !strings.Contains(dl.String(), t.id) {
					return fmt.Errorf("the dialog of %s shows %q", t.id, dl.String())
				}
				acts = append(acts, browser.Click(*dl.Ctl))
				break
			}
			if !shown {
				return fmt.Errorf("no dialog is shown")
			}
			if i+1 == depth {
				return nil
			}
			if st, err = reopen("mermaid", m, acts...); err != nil {
				return err
			}
			cur = st[len(st)-1]
		}
	}
	r.Explore(mc.Options{Name: "trees", DevBound: -1}, func(c *mc.Ctx) error {
		k := 1 + c.Choose("spans", n)
		var sp []jsim.Span
		for i := 0; i < k; i++ {
			s := jsim.Span{ID: uint64(i + 1), Name: fmt.Sprintf("op%d", i), Svc: "bff", Start: tbase + uint64(i)*msec, End: tbase + 5000*msec - uint64(i)*msec}
			if i > 0 {
				s.Parent = 1 + uint64(c.Choose("parent", i))
				s.Svc = svcs[c.Choose("service", len(svcs))]
			}
			sp = append(sp, s)
		}
		c.Observe("%v", sp)
		return judge(c, [][]jsim.Span{sp}, "http://ui", 0, 1)
	})
	r.Explore(mc.Options{Name: "runs", DevBound: -1}, func(c *mc.Ctx) error {
		sp := []jsim.Span{{ID: 1, Name: "root", Svc: "bff", Start: tbase, End: tbase + 5000*msec}}
		add := func(svc string, parent uint64) uint64 {
			id := uint64(len(sp) + 1)
			sp = append(sp, jsim.Span{ID: id, Parent: parent, Name: "op", Svc: svc, Start: tbase + id*msec, End: tbase + id*msec + 100*msec})
			return id
		}
		p := uint64(1)
		if c.Flip("nested") {
			p = add("user-svc", 1)
		}
		for g := 0; g < 3; g++ {
			svc := []string{"a", "b"}[c.Choose("service", 2)]
			for i, k := 0, c.Choose("calls", runs+1); i < k; i++ {
				id := add(svc, p)
				if i == k-1 && g == 1 && c.Flip("calls on") {
					add("c", id)
				}
			}
		}
		c.Observe("%d spans", len(sp))
		return judge(c, [][]jsim.Span{sp}, "http://ui", 3, 1)
	})
	uis := []string{"http://ui", "http://ui/", "http://localhost:16686", "https://tools.example.com/jaeger", "https://tools.example.com/a/jaeger/"}
	r.Explore(mc.Options{Name: "tables", DevBound: -1}, func(c *mc.Ctx) error {
		var traces [][]jsim.Span
		durs := []uint64{1500, 2000, 1234567}
		for i, k := 0, c.Choose("traces", 4); i < k; i++ {
			d := durs[c.Choose("duration", 3)] * msec
			t := []jsim.Span{{ID: 1, Name: "root", Svc: "bff", Start: tbase, End: tbase + d}}
			for j := 0; j < i; j++ {
				t = append(t, jsim.Span{ID: uint64(j + 2), Parent: 1, Name: "op", Svc: "svc" + fmt.Sprint(i), Start: tbase, End: tbase + 200*msec})
			}
			traces = append(traces, t)
		}
		ui := uis[c.Choose("ui", len(uis))]
		c.Observe("%d %s", len(traces), ui)
		return judge(c, traces, ui, c.Choose("threshold", 3), r.Pick(2, 3))
	})
}
