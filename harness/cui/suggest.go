package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/mrasu/GravityR/zz_verif/browser"
	"github.com/mrasu/GravityR/zz_verif/clock"
	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
)

// pnode is a node of the plan in the report's data.
type pnode struct {
	text, title, table string
	fig                map[string]*float64
	kids               []*pnode
	start, end         float64
}

func plan(v any) []*pnode {
	var out []*pnode
	l, _ := v.([]any)
	for _, x := range l {
		m, _ := x.(map[string]any)
		n := &pnode{text: fmt.Sprint(m["text"]), title: fmt.Sprint(m["title"]), fig: map[string]*float64{}, kids: plan(m["children"])}
		if t, ok := m["tableName"].(string); ok {
			n.table = t
		}
		for k, f := range m {
			if j, ok := f.(json.Number); ok {
				if v, err := j.Float64(); err == nil {
					n.fig[k] = &v
				}
			}
		}
		out = append(out, n)
	}
	return out
}

func preorder(l []*pnode) []*pnode {
	var o []*pnode
	for _, n := range l {
		o = append(append(o, n), preorder(n.kids)...)
	}
	return o
}

// times computes when each step of a plan runs.
func times(be string, n *pnode) {
	n.start = 0
	for _, k := range n.kids {
		times(be, k)
		n.start = math.Max(n.start, k.end)
	}
	val := func(k string) float64 {
		if f := n.fig[k]; f != nil {
			return *f
		}
		return 0
	}
	switch {
	case be == "hasura":
		n.end = val("estimatedCost")
	case be == "mysql" && val("actualLoopCount") > 1000 && val("actualTimeAvg") == 0:
		n.end = n.start + 0.0001*val("actualLoopCount")
	case be == "mysql" && val("actualLoopCount") > 1:
		n.end = n.start + val("actualTimeAvg")*val("actualLoopCount")
	default:
		n.end = val("actualTimeAvg")
	}
	n.end = math.Max(n.end, n.start)
}

func close2(a, b, eps float64) bool { return math.Abs(a-b) <= eps+1e-9*math.Abs(b) }

var tipLabels = map[string][]string{
	"estimatedInitCost":     {"Initial cost (estimated)"},
	"estimatedCost":         {"Cost (estimated)"},
	"estimatedReturnedRows": {"Rows returned (estimated)"},
	"estimatedWidth":        {"Width (estimated)"},
	"actualTimeFirstRow":    {"Time first row (actual)"},
	"actualTimeAvg":         {"Time (actual)", "Time per loop (actual)"},
	"actualReturnedRows":    {"Rows returned (actual)"},
	"actualLoopCount":       {"Loop count (actual)"},
}

func number(s string) (float64, bool) {
	f, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
	return f, err == nil
}

// judgeTip judges the tooltip of a step.
func judgeTip(be string, n *pnode, tip string) error {
	t := browser.Squeeze(browser.TextOf(tip))
	text := strings.TrimSpace(n.text)
	if rs := []rune(text); len(rs) > 50 {
		text = string(rs[:50])
	}
	if !strings.HasPrefix(t, browser.Squeeze(text)) {
		return fmt.Errorf("the tooltip of %q shows %q", n.text, t)
	}
	// the rest: label : value pairs
	i := strings.Index(t, "Table:")
	if i < 0 {
		return fmt.Errorf("the tooltip %q has no table", t)
	}
	rest := t[i:]
	val := func(label string) (string, bool) {
		j := strings.Index(rest, label)
		if j < 0 {
			return "", false
		}
		v := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[j+len(label):]), ":"))
		// up to the next label
		end := len(v)
		for _, ls := range tipLabels {
			for _, l := range ls {
				if k := strings.Index(v, l); k >= 0 && k < end && (k == 0 || v[k-1] == ' ') {
					end = k
				}
			}
		}
		return strings.TrimSpace(v[:end]), true
	}
	if v, _ := val("Table"); v != n.table && !(n.table == "" && v == "-") {
		return fmt.Errorf("the tooltip %q of a step of table %q names table %q", t, n.table, v)
	}
	for k, f := range n.fig {
		if be == "postgres" && (k == "actualTimeFirstRow" || k == "actualTimeAvg") {
			v, _ := val("Time (actual)")
			a, b, _ := strings.Cut(v, "~")
			if k == "actualTimeAvg" {
				a = b
			}
			if x, ok := number(a); !ok || x != *f {
				return fmt.Errorf("the tooltip %q does not show %s %v", t, k, *f)
			}
			continue
		}
		if k == "estimatedInitCost" && *f == 0 && be == "mysql" {
			continue
		}
		ok := false
		for _, l := range tipLabels[k] {
			if l == "Cost (estimated)" {
				if j := strings.Index(rest, "Initial cost"); j >= 0 {
					rest = rest[:j] + strings.Replace(rest[j:], "Initial cost (estimated)", "Initial_cost", 1)
				}
			}
			if v, has := val(l); has {
				x, isNum := number(v)
				ok = ok || isNum && x == *f
			}
		}
		if k == "estimatedInitCost" {
			if v, has := val("Initial_cost"); has {
				x, isNum := number(strings.TrimLeft(v, " :"))
				ok = ok || isNum && x == *f
			}
		}
		if !ok {
			return fmt.Errorf("the tooltip %q does not show %s %v", t, k, *f)
		}
	}
	return nil
}

// body of a section without its title.
func body(sec *browser.Node) string {
	if sec == nil {
		return ""
	}
	c := &browser.Node{Tag: sec.Tag}
	for _, k := range sec.Kids {
		if k.Tag != "summary" {
			c.Kids = append(c.Kids, k)
		}
	}
	return c.String()
}

// lines returns the lines of a text which are not blank.
func lines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimRight(l, " "); l != "" {
			out = append(out, l)
		}
	}
	return out
}

// judgePlan judges the plan's text and timeline; every step is hovered over.
func judgePlan(be string, m map[string]any, st *browser.Step) error {
	d := drive.Data(be, m)
	roots := plan(d["analyzeNodes"])
	for _, n := range roots {
		times(be, n)
	}
	all := preorder(roots)
	sec := st.Section("Explain Tree")
	title := "Execution Timeline"
	if be == "hasura" {
		title = "Estimated Timeline"
	}
	chart := st.Section(title)
	if len(all) == 0 {
		return nil
	}
	if sec == nil || chart == nil {
		return fmt.Errorf("the page does not show the plan")
	}
	want := ""
	for _, n := range all {
		want += n.text + "\n"
	}
	got := lines(strings.TrimSpace(body(sec)))
	for i, l := range lines(strings.TrimSpace(want)) {
		if i >= len(got) || got[i] != l {
			return fmt.Errorf("the plan is shown as %q, without its line %q", got, l)
		}
	}
	if s, _ := d["summaryText"].(string); s != "" {
		// below the plan, whatever separates it
		w := lines(s)
		tail := got[len(lines(want)):]
		if len(tail) < len(w) {
			return fmt.Errorf("the summary %q is not shown in %q", s, got)
		}
		for i, l := range tail[len(tail)-len(w):] {
			if strings.TrimSpace(l) != strings.TrimSpace(w[i]) {
				return fmt.Errorf("the summary %q is not shown in %q", s, got)
			}
		}
	}
	ci := chart.Charts()
	if len(ci) != 1 {
		return fmt.Errorf("%d timelines", len(ci))
	}
	ch := st.Charts[ci[0]]
	if len(ch.Series) != 1 || len(ch.Series[0].Data) != len(all) {
		return fmt.Errorf("the timeline has %d bars for %d steps", len(ch.Series[0].Data), len(all))
	}
	var acts []browser.Act
	seen := map[string]bool{}
	for i, n := range all {
		p := ch.Series[0].Data[i]
		x := fmt.Sprint(p["x"])
		if seen[x] {
			return fmt.Errorf("two bars at %s", x)
		}
		seen[x] = true
		y, _ := p["y"].([]any)
		if len(y) != 2 {
			return fmt.Errorf("bar %d spans %v", i, p["y"])
		}
		a, ok1 := y[0].(float64)
		b, ok2 := y[1].(float64)
		if !ok1 || !ok2 || !close2(a, n.start, 0.00011) || !close2(b, n.end, 0) {
			return fmt.Errorf("the bar of %q spans %v instead of %v..%v", n.text, y, n.start, n.end)
		}
		acts = append(acts, browser.Label(ci[0], 0, i), browser.Tooltip(ci[0], 0, i), browser.Hover(ci[0], 0, i))
	}
	res, err := reopen("main", m, acts...)
	if err != nil {
		return err
	}
	for i, n := range all {
		if l := *res[1+3*i].Text; l != n.title {
			return fmt.Errorf("the bar of %q is labelled %q instead of %q", n.text, l, n.title)
		}
		if err := judgeTip(be, n, *res[2+3*i].Text); err != nil {
			return err
		}
		k := 0
		for _, s := range res[3+3*i].Section("Explain Tree").All("span") {
			if s.String() == "Explain Tree" {
				continue
			}
			bold := strings.Contains(fmt.Sprint(s.Attr["class"]), "bold")
			if bold != (k == i) {
				return fmt.Errorf("hovering over step %d: line %d is highlighted: %v", i, k, bold)
			}
			k++
		}
	}
	return nil
}

type examRow struct {
	node    *browser.Node
	time    float64
	reduced string
	target  string
	sql     string
}

var reTarget = regexp.MustCompile(`^Table=(\S+) / Column=(.*)$`)

func grouped(s, unit string) (float64, error) {
	s = strings.TrimSpace(s)
	if !strings.HasSuffix(s, unit) {
		return 0, fmt.Errorf("%q is not in %s", s, unit)
	}
	return strconv.ParseFloat(strings.ReplaceAll(strings.TrimSuffix(s, unit), ",", ""), 64)
}

func cells(row *browser.Node) []*browser.Node {
	var l []*browser.Node
	for _, k := range row.Kids {
		if k.Tag == "td" {
			l = append(l, k)
		}
	}
	return l
}

// examRows returns the rows of the examination, without the original's.
func examRows(st *browser.Step) ([]examRow, error) {
	sec := st.Section("Examination Result")
	if sec == nil {
		return nil, fmt.Errorf("the page has no examination result")
	}
	var out []examRow
	for _, tr := range sec.All("tr") {
		c := cells(tr)
		if len(c) < 4 || strings.TrimSpace(c[2].String()) == "(Original)" {
			continue
		}
		g := reTarget.FindStringSubmatch(browser.Squeeze(c[2].String()))
		t, err := grouped(c[0].String(), "ms")
		if g == nil || err != nil {
			return nil, fmt.Errorf("a row reads %q (%v)", browser.Squeeze(tr.String()), err)
		}
		s := c[3].String()
		if i := strings.Index(s, ";"); i >= 0 {
			s = s[:i+1]
		}
		out = append(out, examRow{tr, t, strings.TrimSpace(c[1].String()), g[1] + ":" + strings.ReplaceAll(g[2], ", ", "+"), s})
	}
	return out, nil
}

func judgeExam(be string, orig float64, want map[string]float64, st *browser.Step) error {
	sec := st.Section("Examination Result")
	if sec == nil {
		return fmt.Errorf("the page has no examination result")
	}
	found := false
	for _, tr := range sec.All("tr") {
		c := cells(tr)
		if len(c) >= 3 && strings.TrimSpace(c[2].String()) == "(Original)" {
			t, err := grouped(c[0].String(), "ms")
			if err != nil || t != orig {
				return fmt.Errorf("the original time is shown as %q, it is %v", c[0].String(), orig)
			}
			found = true
		}
	}
	if !found {
		return fmt.Errorf("the original time is not shown")
	}
	rows, err := examRows(st)
	if err != nil {
		return err
	}
	if len(rows) != len(want) {
		return fmt.Errorf("%d of %d examined indexes are shown", len(rows), len(want))
	}
	last := math.Inf(-1)
	for _, w := range rows {
		t, ok := want[w.target]
		if !ok || t != w.time {
			return fmt.Errorf("%s is shown with %vms, its time was %v (%v)", w.target, w.time, t, ok)
		}
		if w.time < last {
			return fmt.Errorf("the rows are not sorted by time")
		}
		last = w.time
		p, err := grouped(w.reduced, "%")
		if err != nil || math.Abs(p-(1-t/orig)*100) > 0.00501 {
			return fmt.Errorf("the reduction from %v to %vms is shown as %q", orig, t, w.reduced)
		}
		if err := judgeDDL(be, w.sql, w.target); err != nil {
			return err
		}
	}
	return nil
}

var stepTexts = []string{
	"Filter: (a.x = 1)", "Filter: (a.x < b.x)", "Filter: (a.s = '<b>')", "Filter: (a.s = '&lt;')", "Table scan on a",
}
var pgTexts = []string{"Seq Scan on a", "Seq Scan on a", "Sort", "Nested Loop", "Hash Join"}
var pgConds = []string{"", "Filter: (s < 'x')", "Sort Key: ('<i>'::text)", "Join Filter: (a.x > b.x)", "Hash Cond: (s = '&amp;'::text)"}

var stepFigs = [][6]string{ // init cost, cost, rows, first, avg, loops
	{"0.25", "1.35", "3", "0.010", "12.500", "1"},
	{"0.00", "9.50", "1", "0.000", "0.020", "65"},
	{"1.00", "2.00", "8", "", "", ""},
	{"3.00", "40.00", "8", "0.000", "0.000", "1000000"},
}

// planText renders a plan.
func planText(be string, depth []int, text, fig []int) []string {
	var l []string
	for i, d := range depth {
		f := stepFigs[fig[i]]
		if be == "mysql" {
			s := strings.Repeat("    ", d) + "-> " + stepTexts[text[i]] + fmt.Sprintf("  (cost=%s..%s rows=%s)", f[0], f[1], f[2])
			if f[3] == "" {
				s += " (never executed)"
			} else {
				s += fmt.Sprintf(" (actual time=%s..%s rows=1 loops=%s)", f[3], f[4], f[5])
			}
			l = append(l, s)
			continue
		}
		pad := ""
		s := pgTexts[text[i]]
		if d > 0 {
			pad = strings.Repeat("      ", d-1)
			s = pad + "  ->  " + s
			pad += "      "
		}
		s += fmt.Sprintf("  (cost=%s..%s rows=%s width=4)", f[0], f[1], f[2])
		if be == "postgres" {
			if f[3] == "" {
				s += " (never executed)"
			} else {
				s += fmt.Sprintf(" (actual time=%s..%s rows=1 loops=%s)", f[3], f[4], f[5])
			}
		}
		l = append(l, s)
		if c := pgConds[text[i]]; c != "" {
			l = append(l, pad+"  "+c)
		}
	}
	if be == "postgres" {
		l = append(l, "Planning Time: 0.100 ms", "Execution Time: 0.200 ms")
	}
	return l
}

func c28(r *mc.Run) {
	n := r.Pick(4, 5)
	r.Bound(fmt.Sprintf("every plan of up to %d steps (every tree; per step every figure set of 4 (of up to %d steps) and text of 5 (of up to 3 steps), otherwise one varying step), every bar labelled and hovered over", n, r.Pick(3, 4)))
	r.Bound("examinations of every list of 1..3 of 7 indexes (one with reserved and mixed case names) with every assignment of durations 1, 20, 1500, 1234567 ms (original 20, 1500, 3 ms); texts of queries and variables of every sequence of up to 2 of 12 fragments")
	r.Assume("en-US number format")
	full := r.Pick(3, 4)
	r.Explore(mc.Options{Name: "plans", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		k := 1 + c.Choose("steps", n)
		depth := []int{0}
		for i := 1; i < k; i++ {
			lo, span := 1, depth[i-1]+1
			if be == "mysql" {
				lo, span = 0, depth[i-1]+2
			}
			depth = append(depth, lo+c.Choose("depth", span))
		}
		text, fig := make([]int, k), make([]int, k)
		for i := range fig {
			text[i], fig[i] = i%len(stepTexts), i%2
			if k <= full {
				fig[i] = c.Choose("figures", len(stepFigs))
			}
		}
		if k <= 2 {
			for i := range text {
				text[i] = c.Choose("text", len(stepTexts))
			}
		} else {
			i := c.Choose("varying", k)
			text[i] = c.Choose("text", len(stepTexts))
			if k > full {
				fig[i] = c.Choose("figures", len(stepFigs))
			}
		}
		s := suggestion{be: be, schema: shopSchema(), query: "SELECT y FROM a WHERE s = 'v'", vars: "{}", sql: "SELECT y FROM a", plan: planText(be, depth, text, fig)}
		if be == "hasura" {
			s.query = "query { a }"
		}
		out := report.Path()
		defer os.Remove(out)
		if err := s.run(out); err != nil {
			return err
		}
		m, st, err := open("main", out)
		if err != nil {
			return err
		}
		c.Observe("%s %v", be, s.plan)
		if got := len(preorder(plan(drive.Data(be, m)["analyzeNodes"]))); got != k {
			return fmt.Errorf("the report has %d steps of %d", got, k)
		}
		return judgePlan(be, m, st[0])
	})
	long := r.Pick(26, 60)
	r.Bound(fmt.Sprintf("plans of 9..12, 20..%d and 101 steps: a chain, a row, stairs", long))
	r.Explore(mc.Options{Name: "long plans", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		k := c.Choose("steps", long-20+1+4+1)
		switch {
		case k < 4:
			k += 9
		case k == 4:
			k = 101
		default:
			k += 15
		}
		form := c.Choose("form", 3)
		var depth, text, fig []int
		for i := 0; i < k; i++ {
			d := i
			switch {
			case form == 1 && i > 0:
				d = 1
			case form == 2 && i > 0:
				d = 1 + (i-1)%3
			}
			depth, text, fig = append(depth, d), append(text, i%len(stepTexts)), append(fig, (i*3+form)%len(stepFigs))
		}
		s := suggestion{be: be, schema: shopSchema(), query: "SELECT y FROM a WHERE s = 'v'", vars: "{}", sql: "SELECT y FROM a", plan: planText(be, depth, text, fig)}
		if be == "hasura" {
			s.query = "query { a }"
		}
		out := report.Path()
		defer os.Remove(out)
		if err := s.run(out); err != nil {
			return err
		}
		m, st, err := open("main", out)
		if err != nil {
			return err
		}
		c.Observe("%s %d steps, form %d", be, k, form)
		if got := len(preorder(plan(drive.Data(be, m)["analyzeNodes"]))); got != k {
			return fmt.Errorf("the report has %d steps of %d", got, k)
		}
		return judgePlan(be, m, st[0])
	})
	frags := []string{"<b>x</b>", "&lt;", "<", "'", `"`, "\n", "  ", "{x}", "`", "é日", "</div>", "$x"}
	r.Explore(mc.Options{Name: "texts", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		t := ""
		for i, k := 0, 1+c.Choose("fragments", 2); i < k; i++ {
			t += frags[c.Choose("fragment", len(frags))]
		}
		s := suggestion{be: be, schema: shopSchema(), vars: "{}", sql: "SELECT y FROM a WHERE s = " + literal(be, t)}
		s.query = s.sql
		vars := map[string]any{}
		if be == "hasura" {
			s.query = "query { a } # " + t
			if c.Flip("variables") {
				vars["v"+t] = t
				b, _ := json.Marshal(vars)
				s.vars = string(b)
			}
		}
		out := report.Path()
		defer os.Remove(out)
		if err := s.run(out); err != nil {
			return err
		}
		_, st, err := open("main", out)
		if err != nil {
			return err
		}
		c.Observe("%s %q", be, t)
		if got := strings.TrimSpace(body(st[0].Section("SQL"))); got != strings.TrimSpace(s.sql) {
			return fmt.Errorf("the SQL is shown as %q instead of %q", got, s.sql)
		}
		if be == "hasura" {
			got := body(st[0].Section("GraphQL query"))
			if !strings.HasPrefix(strings.TrimSpace(got), strings.TrimSpace(s.query)) {
				return fmt.Errorf("the query is shown as %q instead of %q", got, s.query)
			}
			i := strings.LastIndex(got, "variables ----")
			var v map[string]any
			if i < 0 || json.Unmarshal([]byte(got[i+len("variables ----"):]), &v) != nil || fmt.Sprint(v) != fmt.Sprint(vars) {
				return fmt.Errorf("the variables are shown in %q instead of %v", got, vars)
			}
		}
		return nil
	})
	all := []string{"a:x", "a:y", "b:z", "a:x+y", "b:x+z", "a:y+x+s", "Order:group+Cx"}
	ms := []int{1, 20, 1500, 1234567}
	r.Explore(mc.Options{Name: "examinations", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		k := 1 + c.Choose("indexes", r.Pick(2, 3))
		left := append([]string{}, all...)
		want := map[string]float64{}
		var idx []string
		durs := []int{[]int{20, 1500, 3}[c.Choose("original", 3)]}
		for i := 0; i < k; i++ {
			j := c.Choose("index", len(left))
			d := ms[c.Choose("duration", len(ms))]
			idx = append(idx, left[j])
			want[left[j]] = float64(d)
			durs = append(durs, d)
			left = append(left[:j:j], left[j+1:]...)
		}
		s := suggestion{be: be, schema: shopSchema(), query: "SELECT y FROM a WHERE s = 'v'", vars: "{}", sql: "SELECT y FROM a", examine: true, idx: idx}
		if be == "hasura" {
			s.query = "query { a }"
		}
		s.times = func(w *env.World) {
			w.OnEvent = func(e *env.Event) {
				switch e.Kind {
				case "exec", "query":
					if len(durs) > 0 {
						time.Sleep(time.Duration(durs[0]) * time.Millisecond)
						durs = durs[1:]
					}
				}
			}
		}
		out := report.Path()
		defer os.Remove(out)
		var err error
		orig := float64(durs[0])
		clock.Virtual(func() { err = s.run(out) })
		if err != nil {
			return err
		}
		m, st, err := open("main", out)
		if err != nil {
			return err
		}
		c.Observe("%s %v %v", be, orig, want)
		if err := judgeExam(be, orig, want, st[0]); err != nil {
			return fmt.Errorf("%s: %v", be, err)
		}
		// the suggestions are still listed
		t := targets(be, m)
		if len(t) > 0 {
			bs, keys, err := boxes(st[0])
			if err != nil {
				return err
			}
			sort.Strings(keys)
			for k := range t {
				if bs[k] == nil {
					return fmt.Errorf("suggestion %s is not listed in %v", k, keys)
				}
			}
		}
		return nil
	})
}
