package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/mrasu/GravityR/zz_verif/browser"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
)

// rload is a load in the report's data.
type rload struct {
	db, sql, tid string
	at           int64
	max, sum     float64
}

func fnum(v any) float64 {
	n, _ := v.(json.Number)
	f, _ := n.Float64()
	return f
}

func readLoads(v any) ([]rload, []int64) {
	var out []rload
	var hours []int64
	l, _ := v.([]any)
	for _, h := range l {
		at := int64(fnum(report.At(h, "timestamp")))
		hours = append(hours, at)
		dl, _ := report.At(h, "databases").([]any)
		for _, d := range dl {
			sl, _ := report.At(d, "sqls").([]any)
			for _, s := range sl {
				out = append(out, rload{fmt.Sprint(report.At(d, "name")), fmt.Sprint(report.At(s, "sql")), fmt.Sprint(report.At(s, "tokenizedId")), at, fnum(report.At(s, "loadMax")), fnum(report.At(s, "loadSum"))})
			}
		}
	}
	return out, hours
}

type stmt struct{ db, sql, tid string }

// judgeRanking: the bars are the (up to 20) heaviest statements of the databases, heaviest first.
func judgeRanking(ls []rload, dbs map[string]bool, ch browser.Chart, tip func(i int) (string, error)) error {
	sums := map[stmt]float64{}
	for _, l := range ls {
		if dbs[l.db] {
			sums[stmt{l.db, l.sql, l.tid}] += l.sum * 100
		}
	}
	var vals []float64
	for _, v := range sums {
		vals = append(vals, v)
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(vals)))
	n := len(vals)
	if n > 20 {
		n = 20
	}
	var data []map[string]any
	for _, s := range ch.Series {
		data = append(data, s.Data...)
	}
	if len(data) != n {
		return fmt.Errorf("the ranking has %d bars of %d statements", len(data), len(vals))
	}
	for i, d := range data {
		y, _ := d["y"].(float64)
		x, _ := d["x"].(string)
		if !close2(y, vals[i], 1e-9) {
			return fmt.Errorf("bar %d of the ranking is %v high, the %d. heaviest statement has %v", i, y, i+1, vals[i])
		}
		t, err := tip(i)
		if err != nil {
			return err
		}
		hit := false
		for k, v := range sums {
			if k.sql == x && close2(v, y, 1e-9) && shows(t, k.db, k.sql, v, "") == nil {
				delete(sums, k)
				hit = true
				break
			}
		}
		if !hit {
			return fmt.Errorf("bar %d of the ranking (%q, %v, tooltip %q) is no statement", i, x, y, browser.TextOf(t))
		}
	}
	return nil
}

// shows: a tooltip shows the statement with its load.
func shows(tip, db, sql string, percent float64, at string) error {
	t := browser.TextOf(tip)
	for _, w := range []string{"Database: " + db + "\n", fmt.Sprintf("%.2f%%", percent), sql, at} {
		if !strings.Contains(t, w) && !strings.Contains(browser.Squeeze(t), browser.Squeeze(w)) {
			return fmt.Errorf("the tooltip shows %q, without %q", t, w)
		}
	}
	if !strings.HasSuffix(strings.TrimSpace(t), strings.TrimSpace(sql)) {
		return fmt.Errorf("the tooltip shows %q for %q", t, sql)
	}
	return nil
}

// judgeTimeline: at every hour the bars are the statements with at least 0.5 % load then.
func judgeTimeline(ls []rload, hours []int64, dbs map[string]bool, ch browser.Chart, tip func(s, i int) (string, error)) error {
	type key struct {
		sql string
		at  int64
	}
	want := map[key][]rload{}
	for _, l := range ls {
		if dbs[l.db] && l.max >= 0.005 {
			want[key{l.sql, l.at}] = append(want[key{l.sql, l.at}], l)
		}
	}
	for si, s := range ch.Series {
		if len(s.Data) != len(hours) {
			return fmt.Errorf("the series of %q has %d points for %d hours", s.Name, len(s.Data), len(hours))
		}
		for i, d := range s.Data {
			x, _ := d["x"].(map[string]any)
			at, _ := x["date"].(float64)
			y, _ := d["y"].(float64)
			if int64(at) != hours[i] {
				return fmt.Errorf("point %d of the series of %q is at %s instead of %s", i, s.Name, time.UnixMilli(int64(at)).UTC(), time.UnixMilli(hours[i]).UTC())
			}
			if y == 0 {
				continue
			}
			t, err := tip(si, i)
			if err != nil {
				return err
			}
			k := key{s.Name, hours[i]}
			hit := false
			for j, l := range want[k] {
				if close2(y, l.max*100, 1e-9) && shows(t, l.db, l.sql, l.max*100, time.UnixMilli(l.at).UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")) == nil {
					want[k] = append(want[k][:j:j], want[k][j+1:]...)
					hit = true
					break
				}
			}
			if !hit {
				return fmt.Errorf("the timeline has a bar of %v at %s for %q (tooltip %q)", y, time.UnixMilli(hours[i]).UTC(), s.Name, browser.TextOf(t))
			}
		}
	}
	for k, l := range want {
		if len(l) > 0 {
			return fmt.Errorf("the timeline lacks %v at %s", l, time.UnixMilli(k.at).UTC())
		}
	}
	return nil
}

// judgeRaw: the table lists the (up to 10) heaviest hours of the statement, heaviest first.
func judgeRaw(raw []rload, tid string, sec *browser.Node) error {
	var want []rload
	for _, l := range raw {
		if l.tid == tid {
			want = append(want, l)
		}
	}
	sort.SliceStable(want, func(i, j int) bool { return want[i].max > want[j].max })
	n := len(want)
	if n > 10 {
		n = 10
	}
	used := make([]bool, len(want))
	k := 0
	for _, tr := range sec.All("tr") {
		c := cells(tr)
		if len(c) < 5 {
			continue
		}
		var got [4]string
		for i := range got {
			got[i] = strings.TrimSpace(c[i+1].String())
		}
		if k >= n {
			return fmt.Errorf("more than %d SQLs are listed", n)
		}
		p, err := grouped(got[1], "%")
		if err != nil || math.Abs(p-want[k].max*100) > 0.00501 {
			return fmt.Errorf("SQL %d is listed with %q, the %d. heaviest has %v", k, got[1], k+1, want[k].max*100)
		}
		hit := false
		for i, l := range want {
			if !used[i] && l.max == want[k].max && got[0] == l.db && got[3] == strings.TrimSpace(l.sql) && got[2] == time.UnixMilli(l.at).UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT") {
				used[i], hit = true, true
				break
			}
		}
		if !hit {
			return fmt.Errorf("the listed SQL %q was not measured", got)
		}
		k++
	}
	if k != n {
		return fmt.Errorf("%d of %d SQLs are listed", k, n)
	}
	return nil
}

func c27(r *mc.Run) {
	hmax := r.Pick(3, 4)
	r.Bound(fmt.Sprintf("worlds: every set of up to 2 loads among 2 databases x 5 statements (same SQL under two ids, names of built-in properties, markup) x %d hours, and of 3 loads with one hour less; 4 / 5 / 1 assignments of load values around the threshold of the timeline, plain and tokenised; 19..23 statements; 9..12 measurements of one statement; hours of one and of several measurements; every sequence of up to 2 clicks on the boxes of databases; every bar hovered over and clicked, one after the other; both tabs", hmax))
	r.Assume("bars without height cannot be pointed at")
	stmts := []stmt{{"", "SELECT 1", "t1"}, {"", "SELECT 1", "t2"}, {"", "constructor", "__proto__"}, {"", "SELECT a<b>c</b> FROM x WHERE y < 1 && z", "t3"}, {"", "__proto__", "constructor"}}
	vals := []float64{2, 0.004, 0.25, 0.005}
	dbs := []string{"shop", "<i>log</i>"}
	r.Explore(mc.Options{Name: "many statements", DevBound: -1}, func(c *mc.Ctx) error {
		f := &fakeAWS{}
		n := 19 + c.Choose("statements", 5)
		step := 1 + c.Choose("order", 3)
		for i := 0; i < n; i++ {
			l := load{dbs[i%2], fmt.Sprintf("SELECT %d", i), fmt.Sprintf("t%d", i), i % 3, float64((i*step*7)%23+1) / 10}
			f.raw, f.tok = append(f.raw, l), append(f.tok, l)
			if i%4 == 0 {
				l.hour, l.v = 3, 0.05*float64(i+1)
				f.raw, f.tok = append(f.raw, l), append(f.tok, l)
			}
		}
		spread(c, f)
		c.Observe("%d %d", n, step)
		return insights(c, f, true)
	})
	r.Explore(mc.Options{Name: "many measurements", DevBound: -1}, func(c *mc.Ctx) error {
		f := &fakeAWS{}
		n := 9 + c.Choose("measurements", 4)
		step := 1 + c.Choose("order", 3)
		for i := 0; i < n; i++ {
			f.raw = append(f.raw, load{dbs[i%2], fmt.Sprintf("SELECT %d", i/3), "t", i % 4, float64((i*step*5)%11+1) / 10})
		}
		f.tok = []load{{dbs[0], "SELECT ?", "t", 0, 1}, {dbs[1], "SELECT ?", "t", 1, 1}, {dbs[0], "SELECT ? + ?", "other", 2, 1}}
		spread(c, f)
		c.Observe("%d %d", n, step)
		return insights(c, f, true)
	})
	r.Explore(mc.Options{Name: "worlds", DevBound: -1}, func(c *mc.Ctx) error {
		f := &fakeAWS{}
		k := c.Choose("loads", 4)
		hours := hmax
		if k == 3 {
			hours--
		}
		total := 2 * len(stmts) * hours
		var ps []int
		for i, last := 0, -1; i < k; i++ {
			// in increasing order: the service reports a set
			p := last + 1 + c.Choose("cell", total-k+i-last)
			ps = append(ps, p)
			last = p
		}
		vs := [][]float64{{vals[0], vals[1], vals[2]}}
		if k == 1 {
			vs = [][]float64{{vals[0]}, {vals[1]}, {vals[2]}, {vals[3]}}
		}
		if k == 2 {
			vs = [][]float64{{vals[0], vals[3]}, {vals[2], vals[0]}, {vals[2], vals[2]}, {vals[1], vals[0]}, {vals[3], vals[1]}}
		}
		v := c.Choose("values", len(vs))
		for i, p := range ps {
			t := stmts[p/hours%len(stmts)]
			f.raw = append(f.raw, load{dbs[p/(len(stmts)*hours)], t.sql, t.tid, p % hours, vs[v][i]})
		}
		f.tok = append(f.tok, f.raw...)
		if k == 1 || k == 2 && v == 1 {
			// the heaviest five minutes and the whole hour differ
			if m := c.Choose("measurements", 4-k); m > 0 {
				f.more = func(l load) []float64 {
					if m == 1 || l.v < 1 {
						return []float64{l.v * 0.8, l.v * 0.9, l.v * 2, l.v}
					}
					return nil
				}
			}
		}
		if k < 3 && v == 0 && c.Flip("tokenised differ") {
			for i := range f.tok {
				f.tok[i].sql = "SELECT ?"
			}
		}
		c.Observe("%v", f.raw)
		return insights(c, f, k < 3 && v == 0)
	})
}

// spread lets light hours have many measurements, so that the heaviest five minutes and the whole hours rank differently.
func spread(c *mc.Ctx, f *fakeAWS) {
	if !c.Flip("several measurements per hour") {
		return
	}
	f.more = func(l load) []float64 {
		var o []float64
		for i := 0; float64(i) < 9-4*l.v; i++ {
			o = append(o, l.v*float64(10-i%2)/10)
		}
		return o
	}
}

// insights judges the page of a world, in a state reached by choices.
func insights(c *mc.Ctx, f *fakeAWS, clicks bool) error {
	out := report.Path()
	defer os.Remove(out)
	if err := runPI(out, f); err != nil {
		return err
	}
	m, st, err := open("main", out)
	if err != nil {
		return err
	}
	d := report.At(m, "digData", "performanceInsights")
	raw, rawHours := readLoads(report.At(d, "sqlDbLoads"))
	tok, tokHours := readLoads(report.At(d, "tokenizedSqlDbLoads"))
	var acts []browser.Act
	tokenised := c.Flip("tokenised tab")
	names := []string{"Heaviest SQLs", "Heavy SQL Timeline"}
	ls, hours := raw, rawHours
	if tokenised {
		tab := control(st[0].Root(), "button", "Tokenized")
		if tab == nil {
			return fmt.Errorf("there is no tab of tokenised SQLs")
		}
		acts = append(acts, browser.Click(*tab.Ctl))
		if st, err = reopen("main", m, acts...); err != nil {
			return err
		}
		names = []string{"Heaviest Tokenized SQLs", "Heavy Tokenized SQL Timeline"}
		ls, hours = tok, tokHours
	}
	which := c.Choose("chart", 2)
	name := names[which]
	all := map[string]bool{}
	for _, l := range ls {
		all[l.db] = true
	}
	var dbl []string
	for k := range all {
		dbl = append(dbl, k)
	}
	sort.Strings(dbl)
	cur := st[len(st)-1]
	sec := cur.Section(name)
	if sec == nil {
		return fmt.Errorf("the page has no %s", name)
	}
	checked := map[string]bool{}
	if len(dbl) == 1 {
		checked[dbl[0]] = true
	}
	for i := 0; ; i++ {
		if len(dbl) > 1 {
			for _, n := range dbl {
				b := control(sec, "label", n)
				if b == nil {
					return fmt.Errorf("%s: database %q cannot be chosen", name, n)
				}
				on := b.Attr["checked"] == true
				if i > 0 && on != checked[n] {
					return fmt.Errorf("%s: the box of %q is wrong", name, n)
				}
				checked[n] = on
			}
		}
		if clicks && len(dbl) > 1 && i < 2 {
			if k := c.Choose("click", len(dbl)+1); k < len(dbl) {
				n := dbl[k]
				checked[n] = !checked[n]
				acts = append(acts, browser.Toggle(*control(sec, "label", n).Ctl, checked[n]))
				if st, err = reopen("main", m, acts...); err != nil {
					return err
				}
				cur = st[len(st)-1]
				sec = cur.Section(name)
				continue
			}
		}
		break
	}
	// the prefixes of the clicks are executions of their own
	ci := sec.Charts()
	if len(ci) != 1 {
		return fmt.Errorf("%s has %d charts", name, len(ci))
	}
	ch := cur.Charts[ci[0]]
	at := map[[2]int]int{}
	base := len(acts)
	for s, se := range ch.Series {
		for p, pt := range se.Data {
			if y, _ := pt["y"].(float64); y != 0 {
				at[[2]int{s, p}] = len(acts)
				acts = append(acts, browser.Tooltip(ci[0], s, p))
				if tokenised {
					acts = append(acts, browser.Bar(ci[0], s, p))
				}
			}
		}
	}
	if len(acts) > base {
		if st, err = reopen("main", m, acts...); err != nil {
			return err
		}
	}
	off := len(st) - len(acts)
	tip := func(s, p int) (string, error) {
		k, ok := at[[2]int{s, p}]
		if !ok {
			return "", fmt.Errorf("bar %d has no height", p)
		}
		return *st[off+k].Text, nil
	}
	if which == 0 {
		err = judgeRanking(ls, checked, ch, func(i int) (string, error) { return tip(0, i) })
	} else {
		err = judgeTimeline(ls, hours, checked, ch, tip)
	}
	if err != nil {
		return fmt.Errorf("%s of %v: %v", name, checked, err)
	}
	if !tokenised {
		return nil
	}
	// every bar leads to the statements behind it, whatever was clicked before
	for k, i := range at {
		se := ch.Series[k[0]]
		sql := se.Name
		if which == 0 {
			sql, _ = se.Data[k[1]]["x"].(string)
		}
		ok := fmt.Errorf("no statement")
		for _, l := range ls {
			if l.sql == sql && ok != nil {
				ok = judgeRaw(raw, l.tid, st[off+i+1].Section(name))
			}
		}
		if ok != nil {
			return fmt.Errorf("%s, bar of %q: %v", name, sql, ok)
		}
	}
	return nil
}
