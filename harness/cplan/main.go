// Checks of the plan trees shown in reports (C12 MySQL, C13 PostgreSQL and Hasura).
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
	"github.com/rs/zerolog"
)

var checks = map[string]func(*mc.Run){"C12": c12, "C13": c13}

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	r := mc.Start(os.Args[1])
	checks[os.Args[1]](r)
	r.Finish()
}

// node is one expected plan node: the oracle is the tree the plan text was rendered from.
type node struct {
	text  string
	vals  map[string]string // expected JSON values by field ("null" when absent); "-" is not checked
	depth int
	kids  []*node
}

func schema() *env.Schema {
	return &env.Schema{Tables: []env.Table{{Name: "a", Cols: []string{"id", "x", "y"}, PK: []string{"id"}}}}
}

func field(n map[string]any, k string) string {
	v, ok := n[k]
	if !ok || v == nil {
		return "null"
	}
	if s, ok := v.(json.Number); ok {
		return s.String()
	}
	return fmt.Sprint(v)
}

// compare judges reported nodes against expected ones.
func compare(path string, want []*node, got any) error {
	l, _ := got.([]any)
	if len(l) != len(want) {
		return fmt.Errorf("%s has %d children, the server's plan has %d there", path, len(l), len(want))
	}
	for i, w := range want {
		g, _ := l[i].(map[string]any)
		p := fmt.Sprintf("%s/%d", path, i)
		if g == nil {
			return fmt.Errorf("node %s is empty", p)
		}
		if t := field(g, "text"); t != w.text {
			return fmt.Errorf("node %s has text %q, the server's plan has %q there", p, t, w.text)
		}
		for k, v := range w.vals {
			if got := field(g, k); !sameNum(got, v) {
				return fmt.Errorf("node %s (%q): %s is %s, the server reported %s", p, w.text, k, got, v)
			}
		}
		if err := compare(p, w.kids, g["children"]); err != nil {
			return err
		}
	}
	return nil
}

func sameNum(a, b string) bool {
	if a == b {
		return true
	}
	var x, y float64
	if _, err := fmt.Sscanf(a+" ", "%g ", &x); err != nil {
		return false
	}
	if _, err := fmt.Sscanf(b+" ", "%g ", &y); err != nil {
		return false
	}
	return x == y && a != "null" && b != "null"
}

// run executes one command with the given plan lines.
func run(be string, plan []string) (map[string]any, error, error) {
	w := drive.NewWorld(be, schema())
	w.Plan = plan
	out := report.Path()
	defer os.Remove(out)
	err := drive.Run(be, w, "SELECT y FROM a WHERE x = 1", false, nil, out)
	if err != nil {
		if report.Exists(out) {
			return nil, err, fmt.Errorf("the command failed (%v) but wrote a report", err)
		}
		return nil, err, nil
	}
	m, e := report.Read(out)
	if e != nil {
		return nil, nil, e
	}
	return drive.Data(be, m), nil, nil
}

func attach(nodes []*node) []*node {
	var roots []*node
	var stack []*node
	for _, n := range nodes {
		for len(stack) > n.depth {
			stack = stack[:len(stack)-1]
		}
		if len(stack) == 0 {
			roots = append(roots, n)
		} else {
			p := stack[len(stack)-1]
			p.kids = append(p.kids, n)
		}
		stack = append(stack, n)
	}
	return roots
}

// depths enumerates every ordered forest of n nodes as its sequence of depths.
func depths(c *mc.Ctx, n int, tree bool) []int {
	d := []int{0}
	for i := 1; i < n; i++ {
		if tree {
			d = append(d, 1+c.Choose("depth", d[i-1]+1))
		} else {
			d = append(d, c.Choose("depth", d[i-1]+2))
		}
	}
	return d
}

// deepDepths enumerates deep plans: a chain of up to max levels, followed by a step of every shallower level, from which
// a second chain goes down again by up to 3 levels, and a last step of every level.
func deepDepths(c *mc.Ctx, max int, tree bool) []int {
	low := 0
	if tree {
		low = 1
	}
	n := 2 + c.Choose("chain", max-1)
	var d []int
	for i := 0; i < n; i++ {
		d = append(d, i)
	}
	step := low + c.Choose("step", n-low)
	d = append(d, step)
	for i := c.Choose("second chain", 4); i > 0; i-- {
		step++
		d = append(d, step)
	}
	return append(d, low+c.Choose("last step", step+2-low))
}

// wideDepths enumerates plans of many steps: a parent with up to 64 steps of one level, each with the given chain below.
func wideDepths(c *mc.Ctx, max int) []int {
	n := 1 + c.Choose("steps", max)
	under := c.Choose("chain", 3)
	d := []int{0}
	for i := 0; i < n; i++ {
		for k := 0; k <= under; k++ {
			d = append(d, 1+k)
		}
	}
	return d
}

// C12 ------------------------------------------------------------------------

type myForm struct {
	op, table string
	title     string // "" = not judged
}

var myForms = []myForm{
	{"Table scan on a", "a", "Table scan"},
	{"Filter: (b.x = 1)", "b", "Filter"},
	{"Nested loop inner join", "", "Nested loop inner join"},
	{"Index lookup on c using idx_c (x=a.x)", "c", "Index lookup"},
	{"Sort: a.x, b.y", "a", "Sort"},
	{"Aggregate: count(d.x)", "d", "Aggregate"},
	{"Limit: 200 row(s)", "", "Limit"},
	{"Single-row index lookup on users using PRIMARY (id=tasks.user_id)", "users", "Single-row index lookup"},
	{"Inner hash join (a.x = b.y)", "", "Inner hash join"},
	{"Hash", "", "Hash"},
	{"Filter: ((a.x = 'b: (y)') and (b.y > 1))", "-", "Filter"},
	{"Table scan on <temporary>", "", ""},
	{"Select #2 (subquery in condition; run only once)", "", ""},
	{"Materialize", "", ""},
	{"Stream results", "", ""},
	{"Covering index scan on t_1 using k", "t_1", "Covering index scan"},
	{"Index lookup on c using idx_c (x='a: b')", "c", "Index lookup"},
	{"Filter: (a.x = 'it\\'s on top')", "a", "Filter"},
	{"Inner hash join (a.x = concat(b.y, ' on z: '))", "", "Inner hash join"},
	{"Index lookup on c using idx_c (x=' join ')", "c", "Index lookup"},
	{"Sort: if((b.x = ' on y'), 1, 2)", "", "Sort"},
}

type myFig struct {
	text string
	vals [7]string // initCost, cost, rows, first, avg, rows, loops
}

var myFigs = []myFig{
	{"(cost=6378854.77 rows=6361711) (actual time=0.147..2483.756 rows=6553600 loops=1)", [7]string{"null", "6378854.77", "6361711", "0.147", "2483.756", "6553600", "1"}},
	{"(cost=0.25..1.35 rows=3) (actual time=0.010..0.020 rows=4 loops=65)", [7]string{"0.25", "1.35", "3", "0.01", "0.02", "4", "65"}},
	{"(cost=1.10 rows=7) (never executed)", [7]string{"null", "1.1", "7", "null", "null", "null", "null"}},
	{"(actual time=1.000..2.000 rows=0 loops=9)", [7]string{"null", "null", "null", "1", "2", "0", "9"}},
	{"", [7]string{"null", "null", "null", "null", "null", "null", "null"}},
	{"(cost=5.05) (actual time=0.000..0.000 rows=1 loops=1000000)", [7]string{"null", "5.05", "null", "0", "0", "1", "1000000"}},
	{"(never executed)", [7]string{"null", "null", "null", "null", "null", "null", "null"}},
	{"(cost=2.00 rows=8)", [7]string{"null", "2", "8", "null", "null", "null", "null"}},
	{"(cost=10..20)", [7]string{"10", "20", "null", "null", "null", "null", "null"}},
	{"(cost=123456789012.25 rows=3000000000) (actual time=86400000.125..172800000.500 rows=5000000000 loops=4294967296)", [7]string{"null", "123456789012.25", "3000000000", "86400000.125", "172800000.5", "5000000000", "4294967296"}},
}

var myKeys = []string{"estimatedInitCost", "estimatedCost", "estimatedReturnedRows", "actualTimeFirstRow", "actualTimeAvg", "actualReturnedRows", "actualLoopCount"}

func myNode(depth, form, fig int) *node {
	f, g := myForms[form], myFigs[fig]
	line := strings.Repeat("    ", depth) + "-> " + f.op
	if g.text != "" {
		line += "  " + g.text
	}
	v := map[string]string{}
	for i, k := range myKeys {
		v[k] = g.vals[i]
	}
	if f.table != "-" {
		v["tableName"] = f.table
	}
	if f.title != "" && !(g.text == "" && f.title != "Hash") {
		v["title"] = f.title
	}
	return &node{text: line, depth: depth, vals: v}
}

func judgeMy(c *mc.Ctx, nodes []*node, style int) error {
	var lines []string
	if style == 1 {
		lines = append(lines, "")
	}
	for _, n := range nodes {
		lines = append(lines, n.text)
	}
	if style == 2 {
		lines = append(lines, "")
	}
	d, err, bad := run("mysql", lines)
	if bad != nil {
		return bad
	}
	c.Observe("plan:\n%s", strings.Join(lines, "\n"))
	if err != nil {
		return fmt.Errorf("mysql: the plan\n%s\nwas refused: %v", strings.Join(lines, "\n"), err)
	}
	if e := compare("root", attach(nodes), d["analyzeNodes"]); e != nil {
		return fmt.Errorf("mysql: for the plan\n%s\n%v", strings.Join(lines, "\n"), e)
	}
	return nil
}

func c12(r *mc.Run) {
	max := r.Pick(9, 11)
	r.Bound(fmt.Sprintf("shapes: every ordered forest of up to %d nodes, each node of a distinct form and figures, in 3 rotations; with and without leading/trailing blank line", max))
	r.Bound(fmt.Sprintf("lines: every sequence of up to 3 lines x %d operations x %d figure forms (3 lines: every figure form of the middle and last one)", len(myForms), len(myFigs)))
	r.Bound("not a tree: every depth sequence up to 6 lines over depths 0..4 that skips a level must fail without a report")
	r.Assume("plans are in the text form of MySQL 8.0 (4 spaces per level, decimal figures, table names of word characters)")
	r.Explore(mc.Options{Name: "shapes", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("nodes", max)
		rot := c.Choose("forms", 3)
		style := 0
		if n <= 6 {
			style = c.Choose("blank lines", 3)
		}
		var nodes []*node
		for i, d := range depths(c, n, false) {
			nd := myNode(d, (i*(1+2*rot)+rot*5)%len(myForms), (i+rot*3)%len(myFigs))
			nodes = append(nodes, nd)
		}
		return judgeMy(c, nodes, style)
	})
	if r.Violated() {
		return
	}
	deep := r.Pick(24, 40)
	r.Bound(fmt.Sprintf("deep and wide: every chain of up to %d levels followed by a step of every level, a second chain of up to 3 levels and a last step of every level; up to 64 steps below one parent, each with up to 2 levels below", deep))
	r.Explore(mc.Options{Name: "deep", DevBound: -1}, func(c *mc.Ctx) error {
		var ds []int
		if c.Choose("wide", 2) == 1 {
			ds = wideDepths(c, 64)
		} else {
			ds = deepDepths(c, deep, false)
		}
		var nodes []*node
		for i, d := range ds {
			nodes = append(nodes, myNode(d, (i*3+1)%len(myForms), i%len(myFigs)))
		}
		return judgeMy(c, nodes, 0)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "lines", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("nodes", 3)
		ds := depths(c, n, false)
		var nodes []*node
		for i, d := range ds {
			var f, g int
			switch {
			case n < 3:
				f, g = c.Choose("form", len(myForms)), c.Choose("figures", len(myFigs))
			case i == 0:
				f, g = c.Choose("form", len(myForms)), 0
			case i == 1:
				f, g = c.Choose("form", r.Pick(4, len(myForms))), c.Choose("figures", len(myFigs))
			default:
				f, g = (nodes[0].depth+3+len(nodes[1].text))%len(myForms), c.Choose("figures", len(myFigs))
			}
			nodes = append(nodes, myNode(d, f, g))
		}
		return judgeMy(c, nodes, 0)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "not-a-tree", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("lines", r.Pick(5, 6))
		var nodes []*node
		ok := true
		prev := -1
		for i := 0; i < n; i++ {
			d := c.Choose("depth", 5)
			if d > prev+1 {
				ok = false
			}
			prev = d
			nodes = append(nodes, myNode(d, i%len(myForms), i%len(myFigs)))
		}
		if ok {
			return judgeMy(c, nodes, 0)
		}
		var lines []string
		for _, x := range nodes {
			lines = append(lines, x.text)
		}
		_, err, bad := run("mysql", lines)
		if bad != nil {
			return bad
		}
		c.Observe("refused=%v", err != nil)
		if err == nil {
			return fmt.Errorf("mysql: a plan whose indentation skips a level was accepted:\n%s", strings.Join(lines, "\n"))
		}
		return nil
	})
}

// C13 ------------------------------------------------------------------------

type pgForm struct {
	op, table, title string
	infos            []string
}

var pgForms = []pgForm{
	{"Seq Scan on a", "a", "Seq Scan", []string{"Filter: (x = 1)", "Rows Removed by Filter: 3", "Buffers: shared hit=3 read=1"}},
	{"Nested Loop", "", "Nested Loop", []string{"Join Filter: (a_1.x = b.x)", "Rows Removed by Join Filter: 10", "Inner Unique: true"}},
	{"Hash Join", "", "Hash Join", []string{"Hash Cond: ((a.x = b.x) AND (a.y = b.y))", "Buffers: shared hit=3", "Output: a.x, b.y"}},
	{"Index Scan using a_pkey on users u", "users", "Index Scan using a_pkey", []string{"Index Cond: (id = 1)", "Filter: ((data -> 'k'::text) IS NOT NULL)", "Rows Removed by Index Recheck: 2"}},
	{"Sort", "c", "Sort", []string{"Sort Key: c.x, c.y", "Sort Method: quicksort  Memory: 25kB", "Worker 0:  Sort Method: quicksort  Memory: 25kB"}},
	{"Hash", "", "Hash", []string{"Buckets: 1024  Batches: 1  Memory Usage: 9kB", "Buffers: shared hit=1", "I/O Timings: read=0.100"}},
	{"Bitmap Heap Scan on d", "d", "Bitmap Heap Scan", []string{"Recheck Cond: (x > 1)", "Heap Blocks: exact=5", "Filter: ((y)::text ~~ '%-> z%'::text)"}},
	{"Aggregate", "", "Aggregate", []string{"Output: count(*)", "Buffers: shared hit=4", "Worker 1:  actual time=0.100..0.200 rows=1 loops=1"}},
	{"Parallel Seq Scan on t_2", "t_2", "Parallel Seq Scan", []string{"Filter: (NOT (hashed SubPlan 1))", "Rows Removed by Filter: 7", "Worker 0:  actual time=0.010..0.020 rows=3 loops=1"}},
	{"Gather", "", "Gather", []string{"Workers Planned: 2", "Workers Launched: 2", "Single Copy: true"}},
	{`CTE Scan on x`, "x", "CTE Scan", []string{"Filter: (x.y = 'A: -> B'::text)", "Rows Removed by Filter: 1", "Buffers: temp written=1"}},
	{"Incremental Sort", "a", "Incremental Sort", []string{"Sort Key: a.x, a.y", "Presorted Key: a.x", "Full-sort Groups: 3  Sort Method: quicksort  Average Memory: 26kB  Peak Memory: 26kB"}},
	{"Result", "", "Result", []string{"One-Time Filter: (1 = $0)", "Output: 1", "Buffers: shared hit=9"}},
	{`Seq Scan on "order: items"`, "-", "Seq Scan", []string{"Filter: (x = 1)", "Rows Removed by Filter: 3", "Buffers: shared hit=3"}},
	{"Parallel Seq Scan on w_3", "w_3", "Parallel Seq Scan", []string{"Worker 0:  actual time=0.010..0.020 rows=3 loops=1", "  Buffers: shared hit=3", "  Buffers: shared hit=3"}},
	{"Nested Loop", "", "Nested Loop", []string{"Join Filter: (a.x = ('turn on light'::text || b.x))", "Join Filter: (a.x = 'it''s on top'::text)", "Filter: (a.x = ' Key: z.y'::text)"}},
	{"Limit", "", "Limit", []string{"Output: ' on fire'::text, E'\\\\ on '", "Buffers: shared hit=3", "Output: ('a (cost=1.00..2.00 rows=3 width=4)'::text)"}},
	{`Function Scan on "_root.base"`, "_root.base", "Function Scan", []string{"Function Call: f(1)", "Filter: (x IS NULL)", "Rows Removed by Filter: 2"}},
}

type pgFig struct {
	text string
	vals [8]string
}

var pgFigs = []pgFig{
	{"(cost=1.25..300.50 rows=12 width=8) (actual time=0.015..99.999 rows=34 loops=1)", [8]string{"1.25", "300.5", "12", "8", "0.015", "99.999", "34", "1"}},
	{"(cost=0.00..0.01 rows=1 width=0)", [8]string{"0", "0.01", "1", "0", "null", "null", "null", "null"}},
	{"(cost=10.00..20.00 rows=100000 width=1000) (never executed)", [8]string{"10", "20", "100000", "1000", "null", "null", "null", "null"}},
	{"(cost=0.43..8.45 rows=0 width=4) (actual time=0.000..0.001 rows=0 loops=123456)", [8]string{"0.43", "8.45", "0", "4", "0", "0.001", "0", "123456"}},
	{"(cost=123456789012.25..223456789012.75 rows=3000000000 width=70000) (actual time=86400000.125..172800000.500 rows=5000000000 loops=4294967296)", [8]string{"123456789012.25", "223456789012.75", "3000000000", "70000", "86400000.125", "172800000.5", "5000000000", "4294967296"}},
}

var pgKeys = []string{"estimatedInitCost", "estimatedCost", "estimatedReturnedRows", "estimatedWidth", "actualTimeFirstRow", "actualTimeAvg", "actualReturnedRows", "actualLoopCount"}

var headings = []string{"", "SubPlan %d", "InitPlan %d (returns $0)", "CTE x%d"}

type pgRender struct {
	lines []string
	nodes []*node
	info  []int // indentation of detail lines by depth
	sub   int
}

func (p *pgRender) add(depth, form, nInfo, fig, heading int) {
	f, g := pgForms[form], pgFigs[fig]
	var own []string
	arrow := ""
	ii := 2
	if depth > 0 {
		in := p.info[depth-1]
		if heading > 0 {
			p.sub++
			own = append(own, strings.Repeat(" ", in)+fmt.Sprintf(headings[heading], p.sub))
			in += 2
		}
		arrow = strings.Repeat(" ", in) + "->  "
		ii = in + 6
	}
	p.info = append(p.info[:depth], ii)
	own = append(own, arrow+f.op+"  "+g.text)
	for i := 0; i < nInfo; i++ {
		own = append(own, strings.Repeat(" ", ii)+f.infos[i])
	}
	p.lines = append(p.lines, own...)
	v := map[string]string{}
	for i, k := range pgKeys {
		v[k] = g.vals[i]
	}
	tbl := f.table
	if strings.Contains(f.op, "Sort") && nInfo == 0 {
		tbl = "" // only the key tells the table
	}
	if tbl != "-" {
		v["tableName"] = tbl
	}
	v["title"] = f.title
	p.nodes = append(p.nodes, &node{text: strings.Join(own, "\n"), depth: depth, vals: v})
}

var summaries = [][]string{
	{"Planning Time: 0.100 ms", "Execution Time: 0.200 ms"},
	nil,
	{"Planning:", "  Buffers: shared hit=12", "Planning Time: 0.100 ms", "JIT:", "  Functions: 4", "  Options: Inlining false, Optimization false", "Execution Time: 0.200 ms"},
	{"Planning Time: 0.100 ms", "Trigger for constraint fk on a: time=0.1 calls=1", "Execution Time: 0.200 ms"},
	{"Execution Time: 0.200 ms"},
	{"Settings: work_mem = '1GB'", "Planning Time: 0.100 ms"},
}

func judgePg(c *mc.Ctx, be string, p *pgRender, sum int) error {
	lines := append(append([]string{}, p.lines...), summaries[sum]...)
	txt := strings.Join(lines, "\n")
	d, err, bad := run(be, lines)
	if bad != nil {
		return bad
	}
	c.Observe("%s plan:\n%s", be, txt)
	if err != nil {
		return fmt.Errorf("%s: the plan\n%s\nwas refused: %v", be, txt, err)
	}
	if e := compare("root", attach(p.nodes), d["analyzeNodes"]); e != nil {
		return fmt.Errorf("%s: for the plan\n%s\n%v", be, txt, e)
	}
	if g, w := field(d, "summaryText"), strings.Join(summaries[sum], "\n"); g != w {
		return fmt.Errorf("%s: for the plan\n%s\nthe summary is %q instead of %q", be, txt, g, w)
	}
	return nil
}

func c13(r *mc.Run) {
	max := r.Pick(8, 10)
	r.Bound(fmt.Sprintf("shapes: every ordered tree of up to %d nodes with distinct operations, figures and 0..3 detail lines in 3 rotations x 2 backends", max))
	r.Bound("details: every tree of up to 4 (thorough 5) nodes x 0..2 detail lines per node x headings (none, SubPlan, InitPlan/CTE) per inner node x every summary form, postgres")
	r.Bound(fmt.Sprintf("operations: every pair of %d operations x 0..3 detail lines x figure forms x both backends x summary forms", len(pgForms)))
	r.Assume("plans are in PostgreSQL's EXPLAIN text format (versions 9.6 to 17) with table names of word characters and no line break inside constants")
	bes := []string{"postgres", "hasura"}
	r.Explore(mc.Options{Name: "shapes", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("nodes", max)
		be := "postgres"
		if n < max {
			be = bes[c.Choose("backend", 2)]
		}
		rot := c.Choose("forms", 3)
		sum := c.Choose("summary", 2)
		p := &pgRender{}
		for i, d := range depths(c, n, true) {
			h := 0
			if (i+rot)%4 == 3 {
				h = 1 + (i+rot)%3
			}
			p.add(d, (i*(1+2*rot)+rot*5)%len(pgForms), (i*7+rot*3+1)%4, (i+rot)%len(pgFigs), h)
		}
		return judgePg(c, be, p, sum)
	})
	if r.Violated() {
		return
	}
	deep := r.Pick(24, 40)
	r.Bound(fmt.Sprintf("deep and wide: every chain of up to %d levels followed by a step of every level, a second chain of up to 3 levels and a last step of every level; up to 64 steps below one parent, each with up to 2 levels below", deep))
	r.Explore(mc.Options{Name: "deep", DevBound: -1}, func(c *mc.Ctx) error {
		var ds []int
		if c.Choose("wide", 2) == 1 {
			ds = wideDepths(c, 64)
		} else {
			ds = deepDepths(c, deep, true)
		}
		p := &pgRender{}
		for i, d := range ds {
			h := 0
			if i%5 == 4 {
				h = 1 + i%3
			}
			p.add(d, (i*3+1)%len(pgForms), i%4, i%len(pgFigs), h)
		}
		return judgePg(c, "postgres", p, len(ds)%2)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "details", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("nodes", r.Pick(4, 5))
		p := &pgRender{}
		sum := c.Choose("summary", r.Pick(3, len(summaries)))
		for i, d := range depths(c, n, true) {
			h := 0
			if i > 0 {
				h = c.Choose("heading", 3)
			}
			p.add(d, (i*3+d)%len(pgForms), c.Choose("details", 3), i%len(pgFigs), h)
		}
		return judgePg(c, "postgres", p, sum)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "operations", DevBound: -1}, func(c *mc.Ctx) error {
		be := bes[c.Choose("backend", 2)]
		p := &pgRender{}
		sum := c.Choose("summary", len(summaries))
		p.add(0, c.Choose("operation", len(pgForms)), c.Choose("details", 4), sum%len(pgFigs), 0)
		p.add(1, c.Choose("operation", len(pgForms)), c.Choose("details", 4), c.Choose("figures", len(pgFigs)), (sum+1)%4)
		return judgePg(c, be, p, sum)
	})
}
