package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
)

const faultText = "boom-7f3a the disk of the server is gone"

var reAt = regexp.MustCompile(`(?m)Result html is at: (.*)$`)

// expect says what a run has to come to.
type expect struct {
	cmd   string
	out   string   // the path given by -o ("" none), relative to the directory of the run or absolute
	fail  bool     // the run cannot succeed
	may   bool     // the run may fail
	cause []string // what the message of a failure has to say, all of them
	old   string   // what was at the path before ("" nothing)
	bad   bool     // nothing can be written to the path
}

// told checks what a run says about itself against what it left.
func told(o *outcome, e expect) (map[string]any, error) {
	path := e.out
	if path != "" && !filepath.IsAbs(path) {
		path = filepath.Join(o.dir, path)
	}
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\n  exit status %d\n  standard error:\n%s", fmt.Sprintf(f, a...), o.code, clip(o.stderr))
	}
	if strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "goroutine 1 [") {
		return nil, fail("the command crashes")
	}
	ann := reAt.FindAllStringSubmatch(o.stderr+"\n"+o.stdout, -1)
	if o.code != 0 {
		if !e.fail && !e.may {
			return nil, fail("the command fails though nothing went wrong")
		}
		if len(ann) > 0 {
			return nil, fail("the command failed but says there is a report")
		}
		for _, c := range e.cause {
			if !strings.Contains(o.stderr, c) {
				return nil, fail("the failure does not tell its cause (%q)", c)
			}
		}
		if strings.TrimSpace(o.stderr) == "" {
			return nil, fail("the command fails without a word")
		}
		if path != "" && !e.bad {
			b, err := os.ReadFile(path)
			if e.old == "" && err == nil {
				return nil, fail("the command failed but left something at %s (%d bytes)", e.out, len(b))
			}
			if e.old != "" && string(b) != e.old {
				return nil, fail("the command failed and spoilt the file at %s", e.out)
			}
		}
		return nil, nil
	}
	if e.fail {
		return nil, fail("the command reports success though it failed (%s)", strings.Join(e.cause, ", "))
	}
	if path == "" {
		if len(ann) > 0 {
			return nil, fail("a report is announced though none was asked for")
		}
		return nil, nil
	}
	if len(ann) != 1 {
		return nil, fail("the place of the report is told %d times", len(ann))
	}
	at := strings.TrimRight(ann[0][1], "\r ")
	if !filepath.IsAbs(at) {
		return nil, fail("the place of the report is told as %q, which does not say where it is", at)
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, fail("success without a report: %v", err)
	}
	d, err := complete(e.cmd, string(b))
	if err != nil {
		return nil, fail("success with a bad report: %v", err)
	}
	x, err := os.Stat(at)
	if err != nil {
		return nil, fail("the report is not where it is told to be: %v", err)
	}
	y, err := os.Stat(path)
	if err != nil || !os.SameFile(x, y) {
		return nil, fail("the report is told to be at %s but is at %s", at, path)
	}
	return d, nil
}

// listing checks what -v tells about the run against the report.
func listing(o *outcome, d map[string]any, verbose bool) error {
	if d["indexTargets"] == nil && d["examinationResult"] == nil {
		return nil
	}
	lines := strings.Split(o.stderr, "\n")
	if !verbose {
		for _, l := range lines {
			if strings.Contains(l, " DBG ") {
				return fmt.Errorf("details are told without -v: %s", l)
			}
		}
		return nil
	}
	i := 0
	for i < len(lines) && !strings.Contains(lines[i], "index combinations") {
		i++
	}
	i++
	its, _ := d["indexTargets"].([]any)
	for _, t := range its {
		want := report.Target(t)
		for i < len(lines) && !strings.Contains(lines[i], "table: ") {
			i++
		}
		if i == len(lines) {
			return fmt.Errorf("the candidate %s of the report is not among those listed:\n%s", want, clip(o.stderr))
		}
		got := lines[i][strings.Index(lines[i], "table: ")+7:]
		tb, cols, _ := strings.Cut(got, ", columns: ")
		cols = strings.TrimRight(cols, ") ")
		if g := tb + "(" + strings.ReplaceAll(strings.Trim(cols, "[]"), ", ", ",") + ")"; g != want {
			return fmt.Errorf("the candidate %s of the report is listed as %s", want, g)
		}
		i++
	}
	for _, l := range lines[i:] {
		if strings.Contains(l, "table: ") && strings.Contains(l, "columns: [") {
			return fmt.Errorf("a candidate is listed which the report does not have: %s", l)
		}
	}
	er, _ := d["examinationResult"].(map[string]any)
	if er == nil {
		return nil
	}
	reTime := regexp.MustCompile(`Time: (\d+)ms`)
	reCols := regexp.MustCompile(`Columns\((.*)\)`)
	for i < len(lines) && !strings.Contains(lines[i], "Original Time") {
		i++
	}
	if i == len(lines) {
		return fmt.Errorf("the time without an index is not told:\n%s", clip(o.stderr))
	}
	if m := reTime.FindStringSubmatch(lines[i]); m == nil || m[1] != fmt.Sprint(er["originalTimeMillis"]) {
		return fmt.Errorf("the time without an index is %v in the report but told as %s", er["originalTimeMillis"], lines[i])
	}
	want := map[string]int{}
	irs, _ := er["indexResults"].([]any)
	for _, r := range irs {
		want[fmt.Sprintf("%s %v", report.Target(report.At(r, "indexTarget")), report.At(r, "executionTimeMillis"))]++
	}
	tb, last := "", -1
	for _, l := range lines[i+1:] {
		if _, t, ok := strings.Cut(l, "==Table: "); ok {
			tb, last = strings.TrimSpace(t), -1
			continue
		}
		m, c := reTime.FindStringSubmatch(l), reCols.FindStringSubmatch(l)
		if m == nil || c == nil {
			continue
		}
		k := fmt.Sprintf("%s(%s) %s", tb, c[1], m[1])
		if want[k] == 0 {
			return fmt.Errorf("the time of an index is told which is not in the report: %s", k)
		}
		want[k]--
		n := 0
		fmt.Sscan(m[1], &n)
		if n < last {
			return fmt.Errorf("the times of %s are not told fastest first:\n%s", tb, clip(o.stderr))
		}
		last = n
	}
	for k, n := range want {
		if n > 0 {
			return fmt.Errorf("the time of an index in the report is not told: %s\n%s", k, clip(o.stderr))
		}
	}
	return nil
}

// modes of examination
var modes = [][]string{nil, {"--with-examine"}, {"--with-examine", "-i", "a:x", "-i", "b:z+x", "-i", "a:s"}}

func suggests(cmd string) bool { return cmd == "mysql" || cmd == "postgres" || cmd == "hasura" }

// requests counts the requests of a run without a fault.
func requests(cmd string, mode int) (int, error) {
	f := &fault{}
	s, err := open(cmd, f, plain)
	if err != nil {
		return 0, err
	}
	defer s.stop()
	dir := freshDir()
	defer os.RemoveAll(dir)
	o, err := run(dir, s.settings, append(append(append([]string{}, s.args...), modes[mode]...), "-o", "r.html")...)
	if err != nil {
		return 0, err
	}
	if o.code != 0 {
		return 0, fmt.Errorf("%s fails: %s", cmd, clip(o.stderr))
	}
	n, _ := f.seen()
	return n, nil
}

func observe(c *mc.Ctx, args []string, o *outcome) {
	c.Observe("gr %s", strings.Join(args, " "))
	c.Observe("exit %d", o.code)
}

func c30(r *mc.Run) {
	r.Assume("the parts of the page which node builds are stood in for by a line each; the servers answer over loopback TCP, AWS through a proxy with certificates of its own")
	counts := map[string]int{}
	for _, cmd := range commands {
		for m := range modes {
			if m > 0 && !suggests(cmd) {
				continue
			}
			n, err := requests(cmd, m)
			if err != nil {
				r.Explore(mc.Options{Name: "a plain run", DevBound: -1}, func(c *mc.Ctx) error { return err })
				return
			}
			counts[fmt.Sprint(cmd, m)] = n
			r.Bound(fmt.Sprintf("%s, examination %v: each of the %d requests of a run fails", cmd, modes[m], n))
		}
	}

	// every fault at every request
	r.Explore(mc.Options{Name: "faults", DevBound: -1}, func(c *mc.Ctx) error {
		cmd := commands[c.Choose("command", len(commands))]
		mode := 0
		if suggests(cmd) {
			mode = c.Choose("examination", len(modes))
		}
		verbose := c.Flip("verbose")
		f := &fault{Text: faultText}
		kinds := []string{"refuse", "cut", "half"}
		switch cmd {
		case "performance-insights": // a broken connection is tried again, seconds later
			kinds = kinds[:1]
		case "jaeger":
			kinds = []string{"refuse", "half"}
		}
		n := counts[fmt.Sprint(cmd, mode)]
		at := []int{}
		for i := 0; i < n; i++ {
			if n <= 24 || i < 4 || i >= n-2 || r.Thorough() || i%8 == 5 {
				at = append(at, i)
			}
		}
		k := c.Choose("fault", 1+len(at)*len(kinds))
		if k > 0 {
			f.At, f.Kind = at[(k-1)/len(kinds)], kinds[(k-1)%len(kinds)]
		}
		s, err := open(cmd, f, plain)
		if err != nil {
			return err
		}
		defer s.stop()
		dir := freshDir()
		defer os.RemoveAll(dir)
		e := expect{cmd: cmd, out: "r.html"}
		if c.Flip("a report was there") {
			e.old = "an older report"
			os.WriteFile(filepath.Join(dir, "r.html"), []byte(e.old), 0o644)
		}
		if k == 0 && verbose && mode > 0 {
			d := []int{40, 24, 12, 18, 30, 6, 20}
			s.delays = func(n int) time.Duration { return time.Duration(d[n%len(d)]) * time.Millisecond }
		}
		args := append(append(append([]string{}, s.args...), modes[mode]...), "-o", e.out)
		if verbose {
			args = append(args, "-v")
		}
		o, err := run(dir, s.settings, args...)
		if err != nil {
			return err
		}
		observe(c, args, o)
		if _, hit := f.seen(); k > 0 && hit {
			if f.Kind == "cut" {
				e.may = true // the drivers may try again
			} else {
				e.fail = true
				if f.Kind == "refuse" || cmd != "hasura" {
					e.cause = []string{faultText}
				}
			}
		}
		d, err := told(o, e)
		if err != nil {
			return err
		}
		if s.w != nil && o.code == 0 {
			return listing(o, d, verbose)
		}
		return nil
	})

	// every way to call it wrongly
	type wrong struct {
		what    string
		args    func(a []string) []string
		set     func(m map[string]string)
		cause   []string
		only    string // commands
		success bool
	}
	drop := func(flag string) func([]string) []string {
		return func(a []string) []string {
			var o []string
			for i := 0; i < len(a); i++ {
				if a[i] == flag {
					i++
					continue
				}
				o = append(o, a[i])
			}
			return o
		}
	}
	add := func(x ...string) func([]string) []string {
		return func(a []string) []string { return append(append([]string{}, a...), x...) }
	}
	set := func(flag, v string) func([]string) []string {
		return func(a []string) []string { return append(drop(flag)(a), flag, v) }
	}
	wrongs := []wrong{
		{what: "no query", args: drop("-q"), cause: []string{"query"}, only: "mysql postgres hasura"},
		{what: "no output", args: drop("-o"), cause: []string{"output"}, only: "mysql postgres hasura performance-insights jaeger"},
		{what: "no service", args: drop("-s"), cause: []string{"service-name"}, only: "jaeger"},
		{what: "an unknown flag", args: add("--no-such-flag"), cause: []string{"no-such-flag"}, only: "mysql postgres hasura performance-insights jaeger"},
		{what: "a flag without its value", args: add("-o"), cause: []string{"'o'"}, only: "mysql postgres hasura performance-insights jaeger"},
		{what: "a number that is none", args: add("-d", "x1y"), cause: []string{"x1y"}, only: "jaeger"},
		{what: "a count that is none", args: add("-c", "x1y"), cause: []string{"x1y"}, only: "jaeger"},
		{what: "a time that is none", args: set("--start-from", "nonsense"), cause: []string{"nonsense"}, only: "performance-insights jaeger"},
		{what: "a day", args: set("--start-from", "2024-02-30"), cause: []string{"2024-02-30"}, only: "performance-insights jaeger"},
		{what: "an index that is none", args: add("--with-examine", "-i", "zzz"), cause: []string{"zzz"}, only: "mysql postgres hasura"},
		{what: "an index that is none, no examination", args: add("-i", "zzz"), cause: []string{"zzz"}, only: "mysql postgres hasura"},
		{what: "a query that is none", args: set("-q", "SELEC a FRM"), cause: nil, only: "mysql postgres"},
		{what: "a query that deletes", args: set("-q", "DELETE FROM a"), cause: nil, only: "mysql postgres"},
		{what: "variables that are none", args: set("--json-variables", "{x"), cause: []string{"variables"}, only: "hasura"},
		{what: "DB_USERNAME", set: func(m map[string]string) { delete(m, "DB_USERNAME") }, cause: []string{"DB_USERNAME"}, only: "mysql postgres"},
		{what: "DB_DATABASE", set: func(m map[string]string) { m["DB_DATABASE"] = "" }, cause: []string{"DB_DATABASE"}, only: "mysql postgres"},
		{what: "HASURA_URL", set: func(m map[string]string) { delete(m, "HASURA_URL") }, cause: []string{"HASURA_URL"}, only: "hasura"},
		{what: "HASURA_ADMIN_SECRET", set: func(m map[string]string) { delete(m, "HASURA_ADMIN_SECRET") }, cause: []string{"HASURA_ADMIN_SECRET"}, only: "hasura"},
		{what: "JAEGER_UI_URL", set: func(m map[string]string) { delete(m, "JAEGER_UI_URL") }, cause: []string{"JAEGER_UI_URL"}, only: "jaeger"},
		{what: "JAEGER_GRPC_ADDRESS", set: func(m map[string]string) { delete(m, "JAEGER_GRPC_ADDRESS") }, cause: []string{"JAEGER_GRPC_ADDRESS"}, only: "jaeger"},
		{what: "AWS_REGION", set: func(m map[string]string) { delete(m, "AWS_REGION") }, cause: []string{"egion"}, only: "performance-insights"},
		{what: "nobody listens", set: func(m map[string]string) {
			for _, k := range []string{"DB_ADDRESS", "JAEGER_GRPC_ADDRESS"} {
				if m[k] != "" {
					m[k] = "127.0.0.1:1"
				}
			}
			if m["DB_PORT"] != "" {
				m["DB_PORT"] = "1"
			}
			if m["HASURA_URL"] != "" {
				m["HASURA_URL"] = "http://127.0.0.1:1"
			}
		}, cause: []string{"127.0.0.1:1"}, only: "mysql postgres hasura jaeger"},
	}
	r.Bound(fmt.Sprintf("%d ways to call a command wrongly, each command they apply to, each mode", len(wrongs)))
	r.Explore(mc.Options{Name: "wrong calls", DevBound: -1}, func(c *mc.Ctx) error {
		cmd := commands[c.Choose("command", len(commands))]
		var l []wrong
		for _, w := range wrongs {
			if strings.Contains(" "+w.only+" ", " "+cmd+" ") {
				l = append(l, w)
			}
		}
		w := l[c.Choose("wrong", len(l))]
		verbose := c.Flip("verbose")
		f := &fault{}
		s, err := open(cmd, f, plain)
		if err != nil {
			return err
		}
		defer s.stop()
		dir := freshDir()
		defer os.RemoveAll(dir)
		e := expect{cmd: cmd, out: "r.html", fail: true, cause: w.cause}
		if c.Flip("a report was there") {
			e.old = "an older report"
			os.WriteFile(filepath.Join(dir, "r.html"), []byte(e.old), 0o644)
		}
		args := append(append([]string{}, s.args...), "-o", e.out)
		if verbose {
			args = append(args, "-v")
		}
		if w.args != nil {
			args = w.args(args)
		}
		if w.set != nil {
			w.set(s.settings)
		}
		o, err := run(dir, s.settings, args...)
		if err != nil {
			return err
		}
		observe(c, args, o)
		c.Observe("wrong: %s", w.what)
		_, err = told(o, e)
		return err
	})

	// every place for the report
	type place struct {
		out string // "@" stands for the directory of the run
		bad bool
		pre func(dir string)
	}
	places := []place{
		{out: "r.html"}, {out: "./r.html"}, {out: "sub/r.html"}, {out: "sub/../r.html"}, {out: "../@/r.html"}, {out: "report"}, {out: "a b ü%d.html"},
		{out: "@/r.html"}, {out: "@/sub/r.html"}, {out: "@//sub/../r.html"}, {out: "-r.html"},
		{out: "link.html", pre: func(d string) { os.Symlink(filepath.Join("sub", "r.html"), filepath.Join(d, "link.html")) }},
		{out: "ln/r.html", pre: func(d string) { os.Symlink("sub", filepath.Join(d, "ln")) }},
		{out: "missing/r.html", bad: true}, {out: "sub", bad: true}, {out: "@/missing/r.html", bad: true}, {out: "/dev/full", bad: true}, {out: "r.html/x", bad: true, pre: func(d string) { os.WriteFile(filepath.Join(d, "r.html"), []byte("x"), 0o644) }},
	}
	r.Bound(fmt.Sprintf("%d places for the report, relative, absolute, through links and where nothing can be written", len(places)))
	r.Explore(mc.Options{Name: "places", DevBound: -1}, func(c *mc.Ctx) error {
		cmd := commands[c.Choose("command", len(commands))]
		p := places[c.Choose("place", len(places))]
		verbose := c.Flip("verbose")
		f := &fault{}
		s, err := open(cmd, f, plain)
		if err != nil {
			return err
		}
		defer s.stop()
		dir := freshDir()
		defer os.RemoveAll(dir)
		out := p.out
		if strings.HasPrefix(out, "../@") {
			out = strings.Replace(out, "@", filepath.Base(dir), 1)
		}
		out = strings.Replace(out, "@", dir, 1)
		e := expect{cmd: cmd, out: out, fail: p.bad, bad: p.bad}
		if p.pre != nil {
			p.pre(dir)
		}
		if !p.bad && c.Flip("a longer file was there") {
			q := out
			if !filepath.IsAbs(q) {
				q = filepath.Join(dir, q)
			}
			os.WriteFile(q, []byte(strings.Repeat("an older report\n", 10000)), 0o644)
		}
		args := append([]string{}, s.args...)
		switch c.Choose("spelling", 3) {
		case 0:
			args = append(args, "-o", out)
		case 1:
			args = append(args, "--output="+out)
		case 2: // before the rest
			args = append(append(append([]string{}, args[:2]...), "-o"+out), args[2:]...)
		}
		if verbose {
			args = append(args, "-v")
		}
		o, err := run(dir, s.settings, args...)
		if err != nil {
			return err
		}
		observe(c, args, o)
		_, err = told(o, e)
		return err
	})

	// the rest
	rest := []struct {
		args []string
		out  string
	}{
		{[]string{"version"}, "GravityR v"}, {[]string{"version", "-v"}, "GravityR v"}, {[]string{"--help"}, "gr [command]"}, {[]string{}, "gr [command]"},
		{[]string{"db", "suggest", "mysql", "--help"}, "--query"}, {[]string{"db", "suggest", "postgres", "--help"}, "--with-examine"},
		{[]string{"db", "suggest", "hasura", "postgres", "--help"}, "--json-variables"}, {[]string{"db", "dig", "performance-insights", "-h"}, "--start-from"}, {[]string{"app", "dig", "jaeger", "-h"}, "--same-service-threshold"},
		{[]string{"nonsense"}, ""}, {[]string{"--nonsense"}, ""},
	}
	r.Explore(mc.Options{Name: "without a server", DevBound: -1}, func(c *mc.Ctx) error {
		x := rest[c.Choose("call", len(rest))]
		dir := freshDir()
		defer os.RemoveAll(dir)
		o, err := run(dir, nil, x.args...)
		if err != nil {
			return err
		}
		observe(c, x.args, o)
		if x.out == "" {
			_, err := told(o, expect{fail: true, cause: []string{"nonsense"}})
			return err
		}
		if o.code != 0 || !strings.Contains(o.stdout, x.out) {
			return fmt.Errorf("gr %s: exit status %d, standard output %q, standard error %q", strings.Join(x.args, " "), o.code, clip(o.stdout), clip(o.stderr))
		}
		return nil
	})
}
