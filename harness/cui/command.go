package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/mrasu/GravityR/zz_verif/browser"
	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
)

// Nothing a fragment can start exists: the shell has no PATH, and runs in a scratch directory.
var shellFrags = []string{
	`"`, "'", "`", "$", `\`, "\n", " ", ";", "&", "Word_1",
	"$(nope)", "`nope`", `\"`, "$HOME", "*", "#", "~", "!",
	"-", "é日", "%s", "\t", ">x", "<x", "{a,b}", "${IFS}", "\\\n", "()", "|",
}

// shell runs a command line and returns the arguments program was called with.
func shell(line, program string, vars ...string) ([]string, map[string]string, error) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "sh")
	if err != nil {
		return nil, nil, err
	}
	defer os.RemoveAll(dir)
	ctx, stop := context.WithTimeout(context.Background(), 20*time.Second)
	defer stop()
	script := program + "() { printf '%s\\0' '<call>' \"DB_DATABASE=$DB_DATABASE\" \"$@\" '<end>'; }\n" + line + "\n"
	c := exec.CommandContext(ctx, "/bin/sh", "-c", script)
	c.Dir = dir
	c.Env = append([]string{"PATH=/nonexistent", "HOME=/nonexistent/home"}, vars...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Run(); err != nil {
		return nil, nil, fmt.Errorf("the shell fails: %v %s", err, se.String())
	}
	if l, _ := os.ReadDir(dir); len(l) > 0 {
		return nil, nil, fmt.Errorf("a file %q was made", l[0].Name())
	}
	p := strings.Split(strings.TrimSuffix(so.String(), "\x00"), "\x00")
	if len(p) < 3 || p[0] != "<call>" || p[len(p)-1] != "<end>" || se.Len() > 0 {
		return nil, nil, fmt.Errorf("it does not call %s alone: %q %s", program, p, se.String())
	}
	e := map[string]string{}
	if k, v, ok := strings.Cut(p[1], "="); ok {
		e[k] = v
	}
	return p[2 : len(p)-1], e, nil
}

var long = map[string]string{"query": "q", "output": "o", "index": "i"}

// options splits arguments into words and options.
func options(args []string) ([]string, map[string][]string, error) {
	var words []string
	o := map[string][]string{}
	for i := 0; i < len(args); i++ {
		a := args[i]
		name, val, has := "", "", false
		switch {
		case strings.HasPrefix(a, "--"):
			name, val, has = strings.Cut(a[2:], "=")
		case strings.HasPrefix(a, "-") && len(a) > 1:
			name, val = a[1:2], a[2:]
			if has = val != ""; has {
				val = strings.TrimPrefix(val, "=")
			}
		default:
			words = append(words, a)
			continue
		}
		if l, ok := long[name]; ok {
			name = l
		}
		if name == "with-examine" {
			if !has {
				val = "true"
			}
		} else if !has {
			if i++; i >= len(args) {
				return nil, nil, fmt.Errorf("option %s has no value in %q", a, args)
			}
			val = args[i]
		}
		o[name] = append(o[name], val)
	}
	return words, o, nil
}

// same compares an argument list with what it has to say.
func same(args []string, words string, want map[string][]string) error {
	w, o, err := options(args)
	if err != nil {
		return err
	}
	if strings.Join(w, " ") != words {
		return fmt.Errorf("it runs %q instead of %s", w, words)
	}
	sort.Strings(o["i"])
	sort.Strings(want["i"])
	for _, k := range []string{"with-examine", "i", "o", "q", "json-variables"} {
		if fmt.Sprintf("%q", o[k]) != fmt.Sprintf("%q", want[k]) {
			return fmt.Errorf("option %s is given %q instead of %q", k, o[k], want[k])
		}
		delete(o, k)
	}
	if len(o) > 0 {
		return fmt.Errorf("it has the options %q", o)
	}
	return nil
}

func code(n *browser.Node) (string, error) {
	l := n.All("code")
	if len(l) != 1 {
		return "", fmt.Errorf("there are %d commands", len(l))
	}
	return strings.TrimPrefix(strings.TrimSpace(l[0].String()), "$ "), nil
}

func shopSchema() *env.Schema {
	return &env.Schema{
		Tables: []env.Table{{Name: "a", Cols: []string{"id", "x", "y", "s"}, PK: []string{"id"}}, {Name: "b", Cols: []string{"id", "x", "z"}, PK: []string{"id"}}, {Name: "Order", Cols: []string{"id", "group", "Cx"}, PK: []string{"id"}}},
	}
}

var subcommand = map[string]string{"mysql": "mysql", "postgres": "postgres", "hasura": "hasura postgres"}

func literal(be, s string) string {
	if be == "mysql" {
		s = strings.ReplaceAll(s, `\`, `\\`)
	}
	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
}

// judgeSuggest judges the command of a suggestion page, whose boxes were set as checked says.
func judgeSuggest(s suggestion, out string, st *browser.Step, checked map[string]bool) error {
	sec := st.Section("Index suggestion")
	if sec == nil {
		return fmt.Errorf("the page has no suggestions")
	}
	line, err := code(sec)
	if err != nil {
		return err
	}
	var idx []string
	for t, ok := range checked {
		if ok {
			idx = append(idx, t)
		}
	}
	if len(idx) == 0 {
		return nil // a placeholder
	}
	args, _, err := shell(line, "gr")
	if err != nil {
		return fmt.Errorf("command %q: %v", line, err)
	}
	o := out
	if !s.examine {
		o = strings.TrimSuffix(out, ".html") + "_examine.html"
	}
	want := map[string][]string{"with-examine": {"true"}, "i": idx, "o": {o}, "q": {s.query}}
	if s.be == "hasura" {
		want["json-variables"] = []string{s.vars}
	}
	if err := same(args, "db suggest "+subcommand[s.be], want); err != nil {
		return fmt.Errorf("command %q: %v", line, err)
	}
	return nil
}

// boxes returns the boxes of the suggestions: "t:c+c" -> control.
func boxes(st *browser.Step) (map[string]*browser.Node, []string, error) {
	sec := st.Section("Index suggestion")
	m := map[string]*browser.Node{}
	var keys []string
	re := regexp.MustCompile(`^Table=(\S+) / Column=(.*)$`)
	for _, l := range sec.All("label") {
		g := re.FindStringSubmatch(browser.Squeeze(l.String()))
		in := l.All("input")
		if g == nil || len(in) != 1 {
			return nil, nil, fmt.Errorf("a box is labelled %q", l.String())
		}
		k := g[1] + ":" + strings.ReplaceAll(g[2], ", ", "+")
		if m[k] != nil {
			return nil, nil, fmt.Errorf("two boxes for %s", k)
		}
		m[k] = in[0]
		keys = append(keys, k)
	}
	return m, keys, nil
}

func targets(be string, m map[string]any) map[string]bool {
	t := map[string]bool{}
	l, _ := drive.Data(be, m)["indexTargets"].([]any)
	for _, x := range l {
		var cs []string
		cl, _ := report.At(x, "columns").([]any)
		for _, c := range cl {
			cs = append(cs, fmt.Sprint(report.At(c, "name")))
		}
		t[fmt.Sprint(report.At(x, "tableName"))+":"+strings.Join(cs, "+")] = true
	}
	return t
}

func c24(r *mc.Run) {
	n := r.Pick(3, 4)
	pool := func(k int) int {
		switch {
		case k <= 2 || k == 3 && r.Thorough():
			return len(shellFrags)
		case k == 3:
			return 14
		}
		return 10
	}
	text := func(c *mc.Ctx) string {
		s := ""
		for i, k := 0, c.Choose("fragments", n+1); i < k; i++ {
			s += shellFrags[c.Choose("fragment", pool(k))]
		}
		return s
	}
	r.Bound(fmt.Sprintf("suggestion pages of the three backends, with and without examination: every sequence of up to %d (also none) shell fragments (quotes, expansions, escapes, line breaks, separators, redirections, globs; %d, of three quick 14, of four 10) in the query, the JSON variables and the output file's name; every sequence of up to %d clicks on the boxes of the suggestions", n, len(shellFrags), r.Pick(3, 5)))
	r.Bound("Performance Insights page: every sequence of up to 2 fragments in the database's name, up to the bound above in the SQL, for each of its four commands; hasura's curl command for every examined index")
	r.Assume("commands are run by a POSIX shell (no history expansion), where gr and curl are functions that record their arguments; what is shown while no index (or bar) is selected is a placeholder")
	r.Explore(mc.Options{Name: "texts", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		s := suggestion{be: be, schema: shopSchema(), examine: c.Flip("examine"), vars: "{}", sql: "SELECT y FROM a WHERE s = 'v'"}
		if s.examine {
			s.idx = []string{"a:y"}
		}
		places := 2
		if be == "hasura" {
			places = 3
		}
		s.query = "SELECT y FROM a WHERE s = 'v'"
		if be == "hasura" {
			s.query = "query { a }"
		}
		out := report.Path()
		t := ""
		switch c.Choose("place", places) {
		case 0:
			t = text(c)
			if be == "hasura" {
				s.query = t
			} else {
				s.query = "SELECT y FROM a WHERE s = " + literal(be, t)
			}
		case 1:
			t = strings.ReplaceAll(text(c), "/", "")
			out = filepath.Join(filepath.Dir(out), strings.TrimSuffix(filepath.Base(out), ".html")+t+".html")
		case 2:
			t = text(c)
			b, _ := json.Marshal(map[string]string{"v": t})
			s.vars = string(b)
		}
		defer os.Remove(out)
		c.Observe("%s %v %q", be, s.examine, t)
		if err := s.run(out); err != nil {
			return fmt.Errorf("%q: the command failed: %v", t, err)
		}
		m, st, err := open("main", out)
		if err != nil {
			return err
		}
		if err := judgeSuggest(s, out, st[0], targets(be, m)); err != nil {
			return fmt.Errorf("%s: %v", be, err)
		}
		return nil
	})
	r.Bound("queries laid out over several lines: each of four gaps a space or a line break, with and without one before and after, for the three backends")
	r.Explore(mc.Options{Name: "layouts", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		words := []string{"SELECT", "y", "FROM", "a", "WHERE s = 'v'"}
		if be == "hasura" {
			words = []string{"query", "All", "{", "a", "}"}
		}
		s := suggestion{be: be, schema: shopSchema(), vars: "{}", sql: "SELECT y FROM a WHERE s = 'v'"}
		if c.Flip("leading") {
			s.query = "\n"
		}
		for i, w := range words {
			if i > 0 {
				s.query += []string{" ", "\n"}[c.Choose("gap", 2)]
			}
			s.query += w
		}
		if c.Flip("trailing") {
			s.query += "\n"
		}
		out := report.Path()
		defer os.Remove(out)
		c.Observe("%s %q", be, s.query)
		if err := s.run(out); err != nil {
			return fmt.Errorf("%q: the command failed: %v", s.query, err)
		}
		m, st, err := open("main", out)
		if err != nil {
			return err
		}
		if err := judgeSuggest(s, out, st[0], targets(be, m)); err != nil {
			return fmt.Errorf("%s: %v", be, err)
		}
		return nil
	})
	depth := r.Pick(3, 5)
	r.Explore(mc.Options{Name: "boxes", DevBound: -1}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		s := suggestion{be: be, schema: shopSchema(), vars: `{"v": 1}`, sql: "SELECT a.y FROM a INNER JOIN b ON a.x = b.x WHERE a.s = 'v'"}
		s.query = s.sql
		if be == "hasura" {
			s.query = "query { a { y } }"
		}
		if s.examine = c.Flip("examine"); s.examine {
			s.idx = []string{"a:y"}
		}
		out := report.Path()
		defer os.Remove(out)
		if err := s.run(out); err != nil {
			return err
		}
		m, st, err := open("main", out)
		if err != nil {
			return err
		}
		want := targets(be, m)
		if len(want) < 2 {
			return fmt.Errorf("only %d suggestions", len(want))
		}
		bs, keys, err := boxes(st[0])
		if err != nil {
			return err
		}
		for k := range want {
			if bs[k] == nil {
				return fmt.Errorf("%s is not listed in %q", k, keys)
			}
		}
		if len(bs) != len(want) {
			return fmt.Errorf("boxes %q", keys)
		}
		var acts []browser.Act
		checked := map[string]bool{}
		for k := range want {
			checked[k] = bs[k].Attr["checked"] == true
		}
		if err := judgeSuggest(s, out, st[0], checked); err != nil {
			return err
		}
		for i := 0; i < depth; i++ {
			k := c.Choose("box", len(keys)+1)
			if k == len(keys) {
				break
			}
			key := keys[k]
			checked[key] = !checked[key]
			c.Observe("%s %v %v", be, key, checked[key])
			acts = append(acts, browser.Toggle(*bs[key].Ctl, checked[key]))
		}
		// shorter sequences are executions of their own; boxes keep their numbers
		if st, err = reopen("main", m, acts...); err != nil {
			return err
		}
		last := st[len(st)-1]
		if bs, _, err = boxes(last); err != nil {
			return err
		}
		for _, x := range keys {
			if bs[x] == nil || (bs[x].Attr["checked"] == true) != checked[x] {
				return fmt.Errorf("after %v the box of %s is wrong", acts, x)
			}
		}
		if err := judgeSuggest(s, out, last, checked); err != nil {
			return fmt.Errorf("%s after %v: %v", be, acts, err)
		}
		return nil
	})
	r.Explore(mc.Options{Name: "performance insights", DevBound: -1}, func(c *mc.Ctx) error {
		db, sql := "shop", "SELECT 1"
		if c.Flip("place") {
			sql = text(c)
		} else {
			db = ""
			for i, k := 0, 1+c.Choose("fragments", 2); i < k; i++ {
				db += shellFrags[c.Choose("fragment", len(shellFrags))]
			}
		}
		if strings.TrimSpace(sql) == "" {
			sql = "x" + sql
		}
		c.Observe("%q %q", db, sql)
		f := &fakeAWS{raw: []load{{db, sql, "t1", 0, 2}, {db, "SELECT 2", "t2", 0, 1}}, tok: []load{{db, "SELECT ?", "t1", 0, 2}}}
		out := report.Path()
		defer os.Remove(out)
		if err := runPI(out, f); err != nil {
			return err
		}
		m, st, err := open("main", out)
		if err != nil {
			return err
		}
		judge := func(n *browser.Node) error {
			line, err := code(n)
			if err != nil {
				return err
			}
			args, env, err := shell(line, "gr")
			if err == nil {
				err = same(args, "db suggest mysql", map[string][]string{"o": {"suggest.html"}, "q": {sql}})
			}
			if err == nil && env["DB_DATABASE"] != db {
				err = fmt.Errorf("the database is %q instead of %q", env["DB_DATABASE"], db)
			}
			if err != nil {
				return fmt.Errorf("command %q: %v", line, err)
			}
			return nil
		}
		for _, sec := range []string{"Heaviest SQLs", "Heavy SQL Timeline"} {
			n := st[0].Section(sec)
			ch := n.Charts()
			if len(ch) != 1 {
				return fmt.Errorf("%s has %d charts", sec, len(ch))
			}
			a, err := reopen("main", m, browser.Bar(ch[0], 0, 0))
			if err != nil {
				return err
			}
			if err := judge(a[1].Section(sec)); err != nil {
				return fmt.Errorf("%s: %v", sec, err)
			}
		}
		tab := control(st[0].Root(), "button", "Tokenized")
		if tab == nil {
			return fmt.Errorf("there is no tab of tokenized SQLs")
		}
		st, err = reopen("main", m, browser.Click(*tab.Ctl))
		if err != nil {
			return err
		}
		for _, sec := range []string{"Heaviest Tokenized SQLs", "Heavy Tokenized SQL Timeline"} {
			n := st[1].Section(sec)
			ch := n.Charts()
			if len(ch) != 1 {
				return fmt.Errorf("%s has %d charts", sec, len(ch))
			}
			acts := []browser.Act{browser.Click(*tab.Ctl), browser.Bar(ch[0], 0, 0)}
			a, err := reopen("main", m, acts...)
			if err != nil {
				return err
			}
			in := a[2].Section(sec).All("input")
			if len(in) == 0 {
				return fmt.Errorf("%s: no SQL to choose", sec)
			}
			if a, err = reopen("main", m, append(acts, browser.Toggle(*in[len(in)-1].Ctl, true))...); err != nil {
				return err
			}
			if err := judge(a[3].Section(sec)); err != nil {
				return fmt.Errorf("%s: %v", sec, err)
			}
		}
		return nil
	})
	r.Explore(mc.Options{Name: "curl", DevBound: -1}, func(c *mc.Ctx) error {
		all := []string{"a:x", "a:y", "b:z", "a:x+y", "b:x+z", "a:y+x+s", "Order:Cx+group"}
		var idx []string
		for i, k := 0, 1+c.Choose("indexes", 3); i < k; i++ {
			x := all[c.Choose("index", len(all))]
			for _, o := range idx {
				if o == x {
					return nil
				}
			}
			idx = append(idx, x)
		}
		s := suggestion{be: "hasura", schema: shopSchema(), query: "query { a }", vars: "{}", sql: "SELECT y FROM a", examine: true, idx: idx}
		out := report.Path()
		defer os.Remove(out)
		if err := s.run(out); err != nil {
			return err
		}
		m, st, err := open("main", out)
		if err != nil {
			return err
		}
		c.Observe("%v", idx)
		rows, err := examRows(st[0])
		if err != nil {
			return err
		}
		if len(rows) != len(idx) {
			return fmt.Errorf("%d rows", len(rows))
		}
		for _, w := range rows {
			b := control(w.node, "button", "Copy as Curl")
			if b == nil {
				return fmt.Errorf("no button to copy")
			}
			a, err := reopen("main", m, browser.Click(*b.Ctl))
			if err != nil {
				return err
			}
			cl := a[1].Clipboard
			if len(cl) != 1 {
				return fmt.Errorf("%d texts were copied", len(cl))
			}
			args, _, err := shell(cl[0], "curl", "HASURA_URL=http://h:1", "HASURA_ADMIN_SECRET=se cret")
			if err != nil {
				return fmt.Errorf("%s: %v", cl[0], err)
			}
			if err := judgeCurl(args, w.target); err != nil {
				return fmt.Errorf("%s: %v", cl[0], err)
			}
		}
		return nil
	})
}

func judgeCurl(args []string, target string) error {
	var url, data string
	h := map[string]string{}
	for i := 0; i+1 < len(args); i += 2 {
		switch args[i] {
		case "--url":
			url = args[i+1]
		case "--request", "-X":
			if args[i+1] != "POST" {
				return fmt.Errorf("a %s request", args[i+1])
			}
		case "--header", "-H":
			k, v, _ := strings.Cut(args[i+1], ":")
			h[strings.ToLower(k)] = strings.TrimSpace(v)
		case "--data", "-d":
			data = args[i+1]
		default:
			return fmt.Errorf("argument %q", args[i])
		}
	}
	var q struct {
		Type string
		Args struct{ SQL string }
	}
	if err := json.Unmarshal([]byte(data), &q); err != nil {
		return fmt.Errorf("the data does not decode: %v", err)
	}
	if url != "http://h:1/v2/query" || h["x-hasura-admin-secret"] != "se cret" || h["content-type"] != "application/json" || q.Type != "run_sql" {
		return fmt.Errorf("the request is %q %q %s", url, h, data)
	}
	return judgeDDL("hasura", q.Args.SQL, target)
}

// judgeDDL: sql makes the index "t:c+c".
func judgeDDL(be, sql, target string) error {
	re := regexp.MustCompile(`(?i)^\s*CREATE\s+INDEX\s+(?:(?:\w+|"\w+")\s+)?ON\s+("?\w+"?)\s*\(([^()]*)\)\s*;?\s*$`)
	if be == "mysql" {
		re = regexp.MustCompile("(?i)^\\s*ALTER\\s+TABLE\\s+(`?\\w+`?)\\s+ADD\\s+INDEX\\s*\\w*\\s*\\(([^()]*)\\)\\s*;?\\s*$")
	}
	g := re.FindStringSubmatch(sql)
	if g == nil {
		return fmt.Errorf("the statement %q does not make an index", sql)
	}
	var err error
	name := func(x string) string {
		x = strings.TrimSpace(x)
		q := `"`
		if be == "mysql" {
			q = "`"
		}
		if len(x) > 2 && strings.HasPrefix(x, q) && strings.HasSuffix(x, q) {
			return x[1 : len(x)-1]
		}
		switch strings.ToLower(x) {
		case "order", "group", "key", "select":
			err = fmt.Errorf("the statement %q uses the reserved word %s as a name", sql, x)
		}
		if be != "mysql" {
			x = strings.ToLower(x)
		}
		return x
	}
	var cs []string
	for _, x := range strings.Split(g[2], ",") {
		cs = append(cs, name(x))
	}
	if got := name(g[1]) + ":" + strings.Join(cs, "+"); got != target {
		return fmt.Errorf("the statement %q makes %s instead of %s", sql, got, target)
	}
	return err
}
