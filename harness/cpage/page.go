package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mrasu/GravityR/cmd/db/suggest"
	"github.com/mrasu/GravityR/cmd/db/suggest/hasura"
	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
	"golang.org/x/net/html"
)

var frags = []string{
	"</script>", "<script>alert(1)</script>", "<!--", "-->", "<![CDATA[", "'", `"`, "`", `\`, `\u003c`, "${x}", "&amp;", "&", "<", ">",
	"\u2028", "\u0000", "\t", "é日😀", "{{.gr}}", "/*", "//", "%s", ";", "\u00a0", "\x7f",
	"\r\n", "]]>", "</style>", "<img src=x onerror=y>", "$1", "+",
}

// shape renders the structure of a page: every token, except the content of scripts and styles.
// The content of scripts is returned.
func shape(page string) (string, []string, error) {
	var b strings.Builder
	var scripts []string
	z := html.NewTokenizer(strings.NewReader(page))
	in := ""
	for {
		switch z.Next() {
		case html.ErrorToken:
			return b.String(), scripts, nil
		case html.TextToken:
			t := string(z.Raw())
			if in == "script" {
				scripts = append(scripts, t)
			} else {
				b.WriteString(strings.TrimSpace(t))
			}
		case html.StartTagToken, html.SelfClosingTagToken:
			tk := z.Token()
			b.WriteString(tk.String())
			in = tk.Data
		case html.EndTagToken:
			tk := z.Token()
			b.WriteString(tk.String())
			in = ""
		default:
			b.WriteString(z.Token().String())
		}
	}
}

// field places a text somewhere, runs a command and names where the text must be found.
type field struct {
	name string
	mend func(s string) string // what of the text can be used here
	run  func(out, s string) (map[string]string, error)
}

func noNL(s string) string {
	return strings.NewReplacer("\r\n", "", "\n", "").Replace(s)
}
func noNUL(s string) string { return strings.ReplaceAll(s, "\x00", "") }
func fileName(s string) string {
	return strings.ReplaceAll(noNUL(s), "/", "")
}

func textPlan(be, s string) []string {
	if be == "mysql" {
		return []string{"-> Filter: (a.s = '" + s + "')  (cost=1.10 rows=1) (actual time=0.100..0.200 rows=1 loops=1)", "    -> Table scan on a  (cost=1.00 rows=10) (actual time=0.050..0.150 rows=10 loops=1)"}
	}
	return []string{"Seq Scan on a  (cost=0.00..1.00 rows=1 width=4) (actual time=0.010..0.020 rows=1 loops=1)", "  Filter: (s = '" + s + "'::text)", "Planning Time: 0.100 ms", "Execution Time: 0.200 ms"}
}

func fields() []field {
	var l []field
	for _, be := range []string{"mysql", "postgres"} {
		be := be
		key := strings.Join(drive.DataKey(be), ".")
		lit := func(s string) string {
			if be == "mysql" {
				s = strings.ReplaceAll(s, `\`, `\\`)
			}
			return "'" + strings.ReplaceAll(s, "'", "''") + "'"
		}
		q := func(out, sql string) (map[string]string, error) {
			return map[string]string{key + ".query": sql, key + ".examinationCommandOptions.1.value": sql}, drive.Run(be, drive.NewWorld(be, schema()), sql, false, nil, out)
		}
		l = append(l, field{be + " literal", noNUL, func(out, s string) (map[string]string, error) {
			return q(out, "SELECT y FROM a WHERE s = "+lit(s))
		}}, field{be + " comment", func(s string) string {
			return strings.NewReplacer("\x00", "", "*/", "", "/*", "").Replace(s)
		}, func(out, s string) (map[string]string, error) {
			return q(out, "SELECT y /* "+s+" */ FROM a")
		}}, field{be + " plan", func(s string) string { return noNUL(noNL(s)) }, func(out, s string) (map[string]string, error) {
			w := drive.NewWorld(be, schema())
			w.Plan = textPlan(be, s)
			text := w.Plan[0]
			if be == "postgres" {
				text = w.Plan[0] + "\n" + w.Plan[1]
			}
			return map[string]string{key + ".analyzeNodes.0.text": strings.TrimSpace(text)}, drive.Run(be, w, "SELECT y FROM a", false, nil, out)
		}})
	}
	hk := strings.Join(drive.DataKey("hasura"), ".")
	hrun := func(out, gql, vars, sql string, plan []string) error {
		w := drive.NewWorld("hasura", schema())
		if plan != nil {
			w.Plan = plan
		}
		w.HasuraSQL = sql
		cli := w.Hasura("")
		defer w.Close()
		return hasura.VerifPostgres(out, cli, gql, vars, false, nil)
	}
	js := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	same := func(s string) string { return s }
	l = append(l,
		field{"hasura gql", same, func(out, s string) (map[string]string, error) {
			return map[string]string{hk + ".gql": s, hk + ".examinationCommandOptions.1.value": s}, hrun(out, s, "{}", "SELECT y FROM a", nil)
		}},
		field{"hasura variable", same, func(out, s string) (map[string]string, error) {
			v := `{"v": ` + js(s) + `}`
			return map[string]string{hk + ".gqlVariables.v": s, hk + ".examinationCommandOptions.2.value": v}, hrun(out, "{ a }", v, "SELECT y FROM a", nil)
		}},
		field{"hasura variable name", same, func(out, s string) (map[string]string, error) {
			v := `{` + js("k"+s) + `: "val"}`
			return map[string]string{hk + ".gqlVariables.k" + s: "val"}, hrun(out, "{ a }", v, "SELECT y FROM a", nil)
		}},
		field{"hasura sql", noNUL, func(out, s string) (map[string]string, error) {
			sql := "SELECT y FROM a WHERE s = '" + strings.ReplaceAll(s, "'", "''") + "'"
			return map[string]string{hk + ".query": sql}, hrun(out, "{ a }", "{}", sql, nil)
		}},
		field{"hasura plan", func(s string) string { return noNUL(noNL(s)) }, func(out, s string) (map[string]string, error) {
			p := textPlan("postgres", s)
			return map[string]string{hk + ".analyzeNodes.0.text": p[0] + "\n" + p[1]}, hrun(out, "{ a }", "{}", "SELECT y FROM a", p)
		}},
		field{"jaeger span", same, func(out, s string) (map[string]string, error) {
			k := "digData.jaeger.slowTraces.0.root."
			return map[string]string{k + "name": "n" + s, k + "serviceName": "v" + s, "digData.jaeger.uiPath": "http://ui/" + s, k + "children.0.serviceName": "v" + s + "2"},
				runJaeger(out, "n"+s, "v"+s, "http://ui/"+s, nil)
		}},
		field{"performance insights", same, func(out, s string) (map[string]string, error) {
			f := &fakeAWS{db: "d" + s, sql: "q" + s, tid: "t" + s, failAt: -1}
			err := runPI(out, f)
			m := map[string]string{}
			for _, k := range []string{"sqlDbLoads", "tokenizedSqlDbLoads"} {
				k = "digData.performanceInsights." + k + ".0.databases.0."
				m[k+"name"], m[k+"sqls.0.sql"], m[k+"sqls.0.tokenizedId"] = f.db, f.sql, f.tid
			}
			return m, err
		}},
		field{"file name", fileName, func(out, s string) (map[string]string, error) {
			w := drive.NewWorld("mysql", schema())
			db := w.MySQL()
			defer db.Close()
			return map[string]string{"suggestData.mysql.query": "SELECT y FROM a"}, suggest.VerifMySQL(out, db, drive.DBName, "SELECT y FROM a", false, nil)
		}},
	)
	return l
}

func at(v any, path string) (any, bool) {
	for path != "" {
		switch x := v.(type) {
		case map[string]any:
			if e, ok := x[path]; ok { // names may hold dots
				return e, true
			}
			i := strings.Index(path, ".")
			if i < 0 {
				return nil, false
			}
			e, ok := x[path[:i]]
			if !ok {
				return nil, false
			}
			v, path = e, path[i+1:]
		case []any:
			i := strings.Index(path+".", ".")
			n := 0
			fmt.Sscan(path[:i], &n)
			if n >= len(x) {
				return nil, false
			}
			v = x[n]
			path = strings.TrimPrefix(path[i:], ".")
		default:
			return nil, false
		}
	}
	return v, true
}

func judgePage(page, want string, m map[string]string) error {
	sh, scripts, err := shape(page)
	if err != nil {
		return err
	}
	if sh != want {
		return fmt.Errorf("the page's structure is %s", sh)
	}
	if len(scripts) != 2 {
		return fmt.Errorf("the page has %d scripts", len(scripts))
	}
	t := strings.TrimSpace(scripts[0])
	const mark = "window.grParam ="
	if !strings.HasPrefix(t, mark) {
		return fmt.Errorf("the data's script is %.200s", t)
	}
	d, err := decode([]byte(strings.TrimSuffix(strings.TrimSpace(t[len(mark):]), ";")))
	if err != nil {
		return fmt.Errorf("the embedded data does not decode or something follows it: %v", err)
	}
	if strings.ContainsAny(t, "\u2028\u2029") {
		return fmt.Errorf("the embedded data has raw line separators")
	}
	for k, v := range m {
		g, ok := at(d, k)
		if !ok || g != v {
			return fmt.Errorf("%s is %q instead of %q", k, g, v)
		}
	}
	return nil
}

func c14(r *mc.Run) {
	fs := fields()
	n := 3
	pool := func(k int) int {
		if k < 3 || r.Thorough() {
			return len(frags)
		}
		return 16
	}
	r.Bound(fmt.Sprintf("every sequence of up to %d of %d (sequences of three: quick of the first 16) dangerous fragments (script and comment terminators, quotes, escapes, template and markup syntax, control, line-separator and non-ASCII characters) in each of %d places of the five report kinds, through the real commands", n, len(frags), len(fs)))
	r.Assume("texts are valid UTF-8; HTML is tokenised by golang.org/x/net/html; a fragment that cannot occur in a place (line break in a plan line, NUL in SQL) is left out there")
	var _ = env.ErrInjected
	shapes := map[string]string{}
	for _, f := range fs {
		out := report.Path()
		m, err := f.run(out, "plain")
		b, e := os.ReadFile(out)
		os.Remove(out)
		if err == nil {
			err = e
		}
		if err == nil {
			var sc []string
			shapes[f.name], sc, err = shape(string(b))
			if err == nil {
				err = judgePage(string(b), shapes[f.name], m)
			}
			if err == nil && (len(sc) != 2 || !strings.Contains(sc[1], "-js')") || !strings.Contains(shapes[f.name], "</html>")) {
				err = fmt.Errorf("the page lacks the client's script: %q", sc)
			}
		}
		if err != nil {
			f, err := f, err
			r.Explore(mc.Options{Name: "plain " + f.name, DevBound: -1}, func(c *mc.Ctx) error { return fmt.Errorf("%s with a plain text: %v", f.name, err) })
			return
		}
	}
	r.Explore(mc.Options{Name: "texts", DevBound: -1}, func(c *mc.Ctx) error {
		f := fs[c.Choose("place", len(fs))]
		s := ""
		for i, k := 0, 1+c.Choose("fragments", n); i < k; i++ {
			s += frags[c.Choose("fragment", pool(k))]
		}
		s = f.mend(s)
		out := report.Path()
		if f.name == "file name" {
			out = filepath.Join(filepath.Dir(out), strings.TrimSuffix(filepath.Base(out), ".html")+s+".html")
		}
		defer os.Remove(out)
		m, err := f.run(out, s)
		c.Observe("%s %q", f.name, s)
		if err != nil {
			return fmt.Errorf("%s %q: the command failed: %v", f.name, s, err)
		}
		b, err := os.ReadFile(out)
		if err != nil {
			return err
		}
		if f.name == "file name" {
			m["suggestData.mysql.examinationCommandOptions.0.value"] = strings.TrimSuffix(out, ".html") + "_examine.html"
		}
		if err := judgePage(string(b), shapes[f.name], m); err != nil {
			return fmt.Errorf("%s %q: %v", f.name, s, err)
		}
		return nil
	})
}
