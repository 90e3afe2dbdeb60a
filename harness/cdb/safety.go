package main

import (
	_ "github.com/mrasu/GravityR/cmd"
	"github.com/mrasu/GravityR/cmd/db"
	"github.com/spf13/pflag"
	"sync"

	"fmt"
	"os"
	"regexp"
	"strings"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
)

func init() {
	checks["C03"] = c03
	checks["C04"] = c04
	checks["C05"] = c05
}

// ------------------------------------------------------------------ C03

var strictDDL = map[string][]*regexp.Regexp{
	"mysql": {
		regexp.MustCompile("\\A\\s*ALTER TABLE `\\w+` ADD (INDEX|KEY) `\\w+` \\(`\\w+`(\\s*,\\s*`\\w+`)*\\)\\s*;?\\s*\\z"),
		regexp.MustCompile("\\A\\s*ALTER TABLE `\\w+` DROP (INDEX|KEY) `\\w+`\\s*;?\\s*\\z"),
		regexp.MustCompile("\\A\\s*CREATE INDEX `\\w+` ON `\\w+` ?\\(`\\w+`(\\s*,\\s*`\\w+`)*\\)\\s*;?\\s*\\z"),
		regexp.MustCompile("\\A\\s*DROP INDEX `\\w+` ON `\\w+`\\s*;?\\s*\\z"),
	},
	"pg": {
		regexp.MustCompile(`\A\s*CREATE INDEX (CONCURRENTLY )?"\w+" ON "\w+" ?\("\w+"(\s*,\s*"\w+")*\)\s*;?\s*\z`),
		regexp.MustCompile(`\A\s*DROP INDEX (CONCURRENTLY )?(IF EXISTS )?"\w+"\s*;?\s*\z`),
	},
}

func ddlIsStrict(be, raw string) bool {
	k := "pg"
	if be == "mysql" {
		k = "mysql"
	}
	for _, re := range strictDDL[k] {
		if re.MatchString(raw) {
			return true
		}
	}
	return false
}

var nasty = []string{
	"plain", "we`ird", `q"uote`, "sp ace", "日本", "semi;colon", "quo'te", "back\\slash", "dash-ed", "comma,ed", "par(en", "new\nline", "nul?l", "UPPER", "1digit", "dollar$", "we_ird", "$1", "%s",
}

func quoteID(be, n string) string {
	if be == "mysql" {
		return "`" + strings.ReplaceAll(n, "`", "``") + "`"
	}
	return `"` + strings.ReplaceAll(n, `"`, `""`) + `"`
}

var reWord = regexp.MustCompile(`\A\w+\z`)

func c03(r *mc.Run) {
	r.Assume("identifiers quoted by the server's quoting characters and made of ASCII word characters only cannot change the meaning of a statement")
	r.Bound(fmt.Sprintf("3 backends; names drawn from %d adversarial shapes for the table and two columns of the analysed query; plus every -i text up to the length bound over an adversarial alphabet, with examination on", len(nasty)))
	r.Explore(mc.Options{Name: "names-from-schema", DevBound: -1}, func(c *mc.Ctx) error {
		be := backends[c.Choose("backend", 3)]
		tn := nasty[c.Choose("table", len(nasty))]
		c1 := nasty[c.Choose("col1", len(nasty))]
		c2 := nasty[c.Choose("col2", len(nasty))]
		if be == "mysql" {
			tn, c1, c2 = strings.ToLower(tn), strings.ToLower(c1), strings.ToLower(c2)
		}
		if c1 == c2 {
			return nil
		}
		s := &env.Schema{Tables: []env.Table{{Name: tn, Cols: []string{"id", c1, c2}, PK: []string{"id"}}}}
		w := newWorld(be, s)
		q := fmt.Sprintf("SELECT %s FROM %s WHERE %s = 1", quoteID(be, c2), quoteID(be, tn), quoteID(be, c1))
		c.Note(q)
		out := report.Path()
		defer os.Remove(out)
		err := run(be, w, q, true, nil, out)
		observeEvents(c, w)
		c.Observe("err=%v", err)
		suggested := map[string]bool{}
		if err == nil {
			m, e := report.Read(out)
			if e != nil {
				return e
			}
			for _, t := range report.Targets(data(be, m)["indexTargets"]) {
				suggested[t] = true
			}
			wantTargets := []string{tgt(tn, []string{c1}), tgt(tn, []string{c1, c2})}
			for _, t := range wantTargets {
				if !suggested[t] {
					return fmt.Errorf("query %q: index %s is not suggested (got %v)", q, t, suggested)
				}
			}
			// every word-only candidate must have been examined
			created := map[string]bool{}
			for _, e := range w.Log() {
				if e.Kind == "ddl-create" {
					created[tgt(e.Table, e.Cols)] = true
				}
			}
			for i, t := range wantTargets {
				safe := reWord.MatchString(tn) && reWord.MatchString(c1) && (i == 0 || reWord.MatchString(c2))
				if safe != created[t] {
					return fmt.Errorf("query %q: candidate %s consists of plain names=%v but examined=%v", q, t, safe, created[t])
				}
			}
		} else if be != "hasura" || reWord.MatchString(tn) {
			return fmt.Errorf("query %q failed: %v", q, err)
		}
		return checkSent(be, w, q, suggested, []string{tn, c1, c2})
	})
	if r.Violated() {
		return
	}
	alpha := []string{"a", "x", ":", "+", "`", `"`, "'", ";", "-", " ", "\n", ",", ")", "é"}
	maxLen := r.Pick(4, 5)
	r.Bound(fmt.Sprintf("every -i text of up to %d symbols over %q", maxLen, alpha))
	s := &env.Schema{Tables: []env.Table{{Name: "a", Cols: []string{"id", "x", "a", "ax", "xa", "aa", "xx"}, PK: []string{"id"}}, {Name: "x", Cols: []string{"id", "x", "a"}, PK: []string{"id"}}}}
	r.Explore(mc.Options{Name: "option-texts", DevBound: -1}, func(c *mc.Ctx) error {
		be := backends[c.Choose("backend", 3)]
		n := c.Choose("len", maxLen) + 1
		txt := ""
		for i := 0; i < n; i++ {
			txt += alpha[c.Choose("sym", len(alpha))]
		}
		w := newWorld(be, s)
		out := report.Path()
		defer os.Remove(out)
		q := "SELECT x FROM a WHERE x = 1"
		err := run(be, w, q, true, []string{txt}, out)
		c.Observe("%q err=%v", txt, err != nil)
		return checkSent(be, w, q, nil, nil)
	})
}

// checkSent verifies every statement the server received.
func checkSent(be string, w *env.World, q string, suggested map[string]bool, names []string) error {
	for _, e := range w.Log() {
		switch e.Kind {
		case "ddl-create", "ddl-drop":
			if !ddlIsStrict(be, e.Raw) {
				return fmt.Errorf("DDL with unsafe text was sent: %q", e.Raw)
			}
			if e.Kind == "ddl-create" && suggested != nil && !suggested[tgt(e.Table, e.Cols)] {
				return fmt.Errorf("an index was created for %s, which is not among the candidates", tgt(e.Table, e.Cols))
			}
		case "columns", "indexes":
			if be != "hasura" {
				if strings.ContainsAny(strings.ReplaceAll(e.Raw, "'r'", ""), "'\"`;\\日") && !strings.HasSuffix(strings.TrimSpace(e.Raw), ";") {
					return fmt.Errorf("metadata query contains literal text: %q", e.Raw)
				}
				for _, n := range names {
					if n != "" && !reWord.MatchString(n) && strings.Contains(e.Raw, n) && len(n) > 2 {
						return fmt.Errorf("name %q is spliced into metadata query %q", n, e.Raw)
					}
				}
				continue
			}
			for _, a := range e.Args {
				if !reWord.MatchString(a) {
					return fmt.Errorf("unsafe name %q was sent in a metadata query", a)
				}
			}
			rest := regexp.MustCompile(`'\w*'`).ReplaceAllString(e.Raw, "")
			if strings.ContainsAny(rest, "'\";\\`") {
				return fmt.Errorf("metadata query with unsafe text was sent: %q", e.Raw)
			}
		case "exec":
			if e.Raw != q {
				return fmt.Errorf("unexpected statement sent: %q", e.Raw)
			}
		case "query":
			if e.Raw != gql {
				return fmt.Errorf("unexpected GraphQL sent: %q", e.Raw)
			}
		case "explain":
		default:
			return fmt.Errorf("unexpected statement sent: %q", e.Raw)
		}
	}
	return nil
}

// ------------------------------------------------------------------ C04

var optRef = regexp.MustCompile(`\A[0-9A-Za-z_]+:[0-9A-Za-z_]+(\+[0-9A-Za-z_]+)*\z`)

func c04(r *mc.Run) {
	alpha := []string{"a", "B", "1", "_", ":", "+", "-", " ", "\n", "é", "`", "\x00"}
	maxLen := r.Pick(5, 6)
	r.Bound(fmt.Sprintf("every option text of up to %d symbols over %q (and the empty text)", maxLen, alpha))
	r.Explore(mc.Options{Name: "texts", DevBound: -1}, func(c *mc.Ctx) error {
		n := c.Choose("len", maxLen+1)
		txt := ""
		for i := 0; i < n; i++ {
			txt += alpha[c.Choose("sym", len(alpha))]
		}
		return c04one(c, txt)
	})
	if r.Violated() {
		return
	}
	// longer texts made of larger pieces
	pieces := []string{"users", "x", "user_id", ":", "+", "::", "++", "a b", "", "ü", "Z9_", "\n"}
	maxP := r.Pick(5, 6)
	r.Bound(fmt.Sprintf("every concatenation of up to %d pieces out of %q", maxP, pieces))
	r.Explore(mc.Options{Name: "pieces", DevBound: -1}, func(c *mc.Ctx) error {
		n := c.Choose("len", maxP+1)
		txt := ""
		for i := 0; i < n; i++ {
			txt += pieces[c.Choose("piece", len(pieces))]
		}
		return c04one(c, txt)
	})
	if r.Violated() {
		return
	}
	// the option as the commands use it: lists of options
	opts := []string{"a:x", "a:y+x", "b:x", "a:", "a", ":x", "a:x+", "a:x y", "a:x:y", "a:x\n", "\na:x", "", "a:é", "a:x,b:x", "a:x,", "[a:x]", "\"a:x\"", "=a:x"}
	r.Bound(fmt.Sprintf("3 backends x lists of up to 3 options out of %q, given as -i x, --index x or --index=x to the real command", opts))
	r.Explore(mc.Options{Name: "commands", DevBound: -1}, func(c *mc.Ctx) error {
		be := backends[c.Choose("backend", 3)]
		n := c.Choose("n", 3) + 1
		var idx []string
		ok := true
		var want []string
		for i := 0; i < n; i++ {
			o := opts[c.Choose("opt", len(opts))]
			idx = append(idx, o)
			if optRef.MatchString(o) {
				t, cs := optToTarget(o)
				want = append(want, tgt(t, cs))
			} else {
				ok = false
			}
		}
		parsed, perr := parseIndexFlags(be, idx, c.Choose("spelling", 3))
		if perr != nil {
			if ok {
				return fmt.Errorf("options %q are well-formed but the command line is refused: %v", idx, perr)
			}
			return nil
		}
		w := newWorld(be, examSchema())
		out := report.Path()
		defer os.Remove(out)
		err := run(be, w, candidateQueries[0], true, parsed, out)
		observeEvents(c, w)
		var created []string
		for _, e := range w.Log() {
			if e.Kind == "ddl-create" {
				created = append(created, tgt(e.Table, e.Cols))
			}
		}
		if !ok {
			if err == nil {
				return fmt.Errorf("options %q contain a malformed one but the command succeeded", idx)
			}
			if len(created) > 0 {
				return fmt.Errorf("options %q contain a malformed one but %v was created", idx, created)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("options %q are well-formed but the command failed: %v", idx, err)
		}
		if strings.Join(created, " ") != strings.Join(want, " ") {
			return fmt.Errorf("options %q: indexes created %v, want %v", idx, created, want)
		}
		return nil
	})
}

var flagMu sync.Mutex

// parseIndexFlags lets the real command read its index options.
func parseIndexFlags(be string, idx []string, spelling int) ([]string, error) {
	flagMu.Lock()
	defer flagMu.Unlock()
	path := []string{"db", "suggest", be}
	if be == "hasura" {
		path = append(path, "postgres")
	}
	cmd, _, err := db.SuggestCmd.Root().Find(path)
	if err != nil {
		return nil, err
	}
	f := cmd.Flags().Lookup("index")
	if f == nil {
		return nil, fmt.Errorf("there is no option --index")
	}
	v, ok := f.Value.(pflag.SliceValue)
	if !ok {
		return nil, fmt.Errorf("--index cannot be repeated")
	}
	if err := v.Replace(nil); err != nil {
		return nil, err
	}
	f.Changed = false
	var args []string
	for _, o := range idx {
		switch spelling {
		case 0:
			args = append(args, "-i", o)
		case 1:
			args = append(args, "--index", o)
		default:
			args = append(args, "--index="+o)
		}
	}
	if err := cmd.ParseFlags(args); err != nil {
		return nil, err
	}
	return append([]string{}, v.GetSlice()...), nil
}

func c04one(c *mc.Ctx, txt string) error {
	it, err := dmodel.NewIndexTargetFromText(txt)
	if !optRef.MatchString(txt) {
		if err == nil {
			return fmt.Errorf("malformed option %q was accepted as %s", txt, it.CombinationString())
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("well-formed option %q was rejected: %v", txt, err)
	}
	t, cs := optToTarget(txt)
	var got []string
	for _, col := range it.Columns {
		got = append(got, col.Name)
	}
	c.Observe("%q -> %s", txt, tgt(it.TableName, got))
	if tgt(it.TableName, got) != tgt(t, cs) {
		return fmt.Errorf("option %q was read as %s", txt, tgt(it.TableName, got))
	}
	return nil
}

// ------------------------------------------------------------------ C05

type stmtForm struct {
	sql    string
	my, pg int // 1: supported SELECT, 0: must be rejected, 2: either (must not be altered)
}

var stmtForms = []stmtForm{
	{"SELECT y FROM a WHERE x = 1", 1, 1},
	{"select a.y from a inner join b on a.id = b.aid where b.x = 1", 1, 1},
	{"SELECT y FROM a WHERE x IN (SELECT x FROM b)", 1, 1},
	{"SELECT 'DELETE FROM a' AS s, y FROM a WHERE x = 1", 1, 1},
	{"DELETE FROM a WHERE x = 1", 0, 0},
	{"delete from a", 0, 0},
	{"UPDATE a SET y = 1 WHERE x = 1", 0, 0},
	{"INSERT INTO a (x) VALUES (1)", 0, 0},
	{"INSERT INTO a (x) SELECT x FROM b", 0, 0},
	{"TRUNCATE TABLE a", 0, 0},
	{"DROP TABLE a", 0, 0},
	{"CREATE TABLE z (id INT)", 0, 0},
	{"ALTER TABLE a ADD COLUMN z INT", 0, 0},
	{"REPLACE INTO a (x) VALUES (1)", 0, 0},
	{"WITH t AS (DELETE FROM a WHERE x = 1 RETURNING id) SELECT id FROM t", 0, 0},
	{"WITH t AS (INSERT INTO a (x) VALUES (1) RETURNING id) SELECT b.x FROM b", 0, 0},
	{"WITH t AS (UPDATE a SET x = 2 RETURNING id) SELECT b.x FROM b WHERE b.x = 1", 0, 0},
	{"SELECT x FROM [DELETE FROM a RETURNING x]", 0, 0},
	{"SELECT y FROM a WHERE x = 1 INTO OUTFILE '/tmp/y'", 0, 0},
	{"select y from a into outfile 'y' fields terminated by ','", 0, 0},
	{"SELECT y FROM a WHERE x IN (SELECT x FROM b INTO OUTFILE '/tmp/y')", 0, 0},
	{"SELECT y INTO z FROM a", 0, 0},
	{"SELECT y FROM a INTO @v", 0, 0},
	{"EXPLAIN SELECT x FROM a", 0, 0},
	{"EXPLAIN DELETE FROM a", 0, 0},
	{"EXPLAIN ANALYZE DELETE FROM a", 0, 0},
	{"SET x = 1", 0, 0},
	{"BEGIN", 0, 0},
	{"COMMIT", 0, 0},
	{"SHOW TABLES", 0, 0},
	{"GRANT SELECT ON a TO u", 0, 0},
	{"SELECT y FROM a WHERE x = 1; DELETE FROM a", 0, 0},
	{"DELETE FROM a; SELECT y FROM a WHERE x = 1", 0, 0},
	{"SELECT y FROM a WHERE x = 1; SELECT y FROM a", 0, 0},
	{"", 0, 0},
	{"garbage", 0, 0},
	{"SELECT", 0, 2},
	{"SELECT y FROM a WHERE", 0, 0},
}

func c05(r *mc.Run) {
	r.Assume("the server executes what it is sent; EXPLAIN ANALYZE of a SELECT is the documented way the query is analysed")
	pre := []string{"", "  ", "\n\t", "-- c\n", "/* DELETE */ "}
	post := []string{"", ";", " ;\n", " -- DELETE FROM a"}
	opts := [][]string{nil, {"a:x"}, {"a:x", "b:x"}}
	r.Bound(fmt.Sprintf("2 SQL backends x %d statement forms x %d prefixes x %d suffixes x examination on/off x %d option lists; hasura: GraphQL, examination on/off, SQL forms reported by the server", len(stmtForms), len(pre), len(post), len(opts)))
	r.Explore(mc.Options{Name: "statements", DevBound: -1}, func(c *mc.Ctx) error {
		be := backends[c.Choose("backend", 2)]
		f := stmtForms[c.Choose("form", len(stmtForms))]
		q := pre[c.Choose("pre", len(pre))] + f.sql + post[c.Choose("post", len(post))]
		ex := c.Flip("examine")
		idx := opts[c.Choose("opts", len(opts))]
		kind := f.my
		if be == "postgres" {
			kind = f.pg
		}
		c.Note(q)
		w := newWorld(be, examSchema())
		out := report.Path()
		defer os.Remove(out)
		err := run(be, w, q, ex, idx, out)
		observeEvents(c, w)
		c.Observe("err=%v", err)
		if kind == 0 {
			if err == nil {
				return fmt.Errorf("%q is not a single SELECT but the command succeeded", q)
			}
			for _, e := range w.Log() {
				if e.Kind != "columns" && e.Kind != "indexes" {
					return fmt.Errorf("%q is not a single SELECT but %q was sent to the database", q, e.Raw)
				}
			}
			return nil
		}
		if kind == 1 && err != nil {
			return fmt.Errorf("%q failed: %v", q, err)
		}
		nExplain := 0
		for _, e := range w.Log() {
			switch e.Kind {
			case "explain":
				nExplain++
				want := "EXPLAIN ANALYZE FORMAT=TREE " + q
				if be == "postgres" {
					want = "EXPLAIN (ANALYZE, BUFFERS) " + q
				}
				if !strings.HasSuffix(e.Raw, q) || len(e.Raw) > len(want)+30 {
					return fmt.Errorf("EXPLAIN of something else than the query: %q", e.Raw)
				}
			case "columns", "indexes":
			case "exec":
				if !ex {
					return fmt.Errorf("without examination, %q was executed", e.Raw)
				}
				if e.Raw != q {
					return fmt.Errorf("executed %q instead of the query", e.Raw)
				}
			case "ddl-create", "ddl-drop":
				if !ex {
					return fmt.Errorf("without examination, DDL was executed: %q", e.Raw)
				}
			default:
				return fmt.Errorf("unexpected statement: %q", e.Raw)
			}
		}
		if kind == 1 && nExplain != 1 {
			return fmt.Errorf("the query was analysed %d times", nExplain)
		}
		if len(w.Current()) != len(w.Schema.Indexes) {
			return fmt.Errorf("the schema was changed")
		}
		return nil
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "hasura", DevBound: -1}, func(c *mc.Ctx) error {
		f := stmtForms[c.Choose("form", len(stmtForms))]
		ex := c.Flip("examine")
		idx := opts[c.Choose("opts", len(opts))]
		w := newWorld("hasura", examSchema())
		out := report.Path()
		defer os.Remove(out)
		err := run("hasura", w, f.sql, ex, idx, out)
		observeEvents(c, w)
		c.Observe("err=%v", err)
		if f.pg == 0 && err == nil {
			return fmt.Errorf("%q is not a single SELECT but the command succeeded", f.sql)
		}
		if f.pg == 1 && err != nil {
			return fmt.Errorf("%q failed: %v", f.sql, err)
		}
		for _, e := range w.Log() {
			switch e.Kind {
			case "explain":
				if e.Raw != gql {
					return fmt.Errorf("EXPLAIN of something else than the query: %q", e.Raw)
				}
			case "columns", "indexes":
				if e.ReadOnly == nil || !*e.ReadOnly {
					return fmt.Errorf("metadata was not requested read-only: %q", e.Raw)
				}
			case "query", "ddl-create", "ddl-drop":
				if !ex || err != nil {
					return fmt.Errorf("examination=%v err=%v but %q was executed", ex, err, e.Raw)
				}
			default:
				return fmt.Errorf("unexpected request: %q", e.Raw)
			}
		}
		return nil
	})
}
