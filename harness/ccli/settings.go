package main

import (
	"fmt"
	"net/url"
	"os"
	"strings"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/jsim"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
	"github.com/mrasu/GravityR/zz_verif/wire"
)

const okSQL = "SELECT x FROM a WHERE s = 'v'"

var hostile = []string{"a", "'", `"`, `\`, " ", ":", "/", "?", "@", "(", ")", "&", "=", "%", "#", ";", "é", "\n", "+", "$"}
var hostileShort = []string{"b", "'", `\`, " ", ":", "/", "?", "@", "(", ")", "=", "%"}

// word enumerates every non-empty string of <= n pieces of the alphabet.
func word(c *mc.Ctx, label string, alpha []string, n int) string {
	s := alpha[c.Choose(label, len(alpha))]
	for i := 1; i < n; i++ {
		k := c.Choose(label, len(alpha)+1)
		if k == 0 {
			break
		}
		s += alpha[k-1]
	}
	return s
}

func copyMap(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func c26(r *mc.Run) {
	n := r.Pick(2, 3)
	r.Bound(fmt.Sprintf("mysql and postgres: every text of <=%d pieces over 20 hostile ones (<=3 over 12) in every setting, every pair of settings of one piece each; every subset of unset and of empty settings; parameter texts; hasura URL/secret; jaeger address and URL", n))
	r.Assume("the settings hold no NUL byte (the operating system cannot pass one)")

	// ------------------------------------------------------------ mysql
	base := map[string]string{"DB_USERNAME": "root", "DB_PASSWORD": "pw", "DB_ADDRESS": "db.test:3307", "DB_DATABASE": "shop"}
	mysql := func(c *mc.Ctx, set map[string]string, wantSets []string) error {
		c.Note(show(set))
		w := drive.NewWorld("mysql", schema())
		w.DBName = set["DB_DATABASE"]
		s := myServer(w)
		out := report.Path()
		defer os.Remove(out)
		err := gr(set, "db", "suggest", "mysql", "-o", out, "-q", okSQL)
		logins, dials := s.Logins(), takeDialed()
		c.Observe(fmt.Sprintf("%d logins, %d connections, err=%v", len(logins), len(dials), err != nil))
		if set["DB_USERNAME"] == "" || set["DB_DATABASE"] == "" {
			if err == nil || len(dials) > 0 {
				return fmt.Errorf("a required setting is missing, but the command went on (err=%v, connections %q): %s", err, dials, show(set))
			}
			return nil
		}
		wantNet, wantAddr := set["DB_PROTOCOL"], set["DB_ADDRESS"]
		if wantNet == "" {
			wantNet = "tcp"
		}
		if wantAddr == "" {
			wantAddr = map[string]string{"tcp": "127.0.0.1:3306", "unix": "/tmp/mysql.sock"}[wantNet]
		}
		if len(dials) == 0 {
			return fmt.Errorf("no connection was made with %s: %v", show(set), err)
		}
		for _, d := range dials {
			if d != wantNet+" "+wantAddr {
				return fmt.Errorf("connected to %q instead of %q with %s", d, wantNet+" "+wantAddr, show(set))
			}
		}
		if len(logins) == 0 {
			return fmt.Errorf("no login was seen with %s: %v", show(set), err)
		}
		for _, l := range logins {
			if l.User != set["DB_USERNAME"] || l.DB != set["DB_DATABASE"] || !l.PasswordIs(set["DB_PASSWORD"]) {
				return fmt.Errorf("logged in as user %q database %q (password as given: %v) with %s", l.User, l.DB, l.PasswordIs(set["DB_PASSWORD"]), show(set))
			}
		}
		return judgeRun(w, err, out, "mysql", set["DB_DATABASE"], set, wantSets)
	}
	r.Explore(mc.Options{Name: "mysql-values", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		set := copyMap(base)
		k := []string{"DB_USERNAME", "DB_PASSWORD", "DB_DATABASE", "DB_ADDRESS"}[c.Choose("setting", 4)]
		if k == "DB_ADDRESS" {
			set["DB_PROTOCOL"] = []string{"unix", "verif", "v+x.y"}[c.Choose("protocol", 3)]
			set[k] = "/s" + word(c, "value", hostile, n)
		} else if c.Flip("long") {
			set[k] = word(c, "value", hostileShort, r.Pick(3, 4))
		} else {
			set[k] = word(c, "value", hostile, n)
		}
		return mysql(c, set, nil)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "mysql-pairs", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		set := copyMap(base)
		ks := []string{"DB_USERNAME", "DB_PASSWORD", "DB_DATABASE", "DB_ADDRESS"}
		i := c.Choose("first", 4)
		j := c.Choose("second", 4)
		if i >= j {
			return nil
		}
		for _, k := range []string{ks[i], ks[j]} {
			v := word(c, k, hostile, 1)
			if k == "DB_ADDRESS" {
				set["DB_PROTOCOL"] = "verif"
				v = "x" + v + "y"
			}
			set[k] = v
		}
		return mysql(c, set, nil)
	})
	if r.Violated() {
		return
	}
	full := copyMap(base)
	full["DB_PROTOCOL"] = "verif"
	r.Explore(mc.Options{Name: "mysql-unset", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		set := copyMap(full)
		for _, k := range []string{"DB_USERNAME", "DB_PASSWORD", "DB_PROTOCOL", "DB_ADDRESS", "DB_DATABASE"} {
			switch c.Choose(k, 3) {
			case 1:
				delete(set, k)
			case 2:
				set[k] = ""
			}
		}
		if set["DB_ADDRESS"] == "" && set["DB_PROTOCOL"] == "verif" {
			set["DB_PROTOCOL"] = "unix"
		}
		return mysql(c, set, nil)
	})
	if r.Violated() {
		return
	}
	params := []struct{ text, set string }{{"wait_timeout=5", "wait_timeout=5"}, {"sql_mode=%27ANSI%27", "sql_mode='ANSI'"}, {"charset=utf8", "NAMES utf8"}, {"parseTime=true", ""}, {"loc=Asia%2FTokyo", ""}, {"loc=Asia/Tokyo", ""}, {"sql_mode=%27a%2Fb%27", "sql_mode='a/b'"}, {"timeout=3s", ""}, {"collation=utf8mb4_bin", ""}}
	r.Explore(mc.Options{Name: "mysql-params", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		set := copyMap(base)
		set["DB_USERNAME"] = []string{"root", "r@x", "r(x)", "a b"}[c.Choose("user", 4)]
		set["DB_PASSWORD"] = []string{"pw", "", "p/w?x=1&y", "p@(w)"}[c.Choose("password", 4)]
		set["DB_PARAM_TEXT"] = ""
		var want, texts []string
		seen := map[string]bool{}
		for i := 0; i < 2; i++ {
			k := c.Choose("parameter", len(params)+1)
			if k == 0 {
				break
			}
			p := params[k-1]
			name := strings.SplitN(p.text, "=", 2)[0]
			if seen[name] {
				return nil
			}
			seen[name] = true
			texts = append(texts, p.text)
			if p.set != "" {
				want = append(want, p.set)
			}
		}
		set["DB_PARAM_TEXT"] = strings.Join(texts, "&")
		return mysql(c, set, want)
	})
	if r.Violated() {
		return
	}

	// ------------------------------------------------------------ postgres
	pgs := map[string]*wire.Server{}
	add := func(key, network, addr string) *wire.Server {
		w := drive.NewWorld("postgres", schema())
		s, err := pgServer(network, addr, w)
		if err != nil {
			return nil
		}
		pgs[key] = s
		return s
	}
	defer func() {
		for _, s := range pgs {
			s.Close()
		}
	}()
	s1 := add("one", "tcp", "127.0.0.1:0")
	s2 := add("two", "tcp", "127.0.0.1:0")
	def := add("default", "tcp", "localhost:5432")
	if s1 == nil || s2 == nil {
		panic("no loopback network")
	}
	if def == nil {
		r.Assume("port 5432 was taken: the default host and port of PostgreSQL were not exercised")
	}
	pg := func(c *mc.Ctx, set map[string]string, where string, wantParams map[string]string) error {
		c.Note(show(set))
		pgw := drive.NewWorld("postgres", schema())
		schemaName := set["DB_SEARCH_PATH"]
		if schemaName == "" {
			schemaName = "public"
		}
		pgw.DBName = schemaName
		for _, s := range pgs {
			s.Logins()
			s.H, s.Cols = pgw.Handle("postgres"), pgw.ColumnsOf
		}
		out := report.Path()
		defer os.Remove(out)
		err := gr(set, "db", "suggest", "postgres", "-o", out, "-q", okSQL)
		var logins []*wire.Login
		for k, s := range pgs {
			l := s.Logins()
			if len(l) > 0 && k != where {
				return fmt.Errorf("connected to server %q instead of %q with %s", k, where, show(set))
			}
			logins = append(logins, l...)
		}
		c.Observe(fmt.Sprintf("%d logins, err=%v", len(logins), err != nil))
		if set["DB_USERNAME"] == "" || set["DB_DATABASE"] == "" {
			if err == nil || len(logins) > 0 {
				return fmt.Errorf("a required setting is missing, but the command went on (err=%v, %d connections): %s", err, len(logins), show(set))
			}
			return nil
		}
		if len(logins) == 0 {
			return fmt.Errorf("no login was seen with %s: %v", show(set), err)
		}
		for _, l := range logins {
			if l.User != set["DB_USERNAME"] || l.DB != set["DB_DATABASE"] || l.Password != set["DB_PASSWORD"] {
				return fmt.Errorf("logged in as user %q password %q database %q with %s", l.User, l.Password, l.DB, show(set))
			}
			for k, v := range wantParams {
				if l.Params[k] != v {
					return fmt.Errorf("parameter %s is %q at the server with %s", k, l.Params[k], show(set))
				}
			}
		}
		return judgeRun(pgw, err, out, "postgres", schemaName, set, nil)
	}
	pgBase := map[string]string{"DB_USERNAME": "u", "DB_PASSWORD": "pw", "DB_HOST": "127.0.0.1", "DB_PORT": portOf(s1), "DB_DATABASE": "shop"}
	r.Explore(mc.Options{Name: "postgres-values", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		set := copyMap(pgBase)
		k := []string{"DB_USERNAME", "DB_PASSWORD", "DB_DATABASE", "DB_SEARCH_PATH"}[c.Choose("setting", 4)]
		if c.Flip("long") {
			set[k] = word(c, "value", hostileShort, r.Pick(3, 4))
		} else {
			set[k] = word(c, "value", hostile, n)
		}
		return pg(c, set, "one", nil)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "postgres-pairs", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		set := copyMap(pgBase)
		ks := []string{"DB_USERNAME", "DB_PASSWORD", "DB_DATABASE", "DB_SEARCH_PATH"}
		i := c.Choose("first", 4)
		j := c.Choose("second", 4)
		if i >= j {
			return nil
		}
		for _, k := range []string{ks[i], ks[j]} {
			set[k] = word(c, k, hostile, 1)
		}
		return pg(c, set, "one", nil)
	})
	if r.Violated() {
		return
	}
	dirs := 0
	r.Explore(mc.Options{Name: "postgres-host", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		set := copyMap(pgBase)
		v := word(c, "directory", hostile, 2)
		set["DB_PORT"] = []string{"5432", "7", ""}[c.Choose("port", 3)]
		if strings.Contains(v, "/") {
			return nil // a path of several directories
		}
		dirs++
		dir := scratch("h"+fmt.Sprint(dirs)) + v
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return nil
		}
		defer os.RemoveAll(dir)
		port := set["DB_PORT"]
		if port == "" {
			port = "5432"
		}
		s := add("unix", "unix", dir+"/.s.PGSQL."+port)
		if s == nil {
			return nil
		}
		defer func() { s.Close(); delete(pgs, "unix") }()
		set["DB_HOST"] = dir
		return pg(c, set, "unix", nil)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "postgres-unset", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		set := copyMap(pgBase)
		set["DB_SEARCH_PATH"] = "app"
		where := "one"
		if c.Flip("other port") {
			set["DB_PORT"], where = portOf(s2), "two"
		}
		for _, k := range []string{"DB_USERNAME", "DB_PASSWORD", "DB_HOST", "DB_PORT", "DB_DATABASE", "DB_SEARCH_PATH"} {
			switch c.Choose(k, 3) {
			case 1:
				delete(set, k)
			case 2:
				set[k] = ""
			}
		}
		if set["DB_PORT"] == "" {
			if def == nil {
				return nil
			}
			where = "default"
		}
		return pg(c, set, where, nil)
	})
	if r.Violated() {
		return
	}
	pgParams := []struct{ text, name, val string }{{"application_name=gr", "application_name", "gr"}, {"application_name='g r'", "application_name", "g r"}, {`application_name='a\'b'`, "application_name", "a'b"}, {"connect_timeout=3", "", ""}, {"search_path=app", "search_path", "app"}, {"sslmode=disable", "", ""}, {"statement_timeout=100", "statement_timeout", "100"}}
	r.Explore(mc.Options{Name: "postgres-params", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		set := copyMap(pgBase)
		set["DB_USERNAME"] = []string{"u", "u x", `u'\`}[c.Choose("user", 3)]
		set["DB_PASSWORD"] = []string{"pw", "", "p'w=1 x"}[c.Choose("password", 3)]
		want := map[string]string{}
		var texts []string
		for i := 0; i < 2; i++ {
			k := c.Choose("parameter", len(pgParams)+1)
			if k == 0 {
				break
			}
			p := pgParams[k-1]
			if _, dup := want[p.name]; dup {
				return nil
			}
			texts = append(texts, p.text)
			if p.name != "" {
				want[p.name] = p.val
			}
		}
		set["DB_PARAM_TEXT"] = strings.Join(texts, " ")
		return pg(c, set, "one", want)
	})
	if r.Violated() {
		return
	}

	// ------------------------------------------------------------ hasura
	urls := []struct{ url, host, prefix string }{
		{"http://hasura.test", "hasura.test", ""}, {"http://hasura.test/", "hasura.test", ""}, {"http://hasura.test:8081", "hasura.test:8081", ""},
		{"https://hasura.test/base", "hasura.test", "/base"}, {"http://hasura.test:80/a/b/", "hasura.test:80", "/a/b"}, {"http://hasura.test/a%20b", "hasura.test", "/a b"},
	}
	secretAlpha := []string{"s", " ", ":", "'", `"`, `\`, "%", "=", "/", "?", "#", "é", "$", ","}
	r.Explore(mc.Options{Name: "hasura", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		u := urls[c.Choose("url", len(urls))]
		secret := "x" + word(c, "secret", secretAlpha, r.Pick(2, 3)) + "y"
		set := map[string]string{"HASURA_URL": u.url, "HASURA_ADMIN_SECRET": secret}
		switch c.Choose("unset", 5) {
		case 1:
			delete(set, "HASURA_URL")
		case 2:
			set["HASURA_URL"] = ""
		case 3:
			delete(set, "HASURA_ADMIN_SECRET")
		case 4:
			set["HASURA_ADMIN_SECRET"] = ""
		}
		c.Note(show(set))
		w := drive.NewWorld("hasura", schema())
		w.HasuraSQL = okSQL
		w.Serve()
		w.Alias(u.host)
		defer w.Close()
		out := report.Path()
		defer os.Remove(out)
		err := gr(set, "db", "suggest", "hasura", "postgres", "-o", out, "-q", drive.Gql, "--json-variables", drive.GqlVars)
		ev := w.Log()
		c.Observe(fmt.Sprintf("%d requests, err=%v", len(ev), err != nil))
		if set["HASURA_URL"] == "" || set["HASURA_ADMIN_SECRET"] == "" {
			if err == nil || len(ev) > 0 {
				return fmt.Errorf("a required setting is missing, but the command went on (err=%v, %d requests): %s", err, len(ev), show(set))
			}
			return nil
		}
		for _, e := range ev {
			got, perr := url.Parse(e.URL)
			if perr != nil || got.Host != u.host || !strings.HasPrefix(got.Path, u.prefix+"/") || strings.HasPrefix(u.url, "https") != (got.Scheme == "https") {
				return fmt.Errorf("request to %v with %s", e.URL, show(set))
			}
			if e.Header.Get("X-Hasura-Admin-Secret") != secret {
				return fmt.Errorf("request with secret %q with %s", e.Header.Get("X-Hasura-Admin-Secret"), show(set))
			}
		}
		if err != nil || !report.Exists(out) {
			return fmt.Errorf("the command failed (%v) with %s", err, show(set))
		}
		return nil
	})
	if r.Violated() {
		return
	}

	// ------------------------------------------------------------ jaeger
	var asked [2]int
	var addrs [2]string
	for i := range addrs {
		i := i
		a, stop, err := jsim.Listen(func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error {
			asked[i]++
			return nil
		})
		if err != nil {
			panic(err)
		}
		defer stop()
		addrs[i] = a
	}
	r.Explore(mc.Options{Name: "jaeger", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		i := c.Choose("address", 2)
		ui := "http://" + word(c, "url", []string{"ui", ":1", "/", "?x=", "&", "<", `"`, "'", "é", "%20", "#"}, 2)
		set := map[string]string{"JAEGER_UI_URL": ui, "JAEGER_GRPC_ADDRESS": addrs[i]}
		switch c.Choose("unset", 5) {
		case 1:
			delete(set, "JAEGER_UI_URL")
		case 2:
			set["JAEGER_UI_URL"] = ""
		case 3:
			delete(set, "JAEGER_GRPC_ADDRESS")
		case 4:
			set["JAEGER_GRPC_ADDRESS"] = ""
		}
		asked = [2]int{}
		out := report.Path()
		defer os.Remove(out)
		err := gr(set, "app", "dig", "jaeger", "-o", out, "-s", "svc")
		c.Observe(fmt.Sprintf("asked %v err=%v", asked, err != nil))
		c.Note(show(set))
		if len(set) < 2 || set["JAEGER_UI_URL"] == "" || set["JAEGER_GRPC_ADDRESS"] == "" {
			if err == nil || asked[0]+asked[1] > 0 || report.Exists(out) {
				return fmt.Errorf("a required setting is missing, but the command went on (err=%v): %s", err, show(set))
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("the command failed (%v) with %s", err, show(set))
		}
		if asked[i] == 0 || asked[1-i] != 0 {
			return fmt.Errorf("asked %v instead of server %d with %s", asked, i, show(set))
		}
		m, err := report.Read(out)
		if err != nil {
			return err
		}
		if got := report.At(m, "digData", "jaeger", "uiPath"); got != ui {
			return fmt.Errorf("the report links to %q instead of %q", got, ui)
		}
		return nil
	})
}

// judgeRun checks the part after the login: the catalog is asked for the right database, and
// the command succeeds.
func judgeRun(w *env.World, err error, out, be, schemaName string, set map[string]string, wantSets []string) error {
	if err != nil {
		return fmt.Errorf("the command failed (%v) with %s", err, show(set))
	}
	if !report.Exists(out) {
		return fmt.Errorf("no report was written with %s", show(set))
	}
	for _, e := range w.Log() {
		if e.Kind != "columns" && e.Kind != "indexes" {
			continue
		}
		found := false
		for _, a := range e.Args {
			if a == schemaName {
				found = true
			} else if a != "a" {
				return fmt.Errorf("the catalog was asked with %q with %s", e.Args, show(set))
			}
		}
		if !found {
			return fmt.Errorf("the catalog was asked with %q instead of %q with %s", e.Args, schemaName, show(set))
		}
	}
	for _, want := range wantSets {
		ok := false
		for _, e := range w.Log() {
			t := strings.ReplaceAll(e.Raw, " ", "")
			if strings.HasPrefix(strings.ToUpper(t), "SET") && strings.Contains(t, strings.ReplaceAll(want, " ", "")) {
				ok = true
			}
		}
		if !ok {
			return fmt.Errorf("the parameter %q did not reach the server with %s", want, show(set))
		}
	}
	m, e := report.Read(out)
	if e != nil {
		return e
	}
	if got := report.Targets(drive.Data(be, m)["indexTargets"]); len(got) == 0 {
		return fmt.Errorf("nothing was suggested with %s", show(set))
	}
	return nil
}
