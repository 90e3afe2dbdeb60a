package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/big"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/mrasu/GravityR/cmd/db/suggest/hasura"
	ihasura "github.com/mrasu/GravityR/infra/hasura"
	"github.com/mrasu/GravityR/injection"
	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
)

func schema() *env.Schema {
	return &env.Schema{
		Tables:  []env.Table{{Name: "a", Cols: []string{"id", "x", "y", "s"}, PK: []string{"id"}}, {Name: "b", Cols: []string{"id", "x", "z"}, PK: []string{"id"}}},
		Indexes: []env.Index{{Table: "a", Name: "a_y", Cols: []string{"y"}}},
	}
}

const okSQL = "SELECT a.y FROM a INNER JOIN b ON a.x = b.x WHERE a.s = 'v' AND b.z > 3"

// C23 ------------------------------------------------------------------------

func c23(r *mc.Run) {
	r.Bound("suggest mysql/postgres/hasura, with and without examination (0..2 given indexes): every single and every pair of failing requests x kind (refused, result rows breaking off; hasura: statuses, broken connection, truncated and undecodable bodies) x with/without a previous report")
	r.Bound("dig jaeger: every failing window x traces sent before; dig performance-insights: every failing request")
	r.Bound("output: missing directory, directory, full device, empty name, missing client assets")
	idxs := [][]string{nil, {"a:x"}, {"a:x+y", "b:z"}}
	r.Explore(mc.Options{Name: "database", DevBound: r.Pick(2, 4)}, func(c *mc.Ctx) error {
		be := drive.Backends[c.Choose("backend", 3)]
		ex := c.Flip("examine")
		var idx []string
		if ex {
			idx = idxs[c.Choose("indexes", 3)]
		}
		old := c.Flip("previous")
		w := drive.NewWorld(be, schema())
		failed := false
		if be == "hasura" {
			w.HTTPFault = func(e *env.Event) (int, string, error, bool, bool) {
				k := c.Deviate(e.Kind, len(httpFaults)+1)
				if k == 0 {
					return 0, "", nil, false, false
				}
				failed = true
				f := httpFaults[k-1]
				return f.status, f.body, f.err, f.trunc, true
			}
		} else {
			w.Fault = func(e *env.Event) error {
				if c.Deviate(e.Kind, 2) == 1 {
					failed = true
					return env.ErrInjected
				}
				return nil
			}
			w.RowFault = func(e *env.Event) error {
				switch e.Kind {
				case "explain", "columns", "indexes":
				default:
					return nil // no rows are read
				}
				if c.Deviate("rows of "+e.Kind, 2) == 1 {
					failed = true
					return env.ErrInjected
				}
				return nil
			}
		}
		out := report.Path()
		defer os.Remove(out)
		put(out, old)
		err := drive.Run(be, w, okSQL, ex, idx, out)
		drive.ObserveEvents(c, w)
		return judgeOutcome(c, out, old, failed, err, fmt.Sprintf("%s examine=%v %v", be, ex, idx))
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "jaeger", DevBound: 2}, func(c *mc.Ctx) error {
		old := c.Flip("previous")
		failed := false
		out := report.Path()
		defer os.Remove(out)
		put(out, old)
		err := runJaeger(out, "op", "bff", "http://ui", func(i int) (int, error) {
			k := c.Deviate("window", 4)
			if k == 0 {
				return 2, nil
			}
			failed = true
			return k - 1, errors.New("injected failure")
		})
		return judgeOutcome(c, out, old, failed, err, "jaeger")
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "performance-insights", DevBound: -1}, func(c *mc.Ctx) error {
		old := c.Flip("previous")
		f := &fakeAWS{db: "d", sql: "SELECT 1", tid: "T", failAt: c.Choose("failing", 30) - 1}
		out := report.Path()
		defer os.Remove(out)
		put(out, old)
		err := runPI(out, f)
		return judgeOutcome(c, out, old, f.failAt >= 0 && f.failAt < f.n, err, fmt.Sprintf("performance insights, request %d fails", f.failAt))
	})
	if r.Violated() {
		return
	}
	kinds := append(append([]string{}, drive.Backends...), "jaeger", "pi")
	run := func(kind, out string) error {
		switch kind {
		case "jaeger":
			return runJaeger(out, "op", "bff", "http://ui", nil)
		case "pi":
			return runPI(out, &fakeAWS{db: "d", sql: "SELECT 1", tid: "T", failAt: -1})
		}
		return drive.Run(kind, drive.NewWorld(kind, schema()), okSQL, false, nil, out)
	}
	r.Explore(mc.Options{Name: "output", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		kind := kinds[c.Choose("command", len(kinds))]
		base := report.Path()
		os.MkdirAll(base, 0o755)
		defer os.RemoveAll(base)
		out := filepath.Join(base, "r.html")
		switch c.Choose("output", 5) {
		case 0:
			out = filepath.Join(base, "missing", "r.html")
		case 1:
			out = base
		case 2:
			out = "/dev/full"
		case 3:
			dist := injection.ClientDist
			defer func() { injection.ClientDist = dist }()
			injection.ClientDist = fstest.MapFS{}
			old := c.Flip("previous")
			put(out, old)
			err := run(kind, out)
			c.Observe("%s without assets: %v", kind, err)
			if err == nil {
				return fmt.Errorf("%s: the client's assets are missing and the command succeeds", kind)
			}
			return untouched(out, old, kind+" without the client's assets")
		case 4:
			dist := injection.ClientDist
			defer func() { injection.ClientDist = dist }()
			miss := []string{".js", ".css"}[c.Choose("missing", 2)]
			m := fstest.MapFS{}
			fs.WalkDir(dist, ".", func(p string, d fs.DirEntry, err error) error {
				if err == nil && !d.IsDir() && !strings.HasSuffix(p, miss) {
					b, _ := fs.ReadFile(dist, p)
					m[p] = &fstest.MapFile{Data: b}
				}
				return nil
			})
			injection.ClientDist = m
			if err := run(kind, out); err == nil {
				return fmt.Errorf("%s: the client's %s is missing and the command succeeds", kind, miss)
			}
			return untouched(out, false, kind+" without the client's "+miss)
		}
		err := run(kind, out)
		c.Observe("%s to %s: %v", kind, filepath.Base(out), err)
		if err == nil {
			return fmt.Errorf("%s: writing to %s cannot work and the command succeeds", kind, out)
		}
		return nil
	})
	r.Explore(mc.Options{Name: "no-output", DevBound: -1}, func(c *mc.Ctx) error {
		kind := kinds[c.Choose("command", 4)]
		if err := run(kind, ""); err != nil {
			return fmt.Errorf("%s without an output file: %v", kind, err)
		}
		return nil
	})
}

func judgeOutcome(c *mc.Ctx, out string, old, failed bool, err error, d string) error {
	c.Observe("failed=%v -> %v", failed, err != nil)
	if failed {
		if err == nil {
			return fmt.Errorf("%s: a request failed and the command succeeds", d)
		}
		return untouched(out, old, d)
	}
	if err != nil {
		return fmt.Errorf("%s: nothing failed and the command reports %v", d, err)
	}
	b, e := os.ReadFile(out)
	if e != nil {
		return fmt.Errorf("%s: no report: %v", d, e)
	}
	if strings.Contains(string(b), "xxxxxxxx") || !strings.HasSuffix(strings.TrimSpace(string(b)), "</html>") || !strings.Contains(string(b), "-js')") {
		return fmt.Errorf("%s: the report is incomplete or holds previous content", d)
	}
	_, e = report.Decode(string(b))
	return e
}

type httpFault struct {
	name   string
	status int
	body   string
	err    error
	trunc  bool
}

var httpFaults = []httpFault{
	{"connection", 0, "", errors.New("connection refused"), false},
	{"500", 500, `{"error":"boom"}`, nil, false},
	{"truncated", 200, `[{"field":"f","sql":"SEL`, nil, true},
	{"html", 200, `<html></html>`, nil, false},
	{"401", 401, `{"code":"access-denied"}`, nil, false},
	{"400", 400, `{"error":"bad","path":"$"}`, nil, false},
	{"cut", 200, `{"result_type":"TuplesOk","result":[["table_name"`, nil, false},
	{"201 with errors", 400, `{"errors":[{"message":"m"}]}`, nil, false},
	{"empty", 200, ``, nil, false},
}

// C22 ------------------------------------------------------------------------

var jsonValues = []string{
	`1`, `-0.5`, `9007199254740993`, `18446744073709551617`, `1e2`, `0.1000000000000000055`, `null`, `true`, `""`, `"it's"`,
	`"\"q\" \\ / \b\n\t"`, `"<script>&</script>"`, `"\u2028\u00e9\ud83d\ude00"`, `"é日本"`, `"%s ${x} ? $1"`, `[]`, `{}`, `[1,[null,"x"],{"k":9007199254740993}]`, `{"a":{"b":[false]}}`,
}

func decode(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errors.New("trailing data")
	}
	return v, nil
}

func sameJSON(a, b any) bool {
	switch x := a.(type) {
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return false
		}
		p, ok1 := new(big.Rat).SetString(x.String())
		q, ok2 := new(big.Rat).SetString(y.String())
		return ok1 && ok2 && p.Cmp(q) == 0
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !sameJSON(x[k], v) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

var endpoints = map[string]string{"explain": "/v1/graphql/explain", "query": "/v1/graphql"}

// judgeRequest checks where a request went, with which secret and GraphQL content.
func judgeRequest(e env.Event, base *url.URL, secret, gql string, vars any) error {
	ep := endpoints[e.Kind]
	if ep == "" {
		ep = "/v2/query"
	}
	// an encoded slash does not separate
	segments := func(u *url.URL) string {
		var o []string
		for _, x := range strings.Split(strings.TrimRight(u.EscapedPath(), "/"), "/") {
			if y, err := url.PathUnescape(x); err == nil {
				x = y
			}
			o = append(o, x)
		}
		return strings.Join(o, "\x00")
	}
	want := *base
	want.Path = strings.TrimRight(base.Path, "/") + ep
	path := segments(base) + strings.ReplaceAll(ep, "/", "\x00")
	u, err := url.Parse(e.URL)
	if err != nil || !strings.HasPrefix(e.Path, "POST ") {
		return fmt.Errorf("%s %s", e.Path, e.URL)
	}
	if u.Scheme != want.Scheme || u.Host != want.Host || segments(u) != path || u.RawQuery != want.RawQuery || u.User.String() != want.User.String() {
		return fmt.Errorf("%s request goes to %s, not to %s", e.Kind, e.URL, want.String())
	}
	if l := e.Header.Values("x-hasura-admin-secret"); len(l) != 1 || l[0] != secret {
		return fmt.Errorf("%s request carries the secret %q", e.Kind, l)
	}
	body, err := decode(e.Body)
	if err != nil {
		return fmt.Errorf("%s request has no JSON body: %v", e.Kind, err)
	}
	switch e.Kind {
	case "explain":
		body = report.At(body, "query")
		fallthrough
	case "query":
		if report.At(body, "query") != gql {
			return fmt.Errorf("%s request carries the query %q, not %q", e.Kind, report.At(body, "query"), gql)
		}
		got := report.At(body, "variables")
		if m, ok := vars.(map[string]any); vars == nil || ok && len(m) == 0 {
			if m, ok := got.(map[string]any); got == nil || ok && len(m) == 0 {
				return nil
			}
		}
		if !sameJSON(vars, got) {
			return fmt.Errorf("%s request carries the variables %v, not %v", e.Kind, got, vars)
		}
	default:
		if report.At(body, "type") != "run_sql" {
			return fmt.Errorf("%s request is of type %v", e.Kind, report.At(body, "type"))
		}
	}
	return nil
}

func c22(r *mc.Run) {
	bases := []string{"http://%s", "http://%s/", "http://%s/base", "http://%s/base/", "http://%s/a/b//", "http://%s:8080/x", "https://%s", "http://user:pw@%s/p", "http://%s/p?tenant=1&x=%%2F", "http://%s/%%E6%%97%%A5/a%%20b", "http://%s/a%%2Fb/c", "http://%s/x;y=1/@:z"}
	secrets := []string{"s3cret", "with space", `a"b'c\d`, "ключ", "=;,%"}
	r.Bound("every base URL out of 12 forms x 5 secrets x with/without examination, from the environment; every JSON value out of 19 for one or two variables (also nested one level), 6 GraphQL texts; invalid variable texts")
	r.Bound("every request of a run with and without examination failing in one of 9 ways")
	gqls := []string{drive.Gql, "{ a }", "query {\n\ta(where: {s: {_eq: \"<&>'\\\"\"}}) { y } # é\n}", "", "%d %s ${x} `y`", "日本\u2028"}
	one := func(c *mc.Ctx, base func(w *env.World) (*ihasura.Client, *url.URL, error), secret, gql, vars string, ex bool) error {
		w := drive.NewWorld("hasura", schema())
		w.HasuraSQL = okSQL
		cli, u, err := base(w)
		if err != nil {
			return err
		}
		defer w.Close()
		out := report.Path()
		defer os.Remove(out)
		d := fmt.Sprintf("base %s, query %q, variables %s", u, gql, vars)
		if err := hasura.VerifPostgres(out, cli, gql, vars, ex, []string{"a:x"}); err != nil {
			return fmt.Errorf("%s: %v", d, err)
		}
		drive.ObserveEvents(c, w)
		want, err := decode([]byte(vars))
		if err != nil {
			return err
		}
		var kinds []string
		for _, e := range w.Log() {
			kinds = append(kinds, e.Kind)
			if err := judgeRequest(e, u, secret, gql, want); err != nil {
				return fmt.Errorf("%s: %v", d, err)
			}
		}
		sort.Strings(kinds)
		ks := strings.Join(kinds, " ")
		if !ex && ks != "columns explain indexes" || ex && ks != "columns ddl-create ddl-drop explain indexes query query" {
			return fmt.Errorf("%s: the requests are %s", d, ks)
		}
		m, err := report.Read(out)
		if err != nil {
			return fmt.Errorf("%s: %v", d, err)
		}
		dd := drive.Data("hasura", m)
		if dd["gql"] != gql {
			return fmt.Errorf("%s: the report shows the query %q", d, dd["gql"])
		}
		if g := dd["gqlVariables"]; !(g == nil && (want == nil || len(want.(map[string]any)) == 0)) && !sameJSON(want, g) {
			return fmt.Errorf("%s: the report shows the variables %v", d, g)
		}
		return nil
	}
	plain := func(w *env.World) (*ihasura.Client, *url.URL, error) {
		cli := w.Hasura("")
		u, err := url.Parse("http://" + w.Host())
		return cli, u, err
	}
	r.Explore(mc.Options{Name: "endpoints", DevBound: -1, Serialize: true}, func(c *mc.Ctx) error {
		b := bases[c.Choose("base", len(bases))]
		secret := secrets[c.Choose("secret", len(secrets))]
		defer os.Unsetenv("HASURA_URL")
		defer os.Unsetenv("HASURA_ADMIN_SECRET")
		return one(c, func(w *env.World) (*ihasura.Client, *url.URL, error) {
			host := w.Serve()
			text := fmt.Sprintf(b, host)
			u, err := url.Parse(text)
			if err != nil {
				return nil, nil, err
			}
			w.Alias(u.Host)
			os.Setenv("HASURA_URL", text)
			os.Setenv("HASURA_ADMIN_SECRET", secret)
			cfg, err := ihasura.NewConfigFromEnv()
			if err != nil {
				return nil, nil, err
			}
			return ihasura.NewClient(cfg), u, nil
		}, secret, drive.Gql, drive.GqlVars, c.Flip("examine"))
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "variables", DevBound: -1}, func(c *mc.Ctx) error {
		n := c.Choose("variables", 3)
		var ps []string
		for i := 0; i < n; i++ {
			v := jsonValues[c.Choose("value", len(jsonValues))]
			switch c.Choose("nest", 3) {
			case 1:
				v = "[" + v + "]"
			case 2:
				v = `{"k \"<é": ` + v + "}"
			}
			ps = append(ps, fmt.Sprintf("%q: %s", []string{"v", "w-<\u00e9>"}[i], v))
		}
		g := 0
		if n < 2 {
			g = c.Choose("gql", len(gqls))
		}
		return one(c, plain, env.HasuraSecret, gqls[g], "{"+strings.Join(ps, ", ")+"}", c.Flip("examine"))
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "invalid-variables", DevBound: -1}, func(c *mc.Ctx) error {
		bad := []string{"", "x", "{", `{"a":}`, `{"a":1}}`, `{"a":1} {"b":2}`, `[1]`, `"s"`, `1`, `{"a":1},`, `{a:1}`, `{'a':1}`, `{"a":01}`, `{"a":1`, "{\"a\":\"\n\"}", `{"a":1}]`}
		v := bad[c.Choose("text", len(bad))]
		w := drive.NewWorld("hasura", schema())
		w.HasuraSQL = okSQL
		cli := w.Hasura("")
		defer w.Close()
		out := report.Path()
		defer os.Remove(out)
		err := hasura.VerifPostgres(out, cli, drive.Gql, v, c.Flip("examine"), nil)
		c.Observe("%q: %v", v, err)
		if err == nil {
			return fmt.Errorf("variables %q are accepted", v)
		}
		if len(w.Log()) > 0 {
			return fmt.Errorf("variables %q: %d requests are sent all the same", v, len(w.Log()))
		}
		return untouched(out, false, "variables "+v)
	})
	if r.Violated() {
		return
	}
	faults := append([]httpFault{}, httpFaults...)
	for _, st := range []int{202, 203, 204, 304, 402, 404, 429, 502, 503} {
		faults = append(faults, httpFault{fmt.Sprint(st), st, "{}", nil, false})
	}
	gqlErrs := []httpFault{
		{"graphql error", 200, `{"errors":[{"message":"m","extensions":{"code":"validation-failed"}}]}`, nil, false},
		{"graphql error with data", 200, `{"data":null,"errors":[{"message":"m"}]}`, nil, false},
		{"explain of nothing", 200, `[]`, nil, false},
		{"null", 200, `null`, nil, false},
	}
	_ = http.StatusOK
	r.Explore(mc.Options{Name: "failures", DevBound: r.Pick(1, 2)}, func(c *mc.Ctx) error {
		w := drive.NewWorld("hasura", schema())
		failed := ""
		w.HTTPFault = func(e *env.Event) (int, string, error, bool, bool) {
			l := faults
			if e.Kind == "query" {
				l = append(append([]httpFault{}, l...), gqlErrs[:2]...)
			} else if e.Kind == "explain" {
				l = append(append([]httpFault{}, l...), gqlErrs...)
			}
			k := c.Deviate(e.Kind, len(l)+1)
			if k == 0 {
				return 0, "", nil, false, false
			}
			f := l[k-1]
			failed += fmt.Sprintf("%s request: %s; ", e.Kind, f.name)
			return f.status, f.body, f.err, f.trunc, true
		}
		out := report.Path()
		defer os.Remove(out)
		ex := c.Flip("examine")
		err := drive.Run("hasura", w, okSQL, ex, []string{"a:x", "b:z"}, out)
		drive.ObserveEvents(c, w)
		c.Observe("%s -> %v", failed, err != nil)
		if failed != "" && err == nil {
			return fmt.Errorf("%s: the command succeeds", failed)
		}
		if failed == "" {
			return err
		}
		return untouched(out, false, failed)
	})
}
