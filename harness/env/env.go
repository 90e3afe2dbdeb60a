// Package env simulates the outside world of GravityR: a MySQL server, a PostgreSQL
// server and a Hasura server with a given schema, recording every request they receive.
package env

import (
	"bytes"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/jmoiron/sqlx"
	"github.com/lib/pq"
	"github.com/mrasu/GravityR/infra/hasura"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/infra/postgres"
	"github.com/mrasu/GravityR/zz_verif/fdb"
)

type Table struct {
	Name string
	Cols []string
	PK   []string
}

type Index struct {
	Table string
	Name  string
	Cols  []string
}

type Schema struct {
	Tables  []Table
	Indexes []Index
}

func (s *Schema) Table(n string) *Table {
	for i := range s.Tables {
		if s.Tables[i].Name == n {
			return &s.Tables[i]
		}
	}
	return nil
}

// Event is one request received by a simulated server.
type Event struct {
	Kind  string // explain | columns | indexes | exec | query | ddl-create | ddl-drop | other
	Raw   string
	Args  []string
	Table string
	Index string
	Cols  []string
	// hasura only
	Path     string
	Header   http.Header
	ReadOnly *bool
	Vars     any
	URL      string
	Body     []byte
	Seq      int
}

func (e Event) String() string {
	switch e.Kind {
	case "ddl-create":
		return fmt.Sprintf("create %s on %s(%s)", e.Index, e.Table, strings.Join(e.Cols, ","))
	case "ddl-drop":
		return fmt.Sprintf("drop %s on %s", e.Index, e.Table)
	case "columns", "indexes":
		return fmt.Sprintf("%s %v", e.Kind, e.Args)
	}
	return e.Kind + " " + e.Raw
}

// World is one simulated server.
type World struct {
	Dialect string // mysql | postgres | hasura
	Schema  *Schema
	Plan    []string // explain answer lines
	// HasuraSQL is the SQL hasura reports for the GraphQL query.
	HasuraSQL string
	// HasuraExplainCount is the number of plans in the explain response (default 1).
	HasuraExplain func() ([]byte, int)
	// Fault decides whether the event fails; nil means no failure.
	Fault func(e *Event) error
	// RowFault decides whether reading the result rows fails.
	RowFault func(e *Event) error
	// HTTPFault may replace the HTTP answer of a hasura request: status, body, transport error, truncate body.
	HTTPFault func(e *Event) (status int, body string, err error, truncate bool, use bool)
	// OnEvent runs for every event before it is answered (e.g. clock control).
	OnEvent func(e *Event)
	// PKRowFirst puts the primary key's row before the rows of other indexes.
	PKRowFirst bool
	// Live are the indexes existing in the server; DDL changes them.
	Live     []Index
	liveInit bool
	// ApplyDDL makes the server execute DDL against Live.
	ApplyDDL bool
	// DBName is the database/schema name the metadata belongs to.
	DBName string

	mu      sync.Mutex
	Events  []Event
	host    string
	aliases []string
}

var ErrInjected = errors.New("injected failure")

var (
	reMyCreate  = regexp.MustCompile("(?is)^\\s*ALTER\\s+TABLE\\s+(`[^`]*`|\\w+)\\s+ADD\\s+(?:INDEX|KEY)\\s+(`[^`]*`|\\w+)\\s*\\((.*)\\)\\s*;?\\s*$")
	reMyDrop    = regexp.MustCompile("(?is)^\\s*ALTER\\s+TABLE\\s+(`[^`]*`|\\w+)\\s+DROP\\s+(?:INDEX|KEY)\\s+(`[^`]*`|\\w+)\\s*;?\\s*$")
	reMyCreate2 = regexp.MustCompile("(?is)^\\s*CREATE\\s+INDEX\\s+(`[^`]*`|\\w+)\\s+ON\\s+(`[^`]*`|\\w+)\\s*\\((.*)\\)\\s*;?\\s*$")
	reMyDrop2   = regexp.MustCompile("(?is)^\\s*DROP\\s+INDEX\\s+(`[^`]*`|\\w+)\\s+ON\\s+(`[^`]*`|\\w+)\\s*;?\\s*$")
	rePgCreate  = regexp.MustCompile(`(?is)^\s*CREATE\s+INDEX\s+(?:CONCURRENTLY\s+)?("[^"]*"|\w+)\s+ON\s+("[^"]*"|\w+)\s*(?:USING\s+btree\s*)?\((.*)\)\s*;?\s*$`)
	rePgDrop    = regexp.MustCompile(`(?is)^\s*DROP\s+INDEX\s+(?:CONCURRENTLY\s+)?(?:IF\s+EXISTS\s+)?("[^"]*"|\w+)\s*;?\s*$`)
)

func unq(s, q string, fold bool) string {
	s = strings.TrimSpace(s)
	if len(s) >= 2 && strings.HasPrefix(s, q) && strings.HasSuffix(s, q) {
		return s[1 : len(s)-1]
	}
	if fold {
		return strings.ToLower(s)
	}
	return s
}

func splitCols(s, q string, fold bool) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		out = append(out, unq(p, q, fold))
	}
	return out
}

// Classify parses the SQL text of a request.
func Classify(dialect, raw string) Event {
	e := classes.get(dialect+"\x00"+raw, func() any { return classify(dialect, raw) }).(Event)
	e.Cols = append([]string(nil), e.Cols...)
	return e
}

func classify(dialect, raw string) Event {
	e := Event{Raw: raw, Kind: "other"}
	up := strings.ToUpper(strings.TrimSpace(raw))
	switch dialect {
	case "mysql":
		if m := reMyCreate.FindStringSubmatch(raw); m != nil {
			e.Kind, e.Table, e.Index, e.Cols = "ddl-create", unq(m[1], "`", false), unq(m[2], "`", false), splitCols(m[3], "`", false)
			return e
		}
		if m := reMyDrop.FindStringSubmatch(raw); m != nil {
			e.Kind, e.Table, e.Index = "ddl-drop", unq(m[1], "`", false), unq(m[2], "`", false)
			return e
		}
		if m := reMyCreate2.FindStringSubmatch(raw); m != nil {
			e.Kind, e.Index, e.Table, e.Cols = "ddl-create", unq(m[1], "`", false), unq(m[2], "`", false), splitCols(m[3], "`", false)
			return e
		}
		if m := reMyDrop2.FindStringSubmatch(raw); m != nil {
			e.Kind, e.Index, e.Table = "ddl-drop", unq(m[1], "`", false), unq(m[2], "`", false)
			return e
		}
	default:
		if m := rePgCreate.FindStringSubmatch(raw); m != nil {
			e.Kind, e.Index, e.Table, e.Cols = "ddl-create", unq(m[1], `"`, true), unq(m[2], `"`, true), splitCols(m[3], `"`, true)
			return e
		}
		if m := rePgDrop.FindStringSubmatch(raw); m != nil {
			e.Kind, e.Index = "ddl-drop", unq(m[1], `"`, true)
			return e
		}
	}
	low := strings.ToLower(raw)
	switch {
	case strings.HasPrefix(up, "EXPLAIN"):
		e.Kind = "explain"
	case strings.Contains(low, "information_schema.columns"), strings.Contains(low, "pg_attribute") && !strings.Contains(low, "pg_get_indexdef"):
		e.Kind = "columns"
	case strings.Contains(low, "information_schema.statistics"), strings.Contains(low, "pg_get_indexdef"):
		e.Kind = "indexes"
	}
	return e
}

// applyDDL executes acknowledged DDL against the live state.
func (w *World) applyDDL(e *Event) error {
	if !w.ApplyDDL {
		return nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.liveInit {
		w.Live = append([]Index{}, w.Schema.Indexes...)
		w.liveInit = true
	}
	same := func(i Index) bool {
		if w.Dialect == "mysql" {
			return i.Table == e.Table && strings.EqualFold(i.Name, e.Index)
		}
		return i.Name == e.Index
	}
	switch e.Kind {
	case "ddl-create":
		t := w.Schema.Table(e.Table)
		if t == nil {
			return fmt.Errorf("no such table %q", e.Table)
		}
		for _, c := range e.Cols {
			if !has(t.Cols, c) {
				return fmt.Errorf("no such column %q", c)
			}
		}
		if max := 64; len(e.Index) > max || len(e.Index) == 0 {
			return fmt.Errorf("identifier name %q is too long", e.Index)
		}
		for _, i := range w.Live {
			if same(i) {
				return fmt.Errorf("duplicate key name %q", e.Index)
			}
		}
		w.Live = append(w.Live, Index{e.Table, e.Index, e.Cols})
	case "ddl-drop":
		for k, i := range w.Live {
			if same(i) {
				w.Live = append(append([]Index{}, w.Live[:k]...), w.Live[k+1:]...)
				return nil
			}
		}
		return fmt.Errorf("can't DROP %q; check that it exists", e.Index)
	}
	return nil
}

// AddLive puts an index of somebody else into the server.
func (w *World) AddLive(i Index) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.liveInit {
		w.Live = append([]Index{}, w.Schema.Indexes...)
		w.liveInit = true
	}
	w.Live = append(w.Live, i)
}

// Current returns the indexes in the server now.
func (w *World) Current() []Index {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.liveInit {
		return append([]Index{}, w.Schema.Indexes...)
	}
	return append([]Index{}, w.Live...)
}

// Log returns a copy of the events.
func (w *World) Log() []Event {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]Event{}, w.Events...)
}

func (w *World) record(e Event) *Event {
	w.mu.Lock()
	defer w.mu.Unlock()
	e.Seq = len(w.Events)
	w.Events = append(w.Events, e)
	return &e
}

func toStrings(args []any) []string {
	var out []string
	for _, a := range args {
		if b, ok := a.([]byte); ok {
			out = append(out, string(b))
		} else {
			out = append(out, fmt.Sprint(a))
		}
	}
	return out
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (w *World) handle(kind, q string, args []any) fdb.Answer {
	e := Classify(w.Dialect, q)
	if e.Kind == "other" {
		e.Kind = kind
	}
	e.Args = toStrings(args)
	ev := w.record(e)
	if w.OnEvent != nil {
		w.OnEvent(ev)
	}
	if w.Fault != nil {
		if err := w.Fault(ev); err != nil {
			return fdb.Answer{Err: err}
		}
	}
	if err := w.applyDDL(ev); err != nil {
		return fdb.Answer{Err: err}
	}
	a := w.answer(ev)
	if w.RowFault != nil && kind == "query" {
		if err := w.RowFault(ev); err != nil {
			a.RowErr = err
			if len(a.Rows) > 0 {
				a.Rows = a.Rows[:len(a.Rows)-1]
			}
		}
	}
	return a
}

func (w *World) answer(e *Event) fdb.Answer {
	switch e.Kind {
	case "explain":
		a := fdb.Answer{Columns: []string{"EXPLAIN"}}
		if w.Dialect == "mysql" {
			if len(w.Plan) > 0 {
				a.Rows = append(a.Rows, []driver.Value{strings.Join(w.Plan, "\n") + "\n"})
			}
		} else {
			a.Columns = []string{"QUERY PLAN"}
			for _, l := range w.Plan {
				a.Rows = append(a.Rows, []driver.Value{l})
			}
		}
		return a
	case "columns", "indexes":
		if w.Dialect == "mysql" {
			cols, rows, ok := w.infoSchema(e.Raw, e.Args)
			if !ok {
				cols, rows = w.infoSchemaDefault(e.Kind, e.Args)
			}
			return fdb.Answer{Columns: cols, Rows: rows}
		}
		if e.Kind == "columns" {
			a := fdb.Answer{Columns: []string{"table_name", "column_name", "is_pk"}}
			for _, r := range w.pgColumns(e.Raw, e.Args) {
				a.Rows = append(a.Rows, []driver.Value{r[0], r[1], r[2] == "t"})
			}
			return a
		}
		a := fdb.Answer{Columns: []string{"index_name", "table_name", "column_names"}}
		for _, i := range w.pgIndexes(e.Raw, e.Args) {
			v, _ := pq.StringArray(i.Cols).Value()
			a.Rows = append(a.Rows, []driver.Value{i.Name, i.Table, v})
		}
		return a
	}
	return fdb.Answer{Columns: []string{"x"}}
}

// Handle answers one statement in the given dialect, for servers that speak a wire protocol.
func (w *World) Handle(dialect string) fdb.Handler {
	w.Dialect = dialect
	return w.handle
}

// ColumnsOf are the names of the columns q returns; the request is not recorded.
func (w *World) ColumnsOf(q string) []string {
	e := Classify(w.Dialect, q)
	return w.answer(&e).Columns
}

func (w *World) MySQL() *mysql.DB {
	w.Dialect = "mysql"
	return mysql.NewDB(sqlx.NewDb(fdb.Open(w.handle), "mysql"))
}

func (w *World) Postgres() *postgres.DB {
	w.Dialect = "postgres"
	return postgres.NewDB(sqlx.NewDb(fdb.Open(w.handle), "postgres"))
}

// ------------------------------------------------------------------ hasura

type hub struct {
	mu sync.Mutex
	m  map[string]*World
}

var theHub = &hub{m: map[string]*World{}}
var hostCtr int64

func init() { http.DefaultTransport = theHub }

func (h *hub) RoundTrip(req *http.Request) (*http.Response, error) {
	h.mu.Lock()
	w := h.m[req.URL.Host]
	h.mu.Unlock()
	if w == nil {
		return nil, fmt.Errorf("no simulated server at %s", req.URL.Host)
	}
	return w.roundTrip(req)
}

const HasuraSecret = "s3cr3t-admin"

// Serve makes this world answer the requests to a fresh host name. Close must be called.
func (w *World) Serve() string {
	w.Dialect = "hasura"
	w.host = fmt.Sprintf("h%d.test", atomic.AddInt64(&hostCtr, 1))
	theHub.mu.Lock()
	theHub.m[w.host] = w
	theHub.mu.Unlock()
	return w.host
}

// Alias makes this world answer the requests to host, too.
func (w *World) Alias(host string) {
	theHub.mu.Lock()
	theHub.m[host] = w
	w.aliases = append(w.aliases, host)
	theHub.mu.Unlock()
}

// Hasura returns a client bound to this world. Close must be called.
func (w *World) Hasura(basePath string) *hasura.Client {
	w.Dialect = "hasura"
	w.host = fmt.Sprintf("h%d.test", atomic.AddInt64(&hostCtr, 1))
	theHub.mu.Lock()
	theHub.m[w.host] = w
	theHub.mu.Unlock()
	u, err := url.Parse("http://" + w.host + basePath)
	if err != nil {
		panic(err)
	}
	return hasura.NewClient(&hasura.Config{Url: u, AdminSecret: HasuraSecret})
}

func (w *World) Host() string { return w.host }

func (w *World) Close() {
	theHub.mu.Lock()
	delete(theHub.m, w.host)
	for _, a := range w.aliases {
		delete(theHub.m, a)
	}
	theHub.mu.Unlock()
}

var reQuoted = regexp.MustCompile(`'((?:[^']|'')*)'`)

// RoundTrip answers one HTTP request.
func (w *World) RoundTrip(req *http.Request) (*http.Response, error) { return w.roundTrip(req) }

type errReader struct {
	r   io.Reader
	err error
}

func (e *errReader) Read(p []byte) (int, error) {
	n, err := e.r.Read(p)
	if err == io.EOF {
		return n, e.err
	}
	return n, err
}

func (w *World) roundTrip(req *http.Request) (*http.Response, error) {
	b, err := io.ReadAll(req.Body)
	if err != nil {
		return nil, err
	}
	body := map[string]any{}
	_ = json.Unmarshal(b, &body)
	e := Event{Kind: "other", Raw: string(b), Path: req.Method + " " + req.URL.Path, Header: req.Header.Clone(), URL: req.URL.String(), Body: b}
	switch {
	case strings.HasSuffix(req.URL.Path, "/v1/graphql/explain"):
		e.Kind = "explain"
		if q, ok := body["query"].(map[string]any); ok {
			e.Raw = fmt.Sprint(q["query"])
			e.Vars = q["variables"]
		}
	case strings.HasSuffix(req.URL.Path, "/v1/graphql"):
		e.Kind = "query"
		e.Raw = fmt.Sprint(body["query"])
		e.Vars = body["variables"]
	case strings.HasSuffix(req.URL.Path, "/v2/query"):
		if body["type"] == "run_sql" {
			if a, ok := body["args"].(map[string]any); ok {
				sqlText := fmt.Sprint(a["sql"])
				c := Classify("hasura", sqlText)
				c.Path, c.Header, c.URL, c.Body = e.Path, e.Header, e.URL, e.Body
				if c.Kind == "other" {
					c.Kind = "exec"
				}
				if ro, ok := a["read_only"].(bool); ok {
					c.ReadOnly = &ro
				}
				if c.Kind == "columns" || c.Kind == "indexes" {
					for _, m := range reQuoted.FindAllStringSubmatch(sqlText, -1) {
						c.Args = append(c.Args, m[1])
					}
				}
				e = c
			}
		}
	}
	ev := w.record(e)
	if w.OnEvent != nil {
		w.OnEvent(ev)
	}
	if w.Fault != nil {
		if err := w.Fault(ev); err != nil {
			return respond(500, []byte(`{"error":"`+err.Error()+`"}`), nil), nil
		}
	}
	if w.HTTPFault != nil {
		st, bd, er, trunc, use := w.HTTPFault(ev)
		if use {
			if er != nil {
				return nil, er
			}
			var re error
			if trunc {
				re = io.ErrUnexpectedEOF
			}
			return respond(st, []byte(bd), re), nil
		}
	}
	if err := w.applyDDL(ev); err != nil {
		b, _ := json.Marshal(map[string]any{"error": err.Error()})
		return respond(400, b, nil), nil
	}
	st, out := w.hasuraAnswer(ev)
	return respond(st, out, nil), nil
}

func respond(status int, body []byte, readErr error) *http.Response {
	var r io.Reader = bytes.NewReader(body)
	if readErr != nil {
		r = &errReader{r, readErr}
	}
	return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(r), ContentLength: -1}
}

func (w *World) hasuraAnswer(e *Event) (int, []byte) {
	j := func(v any) []byte { b, _ := json.Marshal(v); return b }
	switch e.Kind {
	case "explain":
		if w.HasuraExplain != nil {
			b, st := w.HasuraExplain()
			return st, b
		}
		return 200, j([]map[string]any{{"field": "f", "sql": w.HasuraSQL, "plan": w.Plan}})
	case "query":
		return 200, j(map[string]any{"data": map[string]any{}})
	case "columns":
		return 200, j(map[string]any{"result_type": "TuplesOk", "result": permute(e.Raw, []string{"table_name", "column_name", "is_pk"}, w.pgColumns(e.Raw, e.Args))})
	case "indexes":
		var rows [][]string
		for _, i := range w.pgIndexes(e.Raw, e.Args) {
			v, _ := pq.StringArray(i.Cols).Value()
			rows = append(rows, []string{i.Table, v.(string)})
		}
		return 200, j(map[string]any{"result_type": "TuplesOk", "result": permute(e.Raw, []string{"table_name", "column_names"}, rows)})
	default:
		return 200, j(map[string]any{"result_type": "CommandOk", "result": nil})
	}
}
