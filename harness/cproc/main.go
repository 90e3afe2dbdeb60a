// Checks of the finished program (C30, C31): the real gr binary, main function included, runs as
// a process of its own against simulated servers which speak the real protocols.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
	"github.com/mrasu/GravityR/zz_verif/wire"
	"github.com/rs/zerolog"
)

var (
	grBin string
	work  string
)

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	if err := build(); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	r := mc.Start(os.Args[1])
	map[string]func(*mc.Run){"C30": c30, "C31": c31}[os.Args[1]](r)
	r.Finish()
}

// build makes the program from the current tree. The parts of the page, which node builds, are
// stood in for.
func build() error {
	work = os.Getenv("VERIF_WORK")
	repo := os.Getenv("VERIF_REPO_DIR")
	if work == "" || repo == "" {
		return errors.New("VERIF_WORK and VERIF_REPO_DIR are needed")
	}
	rep := map[string]string{}
	for _, n := range []string{"main.js", "main.css", "mermaid.js", "mermaid.css"} {
		p := filepath.Join(work, "asset."+n)
		t := "console.log('" + n + "')"
		if strings.HasSuffix(n, "css") {
			t = "body{margin:0}"
		}
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			return err
		}
		rep[filepath.Join(repo, "client/dist/assets", n)] = p
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(work, "gr.overlay.json")
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return err
	}
	grBin = filepath.Join(work, "gr")
	c := exec.Command("go", "build", "-overlay", ov, "-o", grBin, ".")
	c.Dir = repo
	if out, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("BUILD ERROR of the program: %v\n%s", err, out)
	}
	return makeCA(work)
}

// ---------------------------------------------------------------- one run of the program

// outcome is what a run of the program left.
type outcome struct {
	code           int
	stdout, stderr string // without colours
	dir            string // the directory it ran in
	took           time.Duration
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

var dirCtr int64

func freshDir() string {
	d := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("d%d", atomic.AddInt64(&dirCtr, 1)))
	os.MkdirAll(filepath.Join(d, "sub"), 0o755)
	if p, err := filepath.EvalSymlinks(d); err == nil {
		return p
	}
	return d
}

func run(dir string, settings map[string]string, args ...string) (*outcome, error) {
	ctx, stop := context.WithTimeout(context.Background(), 100*time.Second)
	defer stop()
	c := exec.CommandContext(ctx, grBin, args...)
	c.Dir = dir
	c.Env = []string{"HOME=" + dir, "PATH=/nonexistent", "PGPASSFILE=/nonexistent/pgpass", "AWS_EC2_METADATA_DISABLED=true", "PWD=" + dir}
	for k, v := range settings {
		c.Env = append(c.Env, k+"="+v)
	}
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	t := time.Now()
	err := c.Run()
	o := &outcome{stdout: ansi.ReplaceAllString(so.String(), ""), stderr: ansi.ReplaceAllString(se.String(), ""), dir: dir, took: time.Since(t)}
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		return o, fmt.Errorf("the command does not end:\n%s", o.stderr)
	case err == nil:
	case errors.As(err, &ee) && ee.Exited():
		o.code = ee.ExitCode()
	default:
		return o, fmt.Errorf("the command dies: %v\n%s", err, clip(o.stderr))
	}
	return o, nil
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:700] + "\n...\n" + s[len(s)-700:]
	}
	return s
}

// ---------------------------------------------------------------- the commands

var commands = []string{"mysql", "postgres", "hasura", "performance-insights", "jaeger"}

// secrets of a run
type secrets struct{ pw, hasura, aws string }

var plain = secrets{"pw-Zq71mysqlpg", "hs-Kx93admin", "ak-Vw55/awsSecret+Key"}

const joined = "SELECT a.y FROM a JOIN b ON a.x = b.x WHERE b.z = 1"

func schema() *env.Schema {
	return &env.Schema{
		Tables:  []env.Table{{Name: "a", Cols: []string{"id", "x", "y", "s"}, PK: []string{"id"}}, {Name: "b", Cols: []string{"id", "x", "z"}, PK: []string{"id"}}},
		Indexes: []env.Index{{Table: "a", Name: "a_y", Cols: []string{"y"}}},
	}
}

// site is the servers of one command and how to reach them.
type site struct {
	cmd      string
	settings map[string]string
	args     []string // without -o, -v and examination
	f        *fault
	w        *env.World
	aws      *awsServer
	sql      *wire.Server
	close    []func()
	delays   func(n int) time.Duration // of the n-th examined execution
	mu       sync.Mutex
	nExec    int
}

func (s *site) stop() {
	for _, f := range s.close {
		f()
	}
}

func open(cmd string, f *fault, sec secrets) (*site, error) {
	s := &site{cmd: cmd, f: f, settings: map[string]string{}}
	world := func() *env.World {
		w := drive.NewWorld(cmd, schema())
		w.HasuraSQL = joined
		w.OnEvent = func(e *env.Event) {
			if s.delays == nil {
				return
			}
			if e.Kind == "query" {
				s.mu.Lock()
				n := s.nExec
				s.nExec++
				s.mu.Unlock()
				time.Sleep(s.delays(n))
			}
		}
		s.w = w
		return w
	}
	onSQL := func(srv *wire.Server) {
		h := srv.H
		srv.H = nil
		srv.H = wrap(f, h)
		s.sql = srv
		s.close = append(s.close, srv.Close)
	}
	switch cmd {
	case "mysql":
		w := world()
		srv, err := wire.MySQL("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		srv.H = w.Handle("mysql")
		onSQL(srv)
		s.settings = map[string]string{"DB_USERNAME": "app", "DB_PASSWORD": sec.pw, "DB_PROTOCOL": "tcp", "DB_ADDRESS": srv.Addr(), "DB_DATABASE": drive.DBName}
		s.args = []string{"db", "suggest", "mysql", "-q", joined}
	case "postgres":
		w := world()
		srv, err := wire.Postgres("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		srv.H, srv.Cols = w.Handle("postgres"), w.ColumnsOf
		onSQL(srv)
		host, port, _ := strings.Cut(srv.Addr(), ":")
		s.settings = map[string]string{"DB_USERNAME": "app", "DB_PASSWORD": sec.pw, "DB_HOST": host, "DB_PORT": port, "DB_DATABASE": drive.DBName, "DB_PARAM_TEXT": "sslmode=disable"}
		s.args = []string{"db", "suggest", "postgres", "-q", joined}
	case "hasura":
		w := world()
		w.Dialect = "hasura"
		h := hasuraServer(w, f, nil)
		s.close = append(s.close, h.Close)
		s.settings = map[string]string{"HASURA_URL": h.URL, "HASURA_ADMIN_SECRET": sec.hasura}
		s.args = []string{"db", "suggest", "hasura", "postgres", "-q", drive.Gql, "--json-variables", drive.GqlVars}
	case "performance-insights":
		a, err := awsProxy(f)
		if err != nil {
			return nil, err
		}
		s.aws = a
		s.close = append(s.close, func() { a.l.Close() })
		s.settings = map[string]string{"AWS_REGION": "eu-west-1", "AWS_ACCESS_KEY_ID": "AKVERIF", "AWS_SECRET_ACCESS_KEY": sec.aws,
			"HTTPS_PROXY": "http://" + a.l.Addr().String(), "AWS_CA_BUNDLE": caFile}
		s.args = []string{"db", "dig", "performance-insights"}
	case "jaeger":
		addr, stop, err := jaegerServer(f)
		if err != nil {
			return nil, err
		}
		s.close = append(s.close, stop)
		s.settings = map[string]string{"JAEGER_UI_URL": "http://jaeger.test:16686", "JAEGER_GRPC_ADDRESS": addr}
		s.args = []string{"app", "dig", "jaeger", "-s", "shop", "--start-from", "2024-01-01T00:00:00Z"}
	}
	return s, nil
}

// dataOf finds the data of the command in a report.
func dataOf(cmd string, m map[string]any) map[string]any {
	var d any
	switch cmd {
	case "performance-insights":
		d = report.At(m, "digData", "performanceInsights")
	case "jaeger":
		d = report.At(m, "digData", "jaeger")
	default:
		d = report.At(m, drive.DataKey(cmd)...)
	}
	x, _ := d.(map[string]any)
	return x
}

// complete tells whether b is a whole report of the command.
func complete(cmd, b string) (map[string]any, error) {
	if !strings.HasSuffix(strings.TrimSpace(b), "</html>") {
		return nil, errors.New("the report breaks off")
	}
	m, err := report.Decode(b)
	if err != nil {
		return nil, err
	}
	d := dataOf(cmd, m)
	if d == nil {
		return nil, fmt.Errorf("the report is not one of %s", cmd)
	}
	return d, nil
}
