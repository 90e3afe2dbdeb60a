// Checks of the command line and the environment settings (C25, C26): the real cobra commands
// with their real drivers talk to simulated servers over the real protocols.
package main

import (
	"context"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"

	gomysql "github.com/go-sql-driver/mysql"
	_ "github.com/mrasu/GravityR/cmd"
	"github.com/mrasu/GravityR/cmd/db"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/wire"
	"github.com/rs/zerolog"
	"github.com/spf13/cobra"
	"github.com/spf13/pflag"
)

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		realErr = os.Stderr
		os.Stderr = f
	}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		if strings.HasPrefix(k, "PG") {
			os.Unsetenv(k)
		}
	}
	os.Setenv("PGPASSFILE", "/nonexistent/pgpass")
	os.Setenv("HOME", os.Getenv("VERIF_SCRATCH"))
	for _, n := range []string{"tcp", "unix", "verif", "v+x.y"} {
		n := n
		gomysql.RegisterDialContext(n, func(ctx context.Context, addr string) (net.Conn, error) { return dialMySQL(n, addr) })
	}
	r := mc.Start(os.Args[1])
	map[string]func(*mc.Run){"C25": c25, "C26": c26}[os.Args[1]](r)
	r.Finish()
}

var realErr = os.Stderr

// ---------------------------------------------------------------- mysql connections

var (
	dialMu sync.Mutex
	dialed []string // "net addr"
	mySrv  *wire.Server
)

func dialMySQL(network, addr string) (net.Conn, error) {
	dialMu.Lock()
	dialed = append(dialed, network+" "+addr)
	s := mySrv
	dialMu.Unlock()
	return s.Pipe(), nil
}

func takeDialed() []string {
	dialMu.Lock()
	defer dialMu.Unlock()
	d := dialed
	dialed = nil
	return d
}

// ---------------------------------------------------------------- running a command

var settings = []string{"DB_USERNAME", "DB_PASSWORD", "DB_PROTOCOL", "DB_ADDRESS", "DB_HOST", "DB_PORT", "DB_DATABASE", "DB_SEARCH_PATH", "DB_PARAM_TEXT",
	"HASURA_URL", "HASURA_ADMIN_SECRET", "JAEGER_UI_URL", "JAEGER_GRPC_ADDRESS"}

func setEnv(m map[string]string) {
	for _, k := range settings {
		if v, ok := m[k]; ok {
			os.Setenv(k, v)
		} else {
			os.Unsetenv(k)
		}
	}
}

func resetFlags(c *cobra.Command) {
	reset := func(f *pflag.Flag) {
		if sv, ok := f.Value.(pflag.SliceValue); ok {
			sv.Replace(nil)
		} else {
			f.Value.Set(f.DefValue)
		}
		f.Changed = false
	}
	c.Flags().VisitAll(reset)
	c.PersistentFlags().VisitAll(reset)
	for _, s := range c.Commands() {
		resetFlags(s)
	}
}

// gr runs the tool with these arguments and settings.
func gr(settings map[string]string, args ...string) error {
	setEnv(settings)
	root := db.SuggestCmd.Root()
	resetFlags(root)
	root.SetArgs(args)
	return root.Execute()
}

func schema() *env.Schema {
	return &env.Schema{
		Tables:  []env.Table{{Name: "a", Cols: []string{"id", "x", "y", "s"}, PK: []string{"id"}}, {Name: "b", Cols: []string{"id", "x", "z"}, PK: []string{"id"}}},
		Indexes: []env.Index{{Table: "a", Name: "a_y", Cols: []string{"y"}}},
	}
}

func scratch(n string) string { return os.Getenv("VERIF_SCRATCH") + "/" + n }

// listen on a loopback port, a fixed one when port is not 0.
func pgServer(network, addr string, w *env.World) (*wire.Server, error) {
	s, err := wire.Postgres(network, addr)
	if err != nil {
		return nil, err
	}
	s.H, s.Cols = w.Handle("postgres"), w.ColumnsOf
	return s, nil
}

func myServer(w *env.World) *wire.Server {
	s := wire.MySQLPipes()
	s.H = w.Handle("mysql")
	dialMu.Lock()
	mySrv, dialed = s, nil
	dialMu.Unlock()
	return s
}

func portOf(s *wire.Server) string {
	a := s.Addr()
	return a[strings.LastIndexByte(a, ':')+1:]
}

func show(m map[string]string) string {
	var o []string
	for _, k := range settings {
		if v, ok := m[k]; ok {
			o = append(o, fmt.Sprintf("%s=%q", k, v))
		}
	}
	return strings.Join(o, " ")
}
