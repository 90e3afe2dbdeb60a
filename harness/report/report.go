// Package report reads the HTML reports GravityR writes.
package report

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"testing/fstest"

	"github.com/mrasu/GravityR/injection"
)

func init() {
	injection.ClientDist = fstest.MapFS{
		"client/dist/assets/main.js":     {Data: []byte("console.log('main-js')")},
		"client/dist/assets/main.css":    {Data: []byte("body{}")},
		"client/dist/assets/mermaid.js":  {Data: []byte("console.log('mermaid-js')")},
		"client/dist/assets/mermaid.css": {Data: []byte("body{}")},
	}
}

var ctr int64

// Path returns a fresh output path inside the scratch directory.
func Path() string {
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = os.TempDir()
	}
	n := atomic.AddInt64(&ctr, 1)
	if n%2000 == 0 {
		// GravityR leaves closing a report to the garbage collector
		runtime.GC()
	}
	return filepath.Join(dir, fmt.Sprintf("r%d.html", n))
}

// Exists reports whether a file is at path.
func Exists(path string) bool { _, err := os.Lstat(path); return err == nil }

// Read decodes the data embedded in the report at path and removes the file.
func Read(path string) (map[string]any, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	os.Remove(path)
	return Decode(string(b))
}

// Decode extracts the embedded data of a report.
func Decode(s string) (map[string]any, error) {
	const mark = "window.grParam = "
	i := strings.Index(s, mark)
	if i < 0 {
		return nil, fmt.Errorf("report has no embedded data")
	}
	d := json.NewDecoder(strings.NewReader(s[i+len(mark):]))
	d.UseNumber()
	m := map[string]any{}
	if err := d.Decode(&m); err != nil {
		return nil, fmt.Errorf("embedded data of the report does not decode: %v", err)
	}
	return m, nil
}

// At walks nested maps.
func At(m any, keys ...string) any {
	for _, k := range keys {
		mm, ok := m.(map[string]any)
		if !ok {
			return nil
		}
		m = mm[k]
	}
	return m
}

// Target renders a {tableName, columns:[{name}]} object as "t(c1,c2)".
func Target(v any) string {
	var cs []string
	l, _ := At(v, "columns").([]any)
	for _, c := range l {
		cs = append(cs, fmt.Sprint(At(c, "name")))
	}
	return fmt.Sprintf("%v(%s)", At(v, "tableName"), strings.Join(cs, ","))
}

// Targets renders a list of index targets.
func Targets(v any) []string {
	var out []string
	l, _ := v.([]any)
	for _, t := range l {
		out = append(out, Target(t))
	}
	return out
}
