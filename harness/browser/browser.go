// Package browser opens report pages: it feeds the data of a report to the client code of the
// repository (bundled from its current sources by /verif/browser/browser.mjs) and returns what
// the page shows.
package browser

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/net/html"
)

// Node is an element of the page, or a text.
type Node struct {
	Text  string
	Tag   string
	Name  string
	Attr  map[string]any
	Ctl   *int
	Chart *int
	Inner *string
	Kids  []*Node
}

func (n *Node) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '"' {
		return json.Unmarshal(b, &n.Text)
	}
	var v struct {
		Tag, Name string
		A         map[string]any
		C         []*Node
		Ctl       *int
		Chart     *int
		Inner     *string
		HTML      *string
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	*n = Node{Tag: v.Tag, Name: v.Name, Attr: v.A, Ctl: v.Ctl, Chart: v.Chart, Inner: v.Inner, Kids: v.C}
	if v.HTML != nil {
		n.Tag, n.Inner = "#html", v.HTML
	}
	return nil
}

// String is the text a reader sees.
func (n *Node) String() string {
	if n == nil {
		return ""
	}
	var b strings.Builder
	n.Walk(func(x *Node) bool {
		switch {
		case x.Inner != nil:
			b.WriteString(TextOf(*x.Inner))
			return false
		case x.Tag == "br":
			b.WriteString("\n")
		case x.Tag == "":
			b.WriteString(x.Text)
		}
		return true
	})
	return b.String()
}

// Walk visits n and everything below it in document order.
func (n *Node) Walk(f func(*Node) bool) {
	if n == nil || !f(n) {
		return
	}
	for _, k := range n.Kids {
		k.Walk(f)
	}
}

// All returns the elements with a tag.
func (n *Node) All(tag string) []*Node {
	var l []*Node
	n.Walk(func(x *Node) bool {
		if x.Tag == tag {
			l = append(l, x)
		}
		return true
	})
	return l
}

// Charts returns the indexes of the charts drawn below n.
func (n *Node) Charts() []int {
	var l []int
	n.Walk(func(x *Node) bool {
		if x.Chart != nil {
			l = append(l, *x.Chart)
		}
		return true
	})
	return l
}

// Point of a chart.
type Point struct {
	X, Y  any
	Goals any
}

type Series struct {
	Name string
	Data []map[string]any
}

type Chart struct {
	Series []Series
	Title  string
}

// Step is what the page shows after an action (or the text an action returned).
type Step struct {
	Tree      []*Node
	Charts    []Chart
	Diagrams  []string
	Clipboard []string
	Text      *string
}

// Root is the page as one element.
func (s *Step) Root() *Node { return &Node{Tag: "#page", Kids: s.Tree} }

// Section returns the collapsible section with that title.
func (s *Step) Section(title string) *Node {
	for _, d := range s.Root().All("details") {
		for _, x := range d.All("summary") {
			if strings.TrimSpace(x.String()) == title {
				return d
			}
		}
	}
	return nil
}

// Act is an action of the reader.
type Act map[string]any

func Toggle(ctl int, v bool) Act { return Act{"do": "toggle", "ctl": ctl, "value": v} }
func Click(ctl int) Act          { return Act{"do": "click", "ctl": ctl} }
func Bar(chart, series, point int) Act {
	return Act{"do": "chart", "chart": chart, "series": series, "point": point}
}
func Tooltip(chart, series, point int) Act {
	return Act{"do": "tooltip", "chart": chart, "series": series, "point": point}
}
func Hover(chart, series, point int) Act {
	return Act{"do": "hover", "chart": chart, "series": series, "point": point}
}
func Label(chart, series, point int) Act {
	return Act{"do": "label", "chart": chart, "series": series, "point": point}
}

type tab struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

var (
	mu   sync.Mutex
	free []*tab
)

func give(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "NO ANSWER: "+format+"\n", a...)
	os.Exit(3)
}

func start() *tab {
	c := exec.Command("node", filepath.Join(os.Getenv("VERIF_HOME"), "browser", "browser.mjs"), os.Getenv("VERIF_REPO_DIR"))
	c.Env = append(os.Environ(), "LANG=en_US.UTF-8", "LC_ALL=en_US.UTF-8", "TZ=UTC")
	c.Stderr = os.Stderr
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		give("cannot start node: %v", err)
	}
	t := &tab{in: in, out: bufio.NewReaderSize(out, 1<<20), cmd: c}
	if l, err := t.out.ReadString('\n'); err != nil || !strings.Contains(l, "ready") {
		give("the client code could not be bundled: %v %s", err, l)
	}
	return t
}

// Open opens a page (main or mermaid) and performs the actions. crash is the error the page
// threw, if any; the steps before it are returned.
func Open(page string, gr any, acts ...Act) (steps []*Step, crash string) {
	mu.Lock()
	var t *tab
	if n := len(free); n > 0 {
		t, free = free[n-1], free[:n-1]
	}
	mu.Unlock()
	if t == nil {
		t = start()
	}
	if acts == nil {
		acts = []Act{}
	}
	b, err := json.Marshal(map[string]any{"page": page, "gr": gr, "actions": acts})
	if err != nil {
		give("%v", err)
	}
	var a struct {
		Steps []*Step
		Error string
	}
	_, err = t.in.Write(append(b, '\n'))
	if err == nil {
		var l []byte
		if l, err = t.out.ReadBytes('\n'); err == nil {
			err = json.Unmarshal(l, &a)
		}
	}
	if err != nil {
		give("the browser died: %v", err)
	}
	mu.Lock()
	free = append(free, t)
	mu.Unlock()
	return a.Steps, a.Error
}

// TextOf is the text a fragment of HTML shows.
func TextOf(fragment string) string {
	var b strings.Builder
	z := html.NewTokenizer(strings.NewReader(fragment))
	for {
		switch z.Next() {
		case html.ErrorToken:
			return b.String()
		case html.TextToken:
			b.Write(z.Text())
		case html.StartTagToken, html.SelfClosingTagToken:
			if n, _ := z.TagName(); string(n) == "br" {
				b.WriteString("\n")
			}
		}
	}
}

// Squeeze collapses white space like a page does.
func Squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }
