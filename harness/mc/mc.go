// Package mc is a small stateless model checker: it enumerates, exhaustively and
// deterministically, every sequence of choices a harness body can make, and runs the
// body (which drives the real implementation) once per sequence.
package mc

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- choice tree

type point struct {
	label  string
	n      int
	choice int
	costs  bool
}

// Ctx is one execution. Choose/Deviate pick the next branch.
type Ctx struct {
	prefix []int
	labels []string // labels recorded for the prefix: replay must not diverge
	points []point
	obs    []string
	states [][32]byte
	note   string
}

func (c *Ctx) pick(label string, n int, costs bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("mc: Choose(%q, %d)", label, n))
	}
	i := len(c.points)
	ch := 0
	if i < len(c.prefix) {
		ch = c.prefix[i]
		if ch >= n {
			panic(divergence(fmt.Sprintf("choice %d at point %d %q out of range %d", ch, i, label, n)))
		}
	}
	c.points = append(c.points, point{label, n, ch, costs})
	c.states = append(c.states, c.stateHash(label))
	return ch
}

type divergence string

// Choose enumerates all n alternatives.
func (c *Ctx) Choose(label string, n int) int { return c.pick(label, n, false) }

// Deviate enumerates all n alternatives; every non-zero answer costs one deviation
// from the default environment behaviour and is subject to the deviation bound.
func (c *Ctx) Deviate(label string, n int) int { return c.pick(label, n, true) }

// Flip is Choose over {false,true}.
func (c *Ctx) Flip(label string) bool { return c.Choose(label, 2) == 1 }

// Observe appends to the observable history of this execution; the history is part of
// the state identity and is what is written to replay files.
func (c *Ctx) Observe(format string, a ...any) {
	if len(a) == 0 {
		c.obs = append(c.obs, format)
	} else {
		c.obs = append(c.obs, fmt.Sprintf(format, a...))
	}
}

func (c *Ctx) History() []string { return c.obs }

// Note attaches a short human description of the case.
func (c *Ctx) Note(s string) { c.note = s }

func (c *Ctx) stateHash(extra string) [32]byte {
	h := sha256.New()
	for _, p := range c.points {
		fmt.Fprintf(h, "%s=%d;", p.label, p.choice)
	}
	for _, o := range c.obs {
		fmt.Fprintf(h, "%s\n", o)
	}
	fmt.Fprintf(h, "@%s", extra)
	var r [32]byte
	copy(r[:], h.Sum(nil))
	return r
}

func (c *Ctx) deviationsBefore(i int) int {
	d := 0
	for _, p := range c.points[:i] {
		if p.costs && p.choice != 0 {
			d++
		}
	}
	return d
}

// ---------------------------------------------------------------- results

type Violation struct {
	Harness string   `json:"harness"`
	Choices []int    `json:"choices"`
	Labels  []string `json:"labels"`
	History []string `json:"history"`
	Message string   `json:"message"`
	Note    string   `json:"note,omitempty"`
}

type Stats struct {
	Harness     string         `json:"harness"`
	Executions  int            `json:"executions"`
	Transitions int            `json:"transitions"`
	States      int            `json:"states"`
	Outcomes    int            `json:"distinct_outcomes"`
	DevBound    int            `json:"deviation_bound"`
	Exhaustive  bool           `json:"exhaustive"`
	MaxDepth    int            `json:"max_depth"`
	WallS       float64        `json:"wall_s"`
	Tallies     map[string]int `json:"tallies,omitempty"`
}

type Options struct {
	Name      string
	DevBound  int // <0: unlimited
	Workers   int
	MaxExecs  int // 0: none
	Serialize bool
}

// Body runs one execution. A returned error is a property violation.
type Body func(c *Ctx) error

// ---------------------------------------------------------------- run

type Run struct {
	Prop     string
	Tier     string
	Seed     int
	start    time.Time
	deadline time.Time
	evDir    string
	replay   string

	mu         sync.Mutex
	stats      []*Stats
	samples    []any
	viols      []*Violation
	assume     []string
	bounds     []string
	known      []Known
	knownHits  map[string]bool
	tallies    map[string]int
	replayOnly *Violation
	diverged   bool
}

type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func Start(prop string) *Run {
	debug.SetGCPercent(400)
	if p := os.Getenv("VERIF_PPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		time.AfterFunc(60*time.Second, pprof.StopCPUProfile)
	}
	r := &Run{Prop: prop, Tier: os.Getenv("VERIF_TIER"), start: time.Now(), knownHits: map[string]bool{}, tallies: map[string]int{}}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 600 * time.Second
	if r.Tier == "thorough" {
		budget = 3 * time.Hour
	}
	if b := os.Getenv("VERIF_BUDGET_S"); b != "" {
		if n, err := strconv.Atoi(b); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	r.deadline = r.start.Add(budget)
	r.evDir = os.Getenv("VERIF_EVIDENCE_DIR")
	if r.evDir == "" {
		r.evDir = "/verif/evidence"
	}
	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		v := &Violation{}
		if err := json.Unmarshal(b, v); err != nil {
			panic(err)
		}
		r.replayOnly = v
	}
	if b, err := os.ReadFile(os.Getenv("VERIF_KNOWN")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.TrimSpace(l) == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
				continue
			}
			k := Known{}
			if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Status == "open" {
				r.known = append(r.known, k)
			}
		}
	}
	return r
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }
func (r *Run) Bound(s string)  { r.bounds = append(r.bounds, s) }

func (r *Run) Tally(k string) {
	r.mu.Lock()
	r.tallies[k]++
	r.mu.Unlock()
}

func (r *Run) expired() bool { return time.Now().After(r.deadline) }

type work struct{ prefix []int }

// safely runs the body, turning panics of the code under test into violations.
func safely(body Body, c *Ctx) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if d, ok := p.(divergence); ok {
				err = fmt.Errorf("HARNESS-DIVERGENCE %s", string(d))
				return
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return body(c)
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "GravityR") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Explore enumerates every choice sequence of body (within the deviation bound).
func (r *Run) Explore(o Options, body Body) {
	if o.Workers == 0 {
		o.Workers = runtime.NumCPU()
	}
	if o.Serialize {
		o.Workers = 1
	}
	st := &Stats{Harness: o.Name, DevBound: o.DevBound, Exhaustive: true, Tallies: map[string]int{}}
	t0 := time.Now()
	if r.replayOnly != nil {
		if r.replayOnly.Harness != o.Name {
			return
		}
		c := &Ctx{prefix: r.replayOnly.Choices}
		err := safely(body, c)
		fmt.Printf("replayed %s choices=%v\n", o.Name, c.prefix)
		for _, h := range c.obs {
			fmt.Println("  |", h)
		}
		if err != nil {
			fmt.Println("  => VIOLATION:", err)
			r.viols = append(r.viols, &Violation{Harness: o.Name, Choices: c.prefix, Message: err.Error(), History: c.obs})
		} else {
			fmt.Println("  => property held")
		}
		return
	}

	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := []work{{nil}}
	active := 0
	states := map[[32]byte]struct{}{}
	outcomes := map[[32]byte]struct{}{}
	stop := false
	const stateCap = 4_000_000
	stateOverflow := 0

	loop := func() {
		for {
			mu.Lock()
			for len(stack) == 0 && active > 0 && !stop {
				cond.Wait()
			}
			if stop || (len(stack) == 0 && active == 0) {
				cond.Broadcast()
				mu.Unlock()
				return
			}
			w := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			active++
			mu.Unlock()

			c := &Ctx{prefix: w.prefix}
			done := r.watch(o.Name, c)
			err := safely(body, c)
			done()
			if err == nil && len(c.points) < len(w.prefix) {
				err = fmt.Errorf("HARNESS-DIVERGENCE: execution consumed %d of %d recorded choices", len(c.points), len(w.prefix))
			}
			final := c.stateHash("end")
			var outc [32]byte
			{
				h := sha256.New()
				for _, ob := range c.obs {
					fmt.Fprintf(h, "%s\n", ob)
				}
				copy(outc[:], h.Sum(nil))
			}

			var next []work
			for i := len(w.prefix); i < len(c.points); i++ {
				p := c.points[i]
				if p.costs && o.DevBound >= 0 && c.deviationsBefore(i) >= o.DevBound {
					continue
				}
				for alt := p.n - 1; alt >= 1; alt-- {
					np := make([]int, i+1)
					for j := 0; j < i; j++ {
						np[j] = c.points[j].choice
					}
					np[i] = alt
					next = append(next, work{np})
				}
			}

			mu.Lock()
			active--
			st.Executions++
			st.Transitions += len(c.points) - len(w.prefix) + boolInt(len(w.prefix) > 0)
			if len(c.points) > st.MaxDepth {
				st.MaxDepth = len(c.points)
			}
			if len(states) < stateCap {
				for i, s := range c.states {
					if i >= len(w.prefix) {
						states[s] = struct{}{}
					}
				}
				states[final] = struct{}{}
			} else {
				stateOverflow += len(c.states) - len(w.prefix) + 1
			}
			if len(outcomes) < stateCap {
				outcomes[outc] = struct{}{}
			}
			stack = append(stack, next...)
			if st.Executions == 1 || (st.Executions < 1<<20 && st.Executions&(st.Executions-1) == 0 && st.Executions >= 64) {
				r.sample(o.Name, c)
			}
			if err != nil {
				mu.Unlock()
				r.violation(o, body, c, err)
				mu.Lock()
				if len(r.viols) > 0 {
					stop = true
				}
			}
			if r.expired() || (o.MaxExecs > 0 && st.Executions >= o.MaxExecs) {
				if len(stack) > 0 || active > 0 {
					st.Exhaustive = false
				}
				stop = true
			}
			cond.Broadcast()
			mu.Unlock()
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < o.Workers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); loop() }()
	}
	wg.Wait()
	st.States = len(states) + stateOverflow
	st.Outcomes = len(outcomes)
	st.WallS = time.Since(t0).Seconds()
	r.stats = append(r.stats, st)
	fmt.Printf("[%s] %-34s executions=%d states=%d transitions=%d outcomes=%d depth<=%d devbound=%d exhaustive=%v %.1fs\n",
		r.Prop, o.Name, st.Executions, st.States, st.Transitions, st.Outcomes, st.MaxDepth, o.DevBound, st.Exhaustive, st.WallS)
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (r *Run) sample(name string, c *Ctx) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) >= 24 {
		return
	}
	hist := c.obs
	if len(hist) > 14 {
		hist = append(append([]string{}, hist[:12]...), "...", hist[len(hist)-1])
	}
	m := map[string]any{"harness": name, "choices": choicesOf(c), "history": clip(hist)}
	if c.note != "" {
		m["case"] = c.note
	}
	r.samples = append(r.samples, m)
}

func clip(h []string) []string {
	var o []string
	for _, s := range h {
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		o = append(o, s)
	}
	return o
}

func choicesOf(c *Ctx) []string {
	var out []string
	for _, p := range c.points {
		out = append(out, fmt.Sprintf("%s:%d/%d", p.label, p.choice, p.n))
	}
	if len(out) > 60 {
		out = append(out[:60], "…")
	}
	return out
}

// violation confirms by re-running the same choices, then records it.
func (r *Run) violation(o Options, body Body, c *Ctx, err error) {
	choices := make([]int, len(c.points))
	labels := make([]string, len(c.points))
	for i, p := range c.points {
		choices[i] = p.choice
		labels[i] = fmt.Sprintf("%s=%d/%d", p.label, p.choice, p.n)
	}
	if strings.HasPrefix(err.Error(), "HARNESS-DIVERGENCE") {
		// The implementation behaved differently when the same environment answers were
		// replayed: not attributable to one execution; report as a harness error.
		fmt.Printf("[%s] harness divergence (ignored): %v\n", r.Prop, err)
		r.Tally("harness_divergence")
		r.mu.Lock()
		r.diverged = true
		r.mu.Unlock()
		return
	}
	// Confirm: the same choices are executed again. Every explored execution is a pure
	// function of its choices on a correct tree, so one reproduction out of twenty is
	// enough (the code under test may itself be non-deterministic).
	again := 0
	for i := 0; i < 20 && again == 0; i++ {
		c2 := &Ctx{prefix: choices}
		if e2 := safely(body, c2); e2 != nil && !strings.HasPrefix(e2.Error(), "HARNESS-DIVERGENCE") {
			again++
		}
	}
	if again == 0 {
		fmt.Printf("[%s] unconfirmed violation (20 re-runs held): %v\n", r.Prop, err)
		r.Tally("unconfirmed")
		return
	}
	for _, k := range r.known {
		if k.Match != "" && (strings.Contains(err.Error(), k.Match)) {
			r.mu.Lock()
			r.knownHits[k.What] = true
			r.mu.Unlock()
			return
		}
	}
	v := &Violation{Harness: o.Name, Choices: choices, Labels: labels, History: c.obs, Message: err.Error(), Note: c.note}
	r.mu.Lock()
	r.viols = append(r.viols, v)
	r.mu.Unlock()
}

// hangLimit is how long a single execution (normally milliseconds) may take before it is
// reported as a hang of the code under test.
const hangLimit = 150 * time.Second

// watch reports a violation and ends the process if one execution does not end.
func (r *Run) watch(name string, c *Ctx) func() {
	t := time.AfterFunc(hangLimit, func() {
		v := &Violation{Harness: name, Choices: append([]int{}, c.prefix...), Message: fmt.Sprintf("execution did not end within %v", hangLimit)}
		r.mu.Lock()
		r.viols = append(r.viols, v)
		r.mu.Unlock()
		r.Finish()
	})
	return func() { t.Stop() }
}

// Violated reports whether a violation was already found (later harnesses are skipped).
func (r *Run) Violated() bool { return len(r.viols) > 0 }

// Finish writes evidence and exits.
func (r *Run) Finish() {
	states, trans, execs := 0, 0, 0
	exh := true
	for _, s := range r.stats {
		states += s.States
		trans += s.Transitions
		execs += s.Executions
		exh = exh && s.Exhaustive
	}
	if r.replayOnly != nil {
		if len(r.viols) > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}
	if len(r.samples) == 0 {
		r.samples = []any{"none"}
	}
	sort.Strings(r.bounds)
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": execs,
			"samples": r.samples, "exhaustive": exh && len(r.viols) == 0 && !r.diverged, "bounds": r.bounds, "harnesses": r.stats, "tallies": r.tallies,
		},
		"assumptions": r.assume,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(r.viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(r.evDir, 0o755)
	if err := os.WriteFile(filepath.Join(r.evDir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	var kh []string
	for k := range r.knownHits {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	for _, k := range kh {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k)
	}
	if len(r.viols) == 0 {
		fmt.Printf("OK property=%s states=%d transitions=%d executions=%d exhaustive=%v\n", r.Prop, states, trans, execs, exh)
		os.Exit(0)
	}
	sort.SliceStable(r.viols, func(i, j int) bool { return len(r.viols[i].Choices) < len(r.viols[j].Choices) })
	v := r.viols[0]
	vb, _ := json.MarshalIndent(v, "", " ")
	sum := sha256.Sum256(vb)
	dir := filepath.Join(r.evDir, "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, r.Prop+"-"+hex.EncodeToString(sum[:4])+".json")
	os.WriteFile(p, append(vb, '\n'), 0o644)
	fmt.Printf("--- counterexample (%s) ---\n%s\nchoices: %s\n", v.Harness, v.Message, strings.Join(v.Labels, " "))
	for _, h := range clip(v.History) {
		fmt.Println("  |", h)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
	os.Exit(1)
}
