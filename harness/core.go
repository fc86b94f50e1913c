// Command zz_verif is the runtime-monitoring harness. It is compiled into
// the module under test through a build overlay (see ../check.sh) and driven
// as `zz_verif <property>`.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx carries everything one run of one property check records.
type Ctx struct {
	Prop    string
	Seed    int64
	Tier    string
	Root    string // /verif
	OnlyIdx int    // replay a single case when >= 0

	mu         sync.Mutex
	start      time.Time
	evals      int64
	distinct   map[string]struct{}
	counters   map[string]int64
	sets       map[string]map[string]struct{}
	samples    []interface{}
	violations []violation
	known      []knownFinding
	knownHit   map[string]int
	rule       string
	assume     []string
	expect     map[string]int64
	level      string
}

type violation struct {
	Class  string      `json:"class"`
	Detail string      `json:"detail"`
	Case   int         `json:"case"`
	Stage  string      `json:"stage"`
	Data   interface{} `json:"data,omitempty"`
	Replay string      `json:"replay"`
}

type knownFinding struct{ class, text string }

func newCtx(prop string) *Ctx {
	c := &Ctx{
		Prop: prop, Seed: 1, Tier: "quick", Root: "/verif", OnlyIdx: -1, start: time.Now(),
		distinct: map[string]struct{}{}, counters: map[string]int64{}, sets: map[string]map[string]struct{}{},
		knownHit: map[string]int{}, expect: map[string]int64{}, level: "exploration",
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			c.Seed = v
		}
	}
	if s := os.Getenv("VERIF_TIER"); s == "thorough" {
		c.Tier = s
	}
	if s := os.Getenv("VERIF_ROOT"); s != "" {
		c.Root = s
	}
	if s := os.Getenv("VERIF_CASE"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			c.OnlyIdx = v
		}
	}
	c.loadKnown()
	return c
}

// loadKnown reads the committed list of known findings. Lines:
//
//	known: property=C25 class=<class> <what fails>
//	fixed: property=C10 <commit> <what failed>     (suppresses nothing)
func (c *Ctx) loadKnown() {
	f, err := os.Open(filepath.Join(c.Root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+c.Prop+" class=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+c.Prop+" class=")
		parts := strings.SplitN(rest, " ", 2)
		k := knownFinding{class: parts[0]}
		if len(parts) == 2 {
			k.text = parts[1]
		}
		c.known = append(c.known, k)
	}
}

// Thorough scales a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

func (c *Ctx) Rule(s string)      { c.rule = s }
func (c *Ctx) Assume(s ...string) { c.assume = append(c.assume, s...) }

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Expect makes the run inconclusive (exit 2) if fewer than min events of
// the given counter were observed: a monitor that saw nothing decides nothing.
func (c *Ctx) Expect(name string, min int64) {
	c.mu.Lock()
	c.expect[name] = min
	c.mu.Unlock()
}

// Seen adds a value to a named set whose size is reported.
func (c *Ctx) Seen(set, v string) {
	c.mu.Lock()
	m := c.sets[set]
	if m == nil {
		m = map[string]struct{}{}
		c.sets[set] = m
	}
	m[v] = struct{}{}
	c.mu.Unlock()
}

// Eval records one evaluated case; key identifies it for distinctness and is
// empty if the case is trivial.
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	c.evals++
	if key != "" {
		h := sha256.Sum256([]byte(key))
		c.distinct[string(h[:12])] = struct{}{}
	}
	c.mu.Unlock()
}

func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Case is one generated case.
type Case struct {
	*Ctx
	Idx   int
	Stage string
	R     *rand.Rand
	failN int
}

// Fail reports a violation of the property. class names the kind of failing
// history, and is what the known-findings file refers to.
func (k *Case) Fail(class, format string, args ...interface{}) {
	k.FailData(class, nil, format, args...)
}

func (k *Case) FailData(class string, data interface{}, format string, args ...interface{}) {
	c := k.Ctx
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, kf := range c.known {
		if kf.class == class {
			c.knownHit[class]++
			return
		}
	}
	k.failN++
	if k.failN > 5 || len(c.violations) > 40 {
		return
	}
	c.violations = append(c.violations, violation{Class: class, Detail: fmt.Sprintf(format, args...), Case: k.Idx, Stage: k.Stage, Data: data})
}

// Failed tells whether this case already reported something.
func (k *Case) Failed() bool { return k.failN > 0 }

// inconclusive aborts the run with an error exit.
func inconclusive(format string, args ...interface{}) {
	fmt.Printf("INCONCLUSIVE "+format+"\n", args...)
	exitWith(2)
}

// exitWith ends the run. What was observed to be violated before stands.
func exitWith(code int) {
	if c := running; c != nil && len(c.violations) > 0 {
		c.finish()
	}
	os.Exit(code)
}

// running is the check of this process.
var running *Ctx

// Cases runs n cases on all cores. Each case has its own PRNG derived from
// the seed, the property, the stage and its index only.
func (c *Ctx) Cases(stage string, n int, f func(k *Case)) {
	c.CasesW(stage, n, runtime.GOMAXPROCS(0), f)
}

func (c *Ctx) CasesW(stage string, n, workers int, f func(k *Case)) {
	var next int64 = -1
	var wg sync.WaitGroup
	if os.Getenv("VERIF_WORKERS") == "1" {
		workers = 1
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if c.OnlyIdx >= 0 && i != c.OnlyIdx {
					continue
				}
				c.runCase(stage, i, f)
			}
		}()
	}
	wg.Wait()
}

func (c *Ctx) runCase(stage string, i int, f func(k *Case)) {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s/%d", c.Seed, c.Prop, stage, i)))
	var s int64
	for j := 0; j < 8; j++ {
		s = s<<8 | int64(h[j])
	}
	k := &Case{Ctx: c, Idx: i, Stage: stage, R: rand.New(rand.NewSource(s))}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortCase); ok {
				return
			}
			if sf, ok := r.(startFailure); ok {
				k.Fail("start", "an application which is valid does not start: %s", string(sf))
				return
			}
			// A panic which escapes a case that does not deal with panics of the
			// code under test itself. If the innermost non-runtime frame is in the
			// repository it is the code under test which crashed on an input of
			// this property's domain.
			st := string(debug.Stack())
			if crashedInRepo(st) {
				k.FailData("panic", st, "panic in code under test: %v", r)
				return
			}
			// A monitor which trips over a nil pointer or a missing element was
			// handed a result of a shape the property excludes. Anything else
			// (a full disk, say) is a failure of the harness.
			if _, ok := r.(runtime.Error); ok {
				k.FailData("shape", st, "the monitor cannot read what the code under test returned: %v", r)
				return
			}
			fmt.Printf("INCONCLUSIVE harness panic in %s case %d: %v\n%s\n", stage, i, r, st)
			exitWith(2)
		}
	}()
	limit := 400 * time.Second
	if c.Tier == "thorough" {
		limit = time.Hour
	}
	dog := time.AfterFunc(limit, func() {
		buf := make([]byte, 1<<18)
		buf = buf[:runtime.Stack(buf, true)]
		k.FailData("hang", string(buf), "the case does not end within %v", limit)
		running = nil
		c.finish()
	})
	defer dog.Stop()
	f(k)
}

type abortCase struct{}

// startFailure is the panic value for a valid application, or a valid
// preparation of one, which the code under test refuses.
type startFailure string

// Abort ends the current case silently (after a Fail).
func (k *Case) Abort() { panic(abortCase{}) }

// crashedInRepo tells whether the first frame after the panic machinery
// belongs to the repository (directly or below library frames called by it)
// rather than to the harness.
func crashedInRepo(stack string) bool {
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.HasPrefix(l, "github.com/fdymylja/tmos/") && !strings.Contains(l, "zz_verif") {
			return true
		}
	}
	return false
}

// crashed judges a run of this check which the runtime ended: a stack
// overflow, a fatal error or a panic of a goroutine nothing recovers. The
// argument is what that run wrote to its standard error. It does not return.
func (c *Ctx) crashed(stderrFile string) {
	b, _ := os.ReadFile(stderrFile)
	text := string(b)
	at := -1
	for _, mark := range []string{"\nfatal error: ", "\npanic: "} {
		if i := strings.Index("\n"+text, mark); i >= 0 && (at < 0 || i < at) {
			at = i
		}
	}
	if at < 0 {
		os.Exit(2)
	}
	text = text[at:]
	what := strings.TrimSpace(strings.SplitN(text, "\n", 2)[0])
	g := strings.Index(text, "\ngoroutine ")
	if g < 0 {
		os.Exit(2)
	}
	stack := text[g+1:]
	if e := strings.Index(stack, "\n\n"); e >= 0 {
		stack = stack[:e]
	}
	// The innermost frame which is neither of a library nor of the runtime
	// decides whose crash it is.
	for _, l := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(l, "main.") || strings.Contains(l, "zz_verif"):
			os.Exit(2)
		case strings.HasPrefix(l, "github.com/fdymylja/tmos/"):
			if len(stack) > 20000 {
				stack = stack[:20000]
			}
			k := &Case{Ctx: c, Stage: "process"}
			k.FailData("crash", stack, "the process is ended by %q in %s", what, l)
			c.finish()
		}
	}
	os.Exit(2)
}

// safe runs f and returns the value it panicked with, if any, and the stack.
func safe(f func()) (pv interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case abortCase, startFailure:
				panic(r)
			}
			pv = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

func (c *Ctx) finish() {
	running = nil
	wall := time.Since(c.start).Seconds()
	evDir := filepath.Join(c.Root, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	for i := range c.violations {
		v := &c.violations[i]
		if i >= 5 {
			break
		}
		v.Replay = filepath.Join(evDir, fmt.Sprintf("%s-violation-%d.json", c.Prop, i))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": c.Prop, "seed": c.Seed, "tier": c.Tier, "violation": v,
			"replay_cmd": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s VERIF_CASE=%d bash /verif/check.sh %s", c.Seed, c.Tier, v.Case, c.Prop),
		}, "", " ")
		_ = os.WriteFile(v.Replay, b, 0o644)
	}
	cov := map[string]interface{}{
		"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": c.rule, "samples": c.samples,
	}
	keys := make([]string, 0, len(c.counters))
	for k := range c.counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	obs := map[string]int64{}
	for _, k := range keys {
		obs[k] = c.counters[k]
	}
	cov["observed_events"] = obs
	ds := map[string]int{}
	for k, m := range c.sets {
		ds[k] = len(m)
	}
	if len(ds) > 0 {
		cov["distinct_observed"] = ds
	}
	if len(c.knownHit) > 0 {
		cov["known_finding_hits"] = c.knownHit
	}
	if len(c.samples) == 0 {
		cov["samples"] = []interface{}{"none"}
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.level, "coverage": cov, "wall_s": wall,
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	var vs []string
	for _, v := range c.violations {
		vs = append(vs, strings.ToValidUTF8(fmt.Sprintf("[%s] case %s/%d: %s", v.Class, v.Stage, v.Case, v.Detail), "?"))
	}
	if vs != nil {
		ev["violations"] = vs
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		inconclusive("cannot encode evidence: %v", err)
	}
	if c.OnlyIdx < 0 {
		if err := os.WriteFile(filepath.Join(evDir, c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
			inconclusive("cannot write evidence: %v", err)
		}
	}
	fmt.Printf("%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", c.Prop, c.Tier, c.Seed, c.evals, len(c.distinct), wall)
	for _, k := range keys {
		fmt.Printf("  %s=%d\n", k, c.counters[k])
	}
	if len(c.violations) > 0 {
		for i, v := range c.violations {
			if i >= 5 {
				fmt.Printf("... %d more\n", len(c.violations)-i)
				break
			}
			fmt.Printf("  [%s] case %s/%d: %s\n", v.Class, v.Stage, v.Case, strings.ToValidUTF8(v.Detail, "?"))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, v.Replay)
		}
		os.Exit(1)
	}
	if c.OnlyIdx < 0 {
		for name, min := range c.expect {
			if c.counters[name] < min {
				inconclusive("property %s: observed only %d of at least %d %s events", c.Prop, c.counters[name], min, name)
			}
		}
		if c.evals == 0 {
			inconclusive("property %s: nothing evaluated", c.Prop)
		}
	}
	for _, kf := range c.known {
		// listed findings are announced whether or not this seed hit them
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, kf.text)
	}
	os.Exit(0)
}

func hexs(b []byte) string {
	if len(b) > 600 {
		return hex.EncodeToString(b[:600]) + fmt.Sprintf("...(%d)", len(b))
	}
	return hex.EncodeToString(b)
}

// pick returns one of the given strings.
func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func pickN(r *rand.Rand, xs ...uint64) uint64 { return xs[r.Intn(len(xs))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }
