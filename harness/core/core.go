// Package core runs workloads under monitors, collects what the monitors
// observed, and turns violations into replay files, evidence and exit codes.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/gen"
)

// Ctx is the state of one check run.
type Ctx struct {
	ID, Tier string
	Seed     int64
	Root     string // /verif
	Repo     string
	Rule     string
	Assume   []string
	Level    string

	start    time.Time
	evals    atomic.Int64
	mu       sync.Mutex
	viol     []violation
	violN    int
	known    map[string]bool
	knownHit map[string]string
	tags     sync.Map // string -> *atomic.Int64
	seen     [64]map[uint64]struct{}
	seenMu   [64]sync.Mutex
	samples  map[string][]any
	extra    map[string]any

	onlyStream string
	onlyIndex  int
	replaying  bool
}

type violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Stream   string `json:"stream"`
	Index    int    `json:"index"`
	Key      string `json:"key"`
	Message  string `json:"message"`
}

// Case is one execution observed by the monitors.
type Case struct {
	gen.R
	X      *Ctx
	Stream string
	Index  int
	last   atomic.Value
}

// NewCtx builds a context from the environment.
func NewCtx(id string) *Ctx {
	x := &Ctx{ID: id, Tier: "quick", Seed: 1, Root: "/verif", Repo: "/repo", Level: "exploration", start: time.Now(),
		known: map[string]bool{}, knownHit: map[string]string{}, samples: map[string][]any{}, extra: map[string]any{}, onlyIndex: -1}
	if v := os.Getenv("VERIF_TIER"); v != "" {
		x.Tier = v
	}
	if v := os.Getenv("VERIF_SEED"); v != "" {
		fmt.Sscan(v, &x.Seed)
	}
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		x.Root = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		x.Repo = v
	}
	for i := range x.seen {
		x.seen[i] = map[uint64]struct{}{}
	}
	if b, err := os.ReadFile(filepath.Join(x.Root, "known_findings.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			// "known: property=C01 key=<key>"
			var rest string
			if _, ok := strings.CutPrefix(l, "known: property="+id+" "); ok {
				rest = l[strings.Index(l, "key=")+4:]
				x.known[rest] = true
			}
		}
	}
	return x
}

// Thorough reports the deep tier.
func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// N scales a quick count for the tier.
func (x *Ctx) N(quick int) int {
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		var f float64
		fmt.Sscan(s, &f)
		return max(1, int(float64(quick)*f))
	}
	if f, ok := weight[x.ID]; ok {
		quick = int(float64(quick) * f)
	}
	if x.Thorough() {
		return quick * 12
	}
	return quick
}

// weight evens out the cost of the checks: each takes about half a minute on eight cores.
var weight = map[string]float64{
	"C01": 1.3, "C02": 8, "C03": 5, "C04": 9, "C05": 10, "C06": 10, "C08": 10, "C09": 6, "C10": 10, "C11": 10,
	"C12": 10, "C15": 10, "C16": 10, "C17": 10, "C18": 12, "C19": 10, "C20": 2, "C21": 2, "C22": 14, "C23": 2,
}

// Replay restricts the run to the case of a replay file.
func (x *Ctx) Replay(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	x.Seed, x.Tier = v.Seed, v.Tier
	x.onlyStream, x.onlyIndex, x.replaying = v.Stream, v.Index, true
	return nil
}

// Run executes n cases of a stream on all cores.
func (x *Ctx) Run(stream string, n int, f func(c *Case)) { x.RunW(stream, n, runtime.GOMAXPROCS(0), f) }

// RunW is Run with a chosen number of workers.
func (x *Ctx) RunW(stream string, n, workers int, f func(c *Case)) {
	if x.replaying {
		if x.onlyStream == stream {
			x.one(&Case{X: x, Stream: stream, Index: x.onlyIndex}, f)
		}
		return
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	type slot struct {
		c  atomic.Pointer[Case]
		at atomic.Int64
	}
	slots := make([]slot, workers)
	done := make(chan struct{})
	go func() { // watchdog for termination: only an extreme stall counts
		// counted in ticks, which do not pass while the process is suspended
		t := time.NewTicker(5 * time.Second)
		defer t.Stop()
		since, ticks := make([]int64, workers), make([]int, workers)
		for {
			select {
			case <-done:
				return
			case <-t.C:
				for i := range slots {
					c := slots[i].c.Load()
					if at := slots[i].at.Load(); c == nil || at != since[i] {
						since[i], ticks[i] = at, 0
						continue
					}
					if ticks[i]++; ticks[i] > 300/5 {
						l, _ := c.last.Load().(string)
						c.Fail("no-termination", "call did not return within 300 s: %s", l)
						x.Finish()
					}
				}
			}
		}
	}()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(s *slot) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || x.tooMany() {
					return
				}
				c := &Case{X: x, Stream: stream, Index: i}
				s.at.Store(time.Now().UnixNano())
				s.c.Store(c)
				x.one(c, f)
				s.c.Store(nil)
			}
		}(&slots[w])
	}
	wg.Wait()
	close(done)
}

func (x *Ctx) one(c *Case, f func(c *Case)) {
	c.R = gen.New(x.Seed, x.ID+"/"+c.Stream, c.Index)
	defer func() {
		if p := recover(); p != nil {
			l, _ := c.last.Load().(string)
			c.Fail("panic", "panic: %v\nlast call: %s\n%s", p, l, debug.Stack())
		}
	}()
	f(c)
}

// Note records the call about to be made, for panic and stall reports.
func (c *Case) Note(format string, a ...any) { c.last.Store(fmt.Sprintf(format, a...)) }

// Eval counts one monitored execution.
func (c *Case) Eval() { c.X.evals.Add(1) }

// Eval counts monitored executions outside of cases.
func (x *Ctx) Eval(n int) { x.evals.Add(int64(n)) }

// Seen records a distinct non-trivial observation.
func (c *Case) Seen(parts ...any) { c.X.Seen(parts...) }

// Seen records a distinct non-trivial observation.
func (x *Ctx) Seen(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	s := h.Sum64()
	k := s % 64
	x.seenMu[k].Lock()
	x.seen[k][s] = struct{}{}
	x.seenMu[k].Unlock()
}

// Tag counts an observed event by label.
func (c *Case) Tag(label string) { c.X.Tag(label, 1) }

// Tag counts an observed event by label.
func (x *Ctx) Tag(label string, n int64) {
	v, ok := x.tags.Load(label)
	if !ok {
		v, _ = x.tags.LoadOrStore(label, new(atomic.Int64))
	}
	v.(*atomic.Int64).Add(n)
}

// TagCount reads an event counter.
func (x *Ctx) TagCount(label string) int64 {
	if v, ok := x.tags.Load(label); ok {
		return v.(*atomic.Int64).Load()
	}
	return 0
}

// Sample keeps a few written-out cases per label.
func (c *Case) Sample(label string, v any) { c.X.Sample(label, v) }

// Sample keeps a few written-out cases per label.
func (x *Ctx) Sample(label string, v any) {
	x.mu.Lock()
	if len(x.samples[label]) < 2 {
		x.samples[label] = append(x.samples[label], v)
	}
	x.mu.Unlock()
}

// Extra puts a measured value into the evidence.
func (x *Ctx) Extra(k string, v any) {
	x.mu.Lock()
	x.extra[k] = v
	x.mu.Unlock()
}

// Open reports that a run has not been decided by a violation and is not a replay.
func (x *Ctx) Open() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.violN == 0 && !x.replaying
}

func (x *Ctx) tooMany() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.violN >= 25
}

// Fail reports a violation. key identifies the failing call and input.
func (c *Case) Fail(key, format string, a ...any) {
	c.X.fail(c.Stream, c.Index, key, fmt.Sprintf(format, a...))
}

// Fail reports a violation outside of a case.
func (x *Ctx) Fail(stream, key, format string, a ...any) {
	x.fail(stream, 0, key, fmt.Sprintf(format, a...))
}

func (x *Ctx) fail(stream string, index int, key, msg string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.known[key] {
		x.knownHit[key] = msg
		return
	}
	x.violN++
	if len(x.viol) < 25 {
		x.viol = append(x.viol, violation{x.ID, x.Tier, x.Seed, stream, index, key, msg})
	}
}

// Finish writes the evidence and exits with the verdict.
func (x *Ctx) Finish() {
	x.mu.Lock()
	var distinct int
	for i := range x.seen {
		x.seenMu[i].Lock()
		distinct += len(x.seen[i])
		x.seenMu[i].Unlock()
	}
	tags := map[string]int64{}
	x.tags.Range(func(k, v any) bool { tags[k.(string)] = v.(*atomic.Int64).Load(); return true })
	var samples []any
	var labels []string
	for l := range x.samples {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	for _, l := range labels {
		for _, s := range x.samples[l] {
			if len(samples) < 40 {
				samples = append(samples, map[string]any{"kind": l, "case": s})
			}
		}
	}
	cov := map[string]any{"evaluations": x.evals.Load(), "distinct_nontrivial": distinct, "rule": x.Rule, "samples": samples, "observed_events": tags}
	for k, v := range x.extra {
		cov[k] = v
	}
	ev := map[string]any{"property": x.ID, "tier": x.Tier, "seed": x.Seed, "level": x.Level, "coverage": cov,
		"assumptions": x.Assume, "wall_s": time.Since(x.start).Seconds(), "violations": x.violN}
	if x.Assume == nil {
		delete(ev, "assumptions")
	}
	if !x.replaying {
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			os.Exit(3)
		}
		os.MkdirAll(filepath.Join(x.Root, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(x.Root, "evidence", x.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			os.Exit(3)
		}
	}
	var ks []string
	for k := range x.knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", x.ID, k)
	}
	if x.violN > 0 {
		dir := filepath.Join(x.Root, "replays")
		os.MkdirAll(dir, 0o755)
		for i, v := range x.viol {
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", x.ID, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0o644)
			if i < 10 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", x.ID, p)
				fmt.Printf("  [%s #%d] %s\n", v.Stream, v.Index, v.Message)
			}
		}
		os.Exit(1)
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", x.ID, x.Tier, x.Seed, x.evals.Load(), distinct, time.Since(x.start).Seconds())
	os.Exit(0)
}
