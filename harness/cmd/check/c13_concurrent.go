package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/nyaruka/phonenumbers/v2"

	"verif/core"
	"verif/gen"
)

func init() {
	checks["C13"] = checkConcurrent
	children["race"] = raceChild
	children["order"] = orderChild
}

// children are the modes this binary is started in by a check.
var children = map[string]func(e *env, arg []string){}

func hash(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return strconv.FormatUint(h.Sum64(), 36)
}

// job is one operation on one set of arguments.
type job struct {
	o op
	a *args
	i int // number of the job in the sequential order
}

// jobs builds the job list of a child; only the model is used for it, so that
// the library's lazily built state is untouched when the jobs start.
func (e *env) jobs(stream string, n int, focus string) []job {
	var js []job
	for i := 0; i < n; i++ {
		c := &core.Case{R: gen.New(e.Seed, stream, i), X: e.Ctx, Stream: stream, Index: i}
		a := e.args(c, c.P(4))
		for _, o := range raceOps() {
			if focus == "" || strings.Contains(","+focus+",", ","+o.name+",") {
				js = append(js, job{o, a, len(js)})
			}
		}
	}
	return js
}

func raceOps() []op {
	return append(append([]op{}, ops...), op{"Collections", "", func(a *args) string {
		x, e1 := phonenumbers.MetadataCollection()
		y, e2 := phonenumbers.ShortNumberMetadataCollection()
		return fmt.Sprint(len(x.GetMetadata()), len(y.GetMetadata()), e1, e2)
	}}, op{"OwnNumber", "n", func(a *args) string {
		p := &pb{}
		err := phonenumbers.ParseAndKeepRawInputToNumber(a.s, a.reg, p)
		phonenumbers.TruncateTooLongNumber(p)
		return showErr(err) + rawPB(p)
	}})
}

func runJob(j job) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	return j.o.run(j.a)
}

type raceReport struct {
	Jobs, Goroutines, Runs int
	Seq                    []string         // hash per job of the sequential pass
	Diff                   []string         // results that differ
	Changed                []string         // shared arguments that changed
	Overlap                map[string]int64 // operation pairs seen in progress at the same time
}

// raceChild runs the jobs on many goroutines from a cold start, then once more
// sequentially, and reports.
func raceChild(e *env, arg []string) {
	stream, focus, out := arg[0], arg[1], arg[5]
	n, _ := strconv.Atoi(arg[2])
	g, _ := strconv.Atoi(arg[3])
	procs, _ := strconv.Atoi(arg[4])
	if procs > 0 {
		runtime.GOMAXPROCS(procs)
	}
	js := e.jobs(stream, n, focus)
	before := make([]string, len(js))
	for i, j := range js {
		before[i] = j.a.String()
	}
	rep := raceReport{Jobs: len(js), Goroutines: g, Overlap: map[string]int64{}}
	res := make([][]string, g)
	ord := make([][]int, g)
	type span struct{ a, b int64 }
	spans := make([][]span, g)
	if g > 0 {
		start := make(chan struct{})
		var wg sync.WaitGroup
		t0 := time.Now()
		for k := 0; k < g; k++ {
			// no synchronisation between the goroutines from here on: every one
			// writes to its own slices only
			res[k] = make([]string, len(js))
			spans[k] = make([]span, len(js))
			r := gen.New(e.Seed, stream+"/order", k)
			ord[k] = r.Perm(len(js))
			if k%2 == 0 { // half of them start with the same job: contention on first use
				for i := range ord[k] {
					ord[k][i] = i
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for x, i := range ord[k] {
					a := time.Since(t0)
					res[k][i] = runJob(js[i])
					spans[k][x] = span{int64(a), int64(time.Since(t0))}
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	seq := make([]string, len(js))
	for i, j := range js {
		seq[i] = runJob(j)
		rep.Seq = append(rep.Seq, hash(seq[i]))
	}
	for k := 0; k < g; k++ {
		for i := range js {
			rep.Runs++
			if res[k][i] != seq[i] && len(rep.Diff) < 20 {
				rep.Diff = append(rep.Diff, fmt.Sprintf("%s concurrently gave %q, alone %q\n  arguments: %s", js[i].o.name, res[k][i], seq[i], before[i]))
			}
		}
	}
	for i, j := range js {
		if s := j.a.String(); s != before[i] && len(rep.Changed) < 20 {
			rep.Changed = append(rep.Changed, fmt.Sprintf("arguments changed during the run\n  before %s\n  after  %s", before[i], s))
		}
	}
	// which operations were in progress at the same time
	for k := 0; k+1 < g; k++ {
		p := 0
		for x, s := range spans[k] {
			for p < len(spans[k+1]) && spans[k+1][p].b < s.a {
				p++
			}
			for q := p; q < len(spans[k+1]) && spans[k+1][q].a < s.b; q++ {
				m, o := js[ord[k][x]].o.name, js[ord[k+1][q]].o.name
				if m > o {
					m, o = o, m
				}
				rep.Overlap[m+"/"+o]++
			}
		}
	}
	b, err := json.Marshal(rep)
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// child starts this binary in a mode and waits for it.
func (e *env) child(dir string, timeout time.Duration, extra []string, arg ...string) (string, error) {
	cmd := exec.Command(os.Args[0], append([]string{"-child"}, arg...)...)
	cmd.Env = append(os.Environ(), append([]string{"VERIF_SEED=" + fmt.Sprint(e.Seed), "VERIF_TIER=" + e.Tier}, extra...)...)
	cmd.Dir = dir
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return "", err
	}
	t := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		err = fmt.Errorf("did not end within %v", timeout)
	}
	return out.String(), err
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// C13: concurrent use.
func checkConcurrent(e *env) {
	e.Rule = "distinct pairs of operations that were in progress at the same time in some process, per kind of workload; every process is built with the race detector"
	if !raceEnabled {
		fmt.Fprintln(os.Stderr, "C13 needs a binary built with -race")
		os.Exit(3)
	}
	dir, err := os.MkdirTemp("", "c13-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	type plan struct {
		focus       string
		n, g, procs int
	}
	ps := []plan{
		{"", 120, 8, 0}, {"", 60, 24, 0}, {"", 90, 6, 2}, {"", 60, 16, 16},
		{"Geocoding", 160, 12, 0}, {"Carrier", 160, 12, 0}, {"TimeZone", 200, 12, 0}, {"Geocoding,Carrier,TimeZone", 100, 16, 0},
		{"FindNumbers,FindNumbersWithLeniency,Verify", 120, 12, 0}, {"Verify", 300, 16, 0}, {"AsYouType", 150, 12, 0},
		{"Parse,ParseAndKeepRawInput,Format", 300, 12, 0}, {"Format,FormatInOriginalFormat,FormatNumberForMobileDialing,FormatOutOfCountryKeepingAlphaChars", 150, 12, 0},
		{"Short,Emergency", 250, 12, 0}, {"IsValidNumber,GetNumberType,IsPossible,GetRegionCodeForNumber", 250, 12, 0},
		{"Supported,Region,CallingCode,Collections,Example", 60, 12, 0}, {"Example,CanBeInternationallyDialled,GetLengthOf", 150, 12, 0},
		{"IsNumberMatch,IsNumberMatchWithNumbers,IsNumberMatchWithOneNumber", 200, 12, 0}, {"FormatByPattern,FormatNationalNumberWithCarrierCode,FormatNationalNumberWithPreferredCarrierCode", 200, 12, 0},
		{"Normalize,ParseToNumber,TruncateTooLongNumber,OwnNumber", 200, 12, 0},
	}
	reps := 1
	if e.Thorough() {
		reps = 8
	}
	type key struct {
		a, b string
		p    int
	}
	pairs := map[key]int64{}
	var mu sync.Mutex
	e.RunW("process", len(ps)*reps, 4, func(c *core.Case) {
		p := ps[c.Index%len(ps)]
		stream := fmt.Sprintf("C13/%d", c.Index)
		name := func(s string) string { return filepath.Join(dir, fmt.Sprintf("%s-%d", s, c.Index)) }
		c.Note("process %d: %+v", c.Index, p)
		run := func(g int, file, logs string) *raceReport {
			out, err := e.child(dir, 600*time.Second, []string{"GORACE=halt_on_error=0 exitcode=0 log_path=" + logs},
				"race", stream, p.focus, strconv.Itoa(p.n), strconv.Itoa(g), strconv.Itoa(p.procs), file)
			if err != nil {
				c.Fail(fmt.Sprintf("crash|%d", c.Index), "process with %d goroutines on [%s] died: %v\n%s", g, p.focus, err, tail(out, 6000))
				return nil
			}
			b, err := os.ReadFile(file)
			r := &raceReport{}
			if err == nil {
				err = json.Unmarshal(b, r)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, "child report:", err)
				os.Exit(3)
			}
			return r
		}
		par := run(p.g, name("par"), name("log"))
		races := 0
		fs, _ := filepath.Glob(name("log") + ".*")
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			k := bytes.Count(b, []byte("WARNING: DATA RACE"))
			if k > 0 && races == 0 {
				c.Fail(fmt.Sprintf("race|%d", c.Index), "%d data races among %d goroutines running [%s]; first:\n%.4000s", k, p.g, p.focus, b)
			}
			races += k
		}
		if par == nil {
			return
		}
		alone := run(0, name("seq"), name("slog"))
		if alone == nil {
			return
		}
		for i, d := range par.Diff {
			if i < 3 {
				c.Fail(fmt.Sprintf("result|%d", c.Index), "%s", d)
			}
		}
		for i, d := range par.Changed {
			if i < 3 {
				c.Fail(fmt.Sprintf("argument|%d", c.Index), "%s", d)
			}
		}
		for i := range alone.Seq {
			if i >= len(par.Seq) || alone.Seq[i] != par.Seq[i] {
				c.Fail(fmt.Sprintf("after|%d", c.Index), "after the concurrent run job %d of [%s] answers differently than in a process that never ran concurrently", i, p.focus)
				break
			}
		}
		e.Eval(par.Runs)
		c.Tag("process")
		e.Tag("jobs", int64(par.Jobs))
		e.Tag("concurrent-executions", int64(par.Runs))
		e.Tag("data-races", int64(races))
		mu.Lock()
		defer mu.Unlock()
		for k, v := range par.Overlap {
			x, y, _ := strings.Cut(k, "/")
			pairs[key{x, y, c.Index % len(ps)}] += v
			e.Tag("overlapping-pairs", v)
		}
	})
	var top []string
	for k, v := range pairs {
		e.Seen(k.a, k.b, k.p)
		if v > 0 {
			top = append(top, fmt.Sprintf("%s with %s: %d (workload %d)", k.a, k.b, v, k.p))
		}
	}
	sort.Strings(top)
	for i := 0; i < len(top); i += 1 + len(top)/8 {
		e.Sample("overlap-"+strconv.Itoa(i), top[i])
	}
}
