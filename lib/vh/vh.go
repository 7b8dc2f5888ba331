//go:build go1.21

// Package vh runs a check: it splits the exploration over processes, collects
// what they found, confirms violations by replaying them in fresh processes
// and writes the evidence.
package vh

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/vivint/rothko/zz_verif/vs"
)

// Check is a whole check.
type Check struct {
	ID          string
	Level       string // model_checking or fault_enumeration
	Rule        string
	Assumptions []string
	Scenarios   func(tier string) []Scenario
}

// Scenario is a closed system that is explored exhaustively within bounds.
type Scenario struct {
	Name   string
	Opt    vs.Options
	Bound  vs.Bound
	Weight float64

	// Body runs as the main thread of every execution.
	Body func()

	// Prepare, when set, runs once before as an execution of its own.
	Prepare func()

	// Enum, when set, enumerates inputs natively instead.
	Enum func(e *Enum)

	MaxExecs int64
}

// Enum is the state of a native enumeration.
type Enum struct {
	shard, shards int64
	n             int64
	only          int64
	Cases         int64
	Calls         int64
	deadline      time.Time
	Stopped       bool
	fails         []failure
	Outcomes      map[string]int64
	Samples       []string
	cur           int64
	cw            func(int64)
	trace         bool
}

// Next moves to the next case and reports if this process has to run it.
func (e *Enum) Next() bool {
	e.n++
	if e.only >= 0 {
		if e.n-1 != e.only {
			return false
		}
	} else if (e.n-1)%e.shards != e.shard {
		return false
	}
	if e.Stopped {
		return false
	}
	if e.Cases%16 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
		e.Stopped = true
		return false
	}
	e.cur = e.n - 1
	e.Cases++
	if e.cw != nil {
		e.cw(e.cur)
	}
	return true
}

// Failf records a violation in the current case.
func (e *Enum) Failf(kind, format string, args ...any) {
	if len(e.fails) < 25 {
		e.fails = append(e.fails, failure{Kind: kind, Msg: fmt.Sprintf(format, args...), Choices: []int32{int32(e.cur >> 31), int32(e.cur & 0x7fffffff)}})
	}
}

// Sample records an example case.
func (e *Enum) Sample(format string, args ...any) {
	if len(e.Samples) < 5 {
		e.Samples = append(e.Samples, fmt.Sprintf(format, args...))
	}
}

// Outcome counts an observed kind of result.
func (e *Enum) Outcome(o string) {
	if len(e.Outcomes) < 10000 {
		e.Outcomes[o]++
	}
}

// Try runs one case and turns a panic into a violation.
func (e *Enum) Try(what string, fn func()) {
	defer func() {
		if r := recover(); r != nil {
			e.Failf("panic", "%s: panic: %v\n%s", what, r, shortStack())
		}
	}()
	e.Calls++
	fn()
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

type failure struct {
	Scenario string
	Kind     string
	Msg      string
	Detail   string
	Choices  []int32
	Log      string
}

type scenResult struct {
	Name     string
	Execs    int64
	Nodes    int64
	Steps    int64
	Depth    int
	Complete bool
	Outcomes map[uint64]int64
	Samples  []string
	Enum     bool
	Bound    vs.Bound
	Fails    []failure
	Wall     float64
}

type workerResult struct{ Scens []scenResult }

type replayFile struct {
	Property string
	Tier     string
	Scenario string
	Choices  []int32
	Kind     string
	Msg      string
	Detail   string
	Trace    []string
	Log      string
}

var (
	tier    string
	scratch string
)

// Scratch is a directory for the harness that is removed in the end.
func Scratch() string { return scratch }

// Tier is quick or thorough.
func Tier() string { return tier }

// Thorough reports if the thorough tier runs.
func Thorough() bool { return tier == "thorough" }

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", args...)
	os.Exit(3)
}

func newScratch() string {
	base := os.Getenv("VH_SCRATCH")
	if base == "" {
		base = os.TempDir()
		if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
			base = "/dev/shm"
		}
	}
	d, err := os.MkdirTemp(base, "vh-")
	if err != nil {
		d, err = os.MkdirTemp("", "vh-")
		if err != nil {
			fatal("scratch: %v", err)
		}
	}
	return d
}

// Main runs the check.
func Main(c Check) {
	tier = os.Getenv("VH_TIER")
	if tier == "" {
		tier = "quick"
	}
	debug.SetGCPercent(400)
	if w := os.Getenv("VH_WORKER"); w != "" {
		runtime.GOMAXPROCS(1)
		scratch = newScratch()
		code := worker(c, w)
		os.RemoveAll(scratch)
		os.Exit(code)
	}
	if r := os.Getenv("VH_REPLAY"); r != "" {
		runtime.GOMAXPROCS(1)
		scratch = newScratch()
		code := replay(c, r)
		os.RemoveAll(scratch)
		os.Exit(code)
	}
	os.Exit(parent(c))
}

// filterScens selects the scenarios. the heavy ones run last, with all of the
// time that is left.
func filterScens(in []Scenario) []Scenario {
	for i := range in {
		if in[i].Weight == 0 {
			in[i].Weight = 1
		}
	}
	sort.SliceStable(in, func(i, j int) bool { return in[i].Weight < in[j].Weight })
	only := os.Getenv("VH_ONLY")
	if only == "" {
		return in
	}
	re := regexp.MustCompile(only)
	var out []Scenario
	for _, s := range in {
		if re.MatchString(s.Name) {
			out = append(out, s)
		}
	}
	return out
}

// ------------------------------------------------------------------ worker

func worker(c Check, spec string) int {
	var shard, shards int
	fmt.Sscanf(spec, "%d/%d", &shard, &shards)
	budget, _ := strconv.ParseFloat(os.Getenv("VH_BUDGET"), 64)
	end := time.Now().Add(time.Duration(budget * float64(time.Second)))
	curFile := os.Getenv("VH_CUR")
	cf, err := os.OpenFile(curFile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		fatal("%v", err)
	}
	const curSize = 1 << 20
	cf.Truncate(curSize)
	cur, err := syscall.Mmap(int(cf.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal("%v", err)
	}
	var res workerResult
	scens := filterScens(c.Scenarios(tier))
	total := 0.0
	for i := range scens {
		if scens[i].Weight == 0 {
			scens[i].Weight = 1
		}
		total += scens[i].Weight
	}
	skip := map[string]bool{}
	for _, s := range strings.Split(os.Getenv("VH_SKIP"), ",") {
		skip[s] = true
	}
	// for experiments: stop everything after the first scenario that fails
	first := os.Getenv("VH_FIRST")
	for si, s := range scens {
		if first != "" {
			if _, err := os.Stat(first); err == nil {
				break
			}
		}
		begin := time.Now()
		left := end.Sub(begin)
		if left < 0 {
			left = 0
		}
		// most scenarios need less than their share, so one may take more
		part := s.Weight / total
		if part < 1 {
			part = math.Min(2*part, math.Max(part, 0.5))
		}
		share := time.Duration(float64(left) * part)
		if min := 4 * time.Second; share < min && left > min {
			share = min
		}
		dl := begin.Add(share)
		total -= s.Weight
		sr := scenResult{Name: s.Name, Bound: s.Bound, Enum: s.Enum != nil}
		if skip[s.Name] {
			res.Scens = append(res.Scens, sr)
			continue
		}
		note := func(prefix []int32) {
			putInt(cur, 0, si)
			n := len(prefix)
			if n > (curSize-16)/4 {
				n = (curSize - 16) / 4
			}
			putInt(cur, 4, n)
			for i := 0; i < n; i++ {
				putInt(cur, 8+4*i, int(prefix[i]))
			}
		}
		if s.Enum != nil {
			e := &Enum{shard: int64(shard), shards: int64(shards), only: -1, deadline: dl, Outcomes: map[string]int64{}}
			e.cw = func(n int64) { note([]int32{int32(n >> 31), int32(n & 0x7fffffff)}) }
			s.Enum(e)
			sr.Execs, sr.Nodes, sr.Steps = e.Cases, e.Cases, e.Calls
			sr.Complete = !e.Stopped
			sr.Samples = e.Samples
			sr.Outcomes = map[uint64]int64{}
			for k, v := range e.Outcomes {
				sr.Outcomes[strHash(k)] += v
			}
			for _, f := range e.fails {
				f.Scenario = s.Name
				sr.Fails = append(sr.Fails, f)
			}
		} else if f := prepare(s); f != nil {
			sr.Execs, sr.Nodes = 1, 1
			sr.Fails = append(sr.Fails, failure{Scenario: s.Name, Kind: f.Kind, Msg: f.Msg, Detail: f.Detail})
		} else {
			// raise the bounds one by one: the first counterexample has the
			// fewest deviations and a deadline still leaves a completed bound.
			for _, b := range bounds(s.Bound) {
				ex := &vs.Explorer{Opt: s.Opt, Bound: b, Body: s.Body, Shard: shard, Shards: shards, Deadline: dl, MaxExecs: s.MaxExecs, MaxFails: 12, Before: note}
				ex.OnFail = func(r vs.Result) {
					if len(sr.Fails) < 40 {
						sr.Fails = append(sr.Fails, failure{Scenario: s.Name, Kind: r.Fail.Kind, Msg: r.Fail.Msg, Detail: r.Fail.Detail, Choices: r.Choices})
					}
				}
				ex.Explore()
				last := b == s.Bound
				if !ex.Complete || last || ex.Fails > 0 {
					if sr.Execs == 0 || ex.Execs > sr.Execs {
						sr.Execs, sr.Nodes, sr.Steps, sr.Depth = ex.Execs, ex.Nodes, ex.Steps, ex.MaxDepth
						sr.Outcomes, sr.Samples = ex.Outcomes, ex.Samples
					}
					sr.Bound = b
					sr.Complete = ex.Complete && last
					break
				}
				sr.Execs, sr.Nodes, sr.Steps, sr.Depth = ex.Execs, ex.Nodes, ex.Steps, ex.MaxDepth
				sr.Outcomes, sr.Samples = ex.Outcomes, ex.Samples
			}
		}
		sr.Wall = time.Since(begin).Seconds()
		res.Scens = append(res.Scens, sr)
		if first != "" && len(sr.Fails) > 0 {
			os.WriteFile(first, nil, 0644)
		}
	}
	b, err := json.Marshal(res)
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(os.Getenv("VH_OUT"), b, 0644); err != nil {
		fatal("%v", err)
	}
	return 0
}

func prepare(s Scenario) *vs.Failure {
	if s.Prepare == nil {
		return nil
	}
	return vs.RunOne(s.Opt, nil, false, s.Prepare).Fail
}

func bounds(b vs.Bound) (out []vs.Bound) {
	n := b.Sched
	if b.Env > n {
		n = b.Env
	}
	for i := 0; i <= n; i++ {
		c := vs.Bound{Sched: i, Env: i}
		if c.Sched > b.Sched {
			c.Sched = b.Sched
		}
		if c.Env > b.Env {
			c.Env = b.Env
		}
		out = append(out, c)
	}
	// bound 0 alone is contained in bound 1
	if len(out) > 2 {
		out = out[1:]
	}
	return out
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func putInt(b []byte, off, v int) {
	b[off], b[off+1], b[off+2], b[off+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
}
func getI(b []byte, off int) int {
	return int(int32(uint32(b[off]) | uint32(b[off+1])<<8 | uint32(b[off+2])<<16 | uint32(b[off+3])<<24))
}

// ------------------------------------------------------------------ replay

func replay(c Check, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	if rf.Tier != "" {
		tier = rf.Tier
	}
	for _, s := range c.Scenarios(tier) {
		if s.Name != rf.Scenario {
			continue
		}
		trace := os.Getenv("VH_TRACE") != ""
		out := replayFile{Scenario: s.Name}
		if s.Enum != nil {
			e := &Enum{shards: 1, only: int64(rf.Choices[0])<<31 | int64(rf.Choices[1]), Outcomes: map[string]int64{}, trace: trace}
			s.Enum(e)
			if len(e.fails) > 0 {
				out.Kind, out.Msg = e.fails[0].Kind, e.fails[0].Msg
			}
		} else if f := prepare(s); f != nil {
			out.Kind, out.Msg, out.Detail = f.Kind, f.Msg, f.Detail
		} else {
			r := vs.RunOne(s.Opt, rf.Choices, trace, s.Body)
			out.Trace = r.Trace
			if r.Fail != nil {
				out.Kind, out.Msg, out.Detail = r.Fail.Kind, r.Fail.Msg, r.Fail.Detail
			}
		}
		if o := os.Getenv("VH_OUT"); o != "" {
			b, _ := json.Marshal(out)
			os.WriteFile(o, b, 0644)
		} else {
			for _, l := range out.Trace {
				fmt.Println(l)
			}
			fmt.Printf("result: kind=%q %s\n%s\n", out.Kind, out.Msg, out.Detail)
		}
		return 0
	}
	fatal("no scenario %q", rf.Scenario)
	return 3
}

// ------------------------------------------------------------------ parent

type known struct {
	Property string `json:"property"`
	Match    string `json:"match"`
	Scenario string `json:"scenario"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func parent(c Check) int {
	begin := time.Now()
	workers := 8
	if v, err := strconv.Atoi(os.Getenv("VH_WORKERS")); err == nil && v > 0 {
		workers = v
	}
	budget := 75.0
	if tier == "thorough" {
		budget = 600
	}
	if v, err := strconv.ParseFloat(os.Getenv("VH_BUDGET"), 64); err == nil && v > 0 {
		budget = v
	}
	work := newScratch()
	defer os.RemoveAll(work)
	self, _ := os.Executable()

	scens := filterScens(c.Scenarios(tier))
	results := make([]*workerResult, workers)
	logs := make([]string, workers)
	var crashes []failure
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			var skip []string
			for try := 0; ; try++ {
				out := filepath.Join(work, fmt.Sprintf("out%d", w))
				curf := filepath.Join(work, fmt.Sprintf("cur%d", w))
				os.Remove(out)
				cmd := exec.Command(self)
				cmd.Env = append(os.Environ(),
					fmt.Sprintf("VH_WORKER=%d/%d", w, workers),
					"VH_OUT="+out, "VH_CUR="+curf, "VH_TIER="+tier,
					"VH_SCRATCH="+work,
					"VH_SKIP="+strings.Join(skip, ","),
					fmt.Sprintf("VH_BUDGET=%f", budget-time.Since(begin).Seconds()))
				cmd.Env = append(cmd.Env, raceEnv(work)...)
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				var buf bytes.Buffer
				cmd.Stdout, cmd.Stderr = &buf, &buf
				err := watched(cmd, curf)
				lg := buf.String()
				if len(lg) > 20000 {
					lg = lg[:10000] + "\n...\n" + lg[len(lg)-10000:]
				}
				logs[w] += lg
				if err == nil {
					if b, e := os.ReadFile(out); e == nil {
						var r workerResult
						if json.Unmarshal(b, &r) == nil {
							results[w] = &r
							return
						}
					}
				}
				// the process died: that execution is a violation candidate
				b, _ := os.ReadFile(curf)
				f := failure{Kind: "crash", Msg: fmt.Sprintf("process died: %v", err), Log: tail(lg, 6000)}
				if len(b) > 8 {
					si := getI(b, 0)
					n := getI(b, 4)
					if si < len(scens) {
						f.Scenario = scens[si].Name
					}
					for i := 0; i < n && 8+4*i+4 <= len(b); i++ {
						f.Choices = append(f.Choices, int32(getI(b, 8+4*i)))
					}
				}
				mu.Lock()
				crashes = append(crashes, f)
				mu.Unlock()
				if f.Scenario == "" || try >= 3 || time.Since(begin).Seconds() > budget {
					return
				}
				skip = append(skip, f.Scenario)
			}
		}()
	}
	wg.Wait()

	// merge
	type agg struct {
		Name      string   `json:"name"`
		Execs     int64    `json:"executions"`
		Nodes     int64    `json:"states"`
		Steps     int64    `json:"transitions"`
		Depth     int      `json:"max_choices"`
		Complete  bool     `json:"exhaustive"`
		Sched     int      `json:"schedule_deviations"`
		Env       int      `json:"environment_deviations"`
		Outcomes  int      `json:"distinct_outcomes"`
		Wall      float64  `json:"wall_s"`
		Samples   []string `json:"samples,omitempty"`
		outcomes  map[uint64]int64
		nfailures int
	}
	var aggs []*agg
	byName := map[string]*agg{}
	for _, s := range scens {
		a := &agg{Name: s.Name, Complete: true, Sched: s.Bound.Sched, Env: s.Bound.Env, outcomes: map[uint64]int64{}}
		aggs = append(aggs, a)
		byName[s.Name] = a
	}
	fails := crashes
	for _, r := range results {
		if r == nil {
			for _, a := range aggs {
				a.Complete = false
			}
			continue
		}
		for _, sr := range r.Scens {
			a := byName[sr.Name]
			a.Execs += sr.Execs
			a.Nodes += sr.Nodes
			a.Steps += sr.Steps
			if sr.Depth > a.Depth {
				a.Depth = sr.Depth
			}
			a.Complete = a.Complete && sr.Complete
			if sr.Bound.Sched < a.Sched {
				a.Sched = sr.Bound.Sched
			}
			if sr.Bound.Env < a.Env {
				a.Env = sr.Bound.Env
			}
			for k, v := range sr.Outcomes {
				a.outcomes[k] += v
			}
			if len(a.Samples) < 3 {
				a.Samples = append(a.Samples, sr.Samples...)
				if len(a.Samples) > 3 {
					a.Samples = a.Samples[:3]
				}
			}
			if sr.Wall > a.Wall {
				a.Wall = sr.Wall
			}
			fails = append(fails, sr.Fails...)
			a.nfailures += len(sr.Fails)
		}
	}

	// violations: one per scenario and signature, simplest first
	slow := func(f failure) bool { return f.Kind == "crash" && strings.Contains(f.Msg, hungMsg) }
	sort.SliceStable(fails, func(i, j int) bool {
		if a, b := slow(fails[i]), slow(fails[j]); a != b {
			return b
		}
		return len(fails[i].Choices) < len(fails[j].Choices)
	})
	seen := map[string]bool{}
	var uniq []failure
	for _, f := range fails {
		sig := f.Scenario + "|" + f.Kind + "|" + signature(f.Msg)
		if !seen[sig] {
			seen[sig] = true
			uniq = append(uniq, f)
		}
	}
	kn := loadKnown(c.ID)
	rdir := os.Getenv("VH_REPLAYS")
	if rdir == "" {
		rdir = work
	}
	var violations []string
	knownSeen := map[int]bool{}
	unconfirmed, lost := 0, false
	for _, f := range uniq {
		k := -1
		for i, e := range kn {
			if e.Fixed == "" && e.re.MatchString(f.Kind+": "+f.Msg) && (e.sre == nil || e.sre.MatchString(f.Scenario)) {
				k = i
				break
			}
		}
		if k >= 0 {
			knownSeen[k] = true
			continue
		}
		if len(violations) >= 6 || os.Getenv("VH_FIRST") != "" && len(violations) >= 1 {
			continue
		}
		// an answer in time rather than every way it fails
		if over := time.Since(begin).Seconds() - budget; over > 120 && len(violations) >= 1 || over > 500 {
			lost = true
			continue
		}
		rf := replayFile{Property: c.ID, Tier: tier, Scenario: f.Scenario, Choices: f.Choices, Kind: f.Kind, Msg: f.Msg, Detail: f.Detail, Log: f.Log}
		os.MkdirAll(rdir, 0755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", c.ID, len(violations)+1))
		writeJSON(path, rf)
		okc := 0
		for i := 0; i < 5; i++ {
			if f.Kind == "crash" && i == 2 && okc == 2 && (strings.Contains(f.Msg, hungMsg) || strings.Contains(f.Msg, fatMsg)) {
				okc = 5 // takes its time
				break
			}
			got, lg := runReplay(self, work, path, i == 0)
			if got != nil && (got.Kind == f.Kind || f.Kind == "crash" && got.Kind != "") || got == nil && f.Kind == "crash" {
				okc++
				if i == 0 && got != nil {
					rf.Trace = got.Trace
				}
				if i == 0 {
					rf.Log = tail(lg, 8000)
				}
			}
		}
		// one reproduction will do: what fails may depend on what is not
		// controlled, like addresses. crashes and races have other reasons, too.
		need := 1
		if f.Kind == "crash" || f.Kind == "race" {
			need = 4
		}
		// what is not the same with the same choices says nothing about the property
		if okc < need || f.Kind == "divergence" {
			unconfirmed++
			// the runtime reuses memory in a way that can look like a race
			// once, all executions were explored nevertheless
			lost = lost || f.Kind != "race"
			fmt.Printf("UNCONFIRMED (%d of 5 replays failed the same way) scenario=%s kind=%s %s\n", okc, f.Scenario, f.Kind, firstLine(f.Msg))
			os.Remove(path)
			continue
		}
		writeJSON(path, rf)
		violations = append(violations, path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		fmt.Printf("  scenario %s: %s: %s\n", f.Scenario, f.Kind, firstLines(f.Msg, 12))
	}
	for i := range kn {
		if knownSeen[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, kn[i].What)
		}
	}

	// evidence
	var execs, nodes, steps, outs int64
	complete := true
	var samples []any
	for _, a := range aggs {
		a.Outcomes = len(a.outcomes)
		execs += a.Execs
		nodes += a.Nodes
		steps += a.Steps
		outs += int64(a.Outcomes)
		complete = complete && a.Complete
		if len(samples) < 8 {
			for _, s := range a.Samples {
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				samples = append(samples, a.Name+": "+s)
				if len(samples) >= 8 {
					break
				}
			}
		}
		for i, s := range a.Samples {
			if len(s) > 300 {
				a.Samples[i] = s[:300] + "..."
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]any{
		"samples":    samples,
		"exhaustive": complete && !lost,
		"scenarios":  aggs,
	}
	if c.Rule != "" {
		cov["rule"] = c.Rule
	}
	if c.Level == "fault_enumeration" {
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = outs
	} else {
		cov["states"] = nodes
		cov["transitions"] = steps
		cov["traces_validated_against_impl"] = execs
		cov["distinct_outcomes"] = outs
	}
	if unconfirmed > 0 {
		cov["unconfirmed"] = unconfirmed
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": cov, "assumptions": c.Assumptions,
		"wall_s": time.Since(begin).Seconds(), "violations": len(violations),
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if p := os.Getenv("VH_EVIDENCE"); p != "" {
		os.MkdirAll(filepath.Dir(p), 0755)
		writeJSON(p, ev)
	}
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, %d distinct outcomes, exhaustive=%v, %.1fs\n",
		c.ID, tier, execs, nodes, steps, outs, complete && !lost, time.Since(begin).Seconds())
	if os.Getenv("VH_VERBOSE") != "" {
		for _, a := range aggs {
			fmt.Printf("  %-40s execs=%-8d states=%-9d steps=%-10d depth=%-5d outcomes=%-6d complete=%v bound=%d/%d %.1fs\n",
				a.Name, a.Execs, a.Nodes, a.Steps, a.Depth, a.Outcomes, a.Complete, a.Sched, a.Env, a.Wall)
		}
		for w, l := range logs {
			if l != "" {
				fmt.Printf("--- worker %d log\n%s\n", w, tail(l, 40000))
			}
		}
	}
	if len(violations) > 0 {
		return 1
	}
	return 0
}

// A worker that runs one execution for longer, or takes more memory, is ended.
const (
	hungAfter = 40 * time.Second
	fatAfter  = 3300 << 20
	hungMsg   = "does not end"
	fatMsg    = "exhausts the memory"
)

// watched runs the process and ends it when it hangs or exhausts the memory.
func watched(cmd *exec.Cmd, curf string) error {
	if err := cmd.Start(); err != nil {
		return err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var last []byte
	since := time.Now()
	for {
		select {
		case err := <-done:
			return err
		case <-time.After(250 * time.Millisecond):
		}
		if curf != "" {
			if b, err := os.ReadFile(curf); err == nil && !bytes.Equal(b, last) {
				last, since = b, time.Now()
			}
		}
		var size, pages int64
		if b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", cmd.Process.Pid)); err == nil {
			fmt.Sscan(string(b), &size, &pages)
		}
		why := ""
		if time.Since(since) > hungAfter {
			why = hungMsg
		} else if pages*4096 > fatAfter {
			why = fatMsg
		}
		if why != "" {
			cmd.Process.Kill()
			<-done
			return errors.New(why)
		}
	}
}

func raceEnv(work string) []string {
	return []string{"GODEBUG=randautoseed=0,asyncpreemptoff=1",
		"GORACE=exitcode=0 halt_on_error=0 history_size=1 suppress_equal_addresses=0 log_path=" + filepath.Join(work, "race"),
		"VH_RACELOG=" + filepath.Join(work, "race")}
}

func runReplay(self, work, path string, trace bool) (*replayFile, string) {
	out := filepath.Join(work, "replay.out")
	os.Remove(out)
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VH_REPLAY="+path, "VH_OUT="+out, "VH_SCRATCH="+work, "VH_WORKER=")
	if trace {
		cmd.Env = append(cmd.Env, "VH_TRACE=1")
	}
	cmd.Env = append(cmd.Env, raceEnv(work)...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := watched(cmd, ""); err != nil {
		return nil, buf.String()
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return nil, buf.String()
	}
	var rf replayFile
	if json.Unmarshal(b, &rf) != nil {
		return nil, buf.String()
	}
	return &rf, buf.String()
}

var digits = regexp.MustCompile(`0x[0-9a-f]+|[0-9]+`)

func signature(msg string) string {
	s := firstLine(msg)
	s = digits.ReplaceAllString(s, "N")
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n    ")
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}

type knownRe struct {
	known
	re  *regexp.Regexp
	sre *regexp.Regexp
}

func loadKnown(id string) (out []knownRe) {
	b, err := os.ReadFile(os.Getenv("VH_KNOWN"))
	if err != nil {
		return nil
	}
	var ks struct {
		Findings []known `json:"findings"`
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		fatal("known findings: %v", err)
	}
	for _, k := range ks.Findings {
		if k.Property == id && k.Fixed == "" {
			e := knownRe{known: k, re: regexp.MustCompile(k.Match)}
			if k.Scenario != "" {
				e.sre = regexp.MustCompile(k.Scenario)
			}
			out = append(out, e)
		}
	}
	return out
}

// Weight is the share of the time of a scenario with the schedule bound: the
// larger ones run last and get what the others left.
func Weight(sched int, stmts bool) float64 {
	w := 1.0
	for i := 1; i < sched; i++ {
		w *= 5
	}
	if stmts {
		w *= 2
	}
	return w
}
