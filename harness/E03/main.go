//go:build go1.21

// E03: a killed server or a failing disk loses only what was not yet stored.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko"
	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/ui"
	"github.com/vivint/rothko/zz_verif/vapi"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vhttp"
	"github.com/vivint/rothko/zz_verif/vnet"
	"github.com/vivint/rothko/zz_verif/vs"
	"github.com/vivint/rothko/zz_verif/vsig"
	"github.com/vivint/rothko/zz_verif/vtime"
)

const (
	apiAddr = "api"
	period  = time.Second
	fuzzy   = int64(5 * time.Millisecond) // what is not known of the times
)

// shown is a record that was dumped.
type shown struct {
	start, end int64
	vals       []float64
	maybe      bool // it may be missing
}

// world is a server over its lives.
type world struct {
	conf  config.Config
	dir   string
	addrs []string
	done  bool
	err   error
	ok    bool
	peers map[string]*vnet.Peer

	// what is expected
	since   int64 // when the period of the values began, 0 without any
	pending map[string][]float64
	stored  map[string][]shown
	script  string
	stopHit bool
	partial bool // the directory could not be read at the start of this life
}

func newWorld(listeners ...string) *world {
	vs.FS.NoPoints = true
	w := &world{dir: vdb.NewDir(), addrs: listeners, pending: map[string][]float64{}, stored: map[string][]shown{}}
	w.conf = config.Config{
		Main: config.MainConfig{Duration: period},
		Database: config.Entity{Kind: "files", Config: map[string]interface{}{"directory": w.dir, "size": int64(128), "cap": int64(4), "files": int64(20),
			"tuning": map[string]interface{}{"buffer": int64(4), "workers": int64(1), "handles": int64(2)}}},
		Dist: config.Entity{Kind: "tdigest", Config: map[string]interface{}{"compression": 100.0}},
		API:  config.APIConfig{Address: apiAddr},
	}
	for _, l := range listeners {
		w.conf.Listeners = append(w.conf.Listeners, config.Entity{Kind: "graphite", Config: map[string]interface{}{"address": l}})
	}
	return w
}

func (w *world) clean() { vdb.RmDir(w.dir) }

// start begins a life of the server.
func (w *world) start() {
	w.done, w.ok, w.err = false, false, nil
	w.peers = map[string]*vnet.Peer{}
	w.since = 0
	conf := w.conf
	vs.Spawn("server", func() {
		ok, err := rothko.VerifRun(context.Background(), &conf)
		if err != nil {
			w.err = errors.New(err.Error())
		}
		w.ok, w.done = ok, true
	})
	vs.Quiesce()
}

func (w *world) up() bool {
	if w.done {
		return false
	}
	for _, a := range append([]string{apiAddr}, w.addrs...) {
		if !vnet.Listening(a) {
			return false
		}
	}
	return true
}

// send gives lines to a listener.
func (w *world) send(addr, lines string) {
	p := w.peers[addr]
	if p == nil {
		var err error
		if p, err = vnet.Dial(addr); err != nil {
			vs.Fail("dial", "%s: %v", addr, err)
			return
		}
		w.peers[addr] = p
	}
	before := vs.Now()
	p.Send([]byte(lines))
	vs.Quiesce()
	if p.Closed() {
		vs.Fail("closed", "the connection was closed after %q", lines)
	}
	for _, l := range strings.Split(lines, "\n") {
		f := strings.Fields(l)
		if len(f) != 3 {
			continue
		}
		if val, err := strconv.ParseFloat(f[1], 64); err == nil {
			w.pending[f[0]] = append(w.pending[f[0]], val)
			if w.since == 0 {
				w.since = before
			}
		}
	}
}

// dumped moves the values that wait into the records.
func (w *world) dumped() {
	if w.since == 0 {
		return
	}
	now := vs.Now()
	for name, vals := range w.pending {
		w.stored[name] = append(w.stored[name], shown{start: w.since, end: now, vals: vals})
	}
	w.pending = map[string][]float64{}
	w.since = now
}

// tick waits for a dump.
func (w *world) tick() {
	vtime.Sleep(period)
	w.dumped()
	vs.Quiesce()
}

// stop ends the life.
func (w *world) stop() {
	vtime.Sleep(300 * time.Millisecond)
	if !vsig.Raise(syscall.SIGINT) {
		vs.Fail("killed", "the interrupt ends the process")
	}
	w.dumped()
	vs.Wait("end", func() bool { return w.done })
	if (!w.ok || w.err != nil) && !w.stopHit {
		vs.Fail("exit", "the server ended with %v, %v", w.ok, w.err)
	}
	vs.Quiesce()
}

func (w *world) handler() http.Handler {
	ss := vhttp.Servers()
	if len(ss) == 0 {
		return nil
	}
	return ss[len(ss)-1].Handler
}

func (w *world) ask(path, query string, headers ...string) vapi.Answer {
	h := w.handler()
	if h == nil {
		vs.Fail("api", "nothing is served")
		return vapi.Answer{}
	}
	rand.Seed(1)
	return vapi.Ask(h, vapi.Request("GET", path, query, headers...))
}

func quantile(sorted []float64, q float64) float64 {
	x := q * float64(len(sorted)-1)
	i := int(x)
	if i+1 >= len(sorted) {
		return sorted[len(sorted)-1]
	}
	return sorted[i]*(1-(x-float64(i))) + sorted[i+1]*(x-float64(i))
}

const samples = 4

// check compares what the web interface says with what was received.
func (w *world) check() {
	when := w.script
	sure, all := map[string]bool{}, map[string]bool{}
	for n, rs := range w.stored {
		all[n] = true
		for _, r := range rs {
			if !r.maybe {
				sure[n] = true
			}
		}
	}
	got := w.ask("/api/query", "query=")
	var list []string
	if err := json.Unmarshal([]byte(got.Body), &list); got.Code != 200 || err != nil {
		vs.Fail("list", "%s: %d %.300q", when, got.Code, got.Body)
	}
	if !sort.StringsAreSorted(list) {
		vs.Fail("list", "%s: the metrics are %q", when, list)
	}
	listed := map[string]bool{}
	for _, n := range list {
		if !all[n] || listed[n] {
			vs.Fail("list", "%s: the metrics are %q", when, list)
		}
		listed[n] = true
	}
	var names []string
	for n := range all {
		names = append(names, n)
		if w.partial {
			listed[n] = true
		} else if sure[n] && !listed[n] {
			vs.Fail("list", "%s: the metrics are %q without %q", when, list, n)
		}
	}
	sort.Strings(names)
	for _, n := range append(names, "other") {
		w.checkMetric(n, listed[n])
	}
}

// checkMetric finds out which of the records that may be missing are there.
func (w *world) checkMetric(name string, listed bool) {
	const width, height = 400, 100
	dur := 6 * period
	now := vs.Now()
	what := fmt.Sprintf("%s: render of %q", w.script, name)
	q := fmt.Sprintf("metric=%s&now=%d&duration=%s&width=%d&height=%d&samples=%d&compression=100", name, now, dur, width, height, samples)
	got := w.ask("/api/render", q, "Accept", "application/json")
	all := w.stored[name]
	n := 0
	for _, r := range all {
		if r.maybe {
			n++
		}
	}
	kind, first := "", ""
	for set := 0; set < 1<<uint(n); set++ {
		var recs []shown
		k := 0
		for _, r := range all {
			if r.maybe {
				k++
				if set>>uint(k-1)&1 == 1 {
					continue
				}
				r.maybe = false
			}
			recs = append(recs, r)
		}
		if len(recs) > 0 && !listed {
			continue
		}
		k2, wrong := w.compare(what, name, got, now, dur, recs)
		if wrong == "" {
			// from here on it is known
			w.stored[name] = recs // also without any, it may be listed
			return
		}
		if first == "" {
			kind, first = k2, wrong
		}
	}
	vs.Fail(kind, "%s, of %v", first, all)
}

// compare compares an answer with the records, and returns what is wrong.
func (w *world) compare(what, name string, got vapi.Answer, now int64, dur time.Duration, recs []shown) (string, string) {
	const width, height = 400, 100
	if len(recs) == 0 && got.Code >= 400 {
		return "", "" // an error is an answer, too
	}
	var v struct {
		Metric   string
		Columns  []draw.Column
		Earliest []byte
		Now      int64
		Duration int64
	}
	if err := json.Unmarshal([]byte(got.Body), &v); got.Code != 200 || err != nil {
		return "render", fmt.Sprintf("%s: %d %.300q", what, got.Code, got.Body)
	}
	if v.Metric != name || v.Now != now || v.Duration != int64(dur) {
		return "render", fmt.Sprintf("%s: is for %q, %d, %d", what, v.Metric, v.Now, v.Duration)
	}
	if len(recs) == 0 {
		if len(v.Columns) != 0 || len(v.Earliest) != 0 {
			return "extra", fmt.Sprintf("%s: nothing was received, but it has %v", what, v.Columns)
		}
		return "", ""
	}
	var rec data.Record
	if err := rec.Unmarshal(v.Earliest); err != nil {
		return "earliest", fmt.Sprintf("%s: %v", what, err)
	}
	last := recs[len(recs)-1]
	lo, hi := last.vals[0], last.vals[0]
	for _, x := range last.vals {
		lo, hi = math.Min(lo, x), math.Max(hi, x)
	}
	if rec.Observations != int64(len(last.vals)) || rec.Min != lo || rec.Max != hi || rec.Merged > 1 ||
		abs(rec.StartTime-last.start) > fuzzy || abs(rec.EndTime-last.end) > fuzzy {
		return "earliest", fmt.Sprintf("%s: the newest record is %+v instead of %v", what, rec, last)
	}
	d, err := load.Load(context.Background(), rec)
	if err != nil {
		return "earliest", fmt.Sprintf("%s: %v", what, err)
	}
	m, ok := graph.Measure(context.Background(), graph.MeasureOptions{Earliest: d, Now: now, Duration: dur, Width: width, Height: height})
	if !ok {
		return "size", fmt.Sprintf("%s: too small", what)
	}
	at := make([]int, m.Width)
	for i := range at {
		at[i] = -1
	}
	for i, c := range v.Columns {
		for x := c.X; x < c.X+c.W; x++ {
			if x < 0 || x >= m.Width || at[x] >= 0 {
				return "columns", fmt.Sprintf("%s: column %+v", what, c)
			}
			at[x] = i
		}
	}
	ps := int64(dur) / int64(m.Width)
pixels:
	for x := range at {
		from := now - int64(m.Width-x)*ps
		to := from + ps - 1
		var vals []float64
		rate, n := 0.0, 0
		for _, r := range recs {
			maybe := r.start-fuzzy <= to && r.end+fuzzy >= from
			sure := r.start+fuzzy <= to && r.end-fuzzy >= from
			if maybe != sure {
				continue pixels
			}
			if sure {
				vals = append(vals, r.vals...)
				rate += float64(len(r.vals)) / time.Duration(r.end-r.start).Seconds()
				n++
			}
		}
		if (n == 0) != (at[x] < 0) {
			return "pixels", fmt.Sprintf("%s: pixel %d of %d has column %d, the records are %v at %d", what, x, m.Width, at[x], recs, now)
		}
		if n == 0 {
			continue
		}
		c := v.Columns[at[x]]
		sort.Float64s(vals)
		if len(c.Data) != samples+1 {
			return "data", fmt.Sprintf("%s: %d values", what, len(c.Data))
		}
		for i, f := range c.Data {
			if want := quantile(vals, float64(i)/samples); !(math.Abs(f-want) <= math.Abs(want)/150+1e-3) {
				return "data", fmt.Sprintf("%s: pixel %d is made of %v, but shows %v", what, x, vals, c.Data)
			}
		}
		if rate /= float64(n); !(math.Abs(c.ObsSec-rate) <= rate/20) {
			return "rate", fmt.Sprintf("%s: pixel %d has the rate %v instead of %v", what, x, c.ObsSec, rate)
		}
	}
	return "", ""
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// recorder collects the states of the files that a kill can leave behind.
type image map[string][]byte

type recorder struct {
	dir    string
	on     bool
	last   image
	images []image
	fhs    []*os.File
	names  []string
	buf    []byte
}

var (
	rec   *recorder
	dirty bool
)

func load_(dir string) image {
	im := image{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			im[rel+"/"] = nil
		} else {
			im[rel], _ = os.ReadFile(p)
		}
		return nil
	})
	return im
}

func same(a, b image) bool {
	if len(a) != len(b) {
		return false
	}
	for n, x := range a {
		if y, ok := b[n]; !ok || !bytes.Equal(x, y) {
			return false
		}
	}
	return true
}

func (im image) store(dir string) {
	for n := range im {
		if strings.HasSuffix(n, "/") {
			os.MkdirAll(filepath.Join(dir, n), 0755)
		}
	}
	for n, b := range im {
		if !strings.HasSuffix(n, "/") {
			if err := os.WriteFile(filepath.Join(dir, n), b, 0644); err != nil {
				panic(err)
			}
		}
	}
}

func (r *recorder) close() {
	for _, f := range r.fhs {
		f.Close()
	}
	r.fhs, r.names = nil, nil
}

func (r *recorder) snap() {
	if !dirty && r.last != nil {
		changed := false
		for i, f := range r.fhs {
			b := r.last[r.names[i]]
			if cap(r.buf) < len(b)+1 {
				r.buf = make([]byte, len(b)+1)
			}
			n, _ := f.ReadAt(r.buf[:len(b)+1], 0)
			if changed = !bytes.Equal(r.buf[:n], b); changed {
				break
			}
		}
		if !changed {
			return
		}
	}
	im := load_(r.dir)
	if dirty || r.last == nil {
		r.close()
		for n := range im {
			if !strings.HasSuffix(n, "/") {
				if f, err := os.Open(filepath.Join(r.dir, n)); err == nil {
					r.fhs = append(r.fhs, f)
					r.names = append(r.names, n)
				}
			}
		}
		dirty = false
	}
	if r.last == nil || !same(im, r.last) {
		r.last = im
		r.images = append(r.images, im)
	}
}

// uncertain makes the records that came since then ones that may be missing.
func (w *world) uncertain(before map[string]int) {
	for n, rs := range w.stored {
		for i := before[n]; i < len(rs); i++ {
			rs[i].maybe = true
		}
	}
}

func (w *world) counts() map[string]int {
	out := map[string]int{}
	for n, rs := range w.stored {
		out[n] = len(rs)
	}
	return out
}

// line sends a line of the alphabet.
func (w *world) line(k int) {
	switch k {
	case 0:
		w.script += " a"
		w.send("graphite", "a 4 0\na -2.5 0\n")
	case 1:
		w.script += " b.c"
		w.send("graphite", "b.c 32 0\na 7 0\n")
	}
}

// after: the server takes values, stores and shows them.
func (w *world) after() {
	w.check()
	w.line(0)
	w.tick()
	w.check()
	w.line(1)
	w.stop()
	w.partial = false
	w.start()
	if !w.up() {
		vs.Fail("start", "%s: the server does not listen: %v", w.script, w.err)
		return
	}
	w.check()
	w.stop()
}

// killed: the server is killed after any statement of the last step.
func killed(n int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("killed-%d", n), Opt: vs.Options{MaxIdleFires: 2000, MaxSteps: 1 << 40}, Weight: 8, Body: func() {
		w := newWorld("graphite")
		defer w.clean()
		r := &recorder{dir: w.dir}
		defer func() { rec = nil; r.close() }()
		before := w.counts()
		watch := func(last bool, step func()) {
			if last {
				before = w.counts()
				dirty = true
				rec = r
				r.snap()
				r.on = true
			}
			step()
			if last {
				dirty = true
				r.snap()
				r.on = false
				rec = nil
			}
		}
		k := vs.Choose(n)
		watch(k == 0, w.start)
		for i := 1; i <= k; i++ {
			m := 4
			if i == k {
				m = 2 // nothing comes to the database by lines
			}
			switch c := vs.Choose(m); c {
			case 0:
				w.script += " dump"
				watch(i == k, w.tick)
			case 1:
				w.script += " stop"
				watch(i == k, w.stop)
				if i < k {
					w.start()
				}
			default:
				w.line(c - 2)
			}
		}
		if !w.done {
			w.stop2()
		}
		i := vs.Choose(len(r.images))
		w.script += fmt.Sprintf(" killed at %d of %d", i, len(r.images))
		w.uncertain(before)
		if i == len(r.images)-1 {
			// all of the step was done
			for _, rs := range w.stored {
				for i := range rs {
					rs[i].maybe = false
				}
			}
		}
		w.pending = map[string][]float64{}
		im := r.images[i]
		vdb.RmDir(w.dir)
		w.dir = vdb.NewDir()
		w.conf.Database.Config.(map[string]interface{})["directory"] = w.dir
		im.store(w.dir)
		w.start()
		if !w.up() {
			vs.Fail("start", "%s: the server does not listen: %v", w.script, w.err)
			return
		}
		w.after()
		vs.Outcome("%s", w.script)
	}}
}

// stop2 ends the life without anything that waits.
func (w *world) stop2() {
	p := w.pending
	stored := map[string][]shown{}
	for n, rs := range w.stored {
		stored[n] = append([]shown(nil), rs...)
	}
	w.stop()
	w.pending, w.stored = p, stored
}

var armed bool

func faults(op, path string) []error {
	if !armed {
		return nil
	}
	switch op {
	case "create", "mkdir", "fallocate", "truncate", "write":
		return []error{syscall.ENOSPC}
	case "open":
		return []error{syscall.EMFILE}
	case "mmap":
		return []error{syscall.ENOMEM}
	case "munmap":
		return []error{syscall.EINVAL}
	default:
		return []error{syscall.EIO}
	}
}

// faulted runs a step with faults.
func (w *world) faulted(step func()) bool {
	n := vs.Stats().Faults
	before := w.counts()
	armed = true
	step()
	armed = false
	if vs.Stats().Faults == n {
		return false
	}
	w.script += fmt.Sprintf(" (%s)", vs.LastFault())
	w.uncertain(before)
	return true
}

// failing: file operations of the server fail.
func failing(n, env int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("failing-%d-%d", n, env), Bound: vs.Bound{Env: env}, Weight: float64(env), Opt: vs.Options{MaxIdleFires: 2000, MaxSteps: 1 << 40}, Body: func() {
		w := newWorld("graphite")
		defer w.clean()
		vs.FS.Fault = faults
		defer func() { vs.FS.Fault = nil; armed = false }()
		start := func() bool {
			if w.partial = w.faulted(w.start); w.partial && w.done {
				if w.err == nil {
					vs.Fail("start", "%s: the server ended without an error", w.script)
				}
				w.partial = false
				w.start()
			}
			if !w.up() {
				vs.Fail("start", "%s: the server does not listen: %v", w.script, w.err)
				return false
			}
			return true
		}
		if !start() {
			return
		}
		for i := 0; i < n; i++ {
			switch c := vs.Choose(4); c {
			case 0:
				w.script += " dump"
				w.faulted(w.tick)
			case 1:
				w.script += " restart"
				w.stopHit = true
				hit := w.faulted(w.stop)
				if !hit && (!w.ok || w.err != nil) {
					vs.Fail("exit", "%s: the server ended with %v, %v", w.script, w.ok, w.err)
				}
				w.stopHit = false
				if !start() {
					return
				}
			default:
				w.line(c - 2)
			}
			if !w.up() {
				vs.Fail("down", "%s: the server does not listen: %v", w.script, w.err)
				return
			}
		}
		w.after()
		vs.Outcome("%s", w.script)
	}}
}

func main() {
	ui.Tarball = nil
	vs.FS.OnOp = func(op, path string) {
		switch op {
		case "open", "close", "stat", "read", "readdir", "mmap", "munmap", "msync", "fsync":
		default:
			dirty = true
		}
	}
	vs.SetStmtHook(func() {
		if rec != nil && rec.on {
			rec.snap()
		}
	})
	vh.Main(vh.Check{ID: "E03", Level: "model_checking",
		Rule:        "every script of lines, dumps and restarts up to a depth through the whole server on modelled network, clock and HTTP server with the files database; killed after every statement of the last step that changed a file and started on the files as they were then; and every file operation of every script failing; then the listing and the columns of every metric are compared with the lines, before and after further lines, a dump and a restart",
		Assumptions: []string{"the modelled network, clock and HTTP server", "process kill: stores to files happen in program order and survive the process"},
		Scenarios: func(tier string) []vh.Scenario {
			if tier == "thorough" {
				return []vh.Scenario{killed(6), failing(5, 1), failing(4, 2), failing(3, 3)}
			}
			return []vh.Scenario{killed(5), failing(4, 1), failing(3, 2)}
		}})
}
