//go:build go1.21

// E01: what a server receives is what its web interface shows, as configured.
package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko"
	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/registry"
	"github.com/vivint/rothko/ui"
	"github.com/vivint/rothko/zz_verif/vapi"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vhttp"
	"github.com/vivint/rothko/zz_verif/vnet"
	"github.com/vivint/rothko/zz_verif/vs"
	"github.com/vivint/rothko/zz_verif/vsig"
	"github.com/vivint/rothko/zz_verif/vtime"
)

const (
	apiAddr = "api"
	period  = time.Second
	fuzzy   = int64(5 * time.Millisecond) // what is not known of the times
	page    = "<p>the page</p>"
)

// shown is a record that was dumped.
type shown struct {
	start, end int64
	vals       []float64
}

// world is a server over its lives.
type world struct {
	conf  config.Config
	dir   string
	addrs []string
	done  bool
	err   error
	ok    bool
	peers map[string]*vnet.Peer

	// what is expected
	since   int64 // when the period of the values began, 0 without any
	pending map[string][]float64
	stored  map[string][]shown
}

func newWorld(listeners ...string) *world {
	vs.FS.NoPoints = true
	w := &world{dir: vdb.NewDir(), addrs: listeners, pending: map[string][]float64{}, stored: map[string][]shown{}}
	w.conf = config.Config{
		Main: config.MainConfig{Duration: period},
		Database: config.Entity{Kind: "files", Config: map[string]interface{}{"directory": w.dir, "size": int64(512), "cap": int64(8), "files": int64(3),
			"tuning": map[string]interface{}{"buffer": int64(4), "workers": int64(1), "handles": int64(2)}}},
		Dist: config.Entity{Kind: "tdigest", Config: map[string]interface{}{"compression": 100.0}},
		API:  config.APIConfig{Address: apiAddr},
	}
	for _, l := range listeners {
		w.conf.Listeners = append(w.conf.Listeners, config.Entity{Kind: "graphite", Config: map[string]interface{}{"address": l}})
	}
	return w
}

func (w *world) clean() { vdb.RmDir(w.dir) }

// start begins a life of the server.
func (w *world) start() {
	w.done, w.ok, w.err = false, false, nil
	w.peers = map[string]*vnet.Peer{}
	w.since = 0
	conf := w.conf
	vs.Spawn("server", func() {
		ok, err := rothko.VerifRun(context.Background(), &conf)
		if err != nil {
			w.err = errors.New(err.Error())
		}
		w.ok, w.done = ok, true
	})
	vs.Quiesce()
}

func (w *world) up() bool {
	if w.done {
		return false
	}
	for _, a := range append([]string{apiAddr}, w.addrs...) {
		if !vnet.Listening(a) {
			return false
		}
	}
	return true
}

// send gives lines to a listener.
func (w *world) send(addr, lines string) {
	p := w.peers[addr]
	if p == nil {
		var err error
		if p, err = vnet.Dial(addr); err != nil {
			vs.Fail("dial", "%s: %v", addr, err)
			return
		}
		w.peers[addr] = p
	}
	before := vs.Now()
	p.Send([]byte(lines))
	vs.Quiesce()
	if p.Closed() {
		vs.Fail("closed", "the connection was closed after %q", lines)
	}
	for _, l := range strings.Split(lines, "\n") {
		f := strings.Fields(l)
		if len(f) != 3 {
			continue
		}
		if val, err := strconv.ParseFloat(f[1], 64); err == nil {
			w.pending[f[0]] = append(w.pending[f[0]], val)
			if w.since == 0 {
				w.since = before
			}
		}
	}
}

// dumped moves the values that wait into the records.
func (w *world) dumped() {
	if w.since == 0 {
		return
	}
	now := vs.Now()
	for name, vals := range w.pending {
		w.stored[name] = append(w.stored[name], shown{w.since, now, vals})
	}
	w.pending = map[string][]float64{}
	w.since = now
}

// tick waits for a dump.
func (w *world) tick() {
	vtime.Sleep(period)
	w.dumped()
	vs.Quiesce()
}

// stop ends the life.
func (w *world) stop() {
	vtime.Sleep(300 * time.Millisecond)
	if !vsig.Raise(syscall.SIGINT) {
		vs.Fail("killed", "the interrupt ends the process")
	}
	w.dumped()
	vs.Wait("end", func() bool { return w.done })
	if !w.ok || w.err != nil {
		vs.Fail("exit", "the server ended with %v, %v", w.ok, w.err)
	}
	vs.Quiesce()
}

func (w *world) handler() http.Handler {
	ss := vhttp.Servers()
	if len(ss) == 0 {
		return nil
	}
	return ss[len(ss)-1].Handler
}

func (w *world) ask(path, query string, headers ...string) vapi.Answer {
	h := w.handler()
	if h == nil {
		vs.Fail("api", "nothing is served")
		return vapi.Answer{}
	}
	rand.Seed(1)
	return vapi.Ask(h, vapi.Request("GET", path, query, headers...))
}

func quantile(sorted []float64, q float64) float64 {
	x := q * float64(len(sorted)-1)
	i := int(x)
	if i+1 >= len(sorted) {
		return sorted[len(sorted)-1]
	}
	return sorted[i]*(1-(x-float64(i))) + sorted[i+1]*(x-float64(i))
}

const samples = 4

// check compares what the web interface says with what was received.
func (w *world) check(when string, headers ...string) {
	var names []string
	for n := range w.stored {
		names = append(names, n)
	}
	sort.Strings(names)
	got := w.ask("/api/query", "query=", headers...)
	var list []string
	if err := json.Unmarshal([]byte(got.Body), &list); got.Code != 200 || err != nil {
		vs.Fail("list", "%s: %d %.300q", when, got.Code, got.Body)
	} else if fmt.Sprint(list) != fmt.Sprint(names) {
		vs.Fail("list", "%s: the metrics are %q instead of %q", when, list, names)
	}
	for _, n := range append(names, "other") {
		w.checkMetric(when, n, headers...)
	}
}

func (w *world) checkMetric(when, name string, headers ...string) {
	const width, height = 400, 100
	dur := 6 * period
	now := vs.Now()
	what := fmt.Sprintf("%s: render of %q", when, name)
	q := fmt.Sprintf("metric=%s&now=%d&duration=%s&width=%d&height=%d&samples=%d&compression=100", name, now, dur, width, height, samples)
	got := w.ask("/api/render", q, append([]string{"Accept", "application/json"}, headers...)...)
	recs := w.stored[name]
	if len(recs) == 0 && got.Code >= 400 {
		return // an error is an answer, too
	}
	var v struct {
		Metric   string
		Columns  []draw.Column
		Earliest []byte
		Now      int64
		Duration int64
	}
	if err := json.Unmarshal([]byte(got.Body), &v); got.Code != 200 || err != nil {
		vs.Fail("render", "%s: %d %.300q", what, got.Code, got.Body)
		return
	}
	if v.Metric != name || v.Now != now || v.Duration != int64(dur) {
		vs.Fail("render", "%s: is for %q, %d, %d", what, v.Metric, v.Now, v.Duration)
	}
	if len(recs) == 0 {
		if len(v.Columns) != 0 || len(v.Earliest) != 0 {
			vs.Fail("extra", "%s: nothing was received, but it has %v", what, v.Columns)
		}
		return
	}
	var rec data.Record
	if err := rec.Unmarshal(v.Earliest); err != nil {
		vs.Fail("earliest", "%s: %v", what, err)
		return
	}
	last := recs[len(recs)-1]
	lo, hi := last.vals[0], last.vals[0]
	for _, x := range last.vals {
		lo, hi = math.Min(lo, x), math.Max(hi, x)
	}
	if rec.Observations != int64(len(last.vals)) || rec.Min != lo || rec.Max != hi || rec.Merged > 1 ||
		abs(rec.StartTime-last.start) > fuzzy || abs(rec.EndTime-last.end) > fuzzy {
		vs.Fail("earliest", "%s: the newest record is %+v instead of %v", what, rec, last)
	}
	d, err := load.Load(context.Background(), rec)
	if err != nil {
		vs.Fail("earliest", "%s: %v", what, err)
		return
	}
	m, ok := graph.Measure(context.Background(), graph.MeasureOptions{Earliest: d, Now: now, Duration: dur, Width: width, Height: height})
	if !ok {
		vs.Fail("size", "%s: too small", what)
		return
	}
	at := make([]int, m.Width)
	for i := range at {
		at[i] = -1
	}
	for i, c := range v.Columns {
		for x := c.X; x < c.X+c.W; x++ {
			if x < 0 || x >= m.Width || at[x] >= 0 {
				vs.Fail("columns", "%s: column %+v", what, c)
				return
			}
			at[x] = i
		}
	}
	ps := int64(dur) / int64(m.Width)
pixels:
	for x := range at {
		from := now - int64(m.Width-x)*ps
		to := from + ps - 1
		var vals []float64
		rate, n := 0.0, 0
		for _, r := range recs {
			maybe := r.start-fuzzy <= to && r.end+fuzzy >= from
			sure := r.start+fuzzy <= to && r.end-fuzzy >= from
			if maybe != sure {
				continue pixels
			}
			if sure {
				vals = append(vals, r.vals...)
				rate += float64(len(r.vals)) / time.Duration(r.end-r.start).Seconds()
				n++
			}
		}
		if (n == 0) != (at[x] < 0) {
			vs.Fail("pixels", "%s: pixel %d of %d has column %d, the records are %v at %d", what, x, m.Width, at[x], recs, now)
			return
		}
		if n == 0 {
			continue
		}
		c := v.Columns[at[x]]
		sort.Float64s(vals)
		if len(c.Data) != samples+1 {
			vs.Fail("data", "%s: %d values", what, len(c.Data))
			return
		}
		for i, f := range c.Data {
			if want := quantile(vals, float64(i)/samples); !(math.Abs(f-want) <= math.Abs(want)/150+1e-3) {
				vs.Fail("data", "%s: pixel %d is made of %v, but shows %v", what, x, vals, c.Data)
				return
			}
		}
		if rate /= float64(n); !(math.Abs(c.ObsSec-rate) <= rate/20) {
			vs.Fail("rate", "%s: pixel %d has the rate %v instead of %v", what, x, c.ObsSec, rate)
			return
		}
	}
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// received: every script of up to n steps.
func received(n, sched int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("received-%d-%d", n, sched), Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false),
		Opt: vs.Options{MaxIdleFires: 2000}, Body: func() {
			w := newWorld("graphite")
			defer w.clean()
			w.start()
			if !w.up() {
				vs.Fail("start", "the server does not listen: %v", w.err)
				return
			}
			script := ""
			asked := 0
			for i, stop := 0, false; i < n && !stop; i++ {
				switch k := vs.Choose(7); k {
				case 0:
					script += " a=4"
					w.send("graphite", "a 4 0\n")
				case 1:
					script += " a=-2.5,b.c=32"
					w.send("graphite", "a -2.5 0\nb.c 32 0\n")
				case 2:
					script += " bad"
					w.send("graphite", "a 7\nother x 0\n")
				case 3:
					script += " b.c=8"
					w.send("graphite", "b.c 8 0\n")
				case 4:
					script += " dump"
					w.tick()
					w.check(script)
					asked++
				case 5:
					script += " restart"
					w.stop()
					w.start()
					w.check(script)
					asked++
				case 6:
					stop = true
				}
			}
			w.tick()
			w.check(script + " end")
			w.stop()
			total := 0
			for _, r := range w.stored {
				total += len(r)
			}
			vs.Outcome("%d records, asked %d times: %s", total, asked, script)
		}}
}

func setTarball() {
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	tw := tar.NewWriter(gz)
	tw.WriteHeader(&tar.Header{Name: "index.html", Mode: 0644, Size: int64(len(page)), ModTime: time.Unix(1500000000, 0)})
	tw.Write([]byte(page))
	tw.Close()
	gz.Close()
	ui.Tarball = buf.Bytes()
}

// configured: the parts of the server are as configured.
func configured() vh.Scenario {
	return vh.Scenario{Name: "configured", Opt: vs.Options{MaxIdleFires: 2000}, Body: func() {
		w := newWorld([][]string{{"one"}, {"one", "two"}, nil}[vs.Choose(3)]...)
		defer w.clean()
		user := []string{"", "user"}[vs.Choose(2)]
		pass := []string{"", "secret"}[vs.Choose(2)]
		w.conf.API.Security.Username = user
		w.conf.API.Security.Password = pass
		w.conf.API.Origin = []string{"", "http://origin"}[vs.Choose(2)]
		cert := []string{"", "the-cert"}[vs.Choose(2)]
		key := []string{"", "the-key"}[vs.Choose(2)]
		w.conf.API.TLS.Cert, w.conf.API.TLS.Key = cert, key
		ui.Tarball = nil
		if vs.Choose(2) == 1 {
			setTarball()
		}
		defer func() { ui.Tarball = nil }()
		what := fmt.Sprintf("listeners %v, %+v", w.addrs, w.conf.API)
		w.start()
		if (cert == "") != (key == "") {
			// not possible: nothing may be served without encryption
			vs.Quiesce()
			for _, s := range vhttp.Servers() {
				if tls, _, _ := vhttp.TLS(s); !tls {
					vs.Fail("tls", "%s: served without encryption", what)
				}
			}
			if !w.done || w.err == nil {
				vs.Fail("tls", "%s: the server runs", what)
			}
			vs.Outcome("refused")
			return
		}
		if !w.up() {
			vs.Fail("start", "%s: the server does not listen: %v", what, w.err)
			return
		}
		ss := vhttp.Servers()
		if len(ss) != 1 {
			vs.Fail("api", "%s: %d servers", what, len(ss))
			return
		}
		if tls, c, k := vhttp.TLS(ss[0]); tls != (cert != "") || c != cert || k != key {
			vs.Fail("tls", "%s: served with encryption %v by %q %q", what, tls, c, k)
		}
		// every listener takes values
		for i, a := range w.addrs {
			w.send(a, fmt.Sprintf("m%d %d 0\n", i, i+1))
			w.send(a, "common 5 0\n")
		}
		w.tick()
		var right []string
		if user != "" {
			req := vapi.Request("GET", "/", "")
			req.SetBasicAuth(user, pass)
			right = []string{"Authorization", req.Header.Get("Authorization")}
			wrong := vapi.Request("GET", "/", "")
			wrong.SetBasicAuth(pass, user)
			for _, path := range []string{"/", "/api/query", "/api/render", "/api/nonce"} {
				for _, h := range [][]string{nil, {"Authorization", wrong.Header.Get("Authorization")}} {
					if got := w.ask(path, "metric=common", h...); got.Code != 401 || strings.Contains(got.Body, "common") || strings.Contains(got.Body, page) {
						vs.Fail("auth", "%s: %s with %v gives %d %.200q", what, path, h, got.Code, got.Body)
					}
				}
			}
		}
		w.check(what, right...)
		got := w.ask("/", "", right...)
		if got.Code != 200 || (ui.Tarball != nil) != strings.Contains(got.Body, page) {
			vs.Fail("static", "%s: / gives %d %.200q", what, got.Code, got.Body)
		}
		if o := got.Header.Get("Access-Control-Allow-Origin"); o != w.conf.API.Origin && (o != "*" || w.conf.API.Origin != "") {
			vs.Fail("origin", "%s: the origin is %q", what, o)
		}
		w.stop()
		vs.Outcome("%s %v %v %v", what, cert, key, ui.Tarball != nil)
	}}
}

// spied counts what is captured.
var spied int

type spyParams struct{ tdigest.Params }

func (p spyParams) New() (dist.Dist, error) {
	d, err := p.Params.New()
	return spy{d}, err
}

type spy struct{ dist.Dist }

func (s spy) Marshal(buf []byte) []byte {
	spied++
	return s.Dist.Marshal(buf)
}

// busy: requests while lines arrive and dumps are made.
func busy(sched int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("busy-%d", sched), Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Opt: vs.Options{MaxIdleFires: 2000}, Body: func() {
		w := newWorld("graphite")
		defer w.clean()
		w.conf.Dist.Kind = "spy"
		w.start()
		w.send("graphite", "a 4 0\n")
		w.tick()
		w.send("graphite", "a 5 0\nb 6 0\n")
		done := false
		out := ""
		before := spied
		vs.Spawn("client", func() {
			vs.Wait("dump", func() bool { return spied > before })
			for i := 0; i < 2; i++ {
				for _, q := range []string{"metric=a", "metric=b"} {
					got := w.ask("/api/render", fmt.Sprintf("%s&now=%d&duration=6s&width=400&height=100&samples=4", q, vs.Now()), "Accept", "application/json")
					if got.Code != 200 && q == "metric=a" {
						vs.Fail("render", "%d %.200q", got.Code, got.Body)
					}
					out += fmt.Sprint(" ", strings.Count(got.Body, "ObsSec"))
				}
				vs.Point("client")
			}
			done = true
		})
		w.tick()
		vs.Wait("client", func() bool { return done })
		w.check("busy")
		w.stop()
		w.start()
		w.check("busy, restarted")
		w.stop()
		vs.Outcome("%s", out)
	}}
}

func main() {
	ui.Tarball = nil
	registry.RegisterDistribution("spy", registry.DistributionMakerFunc(func(context.Context, interface{}) (dist.Params, error) {
		return spyParams{tdigest.Params{Compression: 100}}, nil
	}))
	vh.Main(vh.Check{ID: "E01", Level: "model_checking",
		Rule:        "every script of received lines, dumps and restarts up to a depth through the whole server (listener, writer, dumper, files database, api) on a modelled network, clock and HTTP server; after each dump and restart the listing and the columns of every metric, pixel by pixel, are compared with the lines; every combination of listeners, credentials, origin, encryption and static files; schedules of requests during a dump",
		Assumptions: []string{"the modelled network, clock and HTTP server"},
		Scenarios: func(tier string) []vh.Scenario {
			if tier == "thorough" {
				return []vh.Scenario{configured(), received(6, 0), received(2, 1), busy(2)}
			}
			return []vh.Scenario{configured(), received(5, 0), received(1, 1), busy(1)}
		}})
}
