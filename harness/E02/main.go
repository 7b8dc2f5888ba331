//go:build go1.21

// E02: a slow or refusing database holds up nothing else.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko"
	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/registry"
	"github.com/vivint/rothko/ui"
	"github.com/vivint/rothko/zz_verif/vapi"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vfmt"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vhttp"
	"github.com/vivint/rothko/zz_verif/vnet"
	"github.com/vivint/rothko/zz_verif/vs"
	"github.com/vivint/rothko/zz_verif/vsig"
	"github.com/vivint/rothko/zz_verif/vtime"
)

const (
	addr    = "graphite"
	apiAddr = "api"
	period  = time.Second
	slack   = int64(5 * time.Millisecond)
)

// rec is a record that was queued.
type rec struct {
	start, end int64
	vals       []float64
	done       bool
	bytes      []byte
}

type task struct {
	buf    []byte
	copied []byte
	metric string
	r      *rec
	cb     func(bool, error)
}

// model is a database with the moods.
type model struct {
	w       *world
	queue   []*task
	running bool

	hold   bool // does not complete values
	full   bool // blocks callers
	refuse int  // 1: an error when queued, 2: completed as not written at once, 3: completed by the worker as not written

	recs map[string][]*rec
	lost map[string][]float64
}

func values(b []byte) (out []float64, err error) {
	_, cs, err := vfmt.DecodeDigest(b)
	for _, c := range cs {
		for i := 0; i < int(c.Count); i++ {
			out = append(out, c.Mean)
		}
	}
	return out, err
}

func (m *model) Queue(ctx context.Context, metric string, start, end int64, buf []byte, cb func(bool, error)) error {
	if m.full {
		vs.Wait("room", func() bool { return !m.full || vctx.Ended(ctx) })
		if m.full {
			return ctx.Err()
		}
	}
	var d data.Record
	if err := d.Unmarshal(append([]byte(nil), buf...)); err != nil {
		vs.Fail("data", "the data of %q do not decode: %v", metric, err)
	}
	vals, err := values(d.Distribution)
	if err != nil || int64(len(vals)) != d.Observations || d.StartTime != start || d.EndTime != end {
		vs.Fail("data", "the data of %q from %d to %d have %d observations and are %+v, %v", metric, start, end, len(vals), d, err)
	}
	if d.Observations == 0 {
		vs.Fail("data", "a record of %q without observations", metric)
	}
	switch m.refuse {
	case 1:
		m.lost[metric] = append(m.lost[metric], vals...)
		return errors.New("refused")
	case 2:
		m.lost[metric] = append(m.lost[metric], vals...)
		cb(false, nil)
		return nil
	}
	r := &rec{start: start, end: end, vals: vals, bytes: append([]byte(nil), buf...)}
	if rs := m.recs[metric]; len(rs) > 0 && rs[len(rs)-1].end > start {
		vs.Fail("times", "a record of %q from %d to %d follows one that ends at %d", metric, start, end, rs[len(rs)-1].end)
	}
	m.recs[metric] = append(m.recs[metric], r)
	m.queue = append(m.queue, &task{buf: buf, copied: r.bytes, metric: metric, r: r, cb: cb})
	return nil
}

func (m *model) Run(ctx context.Context) error {
	m.running = true
	for {
		vs.Wait("database", func() bool { return len(m.queue) > 0 && !m.hold || len(m.queue) == 0 && vctx.Ended(ctx) })
		if len(m.queue) == 0 {
			m.running = false
			return nil
		}
		t := m.queue[0]
		m.queue = m.queue[1:]
		if !bytes.Equal(t.buf, t.copied) {
			vs.Fail("data", "the data of %q change while they are queued", t.metric)
		}
		t.r.done = true
		t.cb(m.refuse != 3, nil)
	}
}

func (m *model) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	rs := m.recs[metric]
	for i := len(rs) - 1; i >= 0; i-- {
		if r := rs[i]; r.done && r.end < end {
			if more, err := cb(ctx, r.start, r.end, append(buf[:0], r.bytes...)); err != nil || !more {
				return err
			}
		}
	}
	return nil
}

func (m *model) QueryLatest(ctx context.Context, metric string, buf []byte) (start, end int64, data []byte, err error) {
	err = m.Query(ctx, metric, 1<<63-1, buf, func(_ context.Context, s, e int64, b []byte) (bool, error) {
		start, end, data = s, e, append(buf[:0], b...)
		return false, nil
	})
	return
}

func (m *model) Metrics(ctx context.Context, cb func(string) (bool, error)) error {
	for _, n := range m.names() {
		if more, err := cb(n); err != nil || !more {
			return err
		}
	}
	return nil
}

func (m *model) names() (out []string) {
	out = []string{}
	for n, rs := range m.recs {
		if rs[0].done {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

type world struct {
	m    *model
	done bool
	ok   bool
	err  error

	peer   *vnet.Peer
	sent   map[string][]float64
	at     map[float64]int64
	next   float64
	script string
}

var current *world

// line sends a value, over the connection that stays open or a new one.
func (w *world) line(metric string, fresh bool) {
	p := w.peer
	if p == nil || fresh {
		var err error
		if p, err = vnet.Dial(addr); err != nil {
			vs.Fail("dial", "%s: %v", w.script, err)
			return
		}
		if !fresh {
			w.peer = p
		}
	}
	w.next++
	before := p.Read()
	l := metric + " " + strconv.FormatFloat(w.next, 'f', -1, 64) + " 0\n"
	w.sent[metric] = append(w.sent[metric], w.next)
	w.at[w.next] = vs.Clock()
	p.Send([]byte(l))
	if fresh {
		p.Close()
	}
	vs.Quiesce()
	if n := p.Read() - before; n != len(l) {
		vs.Fail("blocked", "%s: %d bytes of %q are read", w.script, n, l)
	}
	if fresh && !p.Closed() {
		vs.Fail("blocked", "%s: the connection stays open", w.script)
	}
}

// ask has everything answered while it is as it is.
func (w *world) ask() {
	ss := vhttp.Servers()
	if len(ss) == 0 {
		vs.Fail("blocked", "%s: nothing is served", w.script)
		return
	}
	var got vapi.Answer
	answered := 0
	names := w.m.names()
	reqs := []*http.Request{vapi.Request("GET", "/", ""), vapi.Request("GET", "/api/query", "query=")}
	for _, n := range append(names, "other") {
		reqs = append(reqs, vapi.Request("GET", "/api/render", fmt.Sprintf("metric=%s&now=%d&duration=6s&width=400&height=100", n, vs.Clock()), "Accept", "application/json"))
	}
	vs.Go(func() {
		for i, r := range reqs {
			got = vapi.Ask(ss[len(ss)-1].Handler, r)
			if got.Code != 200 && (i == 0 || i == 1 || i < len(reqs)-1) {
				vs.Fail("answer", "%s: %s has the answer %d %.200q", w.script, r.URL, got.Code, got.Body)
			}
			if i == 1 {
				var list []string
				if err := json.Unmarshal([]byte(got.Body), &list); err != nil || fmt.Sprint(list) != fmt.Sprint(names) {
					vs.Fail("answer", "%s: the metrics are %.200q instead of %q", w.script, got.Body, names)
				}
			}
			answered++
		}
	})
	vs.Quiesce()
	if answered != len(reqs) {
		vs.Fail("blocked", "%s: %s has no answer", w.script, reqs[answered].URL)
	}
}

func (w *world) open() (n int) {
	for _, rs := range w.m.recs {
		for _, r := range rs {
			if !r.done {
				n++
			}
		}
	}
	return n
}

// check compares everything that was sent with what came to the database.
func (w *world) check() {
	for metric, sent := range w.sent {
		got := append([]float64(nil), w.m.lost[metric]...)
		for _, r := range w.m.recs[metric] {
			got = append(got, r.vals...)
			for _, v := range r.vals {
				if t, ok := w.at[v]; ok && (t < r.start-slack || t > r.end+slack) {
					vs.Fail("times", "%s: %s %v was received at %d, the record is from %d to %d", w.script, metric, v, t, r.start, r.end)
				}
			}
		}
		sort.Float64s(got)
		if fmt.Sprint(got) != fmt.Sprint(sent) {
			vs.Fail("lost", "%s: the database got the values %v of %s instead of %v", w.script, got, metric, sent)
		}
	}
	for n := range w.m.recs {
		if w.sent[n] == nil {
			vs.Fail("data", "%s: unexpected metric %q", w.script, n)
		}
	}
}

const (
	stepOld = iota
	stepNew
	stepTwo
	stepTick
	stepHold
	stepFull
	stepRefuse
	stepStop
)

// moods: every script of up to n steps.
func moods(n, sched int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("moods-%d-%d", n, sched), Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false),
		Opt: vs.Options{MaxIdleFires: 2000}, Body: func() {
			w := &world{sent: map[string][]float64{}, at: map[float64]int64{}}
			w.m = &model{w: w, recs: map[string][]*rec{}, lost: map[string][]float64{}}
			current = w
			conf := config.Config{
				Main:      config.MainConfig{Duration: period},
				Database:  config.Entity{Kind: "model"},
				Dist:      config.Entity{Kind: "tdigest", Config: map[string]interface{}{"compression": 100.0}},
				API:       config.APIConfig{Address: apiAddr},
				Listeners: []config.Entity{{Kind: "graphite", Config: map[string]interface{}{"address": addr}}},
			}
			vs.Spawn("server", func() {
				ok, err := rothko.VerifRun(context.Background(), &conf)
				if err != nil {
					w.err = errors.New(err.Error())
				}
				w.ok, w.done = ok, true
			})
			vs.Quiesce()
			m := w.m
			did := ""
			for i := 0; i < n; i++ {
				s := vs.Choose(8)
				if s == stepStop {
					break
				}
				switch s {
				case stepOld:
					did += " line"
					w.script = did
					w.line("a", false)
				case stepNew:
					did += " connect"
					w.script = did
					w.line("b", true)
				case stepTwo:
					did += " both"
					w.script = did
					w.line("a", true)
					w.line("b", false)
				case stepTick:
					did += " tick"
					w.script = did
					vtime.Sleep(period)
					vs.Quiesce()
				case stepHold:
					m.hold = !m.hold
					did += fmt.Sprintf(" hold=%v", m.hold)
				case stepFull:
					m.full = !m.full
					did += fmt.Sprintf(" full=%v", m.full)
				case stepRefuse:
					m.refuse = (m.refuse + 1) % 4
					did += fmt.Sprintf(" refuse=%d", m.refuse)
				}
				w.script = did
				vs.Quiesce()
				w.ask()
				if w.done {
					vs.Fail("exit", "%s: the server ended with %v", w.script, w.err)
					return
				}
			}
			// whatever it is like, lines and requests go on
			w.line("c", true)
			w.ask()
			if m.full {
				m.full = false // the last dump gives up after a minute otherwise
				vs.Quiesce()
			}
			if !vsig.Raise(syscall.SIGINT) {
				vs.Fail("killed", "%s: the interrupt ends the process", w.script)
			}
			vs.Quiesce()
			if m.hold {
				if n := w.open(); w.done && n > 0 {
					vs.Fail("exit", "%s: the server ended while %d records wait", w.script, n)
				}
				if vnet.Listening(addr) {
					vs.Fail("accepting", "%s: the server still takes connections", w.script)
				}
				m.hold = false
			}
			vs.Wait("end", func() bool { return w.done })
			if !w.ok || w.err != nil || m.running || len(m.queue) > 0 {
				vs.Fail("exit", "%s: the server ended with %v, %v", w.script, w.ok, w.err)
			}
			w.check()
			total := 0
			for _, rs := range m.recs {
				total += len(rs)
			}
			vs.Outcome("%d records, %d lost: %s", total, len(m.lost), strings.TrimSpace(did))
		}}
}

func main() {
	ui.Tarball = nil
	registry.RegisterDatabase("model", registry.DatabaseMakerFunc(func(context.Context, interface{}) (database.DB, error) {
		return current.m, nil
	}))
	vh.Main(vh.Check{ID: "E02", Level: "model_checking",
		Rule:        "every script up to a depth of received lines, dumps and changes of the mood of a database (keeps values waiting, blocks callers, refuses values in three ways) through the whole server, with requests after each step; after an interrupt every value must have come to the database exactly once and in a record of its time",
		Assumptions: []string{"the modelled network, clock, HTTP server and database"},
		Scenarios: func(tier string) []vh.Scenario {
			if tier == "thorough" {
				return []vh.Scenario{moods(6, 0), moods(3, 1), moods(1, 2)}
			}
			return []vh.Scenario{moods(5, 0), moods(2, 1)}
		}})
}
