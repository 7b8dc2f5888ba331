//go:build go1.21

// D02: an interrupted server stores everything it has accepted before it
// exits.
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/vivint/rothko"
	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/external"
	"github.com/vivint/rothko/registry"
	"github.com/vivint/rothko/ui"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vdata"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vnet"
	"github.com/vivint/rothko/zz_verif/vs"
	"github.com/vivint/rothko/zz_verif/vsig"
)

// model is a database that writes what is queued while it runs.
type model struct {
	database.DB
	w       *world
	queue   []func()
	running bool
	stored  map[string][]data.Record
	fail    error
	sync    uint64
}

func (m *model) Queue(ctx context.Context, metric string, start, end int64, buf []byte, cb func(bool, error)) error {
	vs.RaceReleaseMerge(unsafe.Pointer(&m.sync))
	m.queue = append(m.queue, func() {
		vs.RaceAcquire(unsafe.Pointer(&m.sync))
		var r data.Record
		if err := r.Unmarshal(append([]byte(nil), buf...)); err != nil {
			m.w.fail("data", "the data of %q do not decode: %v", metric, err)
		}
		m.stored[metric] = append(m.stored[metric], r)
		cb(true, nil)
	})
	return nil
}

// Run writes in its own time, and does not when it has ended.
func (m *model) Run(ctx context.Context) error {
	m.running = true
	for {
		vs.Wait("database", func() bool { return len(m.queue) > 0 || vctx.Ended(ctx) || m.fail != nil })
		switch {
		case m.fail != nil:
			m.running = false
			return m.fail
		case len(m.queue) > 0:
			q := m.queue[0]
			m.queue = m.queue[1:]
			q()
		default:
			m.running = false
			return nil
		}
		vs.Point("database")
	}
}

type client struct {
	name   string
	peer   *vnet.Peer
	chunks []string
}

func lines(name string, n int) *client {
	c := &client{name: name}
	for i := 0; i < n; i++ {
		c.chunks = append(c.chunks, fmt.Sprintf("%s %d 0\n", name, i))
	}
	return c
}

func (c *client) numbers() (out []float64) {
	if c.peer == nil {
		return nil
	}
	text := strings.Join(c.chunks, "")[:c.peer.Read()]
	for i := 0; i < strings.Count(text, "\n"); i++ {
		out = append(out, float64(i))
	}
	return out
}

type world struct {
	m       *model
	dir     string
	opts    files.Options
	conf    *config.Config
	done    bool
	started bool
	err     error
	cl      []*client
	dumps   int // ended
	begun   int
}

func (w *world) fail(kind, format string, args ...any) { vs.Fail(kind, format, args...) }
func (w *world) Observe(n string, _ float64) {
	if n == "metric_dump_duration" {
		w.dumps++
	}
}
func (w *world) Infow(m string, _ ...interface{}) {
	if m == "performing dump" {
		w.begun++
	}
}
func (w *world) Errorw(m string, _ ...interface{}) {}

const (
	apiAddr = "api"
	addr    = "graphite"
)

var current *world

func newWorld(db string, listeners ...string) *world {
	w := &world{}
	current = w
	external.Default.Monitor = w
	external.Default.Logger = w
	w.m = &model{w: w, stored: map[string][]data.Record{}}
	w.conf = &config.Config{
		Main:     config.MainConfig{Duration: time.Second},
		Database: config.Entity{Kind: db},
		Dist:     config.Entity{Kind: "exact"},
		API:      config.APIConfig{Address: apiAddr},
	}
	for _, l := range listeners {
		w.conf.Listeners = append(w.conf.Listeners, config.Entity{Kind: "graphite", Config: map[string]interface{}{"address": l}})
	}
	if db == "files" {
		vs.FS.NoPoints = true
		w.dir = vdb.NewDir()
		w.opts = files.Options{Size: 256, Cap: 4, Files: 2, Tuning: files.Tuning{Buffer: 1, Workers: 1, Handles: 2}}
		w.conf.Database.Config = map[string]interface{}{"directory": w.dir, "size": int64(256), "cap": int64(4), "files": int64(2),
			"tuning": map[string]interface{}{"buffer": int64(1), "workers": int64(1), "handles": int64(2)}}
	}
	return w
}

func (w *world) start() {
	vs.Spawn("server", func() {
		started, err := rothko.VerifRun(context.Background(), w.conf)
		if err != nil {
			w.err = errors.New(err.Error())
		}
		w.started = started
		w.done = true
	})
}

func (w *world) connect(address string, c *client, end bool) {
	w.cl = append(w.cl, c)
	vs.Spawn(c.name, func() {
		vs.Wait("listening", func() bool { return vnet.Listening(address) || w.done })
		p, err := vnet.Dial(address)
		if err != nil {
			return
		}
		c.peer = p
		for _, s := range c.chunks {
			p.Send([]byte(s))
		}
		if end {
			p.Close()
		}
	})
}

// web opens a connection to the api that stays idle.
func (w *world) web() {
	vs.Spawn("web", func() {
		vs.Wait("listening", func() bool { return vnet.Listening(apiAddr) || w.done })
		if p, err := vnet.Dial(apiAddr); err == nil {
			p.Send([]byte("GET"))
		}
	})
}

// late tells that enough time for some dumps has passed, in case that they are
// not announced.
func (w *world) late(ticks int) func() bool {
	end := vs.Clock() + int64(ticks+3)*int64(w.conf.Main.Duration)
	return func() bool { return vs.Clock() >= end }
}

// interrupt raises the signal as soon as it does not end the process.
func (w *world) interrupt() {
	vs.Wait("signal handler", func() bool { return vsig.Registered(syscall.SIGINT) > 0 || w.done })
	if !vsig.Raise(syscall.SIGINT) && !w.done && w.m.fail == nil {
		w.fail("killed", "the interrupt ends the process while it runs")
	}
}

// stored reads what the database has.
func (w *world) stored() map[string][]data.Record {
	if w.dir == "" {
		return w.m.stored
	}
	out := map[string][]data.Record{}
	d := vdb.Open(w.dir, w.opts)
	vs.Quiesce()
	names, err := d.Names()
	if err != nil {
		w.fail("names", "%v", err)
	}
	for _, n := range names {
		recs, err := d.Query(n, 1<<63-1)
		if err != nil {
			w.fail("query", "%v", err)
		}
		for _, b := range recs {
			var r data.Record
			if err := r.Unmarshal(b.Data); err != nil {
				w.fail("data", "%v", err)
			}
			out[n] = append(out[n], r)
		}
	}
	d.Stop()
	return out
}

// check compares the database with the lines that were read.
func (w *world) check() {
	stored := w.stored()
	out := ""
	for _, c := range w.cl {
		var got []float64
		for _, r := range stored[c.name] {
			got = append(got, vdata.Values(r.Distribution)...)
		}
		delete(stored, c.name)
		sort.Float64s(got)
		want := c.numbers()
		if fmt.Sprint(got) != fmt.Sprint(want) {
			w.fail("lost", "%s sent %q, of which the lines %v were read. The database has %v after %d dumps", c.name, c.chunks, want, got, w.dumps)
		}
		out += fmt.Sprint(c.name, got)
	}
	if len(stored) > 0 {
		w.fail("data", "unexpected metrics %v", stored)
	}
	vs.Outcome("%d %s", w.dumps, out)
}

// ended waits for the end of the server.
func (w *world) ended(fails bool) {
	vs.Wait("end", func() bool { return w.done })
	if !w.started {
		w.fail("start", "the server did not start: %v", w.err)
	}
	if (w.err != nil) != fails {
		w.fail("exit", "the server ended with %v", w.err)
	}
	if vnet.Listening(addr) || vnet.Listening("other") || vnet.Listening(apiAddr) {
		w.fail("accepting", "the server still accepts connections")
	}
	if w.m.running || len(w.m.queue) > 0 {
		w.fail("database", "the database still runs")
	}
}

type setup struct {
	db      string
	ticks   int  // dumps before the interrupt may happen, at least
	web     bool // an idle connection to the api
	two     bool // two listeners
	clients int
	n       int     // lines
	late    *client // sends while dumps are made
}

func interrupted(name string, sched int, s setup) vh.Scenario {
	return vh.Scenario{Name: name, Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false),
		Opt: vs.Options{MaxIdleFires: s.ticks + 200}, Body: func() {
			ls := []string{addr}
			if s.two {
				ls = append(ls, "other")
			}
			w := newWorld(s.db, ls...)
			if w.dir != "" {
				defer vdb.RmDir(w.dir)
			}
			w.start()
			for i := 0; i < s.clients; i++ {
				w.connect(ls[i%len(ls)], lines(fmt.Sprint("c", i), s.n), i%2 == 1)
			}
			if s.web {
				w.web()
			}
			switch vs.Choose(4) {
			case 0: // as early as possible
			case 1: // everything was sent and read
				vs.Quiesce()
			case 2: // dumps were made
				vs.Quiesce()
				d, late := w.dumps, w.late(s.ticks)
				vs.Wait("ticks", func() bool { return w.dumps >= d+s.ticks || late() })
			case 3: // a dump is being made
				vs.Quiesce()
				d, late := w.begun, w.late(s.ticks)
				vs.Wait("ticks", func() bool { return w.begun >= d+s.ticks || late() })
				if s.late != nil {
					c := *s.late
					w.connect(addr, &c, false)
				}
			}
			w.interrupt()
			w.ended(false)
			w.check()
		}}
}

// failing services end the server with an error, without a dump.
func failing(name string, sched int) vh.Scenario {
	return vh.Scenario{Name: name, Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Opt: vs.Options{MaxIdleFires: 200}, Body: func() {
		w := newWorld("model", addr)
		kind := vs.Choose(4)
		bad := errors.New("bad")
		switch kind {
		case 0: // an address is taken
			vnet.FailListen(bad)
			w.start()
		case 1: // the database ends
			w.start()
			w.connect(addr, lines("c", 2), false)
			vs.Spawn("failure", func() { vs.Point("failure"); w.m.fail = bad })
		case 2: // together with the interrupt
			w.start()
			w.connect(addr, lines("c", 1), false)
			vs.Spawn("failure", func() { vs.Point("failure"); w.m.fail = bad })
			w.interrupt()
		case 3: // connections cannot be accepted
			w.start()
			vs.Spawn("failure", func() {
				vs.Wait("listening", func() bool { return vnet.Listening(addr) || w.done })
				vnet.FailAccept(bad)
			})
		}
		if kind == 2 {
			vs.Wait("end", func() bool { return w.done })
			if w.err == nil {
				w.ended(false)
				w.check()
			}
			return
		}
		w.ended(true)
		vs.Outcome("%d %v", kind, w.err)
	}}
}

func main() {
	ui.Tarball = nil
	registry.RegisterDatabase("model", registry.DatabaseMakerFunc(func(context.Context, interface{}) (database.DB, error) {
		return current.m, nil
	}))
	registry.RegisterDistribution("exact", registry.DistributionMakerFunc(func(context.Context, interface{}) (dist.Params, error) {
		return vdata.Params{}, nil
	}))
	vh.Main(vh.Check{ID: "D02", Level: "model_checking",
		Rule:        "every schedule up to the bound of the real server with peers that send lines, idle web connections, periodic dumps and an interrupt at any time since it is handled, on a modelled network, with a modelled and with the real database",
		Assumptions: []string{"the modelled network and HTTP server"},
		Scenarios: func(tier string) []vh.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []vh.Scenario{
				failing("failing", 1+d),
				interrupted("one", 2+d, setup{db: "model", clients: 1, n: 2, ticks: 1}),
				interrupted("two", 1+d, setup{db: "model", clients: 2, n: 2, ticks: 2, two: true}),
				interrupted("web", 1+d, setup{db: "model", clients: 1, n: 1, ticks: 1, web: true}),
				interrupted("late", 2+d, setup{db: "model", clients: 1, n: 1, ticks: 1, late: lines("late", 1)}),
				interrupted("files", 1+d, setup{db: "files", clients: 2, n: 1, ticks: 1}),
			}
		}})
}
