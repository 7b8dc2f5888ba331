//go:build go1.21

// D03: the demo command adds its data and ends, whatever the database does.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"time"
	"unsafe"

	"github.com/vivint/rothko"
	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/external"
	"github.com/vivint/rothko/registry"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vdata"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

// answers of the database.
const (
	written  = iota // at once
	later           // written, by another thread
	refused         // at once
	failed          // at once, with an error
	laterNot        // refused, by another thread
	laterErr        // failed, by another thread
	returned        // an error instead of a completion
	ended           // the database ends, the value is refused
	endedErr        // the database ends, an error instead of a completion
	endedBad        // the database ends, the value fails
	answers
)

var names = []string{"written", "later", "refused", "failed", "later refused", "later failed", "returned", "ended", "ended returned", "ended failed"}

type model struct {
	database.DB
	w    *world
	fail bool
	end  bool
	sync uint64
}

type call struct {
	metric     string
	start, end int64
	rec        data.Record
}

type world struct {
	m       *model
	calls   []call
	at      int // call with the other answer
	answer  int
	usual   int
	pending bool
	err     string
	done    bool
	started bool
	newFail int
}

var current *world

func (w *world) Observe(string, float64)       {}
func (w *world) Infow(string, ...interface{})  {}
func (w *world) Errorw(string, ...interface{}) {}

// Run waits for the end.
func (m *model) Run(ctx context.Context) error {
	vs.Wait("database", func() bool { return m.end || vctx.Ended(ctx) })
	if m.fail {
		return errors.New("database failed")
	}
	return nil
}

func (m *model) Queue(ctx context.Context, metric string, start, end int64, buf []byte, cb func(bool, error)) error {
	w := m.w
	if w.pending {
		vs.Fail("order", "a value is queued before the last one was completed")
	}
	c := call{metric: metric, start: start, end: end}
	if err := c.rec.Unmarshal(append([]byte(nil), buf...)); err != nil {
		vs.Fail("data", "the data of %q do not decode: %v", metric, err)
	}
	answer := w.usual
	if len(w.calls) == w.at {
		answer = w.answer
	}
	w.calls = append(w.calls, c)
	bad := errors.New("bad")
	async := func(ok bool, err error) {
		w.pending = true
		vs.RaceReleaseMerge(unsafe.Pointer(&m.sync))
		vs.Spawn("later", func() {
			vs.RaceAcquire(unsafe.Pointer(&m.sync))
			w.pending = false
			cb(ok, err)
		})
	}
	switch answer {
	case written:
		cb(true, nil)
	case refused:
		cb(false, nil)
	case failed:
		cb(false, bad)
	case later:
		async(true, nil)
	case laterNot:
		async(false, nil)
	case laterErr:
		async(false, bad)
	case returned:
		return bad
	case ended:
		m.end, m.fail = true, true
		vs.Recv(ctx.Done())
		cb(false, nil)
	case endedErr:
		m.end, m.fail = true, true
		vs.Recv(ctx.Done())
		return ctx.Err()
	case endedBad:
		m.end, m.fail = true, true
		vs.Recv(ctx.Done())
		cb(false, ctx.Err())
	}
	return nil
}

func run(conf *config.Config) *world {
	rand.Seed(1)
	w := &world{at: -1}
	w.m = &model{w: w}
	current = w
	external.Default.Monitor = w
	external.Default.Logger = w
	return w
}

func (w *world) start(conf *config.Config) {
	vs.Spawn("demo", func() {
		started, err := rothko.VerifDemo(context.Background(), conf)
		if err != nil {
			w.err = err.Error()
		}
		w.started, w.done = started, true
	})
}

func (w *world) ended() {
	vs.Wait("end", func() bool { return w.done })
	vs.Quiesce()
	if l := vs.Live(); len(l) > 0 {
		vs.Fail("leak", "left: %v", l)
	}
	if !w.started {
		vs.Fail("start", "the demo did not start: %s", w.err)
	}
}

// records checks what is in the database: every metric covers the last day
// without gaps.
func records(calls []call, all bool) {
	next := map[string]call{}
	count := map[string]int{}
	var first, last int64
	for _, c := range calls {
		p, ok := next[c.metric]
		if !ok {
			if first == 0 {
				first = c.start
			}
			if c.start != first {
				vs.Fail("data", "%s starts at %d, others at %d", c.metric, c.start, first)
			}
		} else if p.end != c.start {
			vs.Fail("data", "%s has a record until %d and the next one from %d", c.metric, p.end, c.start)
		}
		if c.end <= c.start || c.start != c.rec.StartTime || c.end != c.rec.EndTime {
			vs.Fail("data", "%s: %d-%d has a record of %d-%d", c.metric, c.start, c.end, c.rec.StartTime, c.rec.EndTime)
		}
		if n := int64(len(vdata.Values(c.rec.Distribution))); n != c.rec.Observations || n == 0 || c.rec.Merged != 1 {
			vs.Fail("data", "%s: %d observations are counted, the distribution has %d", c.metric, c.rec.Observations, n)
		}
		for _, v := range vdata.Values(c.rec.Distribution) {
			if v < c.rec.Min || v > c.rec.Max {
				vs.Fail("data", "%s: %v is not in %v to %v", c.metric, v, c.rec.Min, c.rec.Max)
			}
		}
		next[c.metric] = c
		count[c.metric]++
		last = c.end
	}
	if !all {
		return
	}
	if len(count) != 6 {
		vs.Fail("data", "%d metrics", len(count))
	}
	for m, n := range count {
		if n != 100 || next[m].end != last || last-first != int64(24*time.Hour) {
			vs.Fail("data", "%s has %d records until %d, starting %d", m, n, next[m].end, first)
		}
	}
}

func conf(db string) *config.Config {
	return &config.Config{Database: config.Entity{Kind: db}, Dist: config.Entity{Kind: "exact"}}
}

// faults: one of the answers differs from the usual ones.
func faults(usual, from, to, sched int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("faults-%s-%d", names[usual], from), Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		c := conf("model")
		w := run(c)
		w.usual = usual
		w.at = from + vs.Choose(to-from)
		w.answer = vs.Choose(answers)
		w.start(c)
		w.ended()
		var want string
		n := 600
		switch w.answer {
		case failed, laterErr, returned:
			want, n = "bad", w.at+1
		case ended, endedErr, endedBad:
			want, n = "database failed", 0
		}
		if w.at >= 600 {
			want, n = "", 600
		}
		if !strings.Contains(w.err, want) || (want == "") != (w.err == "") {
			vs.Fail("error", "value %d is answered with %s: the demo returns %q", w.at, names[w.answer], w.err)
		}
		if n > 0 && len(w.calls) != n {
			vs.Fail("data", "value %d is answered with %s: %d values are queued", w.at, names[w.answer], len(w.calls))
		}
		records(w.calls, n == 600)
		vs.Outcome("%s %d %s", names[w.answer], n, w.err)
	}}
}

// real uses the files database.
func real(sched, buffer int, drop bool) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("files-%d-%v", buffer, drop), Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		vs.FS.NoPoints = true
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		c := conf("files")
		c.Database.Config = map[string]interface{}{"directory": dir, "size": int64(4096), "cap": int64(200), "files": int64(1),
			"tuning": map[string]interface{}{"buffer": int64(buffer), "workers": int64(1), "handles": int64(8), "drop": drop}}
		w := run(c)
		w.start(c)
		w.ended()
		if w.err != "" {
			vs.Fail("error", "the demo returns %s", w.err)
		}
		d := vdb.Open(dir, files.Options{Size: 4096, Cap: 200, Files: 1, Tuning: files.Tuning{Buffer: 1, Workers: 1, Handles: 8}})
		vs.Quiesce()
		ms, err := d.Names()
		if err != nil {
			vs.Fail("names", "%v", err)
		}
		var calls []call
		for _, m := range ms {
			recs, err := d.Query(m, 1<<63-1)
			if err != nil {
				vs.Fail("query", "%v", err)
			}
			for i := range recs {
				r := recs[len(recs)-1-i]
				c := call{metric: m, start: r.Start, end: r.End}
				if err := c.rec.Unmarshal(r.Data); err != nil {
					vs.Fail("data", "%v", err)
				}
				calls = append(calls, c)
			}
		}
		if !drop {
			records(calls, true)
		}
		d.Stop()
		vs.Outcome("%d", len(calls))
	}}
}

func main() {
	registry.RegisterDatabase("model", registry.DatabaseMakerFunc(func(context.Context, interface{}) (database.DB, error) {
		return current.m, nil
	}))
	registry.RegisterDistribution("exact", registry.DistributionMakerFunc(func(context.Context, interface{}) (dist.Params, error) {
		return vdata.Params{}, nil
	}))
	vh.Main(vh.Check{ID: "D03", Level: "model_checking",
		Rule: "every answer of the database at every one of the values of the demo data, and schedules up to the bound",
		Scenarios: func(tier string) []vh.Scenario {
			out := []vh.Scenario{
				faults(later, 0, 5, 0),
				faults(later, 595, 602, 0),
				real(0, 1, false),
				real(0, 0, true),
			}
			for i := 0; i < 600; i += 100 {
				out = append(out, faults(written, i, i+100, 0))
			}
			if tier == "thorough" {
				out = append(out, faults(written, 0, 2, 1), faults(later, 0, 2, 1), real(1, 0, false))
			}
			return out
		}})
}
