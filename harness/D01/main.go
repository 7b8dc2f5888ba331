//go:build go1.21

// D01: a dump hands every captured record to the database intact.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dump"
	"github.com/vivint/rothko/external"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vdata"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

// answers of the database.
const (
	written  = iota // at once
	refused         // at once
	failed          // at once, with an error
	returned        // an error instead of a completion
	later           // written, by another thread
	laterNot        // refused, by another thread
	laterErr        // failed, by another thread
	blocking        // until the context ends, then refused
	answers
)

type call struct {
	metric     string
	start, end int64
	rec        data.Record
	open       bool
	answer     int
	afterStop  bool
}

// model is a database that keeps what it is given.
type model struct {
	database.DB
	w     *world
	calls []*call
	pick  []int // answers that are possible
}

type world struct {
	db      *model
	wr      *data.Writer
	d       *dump.Dumper
	made    map[string][]vdata.Obs
	stopped bool // the context of the dump
	mon     map[string][]float64
	hist    string
}

func (w *world) fail(kind, format string, args ...any) {
	vs.Fail(kind, "%s\nhistory:%s", fmt.Sprintf(format, args...), w.hist)
}

func (w *world) Observe(name string, v float64)    { w.mon[name] = append(w.mon[name], v) }
func (w *world) Infow(string, ...interface{})      {}
func (w *world) Errorw(m string, _ ...interface{}) {}

func newWorld(bufsize int, pick ...int) *world {
	w := &world{made: map[string][]vdata.Obs{}, mon: map[string][]float64{}}
	w.db = &model{w: w, pick: pick}
	w.wr = data.NewWriter(vdata.Params{})
	w.d = dump.New(dump.Options{DB: w.db, Period: time.Second, Bufsize: bufsize})
	external.Default.Monitor = w
	return w
}

func (w *world) add(metric string, v float64) {
	w.wr.Add(context.Background(), metric, v, nil)
	w.made[metric] = append(w.made[metric], vdata.Obs{Val: v})
}

// Queue is the answer of the database. It reads the data once more when it
// completes.
func (m *model) Queue(ctx context.Context, metric string, start, end int64, buf []byte, cb func(bool, error)) error {
	c := &call{metric: metric, start: start, end: end, open: true, afterStop: m.w.stopped}
	m.calls = append(m.calls, c)
	given := append([]byte(nil), buf...)
	if err := c.rec.Unmarshal(given); err != nil {
		m.w.fail("data", "the data of %q do not decode: %v", metric, err)
	}
	c.answer = m.pick[vs.Choose(len(m.pick))]
	m.w.hist += fmt.Sprintf(" %s:%d", metric, c.answer)
	complete := func(ok bool, err error) {
		if !bytes.Equal(buf, given) {
			m.w.fail("data", "the data of %q changed before they were completed: %x, %x", metric, given, buf)
		}
		c.open = false
		cb(ok, err)
	}
	bad := errors.New("failed")
	switch c.answer {
	case written:
		complete(true, nil)
	case refused:
		complete(false, nil)
	case failed:
		complete(false, bad)
	case returned:
		c.open = false
		return bad
	case later:
		vs.Spawn("later", func() { complete(true, nil) })
	case laterNot:
		vs.Spawn("later", func() { complete(false, nil) })
	case laterErr:
		vs.Spawn("later", func() { complete(false, bad) })
	case blocking:
		vs.Recv(ctx.Done())
		complete(false, nil)
	}
	return nil
}

// dump runs one dump and checks that nothing is open at its end.
func (w *world) dump(ctx context.Context) {
	w.d.Dump(ctx, w.wr)
}

func (w *world) open() (n int) {
	for _, c := range w.db.calls {
		if c.open {
			n++
		}
	}
	return n
}

// check compares the calls with what was added.
func (w *world) check(all bool) {
	seen := map[string][]float64{}
	for _, c := range w.db.calls {
		if c.start != c.rec.StartTime || c.end != c.rec.EndTime {
			w.fail("times", "%q is queued for %d-%d, its record is for %d-%d", c.metric, c.start, c.end, c.rec.StartTime, c.rec.EndTime)
		}
		if s := vdata.Consistent(c.rec, w.made[c.metric], false); s != "" {
			w.fail("record", "%q: %s", c.metric, s)
		}
		seen[c.metric] = append(seen[c.metric], vdata.Values(c.rec.Distribution)...)
	}
	for m, v := range seen {
		if len(v) > len(w.made[m]) {
			w.fail("twice", "%q got %v, only %v were added", m, v, w.made[m])
		}
	}
	if all {
		for m, made := range w.made {
			var want []float64
			for _, o := range made {
				want = append(want, o.Val)
			}
			got := append([]float64(nil), seen[m]...)
			sort.Float64s(got)
			sort.Float64s(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				w.fail("missing", "%q got %v of %v", m, got, want)
			}
		}
	}
}

// counts compares what is reported with the answers.
func (w *world) counts() {
	var want [3]float64
	for _, c := range w.db.calls {
		switch c.answer {
		case written, later:
			want[0]++
		case refused, laterNot, blocking:
			want[1]++
		case failed, laterErr, returned:
			want[1]++
			want[2]++
		}
	}
	for i, n := range []string{"metric_writes", "metric_skips", "metric_errors"} {
		sum := 0.0
		for _, v := range w.mon[n] {
			sum += v
		}
		if sum != want[i] {
			w.fail("counts", "%s is reported to be %v instead of %v", n, sum, want[i])
		}
	}
}

var allAnswers = []int{written, refused, failed, returned, later, laterNot, laterErr}

// one dump of every combination of answers.
func single(metrics, bufsize, sched int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("single-%d-buf%d", metrics, bufsize), Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		w := newWorld(bufsize, allAnswers...)
		for i := 0; i < metrics; i++ {
			for j := 0; j <= i; j++ {
				w.add(fmt.Sprint("m", i), float64(10*i-j))
			}
		}
		w.dump(context.Background())
		if n := w.open(); n > 0 {
			w.fail("early", "%d values are not completed at the end of the dump", n)
		}
		w.check(true)
		w.counts()
		vs.Quiesce()
		// once more: buffers are used again
		n := len(w.db.calls)
		w.dump(context.Background())
		if len(w.db.calls) != n {
			w.fail("twice", "a dump of nothing queues %d", len(w.db.calls)-n)
		}
		w.db.pick = []int{later}
		for i := 0; i < metrics; i++ {
			w.add(fmt.Sprint("n", i), float64(i))
		}
		w.dump(context.Background())
		w.check(true)
		w.counts()
		vs.Outcome("%s", w.hist)
	}}
}

// concurrent dumps and additions.
func concurrent(dumps, metrics, sched int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("concurrent-%d-%d", dumps, metrics), Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		w := newWorld(64, later, written)
		for i := 0; i < metrics; i++ {
			w.add(fmt.Sprint("m", i), float64(i))
		}
		for i := 0; i < dumps; i++ {
			vs.Spawn("dump", func() { w.dump(context.Background()) })
		}
		vs.Quiesce()
		w.add("late", 1)
		w.dump(context.Background())
		if n := w.open(); n > 0 {
			w.fail("early", "%d values are not completed at the end of all dumps", n)
		}
		w.check(true)
		w.counts()
		vs.Outcome("%s", w.hist)
	}}
}

// cancelled dumps stop and still wait for what was queued.
func cancelled(metrics, sched int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("cancelled-%d", metrics), Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		w := newWorld(64, blocking, later, written)
		for i := 0; i < metrics; i++ {
			w.add(fmt.Sprint("m", i), float64(i))
		}
		ctx, cancel := vctx.WithCancel(context.Background())
		when := vs.Choose(2)
		if when == 0 {
			w.stopped = true
			cancel()
		}
		done := false
		vs.Spawn("dump", func() {
			w.dump(ctx)
			if n := w.open(); n > 0 {
				w.fail("early", "%d values are not completed at the end of the dump", n)
			}
			done = true
		})
		if when == 1 {
			vs.Spawn("cancel", func() { cancel(); w.stopped = true })
		}
		vs.Quiesce()
		if !done {
			w.fail("hang", "the dump does not end: %v", vs.Live())
		}
		after := 0
		for _, c := range w.db.calls {
			if c.afterStop {
				after++
			}
		}
		if after > when {
			w.fail("cancel", "%d values are queued after the context ended", after)
		}
		w.check(false)
		w.counts()
		vs.Outcome("%d%s", when, w.hist)
	}}
}

// periodic dumps until the context ends.
func periodic(ticks, sched int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("periodic-%d", ticks), Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Opt: vs.Options{MaxIdleFires: ticks + 4}, Body: func() {
		w := newWorld(64, later, written, failed)
		ctx, cancel := vctx.WithCancel(context.Background())
		done, err := false, error(nil)
		w.add("m", 0)
		vs.Spawn("run", func() {
			err = w.d.Run(ctx, w.wr)
			if n := w.open(); n > 0 {
				w.fail("early", "%d values are not completed at the end of the run", n)
			}
			done = true
		})
		for i := 1; i <= ticks; i++ {
			n := len(w.db.calls)
			vs.Wait("tick", func() bool { return len(w.db.calls) > n && w.open() == 0 })
			w.add("m", float64(i))
		}
		stop := vs.Choose(3)
		switch stop {
		case 1:
			vs.Quiesce()
		case 2:
			n := len(w.db.calls)
			vs.Wait("tick", func() bool { return len(w.db.calls) > n })
		}
		cancel()
		vs.Wait("done", func() bool { return done })
		if err != nil {
			w.fail("run", "%v", err)
		}
		// what is left belongs to the last dump
		w.dump(context.Background())
		vs.Quiesce()
		w.check(true)
		w.counts()
		if l := vs.Live(); len(l) > 0 {
			w.fail("leak", "left: %v", l)
		}
		vs.Outcome("%d%s", stop, w.hist)
	}}
}

func main() {
	vh.Main(vh.Check{ID: "D01", Level: "model_checking",
		Rule: "every combination of answers of the database for up to three metrics (at once, later, refused, failed, blocked) in every schedule up to the bound, for single, concurrent, cancelled and periodic dumps",
		Scenarios: func(tier string) []vh.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []vh.Scenario{
				single(3, 1024, 1+d),
				single(2, 1, 2+d),
				single(2, 0, 1+d),
				concurrent(2, 2, 2+d),
				concurrent(2, 1, 3+d),
				cancelled(2, 3+d),
				cancelled(3, 1+d),
				periodic(2, 2+d),
			}
		}})
}
