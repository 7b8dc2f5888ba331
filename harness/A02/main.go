//go:build go1.21

// A02: captures hand out each observation at most once, with contiguous times.
package main

import (
	"context"
	"fmt"
	"math"
	"sort"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/zz_verif/vdata"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

var points bool

type span struct{ start, end int64 }

// interval is the events at which a call began and ended.
type interval struct{ begin, end int }

func (i interval) meets(o interval) bool { return i.begin < o.end && o.begin < i.end }

// addition is an add that returned.
type addition struct {
	interval
	metric string
	val    float64
}

const forever = 1 << 30

type world struct {
	event    int
	adds     []addition
	captures []interval
	w      *data.Writer
	exact  bool
	made   map[string][]vdata.Obs // adds that have begun
	done   map[string]int         // adds that have returned
	handed map[string]map[string]bool
	count  map[string]int64
	spans  map[string][]span
	pages  map[span]bool
	hist   string
	seq    int
}

func newWorld(params dist.Params) *world {
	_, exact := params.(vdata.Params)
	return &world{w: data.NewWriter(params), exact: exact, made: map[string][]vdata.Obs{}, done: map[string]int{},
		handed: map[string]map[string]bool{}, count: map[string]int64{}, spans: map[string][]span{}, pages: map[span]bool{}}
}

func (w *world) fail(kind, format string, args ...any) {
	vs.Fail(kind, "%s\nhistory:%s", fmt.Sprintf(format, args...), w.hist)
}

// add makes an observation that is unlike all others.
func (w *world) add(metric string) {
	w.seq++
	v := float64(w.seq)
	if w.seq%2 == 0 {
		v = -v
	}
	o := vdata.Obs{Val: v, ID: fmt.Sprint("id", w.seq)}
	w.hist += fmt.Sprintf(" add(%s,%v)", metric, v)
	w.made[metric] = append(w.made[metric], o)
	w.event++
	a := addition{interval{begin: w.event}, metric, v}
	w.w.Add(context.Background(), metric, v, []byte(o.ID))
	w.done[metric]++
	w.event++
	a.end = w.event
	w.adds = append(w.adds, a)
	// neither of these may have any effect
	for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
		w.w.Add(context.Background(), "ignored", v, nil)
	}
}

// undisturbed tells if no capture meets the interval.
func (w *world) undisturbed(i interval) bool {
	for _, c := range w.captures {
		if c.meets(i) {
			return false
		}
	}
	return true
}

// look checks a record that was handed out by a capture or an iteration.
func (w *world) look(what, metric string, r data.Record) data.Record {
	r = vdata.Copy(r)
	if len(w.made[metric]) == 0 {
		w.fail("record", "%s: record of %q, which was not added", what, metric)
	}
	if w.exact {
		if s := vdata.Consistent(r, w.made[metric], false); s != "" {
			w.fail("record", "%s: record of %q: %s", what, metric, s)
		}
		return r
	}
	d, err := load.Load(context.Background(), r)
	if err != nil {
		w.fail("record", "%s: distribution of %q: %v", what, metric, err)
	} else if d.Len() != r.Observations || r.Observations == 0 || d.Query(0) != r.Min || d.Query(1) != r.Max {
		w.fail("record", "%s: %q has %d observations from %v to %v, its distribution %d from %v to %v", what, metric,
			r.Observations, r.Min, r.Max, d.Len(), d.Query(0), d.Query(1))
	}
	return r
}

// times checks that a record ends when it was handed out.
func (w *world) times(what, metric string, r data.Record, begin int64) {
	if r.EndTime < begin || r.EndTime > vs.Clock() || r.StartTime > r.EndTime {
		w.fail("times", "%s: the record of %q is from %d to %d, it was handed out from %d to %d", what, metric, r.StartTime, r.EndTime, begin, vs.Clock())
	}
}

func (w *world) capture(stop int) {
	seen := map[string]bool{}
	n := 0
	begin := vs.Clock()
	w.event++
	num := len(w.captures)
	w.captures = append(w.captures, interval{w.event, forever})
	defer func() {
		w.event++
		w.captures[num].end = w.event
	}()
	w.w.Capture(context.Background(), func(_ context.Context, metric string, r data.Record) bool {
		if n++; stop > 0 && n > stop {
			w.fail("capture", "goes on after the callback stopped it")
		}
		r = w.look("capture", metric, r)
		w.times("capture", metric, r, begin)
		if seen[metric] {
			w.fail("capture", "%q twice", metric)
		}
		seen[metric] = true
		if w.exact {
			if w.handed[metric] == nil {
				w.handed[metric] = map[string]bool{}
			}
			for _, v := range vdata.Values(r.Distribution) {
				k := fmt.Sprint(v)
				if w.handed[metric][k] {
					w.fail("capture", "observation %v of %q was handed out twice", v, metric)
				}
				w.handed[metric][k] = true
			}
		}
		w.count[metric] += r.Observations
		if w.count[metric] > int64(len(w.made[metric])) {
			w.fail("capture", "%d observations of %q were handed out, %d were made", w.count[metric], metric, len(w.made[metric]))
		}
		s := span{r.StartTime, r.EndTime}
		w.spans[metric] = append(w.spans[metric], s)
		w.pages[s] = true
		return stop == 0 || n < stop
	})
	w.hist += " capture"
}

func (w *world) iterate(stop int) {
	n := 0
	seen := map[string]bool{}
	begin := vs.Clock()
	w.event++
	first := w.event
	has := map[string]bool{}
	w.w.Iterate(context.Background(), func(_ context.Context, metric string, r data.Record) bool {
		if n++; stop > 0 && n > stop {
			w.fail("iterate", "goes on after the callback stopped it")
		}
		r = w.look("iterate", metric, r)
		if w.exact {
			for _, v := range vdata.Values(r.Distribution) {
				has[fmt.Sprint(metric, v)] = true
			}
		}
		w.times("iterate", metric, r, begin)
		if seen[metric] {
			w.fail("iterate", "%q twice", metric)
		}
		seen[metric] = true
		return stop == 0 || n < stop
	})
	if w.exact && stop == 0 {
		// what was added before is there, unless a capture took it
		w.event++
		for _, a := range w.adds {
			if a.end < first && w.undisturbed(interval{a.begin, w.event}) && !has[fmt.Sprint(a.metric, a.val)] {
				w.fail("iterate", "observation %v of %q, which was added before, is not there", a.val, a.metric)
			}
		}
	}
	w.hist += " iterate"
}

// end compares the spans and, if nothing overlapped, the numbers.
func (w *world) end(all bool) {
	var ps []span
	for s := range w.pages {
		ps = append(ps, s)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].start < ps[j].start })
	for i, s := range ps {
		if s.end < s.start {
			w.fail("times", "record from %d to %d", s.start, s.end)
		}
		if i > 0 && s.start < ps[i-1].end {
			w.fail("times", "records from %d to %d and from %d to %d overlap", ps[i-1].start, ps[i-1].end, s.start, s.end)
		}
	}
	if w.exact {
		// only an add at the time of a capture may be lost
		for _, a := range w.adds {
			if w.undisturbed(a.interval) && !w.handed[a.metric][fmt.Sprint(a.val)] {
				w.fail("capture", "observation %v of %q is lost, no capture was made when it was added", a.val, a.metric)
			}
		}
	}
	if all {
		for m, obs := range w.made {
			if w.count[m] != int64(len(obs)) {
				w.fail("capture", "%d observations of %q were handed out, %d were made", w.count[m], m, len(obs))
			}
		}
	}
	vs.Outcome("%v %d", w.count, len(ps))
}

// concurrent runs adders, capturers and iterators at the same time. In phases
// the captures begin after the adds.
func concurrent(name string, stmts bool, sched int, params dist.Params, phases bool, pre int, adders [][]string, captures, iterates int) vh.Scenario {
	if stmts {
		name += "-stmts"
	}
	return vh.Scenario{Name: name, Weight: vh.Weight(sched, stmts), Bound: vs.Bound{Sched: sched}, Body: func() {
		points = false
		w := newWorld(params)
		for i := 0; i < pre; i++ {
			w.add("m")
		}
		points = stmts
		left := 0
		spawn := func(name string, fn func()) {
			left++
			vs.Spawn(name, func() { fn(); left-- })
		}
		for _, a := range adders {
			a := a
			spawn("adder", func() {
				for _, m := range a {
					w.add(m)
				}
			})
		}
		if phases {
			vs.Wait("adders", func() bool { return left == 0 })
		}
		for i := 0; i < captures; i++ {
			spawn("capture", func() { w.capture(0) })
		}
		for i := 0; i < iterates; i++ {
			spawn("iterate", func() { w.iterate(0) })
		}
		vs.Wait("all", func() bool { return left == 0 })
		points = false
		// what is added afterwards is in the next capture
		for m := range w.made {
			_ = m
		}
		w.add("m")
		w.capture(0)
		w.end(phases)
		if !w.handedOut("m") && w.exact {
			w.fail("capture", "the last observation is not in the last capture")
		}
	}}
}

func (w *world) handedOut(metric string) bool {
	o := w.made[metric]
	return w.handed[metric][fmt.Sprint(o[len(o)-1].Val)]
}

// history makes every sequence of adds, captures and iterations.
func history(depth int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("history-depth%d", depth), Body: func() {
		points = false
		w := newWorld(vdata.Params{})
		last := int64(0) // the previous capture
		lo, hi := int64(0), int64(1<<63-1)
		for i := 0; i < depth; i++ {
			switch vs.Choose(6) {
			case 0:
				w.add("a")
			case 1:
				w.add("b")
			case 2:
				w.iterate(0)
			case 3:
				w.iterate(1)
			case 4, 5:
				before := map[string]int{}
				for m, s := range w.spans {
					before[m] = len(s)
				}
				pending := map[string]bool{}
				for m, o := range w.made {
					if int64(len(o)) > w.count[m] {
						pending[m] = true
					}
				}
				t0 := vs.Now()
				w.capture(0)
				t1 := vs.Now()
				end := int64(0)
				for m, s := range w.spans {
					if len(s) == before[m] {
						continue
					}
					n := s[len(s)-1]
					if end != 0 && n.end != end {
						w.fail("times", "records of one capture end at %d and %d", end, n.end)
					}
					end = n.end
					if n.start < lo || n.start > hi {
						w.fail("times", "record from %d to %d, the previous capture was between %d and %d", n.start, n.end, lo, hi)
					}
					if last != 0 && n.start != last {
						w.fail("times", "record from %d to %d, the previous capture was at %d", n.start, n.end, last)
					}
					delete(pending, m)
				}
				if len(pending) > 0 {
					w.fail("capture", "nothing of %v was captured", pending)
				}
				if end != 0 {
					last = end
				} else if last != 0 {
					// an empty page was captured: its time is not visible
					last = 0
				}
				if len(w.made) > 0 {
					lo, hi = t0, t1
				}
			}
		}
		w.capture(0)
		w.end(true)
	}}
}

// stopped has captures and iterations whose callback ends them.
func stopped() vh.Scenario {
	return vh.Scenario{Name: "stopped", Body: func() {
		points = false
		w := newWorld(vdata.Params{})
		n := 1 + vs.Choose(3)
		for i := 0; i < n; i++ {
			w.add(fmt.Sprint("m", i))
		}
		w.iterate(1 + vs.Choose(3))
		w.capture(1 + vs.Choose(3))
		vs.Outcome("%v", w.count)
	}}
}

func main() {
	vs.SetStmtHook(func() {
		if points {
			vs.Point("stmt")
		}
	})
	vh.Main(vh.Check{ID: "A02", Level: "model_checking",
		Rule: "every schedule, up to the deviation bound, of goroutines that add, capture and iterate at the same time (some with every statement as a scheduling point); every observation whose add met no capture is handed out, and every sequence of these up to the depth; all observations differ, so that each one can be told apart in what is handed out",
		Assumptions: []string{
			"an add that overlaps a capture may be lost, as documented",
			"accesses between synchronisation operations are ordered or reported as races",
			"the clock does not go backwards",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			d++
			ex := vdata.Params{Points: true}
			td := tdigest.Params{Compression: 5}
			aa := func(a ...[]string) [][]string { return a }
			m := []string{"m"}
			return []vh.Scenario{
				concurrent("add-capture", false, 4+d, ex, false, 0, aa(m), 1, 0),
				concurrent("adds-capture", false, 2+d, ex, false, 0, aa(m, []string{"m", "n"}), 1, 0),
				concurrent("others-capture", false, 2+d, ex, false, 0, aa([]string{"n"}, []string{"m"}), 1, 0),
				concurrent("others-iterate", false, 2+d, ex, false, 0, aa([]string{"n"}, []string{"m"}), 0, 1),
				concurrent("others-all", false, 1+d, ex, false, 1, aa([]string{"n"}, []string{"o"}), 1, 1),
				concurrent("add-captures", false, 2+d, ex, false, 1, aa(m), 2, 0),
				concurrent("add-iterate", false, 3+d, ex, false, 1, aa(m), 0, 1),
				concurrent("all", false, 2+d, ex, false, 1, aa(m), 1, 1),
				concurrent("first-all", false, 2+d, ex, false, 0, aa(m, m), 1, 1),
				concurrent("phases", false, 2+d, ex, true, 0, aa(m, []string{"m", "n"}), 2, 1),
				concurrent("phases-captures", false, 3+d, ex, true, 2, aa(m), 3, 0),
				concurrent("add-capture", true, 2+d, ex, false, 0, aa(m), 1, 0),
				concurrent("add-iterate", true, 2+d, ex, false, 1, aa(m), 0, 1),
				concurrent("phases", true, 1+d, ex, true, 0, aa(m, []string{"n"}), 2, 0),
				concurrent("tdigest-all", false, 2+d, td, false, 1, aa(m), 1, 1),
				concurrent("tdigest-iterate", false, 2+d, td, false, 0, aa(m, []string{"n"}), 0, 2),
				history(5 + d),
				stopped(),
			}
		}})
}
