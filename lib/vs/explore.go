//go:build go1.21

package vs

import (
	"hash/fnv"
	"strings"
	"time"
)

// Bound limits the deviations of an execution.
type Bound struct {
	Sched int // scheduling deviations from the default schedule
	Env   int // environment deviations (faults, early timers, ...)
}

// Result is what one execution gave.
type Result struct {
	Fail    *Failure
	Choices []int32
	Outcome string
	Trace   []string
	Steps   int64
	Exited  bool
	Code    int
}

// Explorer enumerates the executions of a body.
type Explorer struct {
	Opt      Options
	Bound    Bound
	Body     func()
	Shard    int
	Shards   int
	Deadline time.Time
	MaxExecs int64
	MaxFails int

	// Before is called with the prefix of every execution.
	Before func(prefix []int32)
	// OnFail is called for every failing execution.
	OnFail func(Result)

	Execs    int64 // executions counted by this shard
	Nodes    int64 // choice points first reached by this shard
	Steps    int64
	Fails    int
	MaxDepth int
	Complete bool
	Outcomes map[uint64]int64
	Samples  []string
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// RunOne runs a single execution.
func RunOne(opt Options, prefix []int32, trace bool, body func()) Result {
	e := runExec(opt, prefix, trace, body)
	r := Result{Fail: e.fail, Steps: e.steps, Trace: e.trace, Exited: e.exited, Code: e.exitCode}
	for _, c := range e.choices {
		r.Choices = append(r.Choices, c.Pick)
	}
	r.Outcome = strings.Join(e.outcome, ";")
	return r
}

type frame struct {
	choices []Choice
	cum     [][2]int16 // cost before choice i
	from    int        // choices before this index belong to the prefix
	i       int        // next choice to vary
	alt     int32      // next alternative
}

func (ex *Explorer) run(prefix []int32, count bool) *Exec {
	if ex.Before != nil {
		ex.Before(prefix)
	}
	e := runExec(ex.Opt, prefix, false, ex.Body)
	if len(e.choices) < len(prefix) && e.fail == nil {
		e.fail = &Failure{Kind: "divergence", Msg: "execution ended before the end of the replayed prefix"}
	}
	if count {
		ex.Execs++
		ex.Nodes += int64(len(e.choices)-len(prefix)) + 1
		ex.Steps += e.steps
		if len(e.choices) > ex.MaxDepth {
			ex.MaxDepth = len(e.choices)
		}
		out := strings.Join(e.outcome, ";")
		h := hashStr(out)
		if ex.Outcomes[h] == 0 && len(ex.Samples) < 5 {
			ex.Samples = append(ex.Samples, out)
		}
		if len(ex.Outcomes) < 200000 {
			ex.Outcomes[h]++
		}
	}
	if e.fail != nil {
		ex.Fails++
		if ex.OnFail != nil {
			r := Result{Fail: e.fail, Steps: e.steps}
			for _, c := range e.choices {
				r.Choices = append(r.Choices, c.Pick)
			}
			ex.OnFail(r)
		}
	}
	return e
}

func mkFrame(e *Exec, prefixLen int) *frame {
	f := &frame{choices: e.choices, from: prefixLen, i: len(e.choices) - 1, alt: 1}
	f.cum = make([][2]int16, len(e.choices)+1)
	for i, c := range e.choices {
		f.cum[i+1] = f.cum[i]
		if c.Pick >= c.Free {
			f.cum[i+1][0] += int16(c.Cost[0])
			f.cum[i+1][1] += int16(c.Cost[1])
		}
	}
	return f
}

// next returns the next child prefix of the frame, or nil.
func (f *frame) next(b Bound) []int32 {
	for f.i >= f.from {
		c := f.choices[f.i]
		for f.alt < c.N {
			a := f.alt
			f.alt++
			s, v := int(f.cum[f.i][0]), int(f.cum[f.i][1])
			if a >= c.Free {
				s += int(c.Cost[0])
				v += int(c.Cost[1])
			}
			if s > b.Sched || v > b.Env {
				continue
			}
			p := make([]int32, f.i+1)
			for k := 0; k < f.i; k++ {
				p[k] = f.choices[k].Pick
			}
			p[f.i] = a
			return p
		}
		f.i--
		f.alt = 1
	}
	return nil
}

func (ex *Explorer) stop() bool {
	if ex.MaxFails > 0 && ex.Fails >= ex.MaxFails {
		return true
	}
	if ex.MaxExecs > 0 && ex.Execs >= ex.MaxExecs {
		return true
	}
	return ex.Execs%16 == 0 && !ex.Deadline.IsZero() && time.Now().After(ex.Deadline)
}

// Explore runs the exploration of this shard.
func (ex *Explorer) Explore() {
	if ex.Outcomes == nil {
		ex.Outcomes = map[uint64]int64{}
	}
	if ex.Shards == 0 {
		ex.Shards = 1
	}
	// a short breadth first phase that every shard repeats makes the pieces
	// that are then divided.
	queue := [][]int32{nil}
	head := 0
	if ex.Shards > 1 {
		for head < len(queue) && head < 40 && len(queue)-head < 64*ex.Shards {
			p := queue[head]
			head++
			f := mkFrame(ex.run(p, ex.Shard == 0), len(p))
			for c := f.next(ex.Bound); c != nil; c = f.next(ex.Bound) {
				queue = append(queue, c)
			}
			if ex.stop() {
				return
			}
		}
	}
	for k := head; k < len(queue); k++ {
		if ex.Shards > 1 && (k-head)%ex.Shards != ex.Shard {
			continue
		}
		p := queue[k]
		stack := []*frame{mkFrame(ex.run(p, true), len(p))}
		for len(stack) > 0 {
			if ex.stop() {
				return
			}
			f := stack[len(stack)-1]
			c := f.next(ex.Bound)
			if c == nil {
				stack = stack[:len(stack)-1]
				continue
			}
			stack = append(stack, mkFrame(ex.run(c, true), len(c)))
		}
		queue[k] = nil
	}
	ex.Complete = true
}
