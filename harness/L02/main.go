//go:build go1.21

// L02: the listener serves connections concurrently and stops cleanly.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/listener/graphite"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vdata"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vnet"
	"github.com/vivint/rothko/zz_verif/vs"
)

const address = "addr"

// client is a peer and what it sends.
type client struct {
	name   string
	peer   *vnet.Peer
	sent   int // lines
	gone   bool
	chunks []string
}

func (c *client) line(i int) string { return fmt.Sprintf("%s %d 0\n", c.name, i) }

type world struct {
	w      *data.Writer
	l      *graphite.Listener
	cancel func()
	done   bool
	err    error
	began  int
	cl     []*client
	got    map[string][]float64
	hist   string
}

func newWorld() *world {
	return &world{w: data.NewWriter(vdata.Params{}), l: graphite.New(address), got: map[string][]float64{}}
}

func (w *world) fail(kind, format string, args ...any) {
	vs.Fail(kind, "%s\nhistory:%s", fmt.Sprintf(format, args...), w.hist)
}

func (w *world) start() {
	ctx, cancel := vctx.WithCancel(context.Background())
	w.cancel, w.done = cancel, false
	vs.Spawn("listener", func() {
		w.err = w.l.Run(ctx, w.w)
		// nothing may be left at the return
		if l, c := vnet.Open(); l+c > 0 {
			w.fail("leak", "%d listeners and %d connections are open after the return", l, c)
		}
		w.done = true
	})
}

// serve connects a client and sends the chunks. It ends with how.
func (w *world) serve(c *client, how error, hang bool) {
	w.cl = append(w.cl, c)
	vs.Spawn(c.name, func() {
		vs.Wait("listening", func() bool { return vnet.Listening(address) || w.done })
		p, err := vnet.Dial(address)
		if err != nil {
			c.gone = true
			return
		}
		c.peer = p
		for _, s := range c.chunks {
			p.Send([]byte(s))
		}
		if hang {
			p.Fail(how)
		}
		c.gone = true
	})
}

// capture collects what was added so far.
func (w *world) capture() {
	w.w.Capture(context.Background(), func(_ context.Context, m string, rec data.Record) bool {
		w.got[m] = append(w.got[m], vdata.Values(rec.Distribution)...)
		return true
	})
}

// numbers are the values of the lines of a client that are complete in the
// first n bytes.
func (c *client) numbers(n int) (out []float64) {
	text := strings.Join(c.chunks, "")
	if n < len(text) {
		text = text[:n]
	}
	for i, l := range strings.SplitAfter(text, "\n") {
		if strings.HasSuffix(l, "\n") && l == c.line(i) {
			out = append(out, float64(i))
		}
	}
	return out
}

// settled compares what was added with what was sent (all) or received.
func (w *world) settled(all bool) {
	w.capture()
	for _, c := range w.cl {
		n := 0
		if c.peer != nil {
			n = c.peer.Read()
		}
		if all {
			n = 1 << 20
		}
		want := c.numbers(n)
		if got := w.got[c.name]; fmt.Sprint(got) != fmt.Sprint(want) {
			w.fail("values", "client %s sent %q, %d bytes were read: the values are %v instead of %v",
				c.name, c.chunks, n, got, want)
		}
	}
}

// stopped waits for the end of Run and checks what is left.
func (w *world) stopped(wantErr bool) {
	vs.Quiesce()
	if !w.done {
		w.fail("stop", "the listener does not stop: %v", vs.Live())
		return
	}
	if (w.err != nil) != wantErr {
		w.fail("stop", "the listener returns %v", w.err)
	}
	if l := vs.Live(); len(l) > 0 {
		w.fail("leak", "goroutines are left: %v", l)
	}
	for _, c := range w.cl {
		if c.peer != nil && c.peer.Accepted() && !c.peer.Closed() {
			w.fail("leak", "the connection of %s is left open", c.name)
		}
	}
}

func lines(name string, n int) *client {
	c := &client{name: name}
	for i := 0; i < n; i++ {
		c.chunks = append(c.chunks, c.line(i))
	}
	return c
}

// odd splits the lines across reads.
func odd(name string, n int) *client {
	c := lines(name, n)
	text := strings.Join(c.chunks, "")
	c.chunks = []string{text[:len(text)-3], text[len(text)-3:]}
	return c
}

var reset = errors.New("connection reset by peer")

// independent: every client is served, whatever the others do.
func independent(name string, sched int, mk func() []*client, hang []error) vh.Scenario {
	return vh.Scenario{Name: "independent-" + name, Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		w := newWorld()
		w.start()
		for i, c := range mk() {
			w.serve(c, hang[i], hang[i] != nil)
		}
		vs.Quiesce()
		if w.done {
			w.fail("stop", "the listener stopped: %v", w.err)
		}
		w.settled(true)
		for i, c := range w.cl {
			if hang[i] != nil && !c.peer.Closed() {
				w.fail("close", "the connection of %s stays open after its end", c.name)
			}
			if hang[i] == nil && c.peer.Closed() {
				w.fail("close", "the connection of %s is closed while it may go on", c.name)
			}
		}
		w.cancel()
		w.stopped(false)
		vs.Outcome("%v", w.got)
	}}
}

// stopping: the listener is told to stop at any time.
func stopping(name string, sched int, mk func() []*client, hang []error) vh.Scenario {
	return vh.Scenario{Name: "stopping-" + name, Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		w := newWorld()
		w.start()
		for i, c := range mk() {
			w.serve(c, hang[i], hang[i] != nil)
		}
		after := vs.Choose(2)
		if after == 1 {
			vs.Quiesce()
		}
		w.cancel()
		w.stopped(false)
		w.settled(false)
		vs.Outcome("%d %v", after, w.got)
	}}
}

// failures of the listening socket.
func failures(sched int) vh.Scenario {
	return vh.Scenario{Name: "failures", Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		w := newWorld()
		kind := vs.Choose(4)
		fatal := errors.New("no more")
		switch kind {
		case 0: // the address is taken
			vnet.FailListen(errors.New("taken"))
			w.start()
			w.stopped(true)
			return
		case 1: // a temporary failure to accept does not matter
			vnet.FailAccept(vnet.ErrTemporary)
			w.start()
			w.serve(lines("a", 1), nil, false)
			c := w.cl[0]
			vs.Wait("accepted", func() bool { return w.done || c.peer != nil && c.peer.Accepted() })
			vs.Quiesce()
			w.settled(true)
			if w.done {
				w.fail("accept", "the listener stops with %v", w.err)
			}
			w.cancel()
			w.stopped(false)
		case 2: // another one ends the listener and everything it does
			w.start()
			w.serve(lines("a", 2), nil, false)
			vs.Spawn("failure", func() { vs.Point("failure"); vnet.FailAccept(fatal) })
			vs.Quiesce()
			if !w.done {
				w.fail("accept", "the listener goes on without accepting")
			}
			w.stopped(true)
			w.settled(false)
		case 3: // and may come together with the stop
			w.start()
			w.serve(lines("a", 1), nil, false)
			vs.Spawn("failure", func() { vs.Point("failure"); vnet.FailAccept(fatal) })
			w.cancel()
			vs.Quiesce()
			w.stopped(w.err != nil)
			w.settled(false)
		}
		vs.Outcome("%d %v %v", kind, w.err, w.got)
	}}
}

// again runs the same listener once more.
func again(sched int) vh.Scenario {
	return vh.Scenario{Name: "again", Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		w := newWorld()
		w.start()
		w.serve(lines("a", 1), nil, false)
		w.cancel()
		w.stopped(false)
		w.settled(false)
		w.start()
		w.serve(lines("b", 1), io.EOF, true)
		vs.Quiesce()
		w.capture()
		if fmt.Sprint(w.got["b"]) != "[0]" {
			w.fail("again", "the second run is at %v", w.got)
		}
		w.cancel()
		w.stopped(false)
		vs.Outcome("%v", w.got)
	}}
}

func main() {
	vh.Main(vh.Check{ID: "L02", Level: "model_checking",
		Rule: "every schedule up to the bound of the listener, its handlers and up to three peers that send, hang up, fail or stay idle, and of the end of its context, on a modelled network",
		Scenarios: func(tier string) []vh.Scenario {
			one := func() []*client { return []*client{odd("a", 2)} }
			two := func() []*client { return []*client{lines("a", 2), lines("b", 1)} }
			three := func() []*client {
				x := &client{name: "c", chunks: []string{"bad", " line\n", "c"}}
				return []*client{lines("a", 1), odd("b", 2), x}
			}
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []vh.Scenario{
				failures(2 + d),
				again(2 + d),
				independent("one", 3+d, one, []error{io.EOF}),
				independent("two", 2+d, two, []error{io.EOF, reset}),
				independent("idle", 2+d, two, []error{nil, io.EOF}),
				independent("three", 2, three, []error{nil, io.EOF, reset}),
				stopping("one", 3+d, one, []error{io.EOF}),
				stopping("idle", 2+d, one, []error{nil}),
				stopping("two", 2+d, two, []error{nil, io.EOF}),
				stopping("three", 2, three, []error{nil, io.EOF, reset}),
			}
		}})
}
