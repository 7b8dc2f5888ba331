//go:build go1.21

// L01: line framing is independent of how bytes arrive.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"regexp"
	"strings"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/listener/graphite"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vdata"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vnet"
	"github.com/vivint/rothko/zz_verif/vs"
	"github.com/vivint/rothko/zz_verif/vtime"
)

// line is what a peer sends and what has to come of it.
type line struct {
	text   string
	metric string
	val    float64
	ok     bool
}

func good(text, metric string, val float64) line { return line{text, metric, val, true} }
func bad(text string) line                       { return line{text: text} }

var long = strings.Repeat("x", 1000)
var huge = strings.Repeat("y", 70000)

// lines are the shapes of lines.
var lines = []line{
	good("a 1 0", "a", 1),
	good("b.c -2.5 1500000000", "b.c", -2.5),
	good("a 1e3 x", "a", 1000),
	bad(""),
	bad("a"),
	bad("a 1"),
	bad("a  1 0"),
	bad("a 1 0 "),
	bad("a x 0"),
	bad("a NaN 0"),
	bad("a +Inf 0"),
	bad("a 1e999 0"),
	bad("a 1,5 0"),
}

var more = []line{
	good("A/%..b 0 0", "A/%..b", 0),
	good("\xff\x00 .5 0", "\xff\x00", .5),
	good("a -0 0", "a", math.Copysign(0, -1)),
	good("a 1.7976931348623157e308 0", "a", math.MaxFloat64),
	good(long+" 7 0", long, 7),
	bad("a -inf 0"),
	bad("a infinity 0"),
	bad("a nan 0"),
	bad(" a 1 0"),
	bad("a\t1\t0"),
	bad("a 1 0 0"),
	bad("  "),
	bad("a 0 0\x00 "),
	bad("a - 0"),
	bad(huge + " 7"),
	bad(huge + " 7 0"),
}

// ends are the ends of lines.
var ends = []string{"\n", "\r\n"}

// pause is made before all that is sent.
var pause time.Duration

func wait() {
	if pause > 0 {
		vs.Quiesce()
		vtime.Sleep(pause)
		vs.Quiesce()
	}
}

// run sends the chunks, one per read, and compares what is captured.
func run(chunks []string, sent []line, hangup error, what string) {
	w := data.NewWriter(vdata.Params{})
	ctx, cancel := vctx.WithCancel(context.Background())
	done, rerr := false, error(nil)
	vs.Spawn("listener", func() { rerr = graphite.New("addr").Run(ctx, w); done = true })
	vs.Quiesce()
	p, err := vnet.Dial("addr")
	if err != nil {
		vs.Fail("listen", "%s: %v", what, err)
		return
	}
	for _, c := range chunks {
		wait()
		p.Send([]byte(c))
	}
	wait()
	p.Fail(hangup)
	vs.Quiesce()
	want := map[string][]float64{}
	for _, l := range sent {
		if l.ok {
			want[l.metric] = append(want[l.metric], l.val)
		}
	}
	w.Capture(context.Background(), func(_ context.Context, metric string, rec data.Record) bool {
		got := vdata.Values(rec.Distribution)
		if fmt.Sprint(got) != fmt.Sprint(want[metric]) {
			vs.Fail("values", "%s: %q has the values %v instead of %v", what, metric, got, want[metric])
		}
		delete(want, metric)
		return true
	})
	for m, v := range want {
		vs.Fail("missing", "%s: %q has no values instead of %v", what, m, v)
	}
	if !p.Closed() {
		vs.Fail("close", "%s: the connection stays open after its end", what)
	}
	if done {
		vs.Fail("stop", "%s: the listener stopped: %v", what, rerr)
	}
	cancel()
	vs.Quiesce()
	if !done || rerr != nil {
		vs.Fail("stop", "%s: the listener did not stop: %v", what, rerr)
	}
	vs.Outcome("%s", what)
}

// clip shortens a text for reports.
func clip(s []string) string {
	out := fmt.Sprintf("%q", s)
	out = strings.ReplaceAll(out, huge, "<70000 y>")
	return strings.ReplaceAll(out, long, "<1000 x>")
}

// splits sends every sequence of lines in every splitting with up to cuts
// cuts.
func splits(name string, set []line, n, cuts int, last bool) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("%s-%dlines-%dcuts", name, n, cuts), Body: func() {
		text := ""
		var sent []line
		for i := 0; i < n; i++ {
			l := set[vs.Choose(len(set))]
			end := ends[vs.Choose(len(ends))]
			if i == n-1 && last && vs.Choose(2) == 1 {
				end = "" // the last line is complete without its end
			}
			text += l.text + end
			sent = append(sent, l)
		}
		hangup := io.EOF
		var chunks []string
		for c := 0; c < cuts && len(text) > 0; c++ {
			k := vs.Choose(len(text))
			if k == 0 {
				break
			}
			chunks, text = append(chunks, text[:k]), text[k:]
		}
		if len(text) > 0 {
			chunks = append(chunks, text)
		}
		run(chunks, sent, hangup, clip(chunks))
	}}
}

// bytewise sends single bytes.
func bytewise(n int) vh.Scenario {
	all := append(lines[:len(lines):len(lines)], more[:len(more)-2]...)
	return vh.Scenario{Name: fmt.Sprintf("bytewise-%d", n), Body: func() {
		var chunks []string
		var sent []line
		size := 1 + vs.Choose(3)
		text := ""
		for i := 0; i < n; i++ {
			l := all[vs.Choose(len(all))]
			sent = append(sent, l)
			text += l.text + ends[vs.Choose(2)]
		}
		for len(text) > 0 {
			k := size
			if k > len(text) {
				k = len(text)
			}
			chunks, text = append(chunks, text[:k]), text[k:]
		}
		run(chunks, sent, io.EOF, clip([]string{fmt.Sprint(size), strings.Join(chunks, "")}))
	}}
}

// sizes has lines of every length around the sizes of buffers.
func sizes(around []int, width int) vh.Scenario {
	return vh.Scenario{Name: "sizes", Body: func() {
		size := around[vs.Choose(len(around))] - width + vs.Choose(2*width+1)
		l := good(strings.Repeat("z", size-4)+" 3 0", strings.Repeat("z", size-4), 3)
		if size > 60000 {
			// too long lines may be refused, alone
			l = bad(strings.Repeat("z", size))
		}
		before, after := lines[vs.Choose(2)], lines[vs.Choose(2)]
		first, rest := before.text+"\n"+l.text, "\n"+after.text+"\n"
		var chunks []string
		switch vs.Choose(3) {
		case 0:
			chunks = []string{first + rest}
		case 1:
			chunks = []string{first, rest}
		case 2:
			chunks = []string{first[:100], first[100:] + rest[:1], rest[1:]}
		}
		run(chunks, []line{before, l, after}, io.EOF, fmt.Sprintf("a line of %d bytes between %q and %q in %d", size, before.text, after.text, len(chunks)))
	}}
}

// failing ends the connection with a failure after complete lines.
func failing(n int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("failing-%d", n), Body: func() {
		var sent []line
		var chunks []string
		for i := 0; i < n; i++ {
			l := lines[vs.Choose(len(lines))]
			sent = append(sent, l)
			chunks = append(chunks, l.text+"\n")
		}
		err := []error{io.EOF, errors.New("connection reset by peer"), io.ErrUnexpectedEOF}[vs.Choose(3)]
		run(chunks, sent, err, clip(chunks)+fmt.Sprint(err))
	}}
}

// named has every short name, and the names of every byte.
func named(n int) vh.Scenario {
	const few = "aB./*=;%\\\x00\xff\r\t#"
	return vh.Scenario{Name: fmt.Sprintf("named-%d", n), Body: func() {
		name := ""
		if vs.Choose(2) == 0 {
			name = string([]byte{byte(vs.Choose(256))})
			name = []string{name, "a" + name, name + "a"}[vs.Choose(3)]
		} else {
			for i, k := 0, 1+vs.Choose(n); i < k; i++ {
				name += few[vs.Choose(len(few)):][:1]
			}
		}
		if strings.ContainsAny(name, " \n") {
			return
		}
		l := good(name+" 3 0", name, 3)
		run([]string{"a 1 0\n" + l.text + "\na 2 0\n"}, []line{lines[0], l, good("", "a", 2)}, io.EOF, clip([]string{name}))
	}}
}

var decimal = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

// numbered has every short text of a number.
func numbered(n int) vh.Scenario {
	const few = "019.-+eE,"
	return vh.Scenario{Name: fmt.Sprintf("numbered-%d", n), Body: func() {
		num := ""
		for i, k := 0, 1+vs.Choose(n); i < k; i++ {
			num += few[vs.Choose(len(few)):][:1]
		}
		l := bad("m " + num + " 0")
		if decimal.MatchString(num) {
			r, ok := new(big.Rat).SetString(num)
			if !ok {
				return
			}
			val, _ := r.Float64()
			if math.IsInf(val, 0) {
				return
			}
			if r.Sign() == 0 && num[0] == '-' {
				val = math.Copysign(0, -1)
			}
			l = good(l.text, "m", val)
		}
		run([]string{"a 1 0\n" + l.text + "\n"}, []line{lines[0], l}, io.EOF, clip([]string{num}))
	}}
}

// slowly has long pauses at any place.
func slowly(n int) vh.Scenario {
	pauses := []time.Duration{time.Millisecond, time.Second, time.Minute, time.Hour, 30 * 24 * time.Hour}
	s := splits("slow", lines[:6], n, 2, true)
	inner := s.Body
	s.Body = func() {
		pause = pauses[vs.Choose(len(pauses))]
		defer func() { pause = 0 }()
		inner()
	}
	return s
}

func main() {
	vh.Main(vh.Check{ID: "L01", Level: "model_checking",
		Rule: "every sequence of the shapes of lines in every splitting into reads up to the number of cuts, through the real listener on a modelled connection; what is captured from the writer is compared with the values of the well formed lines in order",
		Scenarios: func(tier string) []vh.Scenario {
			all := append(lines[:len(lines):len(lines)], more...)
			if tier == "thorough" {
				return []vh.Scenario{
					failing(3),
					slowly(2),
					named(4),
					numbered(5),
					bytewise(2),
					sizes([]int{4096, 65536, 131072}, 8),
					splits("short", lines, 2, 3, true),
					splits("all", more[:4], 3, 2, true),
					splits("uncut", all, 3, 0, true),
				}
			}
			return []vh.Scenario{
				failing(2),
				slowly(1),
				named(3),
				numbered(4),
				bytewise(1),
				sizes([]int{4096, 65536}, 3),
				splits("short", lines, 2, 2, true),
				splits("uncut", all, 2, 0, true),
			}
		}})
}
