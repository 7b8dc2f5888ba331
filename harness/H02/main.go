//go:build go1.21

// H02: every request gets a correct response and none can crash the server.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"image/png"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/api/query"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/colors"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/merge"
	"github.com/vivint/rothko/zz_verif/vapi"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

var ctx = context.Background()

const (
	now  = int64(1e18)
	hour = int64(time.Hour)
)

// rec makes a stored record.
func rec(start, end int64, kind string, vals ...float64) vapi.Rec {
	d, err := tdigest.Params{Compression: 5}.New()
	if err != nil {
		panic(err)
	}
	for _, v := range vals {
		d.Observe(v)
	}
	if kind == "" {
		kind = d.Kind()
	}
	r := data.Record{StartTime: start, EndTime: end, Observations: int64(len(vals)), Distribution: d.Marshal(nil), Kind: kind, Merged: 1}
	buf, err := r.Marshal()
	if err != nil {
		panic(err)
	}
	return vapi.Rec{Start: start, End: end, Data: buf}
}

// contents of the database by name.
type content struct {
	name string
	recs []vapi.Rec
	odd  bool // an error is as good
}

func contents() []content {
	bad := vapi.Rec{Start: now - 20*hour, End: now - 10*hour, Data: []byte{0xff, 1, 2, 3}}
	cut := rec(now-20*hour, now-10*hour, "", 1, 2, 3)
	cut.Data = cut.Data[:len(cut.Data)/2]
	junk := rec(now-20*hour, now-10*hour, "", 1, 2, 3)
	var r data.Record
	if err := r.Unmarshal(junk.Data); err != nil {
		panic(err)
	}
	r.Distribution = []byte("junk")
	junk.Data, _ = r.Marshal()
	ok := rec(now-2*hour, now-hour, "", 1, 2, 3, 4, 5)
	old := rec(now-9*hour, now-8*hour, "", 10, 20, 30)
	return []content{
		{"many", []vapi.Rec{ok, rec(now-5*hour, now-2*hour, "", 7), rec(now-7*hour, now-4*hour, "", 1, 100, 1000), old, rec(now-30*hour, now-25*hour, "", 3, 4), rec(now-50*hour, now-48*hour, "", 5, 6), rec(now-90*hour, now-80*hour, "", 7, 8)}, false},
		{"nothing", nil, false},
		{"one", []vapi.Rec{ok}, false},
		{"longest", []vapi.Rec{rec(0, now-1, "", 5, 6, 7)}, false},
		{"before", []vapi.Rec{rec(now-900*hour, now-800*hour, "", 5, 6, 7)}, false},
		{"extreme", []vapi.Rec{rec(now-5*hour, now-1, "", -1e30, 0, 1e30), rec(now-10*hour, now-5*hour, "", 1e-30)}, false},
		{"empty", []vapi.Rec{rec(now-5*hour, now-1, "")}, true},
		{"empty later", []vapi.Rec{ok, rec(now-5*hour, now-3*hour, ""), old}, true},
		{"unknown", []vapi.Rec{rec(now-5*hour, now-1, "unknown", 1)}, true},
		{"bad", []vapi.Rec{bad}, true},
		{"bad later", []vapi.Rec{ok, bad}, true},
		{"cut", []vapi.Rec{ok, cut}, true},
		{"junk", []vapi.Rec{junk}, true},
		{"junk later", []vapi.Rec{ok, junk, old}, true},
		{"instant", []vapi.Rec{rec(now-hour, now-hour, "", 1, 2)}, true},
		{"backwards", []vapi.Rec{rec(now-hour, now-3*hour, "", 1, 2)}, true},
		{"ancient", []vapi.Rec{rec(math.MinInt64, now-3*hour, "", 1, 2)}, true},
	}
}

// values are what the parameters of a render may be; the first is its absence.
var values = map[string][]string{
	"width":       {"", "1", "50", "99", "100", "150", "200", "640", "1001", "0", "-1", "x", "1e3", "100000000", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "16777216", "300000"},
	"height":      {"", "1", "49", "50", "51", "52", "53", "60", "100", "700", "0", "-1", "x", "100000000", "9223372036854775807", "-9223372036854775808", "16777217"},
	"padding":     {"", "0", "1", "20", "-1", "-1000", "x", "1000000", "4611686018427387904", "9223372036854775807"},
	"now":         {"", "1000000000000000000", "999999999999999999", "999996400000000000", "999971200000000001", "0", "1", "-1", "x", "9223372036854775807", "-9223372036854775808", "1000000000000000000000", "999910000000000000"},
	"duration":    {"", "24h", "1h", "48h", "1ns", "999ns", "1s", "0", "0s", "-1h", "x", "24", "2562047h47m16s", "-2562047h47m16s", "1000h", "3000000h", "8760h"},
	"samples":     {"", "1", "2", "30", "1000", "0", "-1", "x", "2147483647", "9223372036854775807", "10000", "10001"},
	"compression": {"", "5", "1", "0.5", "100", "1e-300", "0", "-1", "NaN", "Inf", "-Inf", "1e300", "x", "65536", "65537"},
}

var order = []string{"width", "height", "padding", "now", "duration", "samples", "compression"}

// params is the reference for what they mean.
type params struct {
	metric                          string
	width, height, padding, samples int
	now                             int64
	dur                             time.Duration
	comp                            float64
	json                            bool
}

func number(s string, def int64) int64 {
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return n
	}
	return def
}

func parse(v url.Values, asJSON bool) (p params, valid bool) {
	p = params{v.Get("metric"), int(number(v.Get("width"), 1000)), int(number(v.Get("height"), 350)), int(number(v.Get("padding"), 0)), int(number(v.Get("samples"), 30)),
		number(v.Get("now"), 0), 24 * time.Hour, 5, asJSON}
	if d, err := time.ParseDuration(v.Get("duration")); err == nil {
		p.dur = d
	}
	if f, err := strconv.ParseFloat(v.Get("compression"), 64); err == nil {
		p.comp = f
	}
	valid = p.metric != "" && p.width > 0 && p.height > 0 && p.padding >= 0 && p.samples > 0 && p.now >= 0 && p.dur > 0 && p.comp > 0 && !math.IsInf(p.comp, 0)
	return p, valid
}

// huge requests may be refused.
func (p params) huge() bool {
	return p.samples > 1000 || p.comp > 10000 || p.width > 1<<14 || p.height > 1<<14 || p.padding > 1<<10 || p.width*p.height > 1<<23
}

// expect is the reference for a render: the records in the period in one
// merger, and one graph.
type expect struct {
	cols     []draw.Column
	earliest []byte
	measured graph.Measured
	ok       bool // large enough
	fails    bool
}

func reference(p params, recs []vapi.Rec) (x expect) {
	rand.Seed(1) // digests are compressed in random order
	opts := graph.MeasureOptions{Now: p.now, Duration: p.dur, Width: p.width, Height: p.height, Padding: p.padding}
	m := merge.NewMerger(merge.MergerOptions{Samples: p.samples, Now: p.now, Duration: p.dur, Params: tdigest.Params{Compression: p.comp}})
	x.ok = true
	for _, r := range recs {
		if r.End >= p.now {
			continue
		}
		var rec data.Record
		if rec.Unmarshal(append([]byte(nil), r.Data...)) != nil {
			x.fails = true
			return x
		}
		if x.earliest == nil {
			d, err := load.Load(ctx, rec)
			if err != nil {
				x.fails = true
				return x
			}
			x.earliest = r.Data
			opts.Earliest = d
			x.measured, x.ok = graph.Measure(ctx, opts)
			if !x.ok {
				return x
			}
			m.SetWidth(x.measured.Width)
		}
		if m.Push(ctx, rec) != nil {
			x.fails = true
			return x
		}
		if r.End < p.now-int64(p.dur) {
			break
		}
	}
	cols, err := m.Finish(ctx)
	if err != nil {
		x.fails = true
	}
	x.cols = cols
	if x.earliest == nil {
		x.measured, x.ok = graph.Measure(ctx, opts)
	}
	return x
}

type failer func(kind, format string, args ...any)

// judge compares an answer with the reference.
func judge(p params, valid bool, c content, got vapi.Answer, fail failer) string {
	if got.Code < 200 || got.Code > 599 {
		fail("status", "status %d", got.Code)
	}
	if !valid {
		if got.Code != 400 {
			fail("status", "status %d for parameters without sense", got.Code)
		}
		return "refused"
	}
	if got.Code == 400 {
		if !p.huge() {
			fail("status", "status 400: %s", got.FirstLine())
		}
		return "refused"
	}
	x := reference(p, c.recs)
	switch {
	case !x.ok && !(p.json && x.earliest == nil):
		if got.Code < 400 {
			fail("status", "status %d for a graph that is too small", got.Code)
		}
		return "small"
	case x.fails:
		if got.Code != 500 {
			fail("status", "status %d for a failure: %q", got.Code, got.FirstLine())
		}
		return "failure"
	case c.odd && got.Code == 500:
		return "odd failure"
	case got.Code != 200:
		fail("status", "status %d: %s", got.Code, got.FirstLine())
		return "error"
	}
	if p.json {
		if t := got.Header.Get("Content-Type"); t != "application/json" {
			fail("json", "the type is %q", t)
		}
		var v struct {
			Metric                 string
			Columns                []draw.Column
			Earliest               string
			Now, Duration          int64
			Width, Height, Padding int
			unknown                int
		}
		if err := json.Unmarshal([]byte(got.Body), &v); err != nil {
			fail("json", "%v: %.100q", err, got.Body)
			return "bad json"
		}
		if v.Metric != p.metric || v.Now != p.now || v.Duration != int64(p.dur) || v.Width != p.width || v.Height != p.height || v.Padding != p.padding {
			fail("json", "%+v instead of %+v", v, p)
		}
		if e, err := base64.StdEncoding.DecodeString(v.Earliest); err != nil || !bytes.Equal(e, x.earliest) {
			fail("json", "the earliest record is %q instead of %q", e, x.earliest)
		}
		if len(v.Columns) != len(x.cols) || len(x.cols) > 0 && !reflect.DeepEqual(v.Columns, x.cols) {
			fail("json", "the columns are %.200v instead of %.200v", v.Columns, x.cols)
		}
		return fmt.Sprintf("json with %d columns", len(x.cols))
	}
	if t := got.Header.Get("Content-Type"); t != "image/png" {
		fail("png", "the type is %q", t)
	}
	img, err := png.Decode(strings.NewReader(got.Body))
	if err != nil {
		fail("png", "%v", err)
		return "bad png"
	}
	w, h := p.width+2*p.padding, p.height+2*p.padding
	if b := img.Bounds(); b != image.Rect(0, 0, w, h) {
		fail("png", "the picture is %v instead of %dx%d", b, w, h)
		return "size"
	}
	want := x.measured.Draw(ctx, graph.DrawOptions{Columns: x.cols, Colors: colors.Viridis}).AsImage()
	rgba, ok := img.(*image.RGBA)
	if !ok {
		fail("png", "the picture is a %T", img)
		return "kind"
	}
	for y := 0; y < h; y++ {
		if !bytes.Equal(rgba.Pix[y*rgba.Stride:y*rgba.Stride+4*w], want.Pix[y*want.Stride:y*want.Stride+4*w]) {
			fail("png", "the picture differs in row %d of %dx%d", y, w, h)
			return "pixels"
		}
	}
	return "picture"
}

func render(h http.Handler, v url.Values, asJSON bool) vapi.Answer {
	rand.Seed(1)
	req := vapi.Request("GET", "/api/render", v.Encode())
	if asJSON {
		req.Header.Set("Accept", "application/json")
	}
	return vapi.Ask(h, req)
}

func one(e *vh.Enum, c content, v url.Values, asJSON bool) {
	e.Calls++
	what := fmt.Sprintf("%s: %s json %v", c.name, v.Encode(), asJSON)
	e.Try(what, func() {
		db := &vapi.DB{Recs: map[string][]vapi.Rec{"m": c.recs}}
		p, valid := parse(v, asJSON)
		got := render(api.New(db, nil, api.Options{}), v, asJSON)
		e.Outcome(judge(p, valid, c, got, func(kind, format string, args ...any) {
			e.Failf(kind, "%s: %s", what, fmt.Sprintf(format, args...))
		}))
	})
}

// parameters: every combination of up to a number of them.
func parameters(depth int, cs []content) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("parameters-%d-of-%d", depth, len(cs)), Weight: 10, Enum: func(e *vh.Enum) {
		for _, c := range cs {
			for _, asJSON := range []bool{false, true} {
				// without the time of the clock the answer is defined
				v := url.Values{"metric": {"m"}, "now": {fmt.Sprint(now)}}
				var walk func(i, left int)
				walk = func(i, left int) {
					if i == len(order) {
						if e.Next() {
							one(e, c, v, asJSON)
						}
						return
					}
					walk(i+1, left)
					if left == 0 {
						return
					}
					k := order[i]
					was, had := v[k]
					for _, val := range values[k][1:] {
						if k == "now" && (val == "x" || len(val) > 19 && val[0] != '-') {
							continue
						}
						v.Set(k, val)
						walk(i+1, left-1)
					}
					if had {
						v[k] = was
					} else {
						v.Del(k)
					}
				}
				walk(0, depth)
			}
		}
	}}
}

// clock: without a time to render the present is rendered.
func clock() vh.Scenario {
	return vh.Scenario{Name: "clock", Body: func() {
		t := vs.Now()
		c := content{name: "now", recs: []vapi.Rec{rec(t-5*hour, t-hour, "", 1, 2, 3), rec(t-9*hour, t-7*hour, "", 4, 5)}}
		db := &vapi.DB{Recs: map[string][]vapi.Rec{"m": c.recs}}
		v := url.Values{"metric": {"m"}}
		if n := []string{"", "x", "1000000000000000000000"}[vs.Choose(3)]; n != "" {
			v.Set("now", n)
		}
		asJSON := vs.Choose(2) == 1
		p, valid := parse(v, asJSON)
		p.now = t
		got := render(api.New(db, nil, api.Options{}), v, asJSON)
		var said struct{ Now int64 }
		if asJSON && json.Unmarshal([]byte(got.Body), &said) == nil && said.Now >= t && said.Now <= vs.Now() {
			p.now = said.Now
		}
		vs.Outcome(judge(p, valid, c, got, func(kind, format string, args ...any) {
			vs.Fail(kind, "%s: %s", v.Encode(), fmt.Sprintf(format, args...))
		}))
	}}
}

// malformed requests.
func malformed() vh.Scenario {
	return vh.Scenario{Name: "malformed", Enum: func(e *vh.Enum) {
		for _, path := range []string{"/api/render", "/api/query", "/api/nonce"} {
			for _, q := range []string{"", "metric", "metric=", "=m", "%", "metric=%zz", "metric=m&metric=n&now=1", "metric=m;now=1", "query=%00", "query=%ff", "results", "metric=" + strings.Repeat("x", 100000),
				"query=" + strings.Repeat("* ", 10000), "query=" + strings.Repeat("**", 2000), "metric=m&now=1&width=+100", "metric=m&now=1&width= 100", "metric=m&now=1&width=0x10", "metric=m&now=1&width=1_000", "&&&&", "metric=../../etc/passwd&now=1", "metric=\x00&now=1"} {
				for _, accept := range []string{"", "application/json", "text/html, application/json", "*/*"} {
					if !e.Next() {
						continue
					}
					what := fmt.Sprintf("%s?%.100s accept %q", path, q, accept)
					e.Try(what, func() {
						db := &vapi.DB{Names: []string{"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "m"}, Recs: map[string][]vapi.Rec{"m": contents()[0].recs}}
						req := vapi.Request("GET", path, q, "Accept", accept)
						got := vapi.Ask(api.New(db, nil, api.Options{}), req)
						hasMetric := req.FormValue("metric") != ""
						if path == "/api/render" && !hasMetric && got.Code != 400 || (hasMetric || path != "/api/render") && got.Code != 200 {
							e.Failf("status", "%s: status %d, %.200q", what, got.Code, got.FirstLine())
						}
						e.Outcome(fmt.Sprint(got.Code))
					})
				}
			}
		}
	}}
}

var names = []string{"cpu.user", "cpu.system", "mem.free", "Cpu.user", "cpu<user>&\"", "größe", "a b", ""}

// queries: lists of metrics.
func queries(n int) vh.Scenario {
	return vh.Scenario{Name: "queries", Weight: 3, Enum: func(e *vh.Enum) {
		for set := 0; set < 1<<len(names[:n]); set++ {
			if !e.Next() {
				continue
			}
			var ns []string
			for i, name := range names[:n] {
				if set>>i&1 != 0 {
					ns = append(ns, name)
				}
			}
			for _, q := range []string{"", " ", "cpu", "cpu.user", "user cpu", "c*u", "mem", "*", "<", "größe", "zzz", "b"} {
				for _, r := range []string{"", "0", "1", "2", "3", "100", "-1", "x", "9223372036854775807", "-9223372036854775808", "99999999999999999999"} {
					e.Calls++
					what := fmt.Sprintf("query=%q results=%s of %q", q, r, ns)
					e.Try(what, func() {
						db := &vapi.DB{Names: ns}
						got := vapi.Ask(api.New(db, nil, api.Options{}), vapi.Request("GET", "/api/query", url.Values{"query": {q}, "results": {r}}.Encode()))
						limit := number(r, 10)
						match := query.New(q, 1)
						want := []string{}
						for _, name := range ns {
							if int64(len(want)) < limit && match.Match(name) {
								want = append(want, name)
							}
						}
						var list []string
						err := json.Unmarshal([]byte(got.Body), &list)
						if got.Code != 200 || got.Header.Get("Content-Type") != "application/json" || err != nil || list == nil || !reflect.DeepEqual(list, want) {
							e.Failf("query", "%s: status %d, %q (%v) instead of %q", what, got.Code, got.Body, err, want)
						}
						e.Outcome(fmt.Sprint(len(want)))
					})
				}
			}
		}
	}}
}

// faults of the database at every step.
func faults() vh.Scenario {
	return vh.Scenario{Name: "faults", Weight: 2, Enum: func(e *vh.Enum) {
		for _, c := range contents()[:6] {
			for at := 1; at <= len(c.recs)+2; at++ {
				for _, asJSON := range []bool{false, true} {
					if !e.Next() {
						continue
					}
					what := fmt.Sprintf("%s: failure at step %d json %v", c.name, at, asJSON)
					e.Try(what, func() {
						db := &vapi.DB{Recs: map[string][]vapi.Rec{"m": c.recs}, FailAt: at}
						v := url.Values{"metric": {"m"}, "now": {fmt.Sprint(now)}}
						got := render(api.New(db, nil, api.Options{}), v, asJSON)
						steps := len(db.Given) // calls back; a failure after the last is possible
						if at <= steps+1 {
							if got.Code != 500 || !strings.Contains(got.Body, "the database has failed") || strings.Contains(got.Header.Get("Content-Type"), "png") {
								e.Failf("fault", "%s: status %d, %v, %.100q", what, got.Code, got.Header, got.FirstLine())
							}
							e.Outcome("failed")
							return
						}
						p, valid := parse(v, asJSON)
						e.Outcome(judge(p, valid, c, got, func(kind, format string, args ...any) {
							e.Failf(kind, "%s: %s", what, fmt.Sprintf(format, args...))
						}))
					})
				}
			}
		}
		for at := 1; at <= len(names)+1; at++ {
			if !e.Next() {
				continue
			}
			db := &vapi.DB{Names: names, FailAt: at}
			got := vapi.Ask(api.New(db, nil, api.Options{}), vapi.Request("GET", "/api/query", "results=100"))
			if want := map[bool]int{true: 500, false: 200}[at <= len(names)]; got.Code != want || want == 500 && !strings.Contains(got.Body, "the database has failed") {
				e.Failf("fault", "listing with failure at %d: status %d, %.100q", at, got.Code, got.FirstLine())
			}
			e.Outcome("listed")
		}
	}}
}

// broken is a connection that fails.
type broken struct {
	*httptest.ResponseRecorder
	left  int
	heads int
	after int
}

var errBroken = errors.New("the connection is broken")

func (b *broken) WriteHeader(code int) {
	b.heads++
	b.ResponseRecorder.WriteHeader(code)
}

func (b *broken) Write(p []byte) (int, error) {
	if b.left == 0 {
		b.after++
		return 0, errBroken
	}
	b.left--
	return b.ResponseRecorder.Write(p)
}

// connections that fail at every write leave a part of the answer and no more.
func connections() vh.Scenario {
	return vh.Scenario{Name: "connections", Weight: 2, Enum: func(e *vh.Enum) {
		c := contents()[0]
		for _, r := range []string{"/api/render?metric=m&now=1000000000000000000&width=300&height=100", "/api/render?metric=m&now=1000000000000000000&width=30&height=10", "/api/query?", "/api/nonce?", "/api/other?"} {
			for _, accept := range []string{"", "application/json"} {
				for at := 0; at < 40; at++ {
					if !e.Next() {
						continue
					}
					what := fmt.Sprintf("%s accept %q, write %d fails", r, accept, at)
					e.Try(what, func() {
						db := &vapi.DB{Names: names, Recs: map[string][]vapi.Rec{"m": c.recs}}
						h := api.New(db, &vapi.Static{}, api.Options{})
						path, q, _ := strings.Cut(r, "?")
						full := vapi.Ask(h, vapi.Request("GET", path, q, "Accept", accept))
						b := &broken{ResponseRecorder: httptest.NewRecorder(), left: at}
						h.ServeHTTP(b, vapi.Request("GET", path, q, "Accept", accept))
						if b.heads > 1 {
							e.Failf("connection", "%s: the status is sent %d times", what, b.heads)
						}
						if body := b.Body.String(); full.Code == 200 && (!strings.HasPrefix(full.Body, body) || b.after == 0 && body != full.Body && path != "/api/nonce") {
							e.Failf("connection", "%s: %.60q is not a beginning of %.60q", what, body, full.Body)
						}
						e.Outcome(fmt.Sprint(full.Code, b.after > 0))
					})
				}
			}
		}
	}}
}

// kinds of requests in histories.
func ask(h http.Handler, kind int) vapi.Answer {
	v := url.Values{"metric": {"many"}, "now": {fmt.Sprint(now)}, "width": {"220"}, "height": {"80"}, "samples": {"3"}}
	switch kind {
	case 0:
		return render(h, v, true)
	case 1:
		v.Set("metric", "extreme")
		v.Set("compression", "50")
		return render(h, v, true)
	case 2:
		return vapi.Ask(h, vapi.Request("GET", "/api/query", "query=cpu&results=2"))
	case 3:
		v.Set("metric", "bad later")
		return render(h, v, false)
	case 4:
		return vapi.Ask(h, vapi.Request("GET", "/api/query", "query=user"))
	case 5:
		return render(h, v, false)
	}
	return vapi.Ask(h, vapi.Request("POST", "/api/query", ""))
}

const kinds = 7

func newDB() *vapi.DB {
	db := &vapi.DB{Names: names, Recs: map[string][]vapi.Rec{}}
	for _, c := range contents() {
		db.Recs[c.name] = c.recs
	}
	return db
}

func same(a, b vapi.Answer) bool {
	if a.Code >= 400 {
		a.Body, b.Body = a.FirstLine(), b.FirstLine()
	}
	return reflect.DeepEqual(a, b)
}

var alone []vapi.Answer

func prepare() {
	if alone == nil {
		for k := 0; k < kinds; k++ {
			alone = append(alone, ask(api.New(newDB(), nil, api.Options{}), k))
		}
	}
}

// histories: an answer does not depend on the requests before.
func histories(n int) vh.Scenario {
	return vh.Scenario{Name: "histories", Weight: 2, Body: func() {
		prepare()
		h := api.New(newDB(), nil, api.Options{})
		nonce := vapi.Ask(h, vapi.Request("GET", "/api/nonce", "")).Body
		var seen []int
		for i := 0; i < n; i++ {
			k := vs.Choose(kinds)
			if got := ask(h, k); !same(got, alone[k]) {
				vs.Fail("history", "after %v, request %d: %d %.60q instead of %d %.60q", seen, k, got.Code, got.Body, alone[k].Code, alone[k].Body)
			}
			seen = append(seen, k)
		}
		if again := vapi.Ask(h, vapi.Request("GET", "/api/nonce", "")).Body; again != nonce || len(nonce) < 16 {
			vs.Fail("nonce", "%q after %q", again, nonce)
		}
		if other := vapi.Ask(api.New(newDB(), nil, api.Options{}), vapi.Request("GET", "/api/nonce", "")).Body; other == nonce {
			vs.Fail("nonce", "%q of two servers", other)
		}
		vs.Outcome("same")
	}}
}

// together: answers do not depend on the requests at the same time.
func together(sched int) vh.Scenario {
	return vh.Scenario{Name: "together", Bound: vs.Bound{Sched: sched}, Weight: 2 * vh.Weight(sched, true), Body: func() {
		prepare()
		h := api.New(newDB(), nil, api.Options{})
		a := vs.Choose(5)
		b := vs.Choose(a + 1)
		left := 2
		points = true
		for _, k := range []int{a, b} {
			vs.Spawn("client", func() {
				if got := ask(h, k); !same(got, alone[k]) {
					vs.Fail("together", "requests %d and %d: %d %.60q instead of %d %.60q", a, b, got.Code, got.Body, alone[k].Code, alone[k].Body)
				}
				left--
			})
		}
		vs.Wait("clients", func() bool { return left == 0 })
		points = false
		vs.Outcome("done")
	}}
}

var points bool

func main() {
	vs.SetStmtHook(func() {
		if points {
			vs.Point("stmt")
		}
	})
	vh.Main(vh.Check{ID: "H02", Level: "model_checking",
		Rule:        "every combination of boundary values of up to two (thorough three) render parameters for every content of the database, as picture and as JSON, compared with the graph and the merged columns of the records of the period; every list of names with every query and limit; a failure of the database at every step and of the connection at every write; malformed requests; every sequence of requests up to a depth; schedules of two clients",
		Assumptions: []string{"the database is a model that gives its records in order", "the columns and the picture of given records are those of packages merge and graph, which other properties decide", "requests for huge pictures, samples or compressions may be refused"},
		Scenarios: func(tier string) []vh.Scenario {
			cs := contents()
			if tier == "thorough" {
				return []vh.Scenario{clock(), malformed(), faults(), connections(), queries(8), parameters(2, cs), parameters(3, cs[:3]), histories(4), together(2)}
			}
			return []vh.Scenario{clock(), malformed(), faults(), connections(), queries(6), parameters(2, cs[:2]), parameters(1, cs), histories(3), together(1)}
		}})
}
