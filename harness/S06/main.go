//go:build go1.21

// S06: a crash at any moment loses no acknowledged record and blocks nothing.
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

func opts(g vdb.Geo) files.Options {
	return files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
		Tuning: files.Tuning{Buffer: 1, Handles: 3, Workers: 1}}
}

// image is the content of a directory. directories have a nil content and a
// slash at the end.
type image map[string][]byte

func load(dir string, prev image) image {
	im := image{}
	changed := len(prev) == 0
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			rel += "/"
			im[rel] = nil
			if _, ok := prev[rel]; !ok {
				changed = true
			}
			return nil
		}
		b, _ := os.ReadFile(p)
		if pb, ok := prev[rel]; ok && bytes.Equal(b, pb) {
			b = pb
		} else {
			changed = true
		}
		im[rel] = b
		return nil
	})
	if !changed && len(im) == len(prev) {
		return nil
	}
	return im
}

func (im image) store(dir string) {
	for rel := range im {
		if strings.HasSuffix(rel, "/") {
			os.MkdirAll(filepath.Join(dir, rel), 0755)
		}
	}
	for rel, b := range im {
		if strings.HasSuffix(rel, "/") {
			continue
		}
		if err := os.WriteFile(filepath.Join(dir, rel), b, 0644); err != nil {
			panic(err)
		}
	}
}

// recorder collects the images that a crash can leave behind.
type recorder struct {
	dir   string
	last  image
	crash []crash
	torn  bool
	on    bool

	fhs   []*os.File
	names []string
	buf   []byte
}

type crash struct {
	im   image
	what string
	// a torn store: file has the first or last n of the changed bytes
	file string
	diff []int
	to   []byte
	n    int
	tail bool
}

func (c crash) image() image {
	if c.file == "" {
		return c.im
	}
	im := image{}
	for k, v := range c.im {
		im[k] = v
	}
	b := append([]byte(nil), im[c.file]...)
	d := c.diff[:c.n]
	if c.tail {
		d = c.diff[len(c.diff)-c.n:]
	}
	for _, i := range d {
		b[i] = c.to[i]
	}
	im[c.file] = b
	return im
}

func (c crash) String() string {
	if c.file == "" {
		return c.what
	}
	return fmt.Sprintf("%s, in the middle of the store of %d bytes in %s: %d done (from the end: %v)", c.what, len(c.diff), c.file, c.n, c.tail)
}

var rec *recorder

// dirty is set by file operations.
var dirty bool

func (r *recorder) close() {
	for _, f := range r.fhs {
		f.Close()
	}
	r.fhs, r.names = nil, nil
}

var stmts int

func (r *recorder) snap() {
	// the set of files changes with file operations only
	if !dirty {
		same := true
		for i, f := range r.fhs {
			b := r.last[r.names[i]]
			if cap(r.buf) < len(b)+1 {
				r.buf = make([]byte, len(b)+1)
			}
			n, _ := f.ReadAt(r.buf[:len(b)+1], 0)
			if !bytes.Equal(r.buf[:n], b) {
				same = false
				break
			}
		}
		if same {
			return
		}
	}
	im := load(r.dir, r.last)
	if dirty {
		r.close()
		for n := range im {
			if !strings.HasSuffix(n, "/") {
				if f, err := os.Open(filepath.Join(r.dir, n)); err == nil {
					r.fhs = append(r.fhs, f)
					r.names = append(r.names, n)
				}
			}
		}
		dirty = im == nil
	}
	if im == nil {
		return
	}
	if r.torn && r.last != nil {
		var names []string
		for n := range im {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			was, ok := r.last[n]
			b := im[n]
			if !ok || len(was) != len(b) || bytes.Equal(was, b) {
				continue
			}
			var diff []int
			for i := range b {
				if b[i] != was[i] {
					diff = append(diff, i)
				}
			}
			for k := 1; k < len(diff); k++ {
				for _, tail := range []bool{false, true} {
					r.crash = append(r.crash, crash{im: r.last, what: fmt.Sprintf("after image %d", len(r.crash)), file: n, diff: diff, to: b, n: k, tail: tail})
				}
			}
		}
	}
	r.last = im
	r.crash = append(r.crash, crash{im: im, what: fmt.Sprintf("image %d", len(r.crash))})
}

type write struct {
	metric string
	n      int
}

// a base is a history with the images of a crash during its last write.
type base struct {
	writes []write
	before map[string]*vdb.Model // acknowledged
	after  map[string]*vdb.Model // with the last write
	cr     []crash
}

func endOf(i int) int64 { return int64(2*i + 2) }

func clone(m map[string]*vdb.Model) map[string]*vdb.Model {
	o := map[string]*vdb.Model{}
	for k, v := range m {
		o[k] = v.Clone()
	}
	return o
}

func makeBase(g vdb.Geo, ws []write, torn bool) *base {
	dir := vdb.NewDir()
	defer vdb.RmDir(dir)
	d := vdb.Open(dir, opts(g))
	vs.Quiesce()
	b := &base{writes: ws, before: map[string]*vdb.Model{}}
	for i, w := range ws {
		if b.before[w.metric] == nil {
			b.before[w.metric] = &vdb.Model{Geo: g}
		}
		if i == len(ws)-1 {
			b.after = clone(b.before)
			dirty = true
			rec = &recorder{on: true, dir: dir, torn: torn}
			rec.snap()
			d.Apply(b.after[w.metric], w.metric, endOf(i)-1, endOf(i), w.n)
			dirty = true
			rec.snap()
			rec.close()
			b.cr = rec.crash
			rec = nil
			break
		}
		d.Apply(b.before[w.metric], w.metric, endOf(i)-1, endOf(i), w.n)
	}
	d.Stop()
	return b
}

const inf = 1<<63 - 1

// verify checks what a metric has after a crash and returns it.
func verify(d *vdb.D, metric string, before, after *vdb.Model) []vdb.Rec {
	got, err := d.Query(metric, inf)
	if err != nil && !(len(before.Retained()) == 0 && vdb.IsMissing(err)) {
		d.Fail("query", "query of %q after the crash: %v; acknowledged: %s", metric, err, before)
	}
	ok := vdb.Same(got, before.Retained()) == "" || vdb.Same(got, after.Retained()) == ""
	for i, n := 0, len(before.Files)+1-len(after.Files); !ok && i < n; i++ {
		// the oldest files may be gone already
		part := before.Clone()
		part.Files = part.Files[i+1:]
		ok = vdb.Same(got, part.Retained()) == ""
	}
	if !ok {
		d.Fail("lost", "query of %q after the crash has %v, acknowledged is %s, with the last write %s", metric, got, before, after)
	}
	s, e, b, err := d.DB.QueryLatest(context.Background(), metric, nil)
	if err != nil && !(len(got) == 0 && vdb.IsMissing(err)) {
		d.Fail("latest", "latest of %q after the crash: %v", metric, err)
	}
	if err == nil {
		var want vdb.Rec
		if len(got) > 0 {
			want = got[0]
		}
		if s != want.Start || e != want.End || !bytes.Equal(b, want.Data) {
			d.Fail("latest", "latest of %q after the crash is [%d,%d] %d bytes, query has %v", metric, s, e, len(b), got)
		}
	}
	return got
}

// goOn writes a newer record and checks that nothing but the oldest file is
// lost by that.
func goOn(d *vdb.D, g vdb.Geo, metric string, end int64, n int, had []vdb.Rec) []vdb.Rec {
	data := vdb.Data(end, n)
	ok, err := d.Write(metric, end-1, end, data)
	if rec != nil {
		dirty = true
		rec.snap()
		rec.on = false
	}
	if !ok || err != nil {
		d.Fail("blocked", "newer write to %q after the crash: %v, %v", metric, ok, err)
	}
	got, err := d.Query(metric, inf)
	if err != nil {
		d.Fail("query", "query of %q after a newer write: %v", metric, err)
	}
	checkOn(d, g, metric, vdb.Rec{Start: end - 1, End: end, Data: data}, had, got)
	return got
}

func checkOn(d *vdb.D, g vdb.Geo, metric string, w vdb.Rec, had, got []vdb.Rec) {
	want := append([]vdb.Rec{w}, had...)
	if vdb.Same(got, want) == "" {
		return
	}
	// the oldest file holds at most Cap records
	for k := 1; g.Files > 0 && k <= g.Cap && k < len(want); k++ {
		if vdb.Same(got, want[:len(want)-k]) == "" {
			return
		}
	}
	d.Fail("lost", "query of %q after a newer write has %v, want %v", metric, got, want)
}

func checkNames(d *vdb.D, b *base) {
	names, err := d.Names()
	if err != nil {
		d.Fail("names", "listing after the crash: %v", err)
	}
	have := map[string]bool{}
	for i, n := range names {
		if i > 0 && names[i-1] >= n {
			d.Fail("names", "listing after the crash is %q", names)
		}
		if b.after[n] == nil {
			d.Fail("names", "listing after the crash has %q", n)
		}
		have[n] = true
	}
	for n, m := range b.before {
		if len(m.Retained()) > 0 && !have[n] {
			d.Fail("names", "listing after the crash is %q without %q", names, n)
		}
	}
}

func scenario(g vdb.Geo, gname string, alpha []write, depth int, nested bool) vh.Scenario {
	var bases []*base
	var starts []int
	total := 0
	prepare := func() {
		vs.FS.NoPoints = true
		bases, starts, total = nil, nil, 0
		var gen func(ws []write)
		gen = func(ws []write) {
			if len(ws) > 0 {
				b := makeBase(g, append([]write(nil), ws...), !nested)
				bases = append(bases, b)
				starts = append(starts, total)
				total += len(b.cr)
			}
			if len(ws) < depth {
				for _, a := range alpha {
					gen(append(ws, a))
				}
			}
		}
		gen(nil)
	}
	body := func() {
		stmts = 0
		if rec != nil {
			rec.close()
		}
		rec = nil
		vs.FS.NoPoints = true
		k := vs.Choose((total+299)/300)*300 + vs.Choose(300)
		if k >= total {
			return
		}
		bi := sort.SearchInts(starts, k+1) - 1
		b := bases[bi]
		c := b.cr[k-starts[bi]]
		nexts := []int{5, g.Cap * g.Chunk()}
		if nested && !vh.Thorough() {
			nexts = []int{g.Chunk() + 1}
		}
		stale := 0
		if lm := b.writes[len(b.writes)-1].metric; !nested && (vh.Thorough() || k%4 == 0 || b.after[lm].Num != b.before[lm].Num) {
			stale = 1
		}
		ni := vs.Choose(len(nexts) + stale)
		next := nexts[ni%len(nexts)]

		dir := vdb.NewDir()
		defer func() { vdb.RmDir(dir) }()
		c.image().store(dir)
		d := vdb.Open(dir, opts(g))
		vs.Quiesce()
		d.Log("writes %v, crash in the last one at %s;", b.writes, c)
		last := b.writes[len(b.writes)-1].metric
		checkNames(d, b)
		got := map[string][]vdb.Rec{}
		var ms []string
		for m := range b.before {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			got[m] = verify(d, m, b.before[m], b.after[m])
		}
		if nested {
			dirty = true
			rec = &recorder{on: true, dir: dir}
			rec.snap()
		}
		had := got[last]
		if ni == len(nexts) && len(had) > 0 {
			// a value that is not newer is refused and changes nothing
			r := had[0]
			if ok, err := d.Write(last, r.End+7, r.End, vdb.Data(r.End+1, 5)); ok {
				d.Fail("accept", "a value of %q that is not newer than %v is acknowledged as written after the crash (error %v)", last, r, err)
			}
			verify(d, last, b.before[last], b.after[last])
		}
		end := endOf(len(b.writes))
		now := goOn(d, g, last, end, next, had)
		if nested {
			rec.close()
			cr := rec.crash
			rec = nil
			d.Stop()
			c := cr[vs.Choose(len(cr))]
			vdb.RmDir(dir)
			dir = vdb.NewDir()
			c.image().store(dir)
			hist := d.Hist
			d = vdb.Open(dir, opts(g))
			d.Hist = hist
			d.Log("second crash in it at %s;", c)
			vs.Quiesce()
			checkNames(d, b)
			w := vdb.Rec{Start: end - 1, End: end, Data: vdb.Data(end, next)}
			g2, err := d.Query(last, inf)
			if err != nil && !(len(had) == 0 && vdb.IsMissing(err)) {
				d.Fail("query", "query of %q after the second crash: %v", last, err)
			}
			ok := vdb.Same(g2, had) == ""
			for k := 0; !ok && k <= len(had)-len(now)+1; k++ {
				ok = vdb.Same(g2, had[:len(had)-k]) == ""
			}
			if !ok {
				checkOn(d, g, last, w, had, g2)
			}
			now = g2
		} else {
			d.Restart()
			vs.Quiesce()
		}
		for _, m := range ms {
			if m != last {
				g2, err := d.Query(m, inf)
				if err != nil && len(got[m]) > 0 {
					d.Fail("query", "query of %q: %v", m, err)
				}
				if s := vdb.Same(g2, got[m]); s != "" {
					d.Fail("lost", "query of %q: %s", m, s)
				}
			}
		}
		if !nested {
			g2, err := d.Query(last, inf)
			if err != nil {
				d.Fail("query", "query of %q: %v", last, err)
			}
			if s := vdb.Same(g2, now); s != "" {
				d.Fail("lost", "query of %q after a restart: %s", last, s)
			}
		}
		for i := 1; i <= g.Cap+1 && (i == 1 || !nested); i++ {
			now = goOn(d, g, last, end+int64(i), 3, now)
		}
		checkNames(d, b)
		vs.Outcome("%v %s: %v, then %v", b.writes, c, had, now)
		d.Stop()
	}
	name := gname
	opt := vs.Options{MaxSteps: 1 << 40}
	if nested {
		name += "-twice"
	}
	return vh.Scenario{Name: name, Opt: opt, Prepare: prepare, Body: body}
}

func main() {
	vs.FS.OnOp = func(op, path string) {
		switch op {
		case "open", "close", "stat", "read", "readdir", "mmap", "munmap", "msync", "fsync":
		default:
			dirty = true
		}
	}
	vs.SetStmtHook(func() {
		if rec != nil && rec.on {
			rec.snap()
		}
		stmts++
		if stmts > 3000000 && vs.Active() {
			stmts = 0
			vs.Fail("hang", "no end after 3000000 statements")
		}
	})
	vh.Main(vh.Check{ID: "S06", Level: "fault_enumeration",
		Rule: "every history of writes over the alphabet up to the depth; the files are recorded after every statement of the database code in the last write of each history (crashes before it are covered by the shorter histories), plus every prefix and suffix of the bytes that a single statement changed; from each of these images the database is reopened, checked against what was acknowledged, written again with a small and a file sized value (or first one that is not newer), restarted and written until a file rolls over. The -twice scenarios crash again in the write after the first crash. Cases that differ in history, crash point or result count as distinct.",
		Assumptions: []string{
			"process crash: stores to the mapping happen in program order and survive the process",
			"a store that is torn by a crash has a prefix or a suffix of its bytes",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			c := 80 - vdb.Header
			a1 := []write{{"a", 5}, {"a", c + 1}, {"a", 3 * c}}
			ab := []write{{"a", 5}, {"b.c", 2 * c}}
			d := 0
			if tier == "thorough" {
				d = 1
			}
			out = append(out, scenario(vdb.Geo{80, 3, 0}, "unlimited", a1, 4+d, false))
			out = append(out, scenario(vdb.Geo{80, 3, 1}, "one-file", a1, 4+d, false))
			out = append(out, scenario(vdb.Geo{80, 3, 2}, "two-files", a1[1:], 5+d, false))
			out = append(out, scenario(vdb.Geo{80, 2, 1}, "two-metrics", ab, 4+d, false))
			out = append(out, scenario(vdb.Geo{80, 1, 1}, "one-record-files", a1[:1], 4+d, false))
			out = append(out, scenario(vdb.Geo{80, 3, 0}, "unlimited", a1, 2+d, true))
			out = append(out, scenario(vdb.Geo{80, 3, 1}, "one-file", a1, 2+d, true))
			return out
		}})
}
