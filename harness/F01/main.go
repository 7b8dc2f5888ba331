//go:build go1.21

// F01: stored data keeps its format across versions. Package vfmt stands for
// another version of rothko: a reader and writer of the format that shares no
// code with it.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vfmt"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

const most = 1<<63 - 1

func opts(g vdb.Geo, handles int) files.Options {
	return files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
		Tuning: files.Tuning{Buffer: 1, Handles: handles, Workers: 1}}
}

// reads compares what the other version reads with the model.
func reads(d *vdb.D, m *vdb.Model, metric string) {
	dir := filepath.Join(d.Dir, vfmt.Dir(metric))
	ends := []int64{most}
	for i, r := range m.Retained() {
		if i > 20 && i%50 != 5 {
			continue
		}
		ends = append(ends, r.End, r.End+1)
	}
	for _, end := range ends {
		got, err := vfmt.Read(dir, end)
		if os.IsNotExist(err) && len(m.Retained()) == 0 {
			return
		}
		if err != nil {
			d.Fail("written", "another version can not read %q: %v; model: %s", metric, err, m)
		}
		var recs []vdb.Rec
		for _, v := range got {
			recs = append(recs, vdb.Rec{Start: v.Start, End: v.End, Data: v.Data})
		}
		if s := vdb.Same(recs, m.Older(end)); s != "" {
			d.Fail("written", "another version that reads %q before %d: %s; model: %s", metric, end, s, m)
		}
	}
}

// mixed is every history of values written by this and by the other version in
// turns; both read everything after each of them.
// The first fill values are written by this version, by the other one, or in
// turns.
func mixed(g vdb.Geo, handles, fill, depth int, sizes []int, first, step int64) func() {
	return func() {
		pattern := 0
		if fill > 0 {
			pattern = vs.Choose(4)
		}
		const metric = "a..b/c"
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		vs.FS.NoPoints = true
		var d *vdb.D
		m := &vdb.Model{Geo: g}
		end := first
		other := false
		for i := 0; i < fill+depth; i++ {
			op := pattern>>(i%2)&1 + i%len(sizes)*2
			if i >= fill {
				op = vs.Choose(1+2*len(sizes)) - 1
			}
			if op < 0 {
				break
			}
			n := sizes[op/2]
			start := vdb.Start(i, end)
			if d == nil {
				d = vdb.Open(dir, opts(g, handles))
				d.Stop()
			}
			if theirs := op%2 == 1; theirs != other {
				other = theirs
				d.Log("other version=%v", other)
			}
			if other {
				val := vdb.Data(end, n)
				if !m.Write(start, end, val) {
					break
				}
				d.Log("write(%q,%d,%d,%dB)", metric, start, end, n)
				err := vfmt.Append(filepath.Join(dir, vfmt.Dir(metric)), g.Size, g.Cap, g.Files, vfmt.Value{Start: start, End: end, Data: val})
				if err != nil {
					d.Fail("written", "another version can not write after this one: %v; model: %s", err, m)
				}
			} else {
				d.DB = files.New(dir, d.Opts)
				d.Start()
				d.Apply(m, metric, start, end, n)
				d.Stop()
			}
			if i+1 < fill {
				end += step
				continue
			}
			reads(d, m, metric)
			d.DB = files.New(dir, d.Opts)
			d.Start()
			d.CheckQuery(m, metric, most)
			if end != 1<<63-1 {
				d.CheckQuery(m, metric, end)
			}
			d.CheckLatest(m, metric)
			d.Stop()
			end += step
		}
		if d == nil {
			return
		}
		d.DB = files.New(dir, d.Opts)
		d.Start()
		from := first - 1
		if fill > 20 {
			from = end - 4*step
			d.CheckQuery(m, metric, first+step*int64(fill)/2)
		}
		d.CheckAll(m, metric, from, end+1)
		vs.Quiesce()
		names, err := d.Names()
		if err != nil {
			d.Fail("names", "listing: %v", err)
		}
		want := "[]"
		if _, ok := m.Newest(); ok {
			want = "[" + metric + "]"
		}
		if got := fmt.Sprint(names); got != want {
			d.Fail("names", "listing is %s, want %s", got, want)
		}
		d.CheckDisk(m, vfmt.Dir(metric))
		vs.Outcome("%s", m)
		d.Stop()
	}
}

// named is every name: where this version stores it, and where the other one
// did.
func named(alphabet []string, length int) func() {
	return func() {
		name := ""
		for i := 0; i < length; i++ {
			c := vs.Choose(len(alphabet) + 1)
			if c == 0 {
				break
			}
			name += alphabet[c-1]
		}
		if name == "" {
			return
		}
		vs.FS.NoPoints = true
		g := vdb.Geo{Size: 80, Cap: 2, Files: 2}
		for _, other := range []bool{false, true} {
			dir := vdb.NewDir()
			d := vdb.Open(dir, opts(g, 2))
			d.Stop()
			d.Log("name %q, written by the other version=%v", name, other)
			m := &vdb.Model{Geo: g}
			if other {
				val := vdb.Data(10, 5)
				m.Write(9, 10, val)
				if err := vfmt.Append(filepath.Join(dir, vfmt.Dir(name)), g.Size, g.Cap, g.Files, vfmt.Value{Start: 9, End: 10, Data: val}); err != nil {
					panic(err)
				}
			}
			d.DB = files.New(dir, d.Opts)
			d.Start()
			vs.Quiesce()
			if !other {
				d.Apply(m, name, 9, 10, 5)
			}
			d.CheckQuery(m, name, most)
			reads(d, m, name)
			names, err := d.Names()
			if err != nil || len(names) != 1 || names[0] != name {
				d.Fail("names", "listing is %q, %v", names, err)
			}
			d.Stop()
			vdb.RmDir(dir)
		}
		vs.Outcome("%d", strings.Count(vfmt.Dir(name), "/"))
	}
}

func sameRecord(a, b vfmt.Record) bool {
	return a.Start == b.Start && a.End == b.End && a.Obs == b.Obs && bytes.Equal(a.Dist, b.Dist) && a.Kind == b.Kind &&
		math.Float64bits(a.Min) == math.Float64bits(b.Min) && math.Float64bits(a.Max) == math.Float64bits(b.Max) &&
		bytes.Equal(a.MinID, b.MinID) && bytes.Equal(a.MaxID, b.MaxID) && a.Merged == b.Merged
}

func plain(r data.Record) vfmt.Record {
	return vfmt.Record{Start: r.StartTime, End: r.EndTime, Obs: r.Observations, Dist: r.Distribution, Kind: r.Kind,
		Min: r.Min, Max: r.Max, MinID: r.MinId, MaxID: r.MaxId, Merged: r.Merged}
}

// records is every combination of the values of the fields of a record.
func records(ints []int64, floats []float64, lens []int) func() {
	return func() {
		num := func() int64 { return ints[vs.Choose(len(ints))] }
		float := func() float64 { return floats[vs.Choose(len(floats))] }
		str := func(k int) []byte {
			n := lens[vs.Choose(len(lens))]
			if n == 0 {
				return nil
			}
			return vdb.Data(int64(k), n)
		}
		w := vfmt.Record{Start: num(), End: num(), Obs: num(), Dist: str(1), Kind: string(str(2)),
			Min: float(), Max: float(), MinID: str(3), MaxID: str(4), Merged: num()}
		var r data.Record
		if err := r.Unmarshal(w.Encode()); err != nil {
			vs.Fail("record", "a record of another version can not be read: %v: %+v", err, w)
		}
		if got := plain(r); !sameRecord(got, w) {
			vs.Fail("record", "a record of another version is read as %+v instead of %+v", got, w)
		}
		b, err := r.Marshal()
		if err != nil {
			vs.Fail("record", "%v for %+v", err, w)
		}
		got, err := vfmt.DecodeRecord(b)
		if err != nil || !sameRecord(got, w) {
			vs.Fail("record", "another version reads %+v, %v instead of %+v", got, err, w)
		}
		vs.Outcome("%d", len(b))
	}
}

// digests is every sequence of observations: the stored distribution is read by
// the other version, and what the other version would store for them is read.
func digests(vals []float64, length int, compressions []float64) func() {
	return func() {
		comp := compressions[vs.Choose(len(compressions))]
		d, err := tdigest.Params{Compression: comp}.New()
		if err != nil {
			panic(err)
		}
		var obs []float64
		for i := 0; i < length; i++ {
			c := vs.Choose(len(vals) + 1)
			if c == 0 {
				break
			}
			obs = append(obs, vals[c-1])
			d.Observe(vals[c-1])
		}
		scale := 0.0
		for _, v := range obs {
			scale = math.Max(scale, math.Abs(v))
		}
		near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-6*scale }
		got, cs, err := vfmt.DecodeDigest(d.Marshal(nil))
		if err != nil || got != comp {
			vs.Fail("digest", "another version can not read the distribution of %v: %v, compression %v instead of %v", obs, err, got, comp)
		}
		count, sum, want := uint64(0), 0.0, 0.0
		for _, c := range cs {
			count += uint64(c.Count)
			sum += c.Mean * float64(c.Count)
		}
		for _, v := range obs {
			want += v
		}
		if count != uint64(len(obs)) {
			vs.Fail("digest", "another version reads %d observations instead of %v", count, obs)
		}
		if math.Abs(sum-want) > 1e-5*scale {
			vs.Fail("digest", "another version reads %v for %v", cs, obs)
		}

		sort.Float64s(obs)
		var theirs []vfmt.Centroid
		for _, v := range obs {
			theirs = append(theirs, vfmt.Centroid{Mean: v, Count: 1})
		}
		kind := d.Kind()
		if kind != "tdigest" {
			vs.Fail("digest", "the kind of a distribution is %q", kind)
		}
		e, err := load.Load(context.Background(), data.Record{Kind: "tdigest", Distribution: vfmt.EncodeDigest(comp, theirs)})
		if err != nil {
			vs.Fail("digest", "the distribution of %v of another version can not be read: %v", obs, err)
		}
		if e.Len() != int64(len(obs)) {
			vs.Fail("digest", "the distribution of %v of another version has %d observations", obs, e.Len())
		}
		if n := len(obs); n > 0 && comp >= 100 {
			if lo, hi := e.Query(0), e.Query(1); !near(lo, obs[0]) || !near(hi, obs[n-1]) {
				vs.Fail("digest", "the distribution of %v of another version is from %v to %v", obs, lo, hi)
			}
			for i, v := range obs {
				if q := e.Query((float64(i) + 0.5) / float64(n)); !near(q, v) && n > 1 && !near(q, d.Query((float64(i)+0.5)/float64(n))) {
					vs.Fail("digest", "the distribution of %v of another version has the quantile %v for %v", obs, q, v)
				}
			}
		}
		vs.Outcome("%d", len(cs))
	}
}

func main() {
	vh.Main(vh.Check{ID: "F01", Level: "model_checking",
		Rule: "every history of up to the stated number of values in which each is written by this version or by an independent implementation of the format, read by both after each step; every name up to the stated length, every combination of the values of the fields of a record, and every sequence of observations, each encoded by one and decoded by the other",
		Assumptions: []string{
			"the format is the one of the pinned commit: the independent implementation in lib/vfmt follows the description in its comments",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			const c = 80 - vdb.Header
			more := 0
			if tier == "thorough" {
				more = 1
			}
			fill := func(g vdb.Geo, handles, fill, depth int, sizes []int, first, step int64) {
				depth += more
				name := fmt.Sprintf("mixed-size%d-cap%d-files%d-first%d-step%d-depth%d", g.Size, g.Cap, g.Files, first, step, depth)
				if fill > 0 {
					name += fmt.Sprintf("-after%d", fill)
				}
				out = append(out, vh.Scenario{Name: name, Weight: float64(depth), Body: mixed(g, handles, fill, depth, sizes, first, step)})
			}
			add := func(g vdb.Geo, handles, depth int, sizes []int, first, step int64) {
				fill(g, handles, 0, depth, sizes, first, step)
			}
			fill(vdb.Geo{80, 1, 12}, 2, 8, 4, []int{5}, 1, 1)
			fill(vdb.Geo{80, 1, 2}, 1, 14, 3, []int{5, 60}, 1, 1)
			fill(vdb.Geo{80, 1, 1}, 2, 98, 3, []int{5}, 1, 1)
			fill(vdb.Geo{100, 300, 1}, 2, 254, 3, []int{5}, 1, 1)
			add(vdb.Geo{80, 3, 2}, 2, 4, []int{5, c + 1, 3 * c}, 1, 1)
			add(vdb.Geo{80, 2, 1}, 0, 4, []int{0, c, 2 * c}, -2, 1)
			add(vdb.Geo{80, 1, 0}, 1, 5, []int{7}, -1, 1)
			add(vdb.Geo{100, 4, 3}, 2, 4, []int{76, 77, 200}, 1500000000000000000, 10_000_000_000)
			add(vdb.Geo{1024, 16, 1}, 2, 3, []int{1000, 1001, 16000}, 300, 70000)
			add(vdb.Geo{65559, 2, 1}, 2, 3, []int{65535, 65536}, -1<<63+5, 1<<62)
			out = append(out,
				vh.Scenario{Name: fmt.Sprintf("names-dots-%d", 6+more), Weight: 2, Body: named([]string{".", "a"}, 6+more)},
				vh.Scenario{Name: fmt.Sprintf("names-%d", 3+more), Weight: 2, Body: named([]string{".", "/", "%", "2", "e", "A", " ", "\xff", "é"}, 3+more)},
				vh.Scenario{Name: "records", Weight: 2, Body: records([]int64{0, 1, -1 << 63}, []float64{0, -1.5}, []int{0, 3})},
				vh.Scenario{Name: "records-large", Weight: 1, Body: records([]int64{1500000000123456789}, []float64{1e300, math.Inf(-1), 5e-324}, []int{0, 1, 127, 128, 40000})},
				vh.Scenario{Name: fmt.Sprintf("digests-%d", 4+more), Weight: 2, Body: digests([]float64{-3.25, 0, 1, 1e9, 1e-9}, 4+more, []float64{5, 100, 1000})},
			)
			return out
		}})
}
