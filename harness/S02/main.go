//go:build go1.21

// S02: writes are accepted exactly when newer and fitting; rejects change
// nothing.
package main

import (
	"fmt"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

func history(g vdb.Geo, handles, depth int, deltas []int64, sizes []int, first int64, other ...vdb.Geo) func() {
	return func() {
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		vs.FS.NoPoints = true
		d := vdb.Open(dir, files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
			Tuning: files.Tuning{Buffer: 1, Handles: handles, Workers: 1}})
		m := &vdb.Model{Geo: g}
		lo, hi := first, first
		first2 := depth + len(sizes)
		for i := 0; i < depth; i++ {
			op := vs.Choose(len(sizes)*len(deltas) + 2 + len(other))
			if op == 0 {
				break
			}
			op--
			if op == 0 {
				d.Restart()
				continue
			}
			op--
			if op < len(other) {
				o := other[op]
				if m.Geo == o {
					o = g
				}
				m.Geo = o
				d.Reconfigure(o)
				continue
			}
			op -= len(other)
			end := first
			if r, ok := m.Newest(); ok {
				end = r.End
			}
			end += deltas[op%len(deltas)]
			// the start does not matter, wherever it is
			start := vdb.Start(i+first2, end)
			d.Apply(m, "a.b", start, end, sizes[op/len(deltas)])
			if end < lo {
				lo = end
			}
			if end > hi {
				hi = end
			}
		}
		d.CheckAll(m, "a.b", lo-1, hi+1)
		// a rejected write leaves no trace in the listing, now or after a
		// restart
		for _, when := range []string{"at the end", "after a restart"} {
			vs.Quiesce()
			names, err := d.Names()
			if err != nil {
				d.Fail("names", "listing: %v", err)
			}
			want := "[]"
			if _, ok := m.Newest(); ok {
				want = "[a.b]"
			}
			if got := fmt.Sprint(names); got != want {
				d.Fail("names", "listing %s is %s, want %s", when, got, want)
			}
			if when == "at the end" {
				d.Restart()
			}
		}
		d.CheckQuery(m, "a.b", 1<<63-1)
		vs.Outcome("%s", m)
		d.Stop()
	}
}

// starts is every history of writes over the starts and ends relative to the
// newest record.
func starts(g vdb.Geo, depth int) func() {
	return func() {
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		vs.FS.NoPoints = true
		d := vdb.Open(dir, files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
			Tuning: files.Tuning{Buffer: 1, Handles: 2, Workers: 1}})
		m := &vdb.Model{Geo: g}
		hi := int64(0)
		for i := 0; i < depth; i++ {
			op := vs.Choose(15)
			if op == 0 {
				break
			}
			op--
			r, _ := m.Newest()
			end := r.End + []int64{10, 0}[op%2]
			start := []int64{r.Start, r.Start - 1, r.End, end, end + 3, -1 << 63, 1<<63 - 1}[op/2]
			d.Apply(m, "a.b", start, end, 5)
			hi = end
		}
		d.CheckAll(m, "a.b", hi-12, hi+1)
		d.CheckQuery(m, "a.b", 1<<63-1)
		vs.Outcome("%s", m)
		d.Stop()
	}
}

func main() {
	vh.Main(vh.Check{ID: "S02", Level: "model_checking",
		Rule: "every history of up to the stated number of writes, for each combination of an end (and a start) relative to the newest record and of a size from empty to larger than a file, and restarts; each acknowledgement is compared with the model, and in the end all queries and the listing",
		Assumptions: []string{
			"one writer per metric; record sizes in which the metadata fits (80 bytes and more)",
			"tmpfs; reads and writes of mappings are not reordered within one process",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			const c = 80 - vdb.Header
			sd := 3
			if tier == "thorough" {
				sd = 4
			}
			for _, g := range []vdb.Geo{{80, 1, 1}, {80, 2, 0}} {
				out = append(out, vh.Scenario{Name: fmt.Sprintf("starts-cap%d-depth%d", g.Cap, sd), Weight: 1, Body: starts(g, sd)})
			}
			add := func(w float64, g vdb.Geo, handles, depth int, deltas []int64, sizes []int, first int64, other ...vdb.Geo) {
				if tier == "thorough" {
					depth++
				}
				name := fmt.Sprintf("cap%d-files%d-handles%d-deltas%v-first%d-depth%d", g.Cap, g.Files, handles, deltas, first, depth)
				if len(other) > 0 {
					name += "-geometry-change"
				}
				out = append(out, vh.Scenario{Name: name, Weight: w,
					Body: history(g, handles, depth, deltas, sizes, first, other...)})
			}
			add(2, vdb.Geo{80, 3, 2}, 10, 5, []int64{2, 0}, []int{5, 2 * c, 3*c + 1}, 2)
			add(2, vdb.Geo{80, 2, 1}, 1, 5, []int64{1, 0}, []int{0, 2 * c, 2*c + 1}, 2)
			add(1, vdb.Geo{80, 1, 1}, 10, 5, []int64{1, -1}, []int{0, c, c + 1}, -1)
			add(1, vdb.Geo{80, 2, 0}, 0, 5, []int64{3, 0, -2}, []int{c, c + 1}, -3)
			add(1, vdb.Geo{80, 2, 2}, 10, 4, []int64{1 << 40, 1, 0, -1, -1 << 40}, []int{c, 2*c + 1}, 0)
			add(1, vdb.Geo{80, 2, 2}, 2, 4, []int64{1, 0}, []int{1, 2 * c, 2*c + 1}, 2, vdb.Geo{100, 3, 2})
			add(1, vdb.Geo{80, 3, 1}, 2, 4, []int64{1, 0}, []int{1, 2 * c, 2*c + 1}, 2, vdb.Geo{80, 2, 1})
			add(1, vdb.Geo{80, 2, 1}, 2, 5, []int64{1}, []int{2 * c, 2*c + 1}, 2, vdb.Geo{100, 2, 1})
			add(1, vdb.Geo{65559, 2, 1}, 2, 3, []int64{1, 0}, []int{65534, 65535, 65536, 2 * 65535, 2*65535 + 1}, 2)
			add(1, vdb.Geo{65560, 2, 1}, 2, 2, []int64{1}, []int{0, 65535, 65536, 2 * 65536}, 2)
			return out
		}})
}
