package main

import (
	"context"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

// prefix compares the first n results of a query with the model.
func prefix(d *vdb.D, m *vdb.Model, want []vdb.Rec, end int64, n int) {
	var got []vdb.Rec
	err := d.DB.Query(context.Background(), "a", end, nil, func(ctx context.Context, s, e int64, b []byte) (bool, error) {
		got = append(got, vdb.Rec{Start: s, End: e, Data: append([]byte(nil), b...)})
		return len(got) < n, nil
	})
	if err != nil {
		d.Fail("query", "query(%q,%d) of the first %d: %v", "a", end, n, err)
	}
	if len(want) > n {
		want = want[:n]
	}
	if s := vdb.Same(got, want); s != "" {
		d.Fail("query", "query(%q,%d) of the first %d: %s", "a", end, n, s)
	}
}

// wide has files of many records: every end of a query in the whole history
// with every capacity, number of files and pattern of sizes.
func wide(name string, caps, keep []int) vh.Scenario {
	patterns := [][]int{{1}, {1, 2}, {3}, {2, 1, 1, 4}}
	handles := []int{0, 10}
	return vh.Scenario{Name: name, Weight: 2, Body: func() {
		vs.FS.NoPoints = true
		g := vdb.Geo{80, caps[vs.Choose(len(caps))], keep[vs.Choose(len(keep))]}
		pattern := patterns[vs.Choose(len(patterns))]
		slots := 0
		for _, p := range pattern {
			slots += p
		}
		// the moments around the end of the first and the second file
		counts := []int{-1, 0, 1, 2, g.Cap * len(pattern) / slots}
		count := g.Cap*len(pattern)/slots + counts[vs.Choose(len(counts))]
		step := []int64{1, 2, 3}[vs.Choose(3)]
		h := handles[vs.Choose(len(handles))]
		restart := vs.Choose(2) == 1

		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		d := vdb.Open(dir, files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
			Tuning: files.Tuning{Buffer: 1, Handles: h, Workers: 1}})
		m := &vdb.Model{Geo: g}
		// the ends are on both sides of zero
		first := -step * int64(count/2)
		for i := 0; i < count; i++ {
			end := first + step*int64(i)
			d.Apply(m, "a", end-1, end, pattern[i%len(pattern)]*g.Chunk()-i%3)
		}
		if restart {
			d.Restart()
		}
		all := m.Retained() // newest first
		at := len(all)
		for end := first - 1; end <= first+step*int64(count)+1; end++ {
			for at > 0 && all[at-1].End < end {
				at--
			}
			if all != nil && at < len(all) || end%7 == 0 {
				prefix(d, m, all[at:], end, 2)
			}
		}
		d.CheckQuery(m, "a", 1<<63-1)
		d.CheckQuery(m, "a", first+step*int64(count)/2)
		d.CheckQuery(m, "a", -1<<63)
		d.CheckLatest(m, "a")
		// what is older or the same is refused
		d.Apply(m, "a", 0, first+step*int64(count-1), 5)
		d.Apply(m, "a", 0, first+step*int64(count/2), 5)
		vs.Outcome("%v %d %d", g, count, len(all))
		d.Stop()
	}}
}
