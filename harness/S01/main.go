//go:build go1.21

// S01: queries return exactly the retained older records, newest first.
package main

import (
	"fmt"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

// history runs every history of up to depth operations: writes of each size,
// with the end 2 later than the last, restarts, and queries in between.
func history(g vdb.Geo, handles, depth int, sizes []int, first int64, stops bool, other ...vdb.Geo) func() {
	return func() {
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		vs.FS.NoPoints = true
		d := vdb.Open(dir, files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
			Tuning: files.Tuning{Buffer: 1, Handles: handles, Workers: 1}})
		m := &vdb.Model{Geo: g}
		end := first
		for i := 0; i < depth; i++ {
			op := vs.Choose(len(sizes) + 3 + len(other))
			if op == 0 {
				break
			}
			switch op -= 1; {
			case op < len(sizes):
				if d.Apply(m, "a.b", vdb.Start(i, end), end, sizes[op]) {
					end += 2
				}
			case op == len(sizes):
				d.Restart()
			case op > len(sizes)+1:
				// change the geometry
				o := other[op-len(sizes)-2]
				if m.Geo == o {
					o = g
				}
				m.Geo = o
				d.Reconfigure(o)
			default:
				d.Log("query")
				d.CheckQuery(m, "a.b", end-2)
			}
		}
		d.CheckAll(m, "a.b", first-2, end+1)
		if stops {
			d.CheckStop(m, "a.b", end)
			d.CheckCancel(m, "a.b", end)
			d.CheckStop(m, "a.b", end-3)
		}
		vs.Outcome("%s", m)
		d.Stop()
	}
}

func main() {
	vh.Main(vh.Check{ID: "S01", Level: "model_checking",
		Rule: "every history of up to the stated number of operations (writes of each size, restart, query) from an empty database, then every query end in the range of the history, the extremes and the latest value, compared with the list model; values that were returned are compared again after later operations",
		Assumptions: []string{
			"one writer per metric; record sizes in which the metadata fits (80 bytes and more)",
			"tmpfs; reads and writes of mappings are not reordered within one process",
			"ends are below the largest int64 except in scenario max-end",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			type cfg struct {
				g       vdb.Geo
				handles int
				depth   int
				sizes   []int
				first   int64
			}
			const c = 80 - vdb.Header
			cs := []cfg{
				{vdb.Geo{80, 3, 2}, 10, 7, []int{5, c + 1, 2*c + 1}, 2},
				{vdb.Geo{80, 2, 1}, 10, 7, []int{0, c, c + 1}, 2},
				{vdb.Geo{80, 4, 0}, 1, 6, []int{c, 2 * c, 3*c + 1}, 2},
				{vdb.Geo{80, 1, 3}, 0, 6, []int{3, c}, 2},
				{vdb.Geo{96, 2, 1}, 2, 6, []int{72, 73, 144}, -5},
				{vdb.Geo{80, 2, 2}, 2, 5, []int{1, c + 1}, -3},
				{vdb.Geo{80, 2, 2}, 2, 5, []int{1, c + 1}, -2},
				{vdb.Geo{80, 2, 2}, 2, 5, []int{1, c + 1}, 0},
				{vdb.Geo{80, 5, 1}, 10, 6, []int{c, 2 * c, 4*c + 1}, 1},
			}
			for _, c := range cs {
				c := c
				if tier == "thorough" {
					c.depth += 2
				}
				out = append(out, vh.Scenario{
					Weight: float64(c.depth - 4),
					Name:   fmt.Sprintf("size%d-cap%d-files%d-handles%d-first%d-depth%d", c.g.Size, c.g.Cap, c.g.Files, c.handles, c.first, c.depth),
					Body:   history(c.g, c.handles, c.depth, c.sizes, c.first, c.g.Cap == 3 || c.g.Cap == 2),
				})
			}
			d := 5
			if tier == "thorough" {
				d = 7
			}
			const s2 = 100 - vdb.Header
			out = append(out,
				vh.Scenario{Name: "geometry-change", Body: history(vdb.Geo{80, 2, 2}, 2, d, []int{1, 2 * c, 3 * c}, 2, false, vdb.Geo{100, 3, 2})},
				vh.Scenario{Name: "fewer-files", Body: history(vdb.Geo{80, 1, 3}, 2, d+1, []int{1, c}, 2, false, vdb.Geo{80, 2, 1})},
				vh.Scenario{Name: "size-only", Body: history(vdb.Geo{100, 2, 1}, 2, d, []int{1, c + 1, s2 + 1}, 2, false, vdb.Geo{80, 2, 1})},
			)
			// more files than one digit, or two
			many := func(fills []int, g vdb.Geo, handles, ops int) func() {
				return func() {
					dir := vdb.NewDir()
					defer vdb.RmDir(dir)
					vs.FS.NoPoints = true
					d := vdb.Open(dir, files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
						Tuning: files.Tuning{Buffer: 1, Handles: handles, Workers: 1}})
					m := &vdb.Model{Geo: g}
					end := int64(2)
					for n := fills[vs.Choose(len(fills))]; n > 0; n-- {
						d.Apply(m, "a", end-1, end, 3)
						end += 2
					}
					for i := 0; i < ops; i++ {
						switch vs.Choose(3) {
						case 0:
							d.Apply(m, "a", end-1, end, 3)
							end += 2
						case 1:
							d.Restart()
						case 2:
							d.CheckQuery(m, "a", end-2)
						}
					}
					d.CheckAll(m, "a", end-30, end+1)
					d.CheckQuery(m, "a", end/2)
					vs.Outcome("%s", m)
					d.Stop()
				}
			}
			out = append(out,
				vh.Scenario{Name: "ten-files", Body: many([]int{7, 8, 9, 10}, vdb.Geo{80, 1, 0}, 3, 4)},
				vh.Scenario{Name: "twelve-files", Body: many([]int{9, 12, 20, 21}, vdb.Geo{80, 1, 12}, 20, 4)},
				vh.Scenario{Name: "hundred-files", Body: many([]int{98, 99}, vdb.Geo{80, 1, 0}, 3, 2)},
			)
			// files of many records
			if tier == "thorough" {
				var caps []int
				for n := 6; n <= 140; n++ {
					caps = append(caps, n)
				}
				out = append(out, wide("wide", append(caps, 255, 256, 257, 400), []int{0, 1, 2, 3}))
			} else {
				out = append(out, wide("wide", []int{7, 8, 16, 33, 64}, []int{0, 1}), wide("wider", []int{127, 256, 257}, []int{2}))
			}
			// ends of every magnitude and sign
			ends := []int64{-1<<63 + 1, -1 << 40, -129, -1, 0, 127, 128, 129, 16383, 16384, 1<<31 - 1, 1 << 31, 1 << 32, 1<<53 + 1, 1 << 62}
			mag := 4
			if tier == "thorough" {
				mag = 6
			}
			out = append(out, vh.Scenario{Name: fmt.Sprintf("magnitudes%d", mag), Body: func() {
				dir := vdb.NewDir()
				defer vdb.RmDir(dir)
				vs.FS.NoPoints = true
				g := vdb.Geo{80, 2, 2}
				d := vdb.Open(dir, files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
					Tuning: files.Tuning{Buffer: 1, Handles: 2, Workers: 1}})
				m := &vdb.Model{Geo: g}
				next := 0
				for i := 0; i < mag && next < len(ends); i++ {
					k := vs.Choose(len(ends) - next + 1)
					if k == 0 {
						break
					}
					next += k
					end := ends[next-1]
					d.Apply(m, "a", vdb.Start(i, end), end, 5)
				}
				if next > 0 {
					if vs.Choose(2) == 1 {
						d.Restart()
					}
					d.CheckAll(m, "a", ends[0], ends[next-1])
					// stale
					d.Apply(m, "a", 0, ends[next-1], 5)
				}
				for _, e := range ends {
					d.CheckQuery(m, "a", e)
				}
				vs.Outcome("%s", m)
				d.Stop()
			}})
			// values that were returned stay as they were, in whatever buffer,
			// when their file is not cached any more, unmapped or removed
			kd := 6
			if tier == "thorough" {
				kd = 8
			}
			for _, handles := range []int{0, 1, 2} {
				handles := handles
				out = append(out, vh.Scenario{Name: fmt.Sprintf("kept-handles%d-depth%d", handles, kd), Body: func() {
					dir := vdb.NewDir()
					defer vdb.RmDir(dir)
					vs.FS.NoPoints = true
					g := vdb.Geo{80, 2, 1}
					d := vdb.Open(dir, files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
						Tuning: files.Tuning{Buffer: 1, Handles: handles, Workers: 1}})
					ms := map[string]*vdb.Model{"a": {Geo: g}, "b": {Geo: g}}
					end := int64(2)
					for i := 0; i < kd; i++ {
						op := vs.Choose(6)
						if op == 0 {
							break
						}
						switch op {
						case 1, 2:
							d.Apply(ms["a"], "a", vdb.Start(i, end), end, []int{20, c + 1}[op-1])
							end += 2
						case 3:
							d.Apply(ms["b"], "b", end-1, end, c)
							end += 2
						case 4:
							d.Log("latest")
							d.CheckLatest(ms["a"], "a")
						case 5:
							d.Restart()
						}
					}
					d.CheckLatest(ms["a"], "a")
					d.CheckLatest(ms["b"], "b")
					d.CheckAll(ms["a"], "a", 1, end)
					vs.Outcome("%s %s", ms["a"], ms["b"])
					d.Stop()
				}})
			}
			out = append(out, vh.Scenario{Name: "max-end", Body: func() {
				dir := vdb.NewDir()
				defer vdb.RmDir(dir)
				g := vdb.Geo{80, 3, 1}
				d := vdb.Open(dir, files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
					Tuning: files.Tuning{Buffer: 1, Handles: 2, Workers: 1}})
				m := &vdb.Model{Geo: g}
				d.Apply(m, "a", 1, 1<<63-2, 5)
				d.CheckAll(m, "a", 0, 2)
				d.Apply(m, "a", 1<<63-2, 1<<63-1, 5)
				d.CheckQuery(m, "a", 1<<63-1)
				d.CheckLatest(m, "a")
				d.Stop()
			}})
			return out
		}})
}
