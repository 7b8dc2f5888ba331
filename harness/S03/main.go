//go:build go1.21

// S03: retention drops only the oldest data and disk use stays bounded.
package main

import (
	"fmt"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

// history checks the files on disk and the retained records after every
// operation.
func history(g vdb.Geo, handles, fill, depth int, sizes []int, other ...vdb.Geo) func() {
	return func() {
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		vs.FS.NoPoints = true
		d := vdb.Open(dir, files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
			Tuning: files.Tuning{Buffer: 1, Handles: handles, Workers: 1}})
		m := &vdb.Model{Geo: g}
		other1 := &vdb.Model{Geo: g}
		end := int64(2)
		// start from a state in which files have been dropped already
		for i := 0; i < fill; i++ {
			d.Apply(m, "a.b", end-1, end, sizes[0])
			end += 2
		}
		d.Apply(other1, "a", 0, 1, 1)
		for i := 0; i < depth; i++ {
			op := vs.Choose(len(sizes) + 4 + len(other))
			if op == 0 {
				break
			}
			switch op -= 1; {
			case op < len(sizes):
				if d.Apply(m, "a.b", vdb.Start(i+1, end), end, sizes[op]) {
					end += 2
				}
			case op == len(sizes):
				d.Restart()
			case op == len(sizes)+1:
				// stale: never drops anything
				d.Apply(m, "a.b", vdb.Start(i+1, end-2), end-2, sizes[0])
			case op == len(sizes)+2:
				// too large: never drops anything
				d.Apply(m, "a.b", vdb.Start(i+1, end), end, g.Cap*g.Chunk()+1)
			default:
				o := other[op-len(sizes)-3]
				if m.Geo == o {
					o = g
				}
				m.Geo, other1.Geo = o, o
				d.Reconfigure(o)
			}
			d.CheckDisks(m, "a/b", other1, "a")
			// the retained records are a contiguous newest part
			d.CheckQuery(m, "a.b", 1<<63-1)
			// and the values that were returned stay as they were
			d.CheckLatest(m, "a.b")
		}
		d.CheckQuery(other1, "a", 1<<63-1)
		vs.Outcome("%s", m)
		d.Stop()
	}
}

func main() {
	vh.Main(vh.Check{ID: "S03", Level: "model_checking",
		Rule: "every history of up to the stated number of operations (writes of each size, stale and oversized writes, restarts, changes of the limit) from an empty and from a rolled over metric; after every operation the data files on disk and all retained records are compared with the model, and no removed file may still be mapped",
		Assumptions: []string{
			"one writer per metric; record sizes in which the metadata fits (80 bytes and more)",
			"tmpfs; reads and writes of mappings are not reordered within one process",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			const c = 80 - vdb.Header
			add := func(w float64, g vdb.Geo, handles, fill, depth int, sizes []int, other ...vdb.Geo) {
				if tier == "thorough" {
					depth += 2
				}
				name := fmt.Sprintf("cap%d-files%d-handles%d-fill%d-depth%d", g.Cap, g.Files, handles, fill, depth)
				if len(other) > 0 {
					name += "-change"
				}
				out = append(out, vh.Scenario{Name: name, Weight: w,
					Body: history(g, handles, fill, depth, sizes, other...)})
			}
			add(2, vdb.Geo{80, 2, 1}, 10, 0, 7, []int{0, c + 1})
			add(1, vdb.Geo{80, 1, 1}, 0, 2, 6, []int{c, 1})
			add(1, vdb.Geo{80, 1, 2}, 1, 4, 6, []int{c})
			add(2, vdb.Geo{80, 3, 2}, 3, 6, 6, []int{c, c + 1, 3 * c})
			add(1, vdb.Geo{80, 2, 0}, 2, 3, 6, []int{c, 2 * c})
			add(1, vdb.Geo{80, 2, 3}, 10, 9, 6, []int{c, c + 1})
			add(1, vdb.Geo{80, 1, 12}, 10, 13, 4, []int{c})
			add(1, vdb.Geo{80, 1, 2}, 2, 5, 6, []int{c}, vdb.Geo{80, 1, 1}, vdb.Geo{80, 2, 3})
			return out
		}})
}
