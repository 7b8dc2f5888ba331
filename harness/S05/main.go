//go:build go1.21

// S05: corrupted data is contained.
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

type hist struct {
	name  string
	g     vdb.Geo
	sizes []int
}

const c = 80 - vdb.Header

var stmts int

func opts(g vdb.Geo) files.Options {
	return files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
		Tuning: files.Tuning{Buffer: 1, Handles: 3, Workers: 1}}
}

// image is the content of a directory.
type image map[string][]byte

func load(dir string) image {
	im := image{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(dir, p)
			im[rel], _ = os.ReadFile(p)
		}
		return nil
	})
	return im
}

func (im image) store(dir string) {
	for rel, b := range im {
		p := filepath.Join(dir, rel)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, b, 0644); err != nil {
			panic(err)
		}
	}
}

// base runs the history once and returns the files.
func base(h hist) (im image, ma, mb *vdb.Model) {
	dir := vdb.NewDir()
	defer vdb.RmDir(dir)
	d := vdb.Open(dir, opts(h.g))
	ma, mb = &vdb.Model{Geo: h.g}, &vdb.Model{Geo: h.g}
	for i, n := range h.sizes {
		d.Apply(ma, "a", int64(2*i+1), int64(2*i+2), n)
	}
	d.Apply(mb, "b", 1, 2, 3)
	d.Stop()
	return load(dir), ma, mb
}

// damage is a change to one file. slot is the damaged slot, 0 for the
// metadata, -1 if the file as a whole is damaged.
type damage struct {
	what string
	file string
	slot int
	size bool // the damage is where the size of records is
	fn   func(im image)
	// valid data in a wrong place can not be told from the right one
	misplaced bool
	// the metadata in the place of a record is one
	meta bool
}

func damages(h hist, im image, thorough bool) (out []damage) {
	var names []string
	for n := range im {
		if strings.HasPrefix(n, "a/") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	size := h.g.Size
	for _, n := range names {
		n := n
		b := im[n]
		for off := range b {
			off := off
			vals := []byte{b[off] ^ 0xff, b[off] ^ 1, b[off] ^ 0x80, 0, 1, 0xff}
			if thorough {
				vals = nil
				for v := 0; v < 256; v++ {
					vals = append(vals, byte(v))
				}
			}
			for _, v := range vals {
				if v == b[off] {
					continue
				}
				v := v
				out = append(out, damage{what: fmt.Sprintf("byte %d of %s: %#x to %#x", off, n, b[off], v), file: n, slot: off / size,
					size: off/size == 0 && off >= 18 && off < 28,
					fn:   func(im image) { im[n][off] = v }})
			}
			if off%size == 0 && thorough {
				// two bytes of a header
				for o2 := off + 1; o2 < off+vdb.Header && o2 < len(b); o2++ {
					for o1 := off; o1 < o2; o1++ {
						for _, x := range []byte{1, 0x80} {
							o1, o2, x := o1, o2, x
							out = append(out, damage{what: fmt.Sprintf("bytes %d, %d of %s ^ %#x", o1, o2, n, x), file: n, slot: off / size,
								size: off == 0, fn: func(im image) { im[n][o1] ^= x; im[n][o2] ^= x }})
						}
					}
				}
			}
		}
		for l := 0; l < len(b); l++ {
			l := l
			out = append(out, damage{what: fmt.Sprintf("%s truncated to %d bytes", n, l), file: n, slot: -1,
				fn: func(im image) { im[n] = im[n][:l] }})
		}
		for _, l := range []int{1, size - 1, size, size + 1, 5 * size} {
			l := l
			out = append(out, damage{what: fmt.Sprintf("%s extended by %d bytes", n, l), file: n, slot: -1,
				fn: func(im image) { im[n] = append(im[n], make([]byte, l)...) }})
		}
		for s := 0; s <= h.g.Cap; s++ {
			s := s
			for _, fill := range []byte{0, 1, 0xff, 'x'} {
				fill := fill
				out = append(out, damage{what: fmt.Sprintf("slot %d of %s filled with %#x", s, n, fill), file: n, slot: s, size: s == 0,
					fn: func(im image) {
						for i := 0; i < size; i++ {
							im[n][s*size+i] = fill
						}
					}})
			}
			for half := 0; half < 2; half++ {
				half := half
				out = append(out, damage{what: fmt.Sprintf("half %d of slot %d of %s zeroed", half, s, n), file: n, slot: s, size: s == 0,
					fn: func(im image) {
						for i := half * size / 2; i < (half+1)*size/2; i++ {
							im[n][s*size+i] = 0
						}
					}})
			}
			// parts of a slot: from each field boundary (and the middle of the
			// data) to each other one
			cuts := []int{0, 1, 2, 10, 18, 20, vdb.Header, vdb.Header + 3, vdb.Header + 8, size / 2, size - 8, size}
			for _, i := range cuts {
				for _, j := range cuts {
					if i >= j || i == 0 && j == size {
						continue
					}
					i, j := i, j
					for _, fill := range []byte{0, 0xff} {
						fill := fill
						out = append(out, damage{what: fmt.Sprintf("bytes %d to %d of slot %d of %s filled with %#x", i, j, s, n, fill), file: n, slot: s, size: s == 0,
							fn: func(im image) {
								for k := i; k < j; k++ {
									im[n][s*size+k] = fill
								}
							}})
					}
				}
			}
			for t := 0; t <= h.g.Cap; t++ {
				if t == s {
					continue
				}
				t := t
				out = append(out, damage{what: fmt.Sprintf("slot %d of %s copied to slot %d", s, n, t), file: n, slot: -1, misplaced: true, meta: s == 0,
					fn: func(im image) { copy(im[n][t*size:(t+1)*size], im[n][s*size:(s+1)*size]) }})
			}
		}
		for _, fill := range []byte{0, 1, 0xff, 8} {
			fill := fill
			out = append(out, damage{what: fmt.Sprintf("%s filled with %#x", n, fill), file: n, slot: -1,
				fn: func(im image) {
					for i := range im[n] {
						im[n][i] = fill
					}
				}})
		}
		for _, o := range names {
			if o != n {
				o := o
				out = append(out, damage{what: fmt.Sprintf("%s replaced by %s", n, o), file: n, slot: -1, misplaced: true,
					fn: func(im image) { im[n] = append([]byte(nil), im[o]...) }})
			}
		}
	}
	for _, stray := range []string{"a/x.data", "a/1.data.bak", "a/1", "a/.data", "x.txt"} {
		stray := stray
		out = append(out, damage{what: "additional file " + stray, slot: 1 << 20,
			fn: func(im image) { im[stray] = []byte("garbage") }})
	}
	return out
}

func scenario(h hist) vh.Scenario {
	var im image
	var ma0, mb0 *vdb.Model
	prepare := func() {
		vs.FS.NoPoints = true
		im, ma0, mb0 = base(h)
	}
	body := func() {
		stmts = 0
		vs.FS.NoPoints = true
		ma, mb := ma0.Clone(), mb0.Clone()
		all := damages(h, im, vh.Thorough())
		// two choices keep the number of alternatives small
		k := vs.Choose((len(all)+99)/100)*100 + vs.Choose(100)
		if k >= len(all) {
			return
		}
		dm := all[k]
		cp := image{}
		for n, b := range im {
			cp[n] = append([]byte(nil), b...)
		}
		dm.fn(cp)

		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		cp.store(dir)
		d := vdb.Open(dir, opts(h.g))
		vs.Quiesce()
		d.Log("damage: %s", dm.what)
		orig := ma.Retained()
		written := func(r vdb.Rec) bool {
			for _, o := range orig {
				if vdb.Same([]vdb.Rec{r}, []vdb.Rec{o}) == "" || dm.misplaced && r.Start == o.Start && r.End == o.End {
					return true
				}
			}
			return false
		}
		before, err := d.Query("a", 1<<63-1)
		for i, r := range before {
			if !written(r) && !(dm.meta && r.Start == 0 && r.End == 0) {
				d.Fail("bogus", "query reports %v, which was not written; written %v", r, orig)
			}
			if i > 0 && before[i-1].End <= r.End && !dm.misplaced {
				d.Fail("bogus", "query reports %v out of order", before)
			}
		}
		missing := len(orig) - len(before)
		switch {
		case dm.slot < 0:
			// any part of what was written, or an error
		case dm.slot == 0 && dm.size:
		case dm.slot == 0:
			if err == nil && missing != 0 {
				d.Fail("lost", "query has %v without an error, written %v", before, orig)
			}
		case dm.slot > h.g.Cap:
			if err != nil || missing != 0 {
				d.Fail("lost", "query has %v, %v, written %v", before, err, orig)
			}
		default:
			if err != nil || missing > 1 {
				d.Fail("lost", "query has %v, %v, written %v", before, err, orig)
			}
		}
		// latest agrees with the query
		s, e, b, lerr := d.DB.QueryLatest(context.Background(), "a", nil)
		if (lerr != nil) && err == nil {
			d.Fail("latest", "latest failed: %v", lerr)
		}
		if lerr == nil && len(before) > 0 {
			if w := vdb.Same([]vdb.Rec{{Start: s, End: e, Data: b}}, before[:1]); w != "" {
				d.Fail("latest", "latest: %s", w)
			}
		}
		if lerr == nil && len(before) == 0 && err == nil && (s != 0 || e != 0 || b != nil) {
			d.Fail("latest", "latest is [%d,%d], query has nothing", s, e)
		}
		// the other metric
		d.CheckQuery(mb, "b", 1<<63-1)
		d.Apply(mb, "b", 50, 51, c+1)
		d.CheckQuery(mb, "b", 1<<63-1)
		// writing goes on
		data := vdb.Data(101, c+1)
		ok, werr := d.Write("a", 100, 101, data)
		after, err2 := d.Query("a", 1<<63-1)
		newRec := vdb.Rec{Start: 100, End: 101, Data: data}
		if dm.slot > 0 {
			if !ok || werr != nil {
				d.Fail("blocked", "newer write after the damage: %v, %v", ok, werr)
			}
			if w := vdb.Same(after, append([]vdb.Rec{newRec}, before...)); w != "" || err2 != nil {
				d.Fail("lost", "query after a newer write: %s, %v", w, err2)
			}
		} else if ok && err2 == nil {
			if len(after) == 0 || vdb.Same(after[:1], []vdb.Rec{newRec}) != "" {
				d.Fail("lost", "an acknowledged write is not returned: %v", after)
			}
		}
		for _, r := range after {
			if !written(r) && vdb.Same([]vdb.Rec{r}, []vdb.Rec{newRec}) != "" && !(dm.meta && r.Start == 0 && r.End == 0) {
				d.Fail("bogus", "query reports %v, which was not written", r)
			}
		}
		// listing still works
		names, nerr := d.Names()
		if nerr != nil || fmt.Sprint(names) != "[a b]" {
			d.Fail("names", "listing is %v, %v", names, nerr)
		}
		vs.Outcome("%s: %v error %v write %v", dm.what, before, err != nil, ok)
		d.Stop()
	}
	return vh.Scenario{Name: h.name, Prepare: prepare, Body: body}
}

func main() {
	vs.SetStmtHook(func() {
		stmts++
		if stmts > 3000000 && vs.Active() {
			stmts = 0
			vs.Fail("hang", "no end after 3000000 statements")
		}
	})
	vh.Main(vh.Check{ID: "S05", Level: "fault_enumeration",
		Rule: "for each of the base histories: every byte of every data file of a metric replaced (6 values, all 255 in the thorough tier), every truncation, extensions, every slot filled, half zeroed, each part between two field boundaries of it filled, or copied over another one, files replaced by each other; then query, latest, newer write, query and another metric on the damaged directory. Cases that differ in the damage or the result count as distinct.",
		Assumptions: []string{
			"a record that is valid but in a wrong place cannot be told from the right one; only crashes and made up contents are reported there",
			"files are not changed while they are open",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			for _, h := range []hist{
				{"one-record", vdb.Geo{80, 2, 0}, []int{5}},
				{"full-file", vdb.Geo{80, 3, 0}, []int{5, c, 0}},
				{"two-files", vdb.Geo{80, 3, 0}, []int{5, c + 1, 3, 8}},
				{"three-files-split", vdb.Geo{80, 3, 0}, []int{2*c + 1, 1, c + 1, 3 * c}},
				{"half-full", vdb.Geo{80, 5, 0}, []int{c + 1, 2*c + 2}},
				{"wide", vdb.Geo{128, 3, 0}, []int{104, 105, 1}},
			} {
				out = append(out, scenario(h))
			}
			return out
		}})
}
