//go:build go1.21

// S04: names are isolated, recoverable and confined to the directory.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

var geo = vdb.Geo{80, 2, 1}

func open(dir string) *vdb.D {
	return vdb.Open(dir, files.Options{Size: geo.Size, Cap: geo.Cap, Files: geo.Files,
		Tuning: files.Tuning{Buffer: 1, Handles: 2, Workers: 1}})
}

// outside lists what is next to the database directory.
func outside(dir string) string {
	ents, _ := os.ReadDir(filepath.Dir(dir))
	var out []string
	for _, e := range ents {
		out = append(out, e.Name())
	}
	return fmt.Sprint(out)
}

// each name on its own: write, query, restart, list, query, write.
func single(tokens []string, depth int) func() {
	return func() {
		name := ""
		for i := 0; i < depth; i++ {
			op := vs.Choose(len(tokens) + 1)
			if op == 0 {
				break
			}
			name += tokens[op-1]
		}
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		vs.FS.NoPoints = true
		d := open(dir)
		m := &vdb.Model{Geo: geo}
		// reading does not create anything
		d.CheckQuery(m, name, 100)
		d.Apply(m, name, 1, 2, 5)
		d.CheckQuery(m, name, 100)
		d.Restart()
		vs.Quiesce()
		names, err := d.Names()
		if err != nil || len(names) != 1 || names[0] != name {
			d.Fail("names", "listing after a restart is %q, %v, want %q", names, err, name)
		}
		d.CheckAll(m, name, 0, 4)
		d.Apply(m, name, 3, 4, 80)
		d.CheckAll(m, name, 0, 6)
		names, err = d.Names()
		if err != nil || len(names) != 1 || names[0] != name {
			d.Fail("names", "listing after another write is %q, %v, want %q", names, err, name)
		}
		if o := outside(dir); o != "[db]" {
			d.Fail("escape", "files next to the database directory: %s", o)
		}
		d.Stop()
		vs.Outcome("%d", strings.Count(name, "."))
	}
}

func all(tokens []string, depth int) (out []string) {
	seen := map[string]bool{}
	var rec func(p string, d int)
	rec = func(p string, d int) {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
		if d > 0 {
			for _, t := range tokens {
				rec(p+t, d-1)
			}
		}
	}
	rec("", depth)
	return out
}

// all of the names together: no two of them share anything.
func together(tokens []string, depth int, reverse bool) func() {
	return func() {
		names := all(tokens, depth)
		sort.Strings(names)
		if reverse {
			sort.Sort(sort.Reverse(sort.StringSlice(names)))
		}
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		vs.FS.NoPoints = true
		d := open(dir)
		ms := map[string]*vdb.Model{}
		for i, n := range names {
			m := &vdb.Model{Geo: geo}
			ms[n] = m
			d.Hist = nil
			d.Apply(m, n, int64(i), int64(i)+1, i%50)
		}
		check := func(when string) {
			for _, n := range names {
				d.Hist = []string{when}
				d.CheckQuery(ms[n], n, 1<<63-1)
			}
			got, err := d.Names()
			if err != nil {
				d.Fail("names", "listing %s: %v", when, err)
			}
			want := append([]string(nil), names...)
			sort.Strings(want)
			if len(got) != len(want) {
				d.Fail("names", "listing %s has %d names, want %d", when, len(got), len(want))
			}
			for i := range got {
				if got[i] != want[i] {
					d.Fail("names", "listing %s: name %d is %q, want %q", when, i, got[i], want[i])
				}
			}
		}
		check("before the restart")
		d.Restart()
		vs.Quiesce()
		check("after the restart")
		// write again in the other order
		for i := range names {
			n := names[len(names)-1-i]
			d.Hist = nil
			d.Apply(ms[n], n, 0, int64(len(names)+i+1), i%70)
		}
		check("after more writes")
		vs.Outcome("%d names", len(names))
		d.Stop()
	}
}

// long is every length of a component that a file system can have, at every
// place of a name.
func long() {
	ch := []string{"x", "/", "."}[vs.Choose(3)]
	size := 1 + vs.Choose(255)
	name := strings.Repeat(ch, size)
	switch ch {
	case ".":
		if size > 82 {
			return
		}
	case "/":
		if size > 84 {
			return
		}
	}
	name = []string{"", "a.", "aa.b."}[vs.Choose(3)] + name + []string{"", ".c"}[vs.Choose(2)]
	one(name, fmt.Sprintf("%d", len(name)))
}

// deep is names of many components.
func deep() {
	comp := strings.Repeat("y", []int{1, 2, 120, 255}[vs.Choose(4)])
	n := 1 + vs.Choose(60)
	name := strings.Repeat(comp+".", n) + []string{"a", ".", comp}[vs.Choose(3)]
	if len(name) > 3800 {
		return
	}
	one(name, fmt.Sprintf("%d components", n))
}

// siblings is many names next to each other, of all lengths.
func siblings(dirents int) func() {
	return func() {
		vs.FS.DirentBuf = dirents
		defer func() { vs.FS.DirentBuf = 0 }()
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		vs.FS.NoPoints = true
		d := open(dir)
		m := &vdb.Model{Geo: geo}
		want := map[string]bool{}
		for i := 1; i <= 255; i++ {
			for _, n := range []string{strings.Repeat("z", i), fmt.Sprintf("a.%d%s", i%10, strings.Repeat("w", i-1)), fmt.Sprintf("b.%d", i)} {
				d.Hist = nil
				d.Apply(m.Clone(), n, 1, 2, 3)
				want[n] = true
			}
		}
		d.Restart()
		vs.Quiesce()
		got, err := d.Names()
		if err != nil {
			d.Fail("names", "listing after a restart: %v", err)
		}
		for i, n := range got {
			if !want[n] || i > 0 && got[i-1] >= n {
				d.Fail("names", "listing after a restart has %q after %q", n, got[:i])
			}
		}
		if len(got) != len(want) {
			d.Fail("names", "listing after a restart has %d names, want %d", len(got), len(want))
		}
		vs.Outcome("%d names", len(want))
		d.Stop()
	}
}

// one is what single does with a name.
func one(name, outcome string) {
	dir := vdb.NewDir()
	defer vdb.RmDir(dir)
	vs.FS.NoPoints = true
	d := open(dir)
	m := &vdb.Model{Geo: geo}
	d.CheckQuery(m, name, 100)
	d.Apply(m, name, 1, 2, 5)
	d.CheckQuery(m, name, 100)
	d.Restart()
	vs.Quiesce()
	names, err := d.Names()
	if err != nil || len(names) != 1 || names[0] != name {
		d.Fail("names", "listing after a restart is %q, %v, want %q", names, err, name)
	}
	d.Apply(m, name, 3, 4, 80)
	d.CheckQuery(m, name, 100)
	if o := outside(dir); o != "[db]" {
		d.Fail("escape", "files next to the database directory: %s", o)
	}
	d.Stop()
	vs.Outcome("%s", outcome)
}

// names that a file system can not have are refused.
func impossible() {
	dir := vdb.NewDir()
	defer vdb.RmDir(dir)
	vs.FS.NoPoints = true
	d := open(dir)
	long := strings.Repeat("x", 300)
	for _, n := range []string{"a\x00b", "\x00", long, "a." + long, long + ".b", strings.Repeat("%", 100)} {
		for i := int64(1); i <= 2; i++ {
			ok, _ := d.Write(n, i, i+1, []byte("x"))
			got, err := d.Query(n, 100)
			if ok != (err == nil && len(got) == 1) && !(ok && len(got) == int(i)) {
				d.Fail("names", "write of %q acknowledged as %v, but the query has %d records, %v", n, ok, len(got), err)
			}
			if !ok && len(got) > 0 {
				d.Fail("names", "refused write of %q is stored", n)
			}
		}
	}
	m := &vdb.Model{Geo: geo}
	d.Apply(m, "a", 1, 2, 3)
	d.CheckQuery(m, "a", 100)
	d.Restart()
	vs.Quiesce()
	names, err := d.Names()
	if err != nil || fmt.Sprint(names) != "[a]" {
		d.Fail("names", "listing is %q, %v, want a", names, err)
	}
	d.Stop()
}

func main() {
	vh.Main(vh.Check{ID: "S04", Level: "model_checking",
		Rule:        "every name of up to the stated number of tokens on its own (query, write, restart, list, query, write, list), and all names of a smaller length together in one database",
		Assumptions: []string{"every file operation is checked against the directory of the database, refused and reported when outside"},
		Scenarios: func(tier string) []vh.Scenario {
			ab := []string{"a", ".", "/", "%", "2", "e", "f", "5", "-"}
			words := []string{"..", "../", ".data", "1", "%2e", "data", "\xff", " ", "\n"}
			t := 0
			if tier == "thorough" {
				t = 1
			}
			return []vh.Scenario{
				{Name: "together", Body: together(ab, 3+t, false)},
				{Name: "together-reverse", Body: together([]string{"a", ".", "%2e", "/", "%"}, 4+t, true)},
				{Name: "together-words", Body: together(words, 3, false)},
				{Name: "impossible", Body: impossible},
				{Name: "siblings", Body: siblings(0)},
				{Name: "siblings-small-buffer", Body: siblings(280)},
				{Name: "long", Weight: 1, Body: long},
				{Name: "deep", Weight: 1, Body: deep},
				{Name: "words", Weight: 2, Body: single(words, 4+t)},
				{Name: "dots", Weight: 3, Body: single([]string{".", "a", "/"}, 8+t)},
				{Name: "letters", Weight: 4, Body: single(ab, 5+t)},
			}
		}})
}
