//go:build go1.21

// S07: I/O failures are reported and do no lasting damage.
package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"
	"syscall"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

const c = 80 - vdb.Header
const inf = 1<<63 - 1

var armed bool

func faults(op, path string) []error {
	if !armed {
		return nil
	}
	switch op {
	case "create", "mkdir":
		return []error{syscall.ENOSPC, syscall.EMFILE}
	case "open":
		return []error{syscall.EMFILE, syscall.EIO}
	case "fallocate", "truncate", "write":
		return []error{syscall.ENOSPC}
	case "mmap":
		return []error{syscall.ENOMEM}
	case "munmap":
		return []error{syscall.EINVAL}
	default:
		return []error{syscall.EIO}
	}
}

// metric is what is known about a metric: what was acknowledged, and how much
// of it may be gone because of a write that failed after making room.
type metric struct {
	all  []vdb.Rec // acknowledged, newest first
	m    *vdb.Model
	slop bool // a write failed, the number of records is not exactly known
}

type sys struct {
	d   *vdb.D
	g   vdb.Geo
	ms  map[string]*metric
	end int64
	hit bool

	unmap bool // a mapping could not be released
}

func (s *sys) get(name string) *metric {
	if s.ms[name] == nil {
		s.ms[name] = &metric{m: &vdb.Model{Geo: s.g}}
	}
	return s.ms[name]
}

// faulted runs the function with faults possible and reports if one happened.
func (s *sys) faulted(fn func()) string {
	n := vs.Stats().Faults
	armed = true
	fn()
	armed = false
	if k := vs.Stats().Faults - n; k > 0 {
		s.hit = true
		if strings.Contains(vs.LastFault(), "munmap") || k > 1 {
			s.unmap = true
		}
		s.d.Log("(fault: %s)", vs.LastFault())
		return vs.LastFault()
	}
	return ""
}

func (s *sys) write(name string, n int) {
	m := s.get(name)
	s.end++
	data := vdb.Data(s.end, n)
	var ok bool
	var err error
	flt := s.faulted(func() { ok, err = s.d.Write(name, s.end-1, s.end, data) })
	if flt == "" && !(ok && err == nil) {
		s.d.Fail("blocked", "write without a fault: %v, %v", ok, err)
	}
	if flt != "" {
		m.slop = true
	}
	if !ok {
		// whatever the file has of it must not be seen
		if n := len(m.m.Files); n > 0 && s.g.Files > 0 && n > s.g.Files && m.m.Rolls(len(data)) {
			m.m.Files, m.m.Geos = m.m.Files[1:], m.m.Geos[1:]
		}
	} else {
		m.m.Write(s.end-1, s.end, data)
		m.all = append([]vdb.Rec{{Start: s.end - 1, End: s.end, Data: data}}, m.all...)
	}
}

// check compares what a query returned.
func (s *sys) check(name string, got []vdb.Rec, what string) {
	m := s.get(name)
	want := m.m.Retained()
	if !m.slop {
		if w := vdb.Same(got, want); w != "" {
			s.d.Fail("query", "%s of %q: %s", what, name, w)
		}
		return
	}
	// after a fault files may roll over sooner, or stay longer because they
	// could not be removed.
	if len(got) > len(m.all) {
		s.d.Fail("bogus", "%s of %q has %v, acknowledged is %v", what, name, got, m.all)
	}
	if w := vdb.Same(got, m.all[:len(got)]); w != "" {
		s.d.Fail("bogus", "%s of %q: %s, acknowledged is %v", what, name, w, m.all)
	}
	low := len(want)
	if s.g.Files > 0 && len(m.m.Files) > s.g.Files && len(m.m.Files) > 0 {
		low -= len(m.m.Files[0])
	}
	if len(got) < low {
		s.d.Fail("lost", "%s of %q has %v, want at least %d of %v", what, name, got, low, m.all)
	}
}

// stale writes what is not newer: it is refused and changes nothing.
func (s *sys) stale(name string) {
	m := s.get(name)
	if len(m.all) == 0 {
		return
	}
	r := m.all[0]
	if ok, err := s.d.Write(name, r.End+7, r.End, vdb.Data(r.End+1, 5)); ok {
		s.d.Fail("accept", "a value of %q that is not newer than %v is acknowledged as written (error %v)", name, r, err)
	}
	s.query(name)
}

func (s *sys) query(name string) {
	m := s.get(name)
	var got []vdb.Rec
	var err error
	flt := s.faulted(func() { got, err = s.d.Query(name, inf) })
	s.d.Log("query(%q)=%v,%v", name, got, err != nil)
	if err != nil && flt == "" && !(len(m.all) == 0 && vdb.IsMissing(err)) {
		s.d.Fail("query", "query of %q without a fault: %v", name, err)
	}
	if err == nil {
		s.check(name, got, "query")
	} else {
		if len(got) > len(m.all) || vdb.Same(got, m.all[:len(got)]) != "" {
			s.d.Fail("bogus", "query of %q with an error has %v, acknowledged %v", name, got, m.all)
		}
	}
}

func (s *sys) latest(name string) {
	m := s.get(name)
	var r vdb.Rec
	var err error
	flt := s.faulted(func() { r.Start, r.End, r.Data, err = s.d.DB.QueryLatest(context.Background(), name, nil) })
	if err != nil {
		if flt == "" && !(len(m.all) == 0 && vdb.IsMissing(err)) {
			s.d.Fail("latest", "latest of %q without a fault: %v", name, err)
		}
		return
	}
	var want vdb.Rec
	if len(m.all) > 0 {
		want = m.all[0]
	}
	if w := vdb.Same([]vdb.Rec{r}, []vdb.Rec{want}); w != "" {
		s.d.Fail("latest", "latest of %q: %s", name, w)
	}
}

func (s *sys) names() {
	var got []string
	var err error
	flt := s.faulted(func() {
		err = s.d.DB.PopulateMetrics(context.Background())
		if err == nil {
			got, err = s.d.Names()
		}
	})
	if err != nil {
		if flt == "" {
			s.d.Fail("names", "listing without a fault: %v", err)
		}
		// a failed refresh must not take names away
		got, err = s.d.Names()
		if err != nil {
			s.d.Fail("names", "listing after a failed refresh: %v", err)
		}
	}
	have := map[string]bool{}
	for _, n := range got {
		have[n] = true
		if s.ms[n] == nil {
			s.d.Fail("names", "listing has %q", n)
		}
	}
	for n, m := range s.ms {
		if len(m.all) > 0 && !have[n] {
			s.d.Fail("names", "listing is %q, without %q", got, n)
		}
	}
}

func (s *sys) leaks(flt string) {
	st := vs.Stats()
	if st.FDs != 0 || st.Maps != 0 && !s.unmap {
		s.d.Fail("leak", "%d descriptors and %d mappings are left after the database stopped", st.FDs, st.Maps)
	}
}

func (s *sys) restart(load bool) {
	s.d.Log("restart")
	flt := s.faulted(func() {
		if err := s.d.Stop(); err != nil && vs.Stats().Faults == 0 {
			s.d.Fail("run", "Run returned %v", err)
		}
	})
	s.leaks(flt)
	s.d.DB = files.New(s.d.Dir, s.d.Opts)
	s.faulted(func() {
		s.d.Start()
		vs.Quiesce()
	})
	if s.d.Stopped() {
		s.d.Fail("run", "Run returned because of a fault")
	}
	// the names may not have been loaded, that can be done again
	if err := s.d.DB.PopulateMetrics(context.Background()); err != nil {
		s.d.Fail("names", "loading the names after the fault: %v", err)
	}
}

type op struct {
	name string
	fn   func(*sys)
}

func scenario(name string, g vdb.Geo, handles, depth, env int, ops []op) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("%s-depth%d-faults%d", name, depth, env), Bound: vs.Bound{Env: env}, Weight: math.Pow(float64(len(ops)), float64(depth)) * float64(env*env*env), Body: func() {
		vs.FS.NoPoints = true
		vs.FS.Fault = faults
		armed = false
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		s := &sys{g: g, ms: map[string]*metric{}}
		s.d = vdb.Open(dir, files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
			Tuning: files.Tuning{Buffer: 1, Handles: handles, Workers: 1}})
		vs.Quiesce()
		k := 1
		for i := 0; i < depth; i++ {
			k *= len(ops)
		}
		h := vs.Choose(k)
		for i := 0; i < depth; i++ {
			ops[h%len(ops)].fn(s)
			h /= len(ops)
		}
		if s.hit {
			vs.Outcome("%s", strings.Replace(strings.Join(s.d.Hist, " "), dir, "", -1))
		}
		// the fault is gone
		var ns []string
		for n := range s.ms {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		final := func() {
			for _, n := range ns {
				s.query(n)
				s.latest(n)
			}
			s.names()
		}
		armed = false
		vs.FS.Fault = nil
		final()
		for _, n := range ns {
			s.stale(n)
		}
		for i := 0; i < g.Cap+2; i++ {
			for _, n := range ns {
				s.write(n, []int{5, min(c+1, g.Cap*g.Chunk())}[i%2])
				s.query(n)
			}
		}
		// by now every file that could not be removed has been
		if g.Files > 0 {
			per := map[string]int{}
			for f := range s.d.DataFiles() {
				if !strings.HasSuffix(f, ".data") {
					s.d.Fail("disk", "file %s is left", f)
				}
				per[f[:strings.LastIndexByte(f, '/')]]++
			}
			for n, k := range per {
				if k > g.Files+1 {
					s.d.Fail("disk", "%d files of %s", k, n)
				}
			}
		}
		s.d.Restart()
		vs.Quiesce()
		final()
		s.d.Stop()
		s.leaks("")
	}}
}

func w(name string, n int) op {
	return op{fmt.Sprintf("write %s %d", name, n), func(s *sys) { s.write(name, n) }}
}

func main() {
	vh.Main(vh.Check{ID: "S07", Level: "fault_enumeration",
		Rule: "every history of writes, queries, listings and restarts up to the depth, in which every file operation fails with every error of its kind, alone and in pairs; afterwards without faults: queries, latest, listing, a value that is not newer, writes until files roll over, restart. Histories in which a fault happened and which differ in it, in an operation or in a result count as distinct.",
		Assumptions: []string{
			"faults: create, mkdir: ENOSPC, EMFILE; open: EMFILE, EIO; fallocate, truncate: ENOSPC; mmap: ENOMEM; munmap: EINVAL; others: EIO",
			"a failing operation has no effect, except for close",
			"a write that fails may have dropped the oldest file to make room",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			q := op{"query", func(s *sys) { s.query("a") }}
			l := op{"latest", func(s *sys) { s.latest("a") }}
			n := op{"names", func(s *sys) { s.names() }}
			r := op{"restart", func(s *sys) { s.restart(true) }}
			a := []op{w("a", 5), w("a", c+1), w("a", 3*c), q, r}
			b := []op{w("a", 3*c), q, r}
			x := []op{w("a", 5), w("b", 5), l, n}
			d := 0
			if tier == "thorough" {
				d = 1
			}
			out = append(out, scenario("mixed", vdb.Geo{80, 3, 1}, 2, 5+d, 1, a))
			out = append(out, scenario("names", vdb.Geo{80, 2, 2}, 1, 5+d, 1, x))
			out = append(out, scenario("rolling", vdb.Geo{80, 3, 2}, 2, 5+d, 1, b))
			out = append(out, scenario("no-cache", vdb.Geo{80, 3, 1}, -1, 5+d, 1, b))
			out = append(out, scenario("unlimited", vdb.Geo{80, 3, 0}, 2, 4+d, 1, b))
			out = append(out, scenario("pairs", vdb.Geo{80, 3, 1}, 2, 3+d, 2, a))
			out = append(out, scenario("pairs-rolling", vdb.Geo{80, 1, 1}, 2, 3+d, 2, []op{w("a", 5)}))
			return out
		}})
}
