//go:build go1.21

// Package vdb drives the real database of package files and has its reference
// model: a list of files with a list of records.
package vdb

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

// Header is the size of the header of a record on disk.
const Header = 24

// Rec is one stored value.
type Rec struct {
	Start, End int64
	Data       []byte
	NR         int
}

func (r Rec) String() string { return fmt.Sprintf("[%d,%d %dB/%d]", r.Start, r.End, len(r.Data), r.NR) }

// Geo is a geometry of the database.
type Geo struct{ Size, Cap, Files int }

// Chunk is how much of a value fits into a record.
func (g Geo) Chunk() int { return g.Size - Header }

// NR is the number of records of a value.
func (g Geo) NR(n int) int {
	if n == 0 {
		return 1
	}
	return (n + g.Chunk() - 1) / g.Chunk()
}

// Model is the reference for one metric.
type Model struct {
	Geo
	Files [][]Rec // oldest first
	Geos  []Geo   // geometry that each file was created with
	Num   int     // number of the last file
}

// Clone copies the model.
func (m *Model) Clone() *Model {
	o := *m
	o.Files = make([][]Rec, len(m.Files))
	for i := range m.Files {
		o.Files[i] = append([]Rec(nil), m.Files[i]...)
	}
	o.Geos = append([]Geo(nil), m.Geos...)
	return &o
}

func (m *Model) used(i int) (n int) {
	for _, r := range m.Files[i] {
		n += r.NR
	}
	return n
}

// Newest returns the newest record.
func (m *Model) Newest() (Rec, bool) {
	for i := len(m.Files) - 1; i >= 0; i-- {
		if n := len(m.Files[i]); n > 0 {
			return m.Files[i][n-1], true
		}
	}
	return Rec{}, false
}

// Accepts reports if the write would be accepted.
func (m *Model) Accepts(end int64, n int) bool {
	r, ok := m.Newest()
	if ok && end <= r.End {
		return false
	}
	if m.Size-Header > 65535 {
		// records have a 16 bit size
		return false
	}
	return m.NR(n) <= m.Cap || len(m.Files) > 0 && !m.Rolls(n)
}

// Rolls reports if an accepted write of n bytes starts a new file.
func (m *Model) Rolls(n int) bool {
	l := len(m.Files) - 1
	return l >= 0 && m.used(l)+m.Geos[l].NR(n) > m.Geos[l].Cap
}

// Write applies a write and returns if it is accepted.
func (m *Model) Write(start, end int64, data []byte) bool {
	if !m.Accepts(end, len(data)) {
		return false
	}
	if len(m.Files) == 0 {
		m.Files = append(m.Files, nil)
		m.Geos = append(m.Geos, m.Geo)
		m.Num = 1
	}
	if m.Rolls(len(data)) {
		for m.Geo.Files > 0 && len(m.Files)-1 >= m.Geo.Files {
			m.Files = m.Files[1:]
			m.Geos = m.Geos[1:]
		}
		m.Files = append(m.Files, nil)
		m.Geos = append(m.Geos, m.Geo)
		m.Num++
	}
	l := len(m.Files) - 1
	m.Files[l] = append(m.Files[l], Rec{start, end, append([]byte(nil), data...), m.Geos[l].NR(len(data))})
	return true
}

// Retained returns the retained records, newest first.
func (m *Model) Retained() (out []Rec) {
	for i := len(m.Files) - 1; i >= 0; i-- {
		for j := len(m.Files[i]) - 1; j >= 0; j-- {
			out = append(out, m.Files[i][j])
		}
	}
	return out
}

// Older returns the retained records strictly before end, newest first.
func (m *Model) Older(end int64) (out []Rec) {
	for _, r := range m.Retained() {
		if r.End < end {
			out = append(out, r)
		}
	}
	return out
}

func (m *Model) String() string {
	var b strings.Builder
	for _, f := range m.Files {
		b.WriteString("{")
		for _, r := range f {
			b.WriteString(r.String())
		}
		b.WriteString("}")
	}
	return b.String()
}

// Data makes the value of a record: it depends on the end and the position and
// has zero bytes.
func Data(end int64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(int64(i)*7 + end*31 + int64(i/40))
		if i%9 == 4 {
			b[i] = 0
		}
		if i%9 == 5 {
			b[i] = 1
		}
	}
	return b
}

// D is a running database.
type D struct {
	Dir    string
	Opts   files.Options
	DB     *files.DB
	cancel func()
	done   bool
	runErr error
	Hist   []string

	queries int
	held    []heldValue
}

// heldValue is a value that QueryLatest returned, which the caller may keep.
type heldValue struct {
	got, copy []byte
	end       int64
}

// bufs are the kinds of buffers that a caller may hand in: none, a small one,
// one with something in it, and one with room for every value.
func (d *D) buf() []byte {
	d.queries++
	switch d.queries % 4 {
	case 1:
		return make([]byte, 0, 8)
	case 2:
		return []byte{0xee, 0xee, 0xee}
	case 3:
		b := make([]byte, 300, 700)
		for i := range b {
			b[i] = 0xdd
		}
		return b
	}
	return nil
}

// Start is a start of the ith value: the start has nothing to do with what is
// accepted or returned.
func Start(i int, end int64) int64 {
	switch i % 7 {
	case 0:
		return end - 1
	case 1:
		return -77
	case 2, 3:
		return end
	case 4:
		return end + 5
	case 5:
		return 1 << 62
	}
	return end - 1000
}

// NewDir makes a scratch directory that the file shims restrict the database
// to.
func NewDir() string {
	dir, err := os.MkdirTemp(vh.Scratch(), "db")
	if err != nil {
		panic(err)
	}
	d := filepath.Join(dir, "db")
	vs.FS.Root = d
	return d
}

// RmDir removes a directory made by NewDir.
func RmDir(d string) { os.RemoveAll(filepath.Dir(d)) }

// Open creates and runs a database.
func Open(dir string, opts files.Options) *D {
	d := &D{Dir: dir, Opts: opts}
	d.DB = files.New(dir, opts)
	d.Start()
	return d
}

// Start runs the database.
func (d *D) Start() {
	ctx, cancel := vctx.WithCancel(context.Background())
	d.cancel, d.done = cancel, false
	vs.Spawn("run", func() {
		err := d.DB.Run(ctx)
		d.runErr, d.done = err, true
	})
}

// Stop ends the database and waits for it.
func (d *D) Stop() error {
	d.cancel()
	vs.Wait("stop", func() bool { return d.done })
	return d.runErr
}

// Stopped reports if Run returned.
func (d *D) Stopped() bool { return d.done }

// Cancel ends the context of the run.
func (d *D) Cancel() { d.cancel() }

// Restart stops the database and opens the directory again.
func (d *D) Restart() {
	d.Hist = append(d.Hist, "restart")
	if err := d.Stop(); err != nil {
		d.Fail("run", "Run returned %v", err)
	}
	d.DB = files.New(d.Dir, d.Opts)
	d.Start()
}

// Reconfigure restarts the database with another geometry.
func (d *D) Reconfigure(g Geo) {
	d.Opts.Size, d.Opts.Cap, d.Opts.Files = g.Size, g.Cap, g.Files
	d.Log("geometry(%d,%d,%d)", g.Size, g.Cap, g.Files)
	d.Restart()
}

// Fail reports a violation with the history.
func (d *D) Fail(kind, format string, args ...any) {
	vs.Fail(kind, "%s\nhistory: %s\noptions: size=%d cap=%d files=%d handles=%d", fmt.Sprintf(format, args...),
		strings.Join(d.Hist, " "), d.Opts.Size, d.Opts.Cap, d.Opts.Files, d.Opts.Tuning.Handles)
}

// Log adds to the history.
func (d *D) Log(format string, args ...any) { d.Hist = append(d.Hist, fmt.Sprintf(format, args...)) }

// Write queues a value and waits for its completion.
func (d *D) Write(metric string, start, end int64, data []byte) (bool, error) {
	d.Log("write(%q,%d,%d,%dB)", metric, start, end, len(data))
	calls := 0
	var ok bool
	var err error
	buf := append([]byte(nil), data...)
	qerr := d.DB.Queue(context.Background(), metric, start, end, buf, func(o bool, e error) {
		ok, err = o, e
		calls++
	})
	// the caller may reuse its buffer
	for i := range buf {
		buf[i] ^= 0xff
	}
	if qerr != nil {
		d.Fail("queue", "Queue returned %v", qerr)
	}
	vs.Wait("completion", func() bool { return calls > 0 })
	if calls != 1 {
		d.Fail("completion", "completed %d times", calls)
	}
	d.Log("=%v,%v", ok, err != nil)
	return ok, err
}

// Apply writes to both and compares the acknowledgement.
func (d *D) Apply(m *Model, metric string, start, end int64, n int) bool {
	data := Data(end, n)
	want := m.Write(start, end, data)
	got, err := d.Write(metric, start, end, data)
	if got != want {
		d.Fail("accept", "write(%d,%d,%dB) acknowledged as written=%v (error %v), want %v; model after: %s", start, end, n, got, err, want, m)
	}
	if got && err != nil {
		d.Fail("accept", "write(%d,%d,%dB) acknowledged as written with error %v", start, end, n, err)
	}
	return got
}

// Query returns all of the results of a query.
func (d *D) Query(metric string, end int64) (out []Rec, err error) {
	err = d.DB.Query(context.Background(), metric, end, d.buf(), func(ctx context.Context, s, e int64, b []byte) (bool, error) {
		out = append(out, Rec{Start: s, End: e, Data: append([]byte(nil), b...)})
		return true, nil
	})
	return out, err
}

// Same compares query results.
func Same(got, want []Rec) string {
	if len(got) != len(want) {
		return fmt.Sprintf("got %d records %v, want %d %v", len(got), got, len(want), want)
	}
	for i := range got {
		g, w := got[i], want[i]
		if g.Start != w.Start || g.End != w.End {
			return fmt.Sprintf("record %d is [%d,%d], want [%d,%d] (got %v want %v)", i, g.Start, g.End, w.Start, w.End, got, want)
		}
		if !bytes.Equal(g.Data, w.Data) {
			return fmt.Sprintf("record %d [%d,%d] has other data: %d bytes, want %d", i, g.Start, g.End, len(g.Data), len(w.Data))
		}
	}
	return ""
}

// IsMissing reports if the error says that the metric does not exist.
func IsMissing(err error) bool {
	for err != nil {
		if os.IsNotExist(err) {
			return true
		}
		if c, ok := err.(interface{ Cause() error }); ok {
			err = c.Cause()
			continue
		}
		err = errors.Unwrap(err)
	}
	return false
}

// CheckQuery compares one query with the model.
func (d *D) CheckQuery(m *Model, metric string, end int64) {
	got, err := d.Query(metric, end)
	if err != nil {
		if len(m.Retained()) == 0 && IsMissing(err) {
			return
		}
		d.Fail("query", "query(%q,%d): %v", metric, end, err)
	}
	if s := Same(got, m.Older(end)); s != "" {
		d.Fail("query", "query(%q,%d): %s; model: %s", metric, end, s, m)
	}
}

// CheckLatest compares the latest value with the model.
func (d *D) CheckLatest(m *Model, metric string) {
	d.checkHeld()
	buf := d.buf()
	s, e, b, err := d.DB.QueryLatest(context.Background(), metric, buf)
	r, ok := m.Newest()
	if err != nil {
		if !ok && IsMissing(err) {
			return
		}
		d.Fail("latest", "latest(%q): %v", metric, err)
	}
	if s != r.Start || e != r.End || !bytes.Equal(b, r.Data) {
		d.Fail("latest", "latest(%q) is [%d,%d] %d bytes, want %v (buffer of %d/%d)", metric, s, e, len(b), r, len(buf), cap(buf))
	}
	if len(d.held) == 12 {
		d.held = d.held[1:]
	}
	d.held = append(d.held, heldValue{b, append([]byte(nil), b...), e})
}

// checkHeld checks that the values that were returned stay as they were
// returned, whatever is written, removed or unmapped afterwards.
func (d *D) checkHeld() {
	for _, h := range d.held {
		if !bytes.Equal(h.got, h.copy) {
			d.Fail("latest", "the value of %d bytes that ended at %d changed after it was returned", len(h.copy), h.end)
		}
	}
}

// CheckStop checks the callback protocol: after k records the callback stops
// the query, with or without an error.
func (d *D) CheckStop(m *Model, metric string, end int64) {
	want := m.Older(end)
	for k := 1; k <= len(want); k++ {
		for mode := 0; mode < 3; mode++ {
			var fail error
			if mode > 0 {
				fail = errStop
			}
			var got []Rec
			err := d.DB.Query(context.Background(), metric, end, nil, func(ctx context.Context, s, e int64, b []byte) (bool, error) {
				got = append(got, Rec{Start: s, End: e, Data: append([]byte(nil), b...)})
				if len(got) == k {
					return mode == 2, fail
				}
				return true, nil
			})
			if (err != nil) != (fail != nil) {
				d.Fail("query", "query(%q,%d) stopped after %d returned %v, want %v", metric, end, k, err, fail)
			}
			if s := Same(got, want[:k]); s != "" {
				d.Fail("query", "query(%q,%d) stopped after %d (callback error %v): %s", metric, end, k, fail, s)
			}
		}
	}
}

type ctxKey struct{}

// CheckCancel checks that a query ends with an error once its context is
// cancelled, and hands its context to the callback.
func (d *D) CheckCancel(m *Model, metric string, end int64) {
	want := m.Older(end)
	for k := 1; k <= len(want); k++ {
		var got []Rec
		ctx, cancel := vctx.WithCancel(context.WithValue(context.Background(), ctxKey{}, k))
		err := d.DB.Query(ctx, metric, end, nil, func(ctx context.Context, s, e int64, b []byte) (bool, error) {
			if ctx.Value(ctxKey{}) != k {
				d.Fail("query", "query(%q,%d): the callback has another context", metric, end)
			}
			got = append(got, Rec{Start: s, End: e, Data: append([]byte(nil), b...)})
			if len(got) == k {
				cancel()
			}
			return true, nil
		})
		cancel()
		if err == nil && k < len(want) {
			d.Fail("query", "query(%q,%d) cancelled after %d of %d has no error", metric, end, k, len(want))
		}
		if s := Same(got, want[:k]); s != "" {
			d.Fail("query", "query(%q,%d) cancelled after %d: %s", metric, end, k, s)
		}
	}
}

var errStop = fmt.Errorf("stop")

// CheckAll compares every query end in [lo,hi], extremes and the latest value.
func (d *D) CheckAll(m *Model, metric string, lo, hi int64) {
	if n := hi - lo; n >= 0 && n < 100 {
		for e := lo; e <= hi; e++ {
			d.CheckQuery(m, metric, e)
		}
	} else {
		for _, r := range m.Retained() {
			for i := int64(-1); i <= 1; i++ {
				d.CheckQuery(m, metric, r.End+i)
			}
		}
	}
	d.CheckQuery(m, metric, 1<<63-1)
	d.CheckQuery(m, metric, -1<<63)
	d.CheckLatest(m, metric)
}

// DataFiles lists the data files below the directory with their sizes.
func (d *D) DataFiles() map[string]int64 {
	out := map[string]int64{}
	for p, f := range d.walk() {
		out[p] = f.size
	}
	return out
}

type fileInfo struct {
	size int64
	ino  uint64
}

// walk gives the files in the directory.
func (d *D) walk() map[string]fileInfo {
	out := map[string]fileInfo{}
	filepath.Walk(d.Dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(d.Dir, p)
			out[rel] = fileInfo{fi.Size(), fi.Sys().(*syscall.Stat_t).Ino}
		}
		return nil
	})
	return out
}

// CheckDisk compares the files of a metric on disk with the model: which files
// and how large.
func (d *D) CheckDisk(m *Model, dir string) { d.checkDisk(d.walk(), m, dir) }

// CheckDisks is CheckDisk for two metrics and of the mappings.
func (d *D) CheckDisks(m1 *Model, dir1 string, m2 *Model, dir2 string) {
	fs := d.walk()
	d.checkDisk(fs, m1, dir1)
	d.checkDisk(fs, m2, dir2)
	d.checkMapped(fs)
}

func (d *D) checkDisk(fs map[string]fileInfo, m *Model, dir string) {
	var nums []int
	sizes := map[int64]bool{int64(m.Size * (m.Cap + 1)): true}
	for _, g := range m.Geos {
		sizes[int64(g.Size*(g.Cap+1))] = true
	}
	for p, f := range fs {
		size := f.size
		if filepath.Dir(p) != dir {
			continue
		}
		base := filepath.Base(p)
		if !strings.HasSuffix(base, ".data") {
			d.Fail("disk", "unexpected file %s", p)
		}
		n, err := strconv.Atoi(strings.TrimSuffix(base, ".data"))
		if err != nil {
			d.Fail("disk", "unexpected file %s", p)
		}
		nums = append(nums, n)
		if !sizes[size] {
			d.Fail("disk", "file %s has %d bytes, want one of %v", p, size, sizes)
		}
	}
	sort.Ints(nums)
	want := len(m.Files)
	if m.Geo.Files > 0 && len(nums) > m.Geo.Files+1 && len(nums) > want {
		d.Fail("disk", "%d files %v are kept, at most %d expected", len(nums), nums, m.Geo.Files+1)
	}
	if want == 0 {
		// an empty metric may have an empty file
		if len(nums) > 1 {
			d.Fail("disk", "files %v for a metric without records", nums)
		}
		return
	}
	if len(nums) != want {
		d.Fail("disk", "files %v on disk, want %d files; model: %s", nums, want, m)
	}
}

// checkMapped checks that no file stays mapped that was removed, because it
// would go on using space of the disk.
func (d *D) checkMapped(fs map[string]fileInfo) {
	inos := vs.MappedInodes()
	if len(inos) == 0 {
		return
	}
	have := map[uint64]bool{}
	for _, f := range fs {
		have[f.ino] = true
	}
	for _, ino := range inos {
		if !have[ino] {
			d.Fail("disk", "a removed file is still mapped")
		}
	}
}

// Names lists the metrics.
func (d *D) Names() (out []string, err error) {
	err = d.DB.Metrics(context.Background(), func(n string) (bool, error) {
		out = append(out, n)
		return true, nil
	})
	return out, err
}
