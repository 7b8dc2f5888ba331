//go:build go1.21

// W01: static files are served faithfully.
package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"fmt"
	"html/template"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/vivint/rothko/internal/tgzfs"
	"github.com/vivint/rothko/internal/tmplfs"
	"github.com/vivint/rothko/ui"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

var mtime = time.Unix(1500000000, 0)

// tree is a reference: the files by clean path, the directories.
type tree struct {
	files map[string]string
	dirs  map[string]bool
	desc  string
}

func newTree() *tree { return &tree{files: map[string]string{}, dirs: map[string]bool{"/": true}} }

func (t *tree) add(p, content string) {
	t.files[p] = content
	t.mkdir(path.Dir(p))
}

func (t *tree) mkdir(p string) {
	for ; p != "/"; p = path.Dir(p) {
		t.dirs[p] = true
	}
}

// resolve finds what a path means: the file, or the directory, or the default
// page.
func (t *tree) resolve(name string) (p string, dir, ok bool) {
	p = path.Clean("/" + name)
	if t.dirs[p] {
		return p, true, true
	}
	if _, ok := t.files[p]; ok {
		return p, false, true
	}
	if _, ok := t.files["/index.html"]; ok {
		return "/index.html", false, true
	}
	return "", false, false
}

// children are the names in a directory, / marks directories.
func (t *tree) children(dir string) (out []string) {
	for d := range t.dirs {
		if d != "/" && path.Dir(d) == dir {
			out = append(out, path.Base(d)+"/")
		}
	}
	for f := range t.files {
		if path.Dir(f) == dir {
			out = append(out, path.Base(f))
		}
	}
	sort.Strings(out)
	return out
}

type entry struct {
	name    string
	dir     bool
	content string
}

// pack writes an archive.
func pack(entries []entry) []byte {
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	tw := tar.NewWriter(gz)
	for _, e := range entries {
		h := &tar.Header{Name: e.name, Mode: 0644, Size: int64(len(e.content)), ModTime: mtime, Typeflag: tar.TypeReg}
		if e.dir {
			h.Typeflag, h.Mode = tar.TypeDir, 0755
		}
		if err := tw.WriteHeader(h); err != nil {
			panic(err)
		}
		tw.Write([]byte(e.content))
	}
	tw.Close()
	gz.Close()
	return buf.Bytes()
}

const tmpl = "<p>{{ .metric }}</p><a href=\"/x?{{ .query }}\">{{if .dev}}dev{{else}}prod{{end}}</a>"

var big = strings.Repeat("0123456789abcdef", 5000)

var candidates = []entry{
	{"index.html", false, "root " + tmpl},
	{"a.txt", false, "contents of a {{ .metric }}"},
	{"d/b.js", false, big},
	{"d/e/c.html", false, "c " + tmpl},
	{"d/e/index.html", false, "e " + tmpl},
	{"empty", false, ""},
	{"f/", true, ""},
	{"d.html/x", false, "x"},
}

// archive builds the archive for a subset and a style.
func archive(set, style int) (*tree, []byte) {
	t := newTree()
	var es []entry
	var dirs []entry
	for i, c := range candidates {
		if set>>i&1 == 0 {
			continue
		}
		if c.dir {
			t.mkdir(path.Clean("/" + c.name))
		} else {
			t.add("/"+c.name, c.content)
		}
		es = append(es, c)
	}
	for d := range t.dirs {
		if d != "/" && d != "/f" {
			dirs = append(dirs, entry{d[1:] + "/", true, ""})
		}
	}
	sort.Slice(dirs, func(i, j int) bool { return dirs[i].name < dirs[j].name })
	if style&1 != 0 {
		es = append(dirs, es...)
	}
	if style&2 != 0 {
		for i := range es {
			es[i].name = "./" + es[i].name
		}
		es = append([]entry{{"./", true, ""}}, es...)
	}
	if style&4 != 0 {
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	}
	if style&8 != 0 {
		// an older version of every file comes first
		var old []entry
		for _, e := range es {
			if !e.dir {
				e.content = "old " + e.content
				old = append(old, e)
			}
		}
		es = append(old, es...)
	}
	t.desc = fmt.Sprintf("%d entries", len(es))
	for _, e := range es {
		t.desc += fmt.Sprintf(" %s", e.name)
	}
	return t, pack(es)
}

func paths(t *tree) []string {
	out := []string{"/", "", "/nope", "/nope.html", "/d", "/d/", "/d/nope", "/d/e", "/d/e/", "/d/../a.txt", "//a.txt", "/./a.txt", "a.txt", "/a.txt/", "/f", "/f/", "/../a.txt",
		"/a", "/A.TXT", "/d.html", "/d.html/", "/index.html/x", "/.", "/d/.", "/.x", "/.x/y", "/d/.x", "/...", "/%2e", "/~", "/-"}
	for f := range t.files {
		out = append(out, f)
	}
	sort.Strings(out[24:])
	return out
}

type failer func(kind, format string, args ...any)

// checkOpen compares the file system.
func checkOpen(t *tree, fs http.FileSystem, name string, fail failer) {
	p, dir, ok := t.resolve(name)
	f, err := fs.Open(name)
	if !ok {
		if err == nil || !os.IsNotExist(err) {
			fail("absent", "%q: %v", name, err)
		}
		return
	}
	if err != nil {
		fail("open", "%q: %v", name, err)
		return
	}
	st, err := f.Stat()
	if err != nil || st == nil {
		fail("stat", "%q: %v %v", name, st, err)
		return
	}
	base := path.Base(p)
	if st.IsDir() != dir || st.Mode().IsDir() != dir || p != "/" && st.Name() != base {
		fail("stat", "%q: name %q, directory %v, mode %v", name, st.Name(), st.IsDir(), st.Mode())
	}
	if dir {
		checkDir(t, fs, name, p, fail)
		return
	}
	content := t.files[p]
	if st.Size() != int64(len(content)) || !st.ModTime().Equal(mtime) {
		fail("stat", "%q: size %d instead of %d, time %v", name, st.Size(), len(content), st.ModTime())
	}
	for _, chunk := range []int{7, 4096, 1 << 20} {
		f, _ := fs.Open(name)
		var got []byte
		buf := make([]byte, chunk)
		for i := 0; ; i++ {
			n, err := f.Read(buf)
			got = append(got, buf[:n]...)
			if err == io.EOF {
				break
			}
			if err != nil || n == 0 || i > len(content) {
				fail("read", "%q: %d %v after %d", name, n, err, len(got))
				return
			}
		}
		if string(got) != content {
			fail("read", "%q: %d bytes, %.30q instead of %.30q", name, len(got), got, content)
		}
		if err := f.Close(); err != nil {
			fail("close", "%q: %v", name, err)
		}
		if len(content) > 1000 && chunk == 7 {
			continue
		}
	}
	n := int64(len(content))
	for _, s := range []struct {
		off    int64
		whence int
		want   int64
	}{{0, io.SeekEnd, n}, {0, io.SeekStart, 0}, {n / 2, io.SeekCurrent, n / 2}, {-n / 2, io.SeekEnd, n - n/2}, {n, io.SeekStart, n}} {
		if _, err := f.Seek(0, io.SeekStart); err != nil {
			fail("seek", "%q: %v", name, err)
		}
		got, err := f.Seek(s.off, s.whence)
		rest, _ := io.ReadAll(f)
		if err != nil || got != s.want || string(rest) != content[s.want:] {
			fail("seek", "%q: seek(%d,%d) is at %d, %v, with %d bytes left", name, s.off, s.whence, got, err, len(rest))
		}
	}
}

func names(l []os.FileInfo) (out []string) {
	for _, fi := range l {
		n := fi.Name()
		if fi.IsDir() {
			n += "/"
		}
		out = append(out, n)
	}
	return out
}

// checkDir lists a directory with every page size.
func checkDir(t *tree, fs http.FileSystem, name, p string, fail failer) {
	want := t.children(p)
	for _, count := range []int{-1, 0, 1, 2, 3, len(want), 1000} {
		f, err := fs.Open(name)
		if err != nil {
			fail("open", "%q: %v", name, err)
			return
		}
		var got []string
		for i := 0; ; i++ {
			l, err := f.Readdir(count)
			got = append(got, names(l)...)
			if count <= 0 {
				if err != nil {
					fail("list", "%q: a listing of everything fails with %v", name, err)
				}
				if i == 0 {
					continue
				}
				if len(l) != 0 {
					fail("list", "%q: a second listing has %v", name, names(l))
				}
				break
			}
			if err == io.EOF && len(l) == 0 {
				break
			}
			if err != nil || len(l) == 0 || len(l) > count || i > len(want) {
				fail("list", "%q: %d entries of %d: %v", name, len(l), count, err)
				return
			}
		}
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			fail("list", "%q in pages of %d: %q instead of %q", name, count, got, want)
		}
	}
}

// page is a page with its values.
func page(text string, req *http.Request) string {
	var buf bytes.Buffer
	t, err := template.New("").Parse(text)
	if err != nil {
		panic(err)
	}
	err = t.Execute(&buf, map[string]interface{}{
		"query":  req.URL.RawQuery,
		"metric": req.URL.Query().Get("metric"),
		"dev":    os.Getenv("ROTHKO_DEV") != "",
	})
	if err != nil {
		panic(err)
	}
	return buf.String()
}

// checkHTTP compares the answer to a request.
func checkHTTP(t *tree, h http.Handler, method, name, query, rng string, fail failer) {
	if !strings.HasPrefix(name, "/") {
		return
	}
	req := &http.Request{Method: method, URL: &url.URL{Path: name, RawQuery: query}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if rng != "" {
		req.Header.Set("Range", rng)
	}
	rec := httptest.NewRecorder()
	what := fmt.Sprintf("%s %s?%s %s", method, name, query, rng)
	h.ServeHTTP(rec, req)
	p, dir, ok := t.resolve(name)
	body := rec.Body.String()
	switch {
	case strings.HasSuffix(name, "/index.html"):
		if rec.Code != 301 {
			fail("http", "%s: status %d", what, rec.Code)
		}
		return
	case !ok:
		if rec.Code != 404 {
			fail("http", "%s: status %d", what, rec.Code)
		}
		return
	case dir != strings.HasSuffix(name, "/"):
		if rec.Code != 301 && !(name == "/." || name == "/d/.") {
			fail("http", "%s: status %d", what, rec.Code)
		}
		return
	}
	if dir {
		// the page of the directory, or the default page, or a listing
		idx, idxDir, idxOK := t.resolve(path.Join(p, "index.html"))
		if !idxOK || idxDir {
			if rec.Code != 200 {
				fail("http", "%s: status %d for a listing", what, rec.Code)
			}
			if method == "GET" {
				for _, c := range t.children(p) {
					if strings.Count(body, ">"+c+"<") != 1 {
						fail("http", "%s: %q is not in the listing %q", what, c, body)
					}
				}
				if n := strings.Count(body, "<a "); n != len(t.children(p)) {
					fail("http", "%s: the listing %q has %d entries", what, body, n)
				}
			}
			return
		}
		p = idx
	}
	want := t.files[p]
	if strings.HasSuffix(p, ".html") {
		want = page(want, req)
	}
	code := 200
	full := len(want)
	if rng != "" && len(want) > 4 {
		code, want = 206, want[1:4]
	} else if rng != "" {
		return
	}
	if rec.Code != code {
		fail("http", "%s: status %d instead of %d, %.60q", what, rec.Code, code, body)
		return
	}
	if l := rec.Header().Get("Content-Length"); l != fmt.Sprint(len(want)) {
		fail("http", "%s: content length %s instead of %d (of %d)", what, l, len(want), full)
	}
	if method == "HEAD" {
		want = ""
	}
	if body != want {
		fail("http", "%s: %d bytes %.200q instead of %d bytes %.200q", what, len(body), body, len(want), want)
	}
}

// archives: every subset and style.
func archives(n, styles int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("archives-%d", n), Weight: 10, Enum: func(e *vh.Enum) {
		for style := 0; style < styles; style++ {
			for set := 0; set < 1<<n; set++ {
				if !e.Next() {
					continue
				}
				e.Try(fmt.Sprintf("set %b style %b", set, style), func() {
					t, data := archive(set, style)
					fs, err := tgzfs.New(data)
					fail := func(kind, format string, args ...any) {
						e.Failf(kind, "%s: %s", t.desc, fmt.Sprintf(format, args...))
					}
					if err != nil {
						fail("new", "%v", err)
						return
					}
					h := tmplfs.New(fs)
					for _, p := range paths(t) {
						e.Calls++
						checkOpen(t, fs, p, fail)
						e.Try(t.desc+" GET "+p, func() {
							os.Setenv("ROTHKO_DEV", []string{"", "1"}[set&1])
							checkHTTP(t, h, "GET", p, "", "", fail)
							checkHTTP(t, h, "GET", p, "metric=a.b&x=1", "", fail)
							checkHTTP(t, h, "GET", p, "metric=%22%3Cb%3E'%26+1&metric=second", "", fail)
							checkHTTP(t, h, "HEAD", p, "metric=%zz", "", fail)
							checkHTTP(t, h, "GET", p, "metric=r", "bytes=1-3", fail)
						})
					}
					e.Outcome(fmt.Sprint(len(t.files), len(t.dirs)))
				})
			}
		}
	}}
}

// packed: the user interface that is built in.
func packed() vh.Scenario {
	return vh.Scenario{Name: "packed", Enum: func(e *vh.Enum) {
		if !e.Next() {
			return
		}
		e.Try("packed", func() {
			t := newTree()
			times := map[string]time.Time{}
			gz, err := gzip.NewReader(bytes.NewReader(ui.Tarball))
			if err != nil {
				e.Failf("packed", "%v", err)
				return
			}
			for tr := tar.NewReader(gz); ; {
				h, err := tr.Next()
				if err == io.EOF {
					break
				}
				if err != nil {
					e.Failf("packed", "%v", err)
					return
				}
				p := path.Clean("/" + h.Name)
				if h.Typeflag == tar.TypeDir {
					t.mkdir(p)
					continue
				}
				b, _ := io.ReadAll(tr)
				t.add(p, string(b))
				times[p] = h.ModTime
			}
			fs, err := tgzfs.New(ui.Tarball)
			if err != nil {
				e.Failf("packed", "%v", err)
				return
			}
			fail := func(kind, format string, args ...any) { e.Failf(kind, format, args...) }
			for p, want := range t.files {
				f, err := fs.Open(p)
				if err != nil {
					e.Failf("packed", "%s: %v", p, err)
					continue
				}
				got, _ := io.ReadAll(f)
				st, _ := f.Stat()
				if string(got) != want || st.Size() != int64(len(want)) || !st.ModTime().Equal(times[p]) {
					e.Failf("packed", "%s: %d bytes instead of %d", p, len(got), len(want))
				}
				checkHTTP(t, tmplfs.New(fs), "GET", p, "metric=x", "", fail)
				e.Calls++
			}
			for d := range t.dirs {
				checkDir(t, fs, d, d, fail)
			}
			e.Outcome(fmt.Sprint(len(t.files), len(t.dirs)))
		})
	}}
}

// damaged archives never crash.
func damaged(style int) vh.Scenario {
	return vh.Scenario{Name: "damaged", Weight: 3, Enum: func(e *vh.Enum) {
		_, data := archive(0b00101001, style)
		for i := range data {
			for m := 0; m < 9; m++ {
				if !e.Next() {
					continue
				}
				b := append([]byte(nil), data...)
				what := fmt.Sprintf("byte %d bit %d", i, m)
				if m == 8 {
					b = b[:i]
					what = fmt.Sprintf("%d bytes", i)
				} else {
					b[i] ^= 1 << m
				}
				e.Try(what, func() {
					fs, err := tgzfs.New(b)
					if (fs == nil) == (err == nil) {
						e.Failf("new", "%s: %v, %v", what, fs, err)
					}
					if err != nil {
						e.Outcome("refused")
						return
					}
					for _, p := range []string{"/", "/a.txt", "/d/e/"} {
						rec := httptest.NewRecorder()
						tmplfs.New(fs).ServeHTTP(rec, httptest.NewRequest("GET", p, nil))
					}
					e.Outcome("accepted")
				})
			}
		}
	}}
}

// concurrent requests do not disturb each other.
func concurrent(sched int) vh.Scenario {
	return vh.Scenario{Name: "concurrent", Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, true), Body: func() {
		t, data := archive(0b00001011, 1)
		fs, err := tgzfs.New(data)
		if err != nil {
			vs.Fail("new", "%v", err)
		}
		h := tmplfs.New(fs)
		fail := func(kind, format string, args ...any) { vs.Fail(kind, format, args...) }
		left := 2
		points = true
		for i := 0; i < 2; i++ {
			vs.Spawn("client", func() {
				checkDir(t, fs, "/", "/", fail)
				checkHTTP(t, h, "GET", "/", fmt.Sprint("metric=", i), "", fail)
				left--
			})
		}
		vs.Wait("clients", func() bool { return left == 0 })
		points = false
		vs.Outcome("done")
	}}
}

// stubFS has files that count and fail.
type stubFS struct {
	files        map[string]string
	faults, live int
}

type stubFile struct {
	fs   *stubFS
	name string
	*strings.Reader
	open bool
}

func (s *stubFS) fault() bool {
	if vs.Deviate(2) != 0 {
		s.faults++
		return true
	}
	return false
}

func (s *stubFS) Open(name string) (http.File, error) {
	c, ok := s.files[name]
	if !ok {
		return nil, os.ErrNotExist
	}
	if s.fault() {
		return nil, os.ErrPermission
	}
	s.live++
	return &stubFile{s, path.Base(name), strings.NewReader(c), true}, nil
}

func (f *stubFile) check() {
	if !f.open {
		vs.Fail("closed", "%s is used after it was closed", f.name)
	}
}

func (f *stubFile) Close() error {
	f.check()
	f.open = false
	f.fs.live--
	return nil
}

func (f *stubFile) Read(b []byte) (int, error) {
	f.check()
	if f.fs.fault() {
		return 0, os.ErrInvalid
	}
	if len(b) > 10 {
		b = b[:10]
	}
	return f.Reader.Read(b)
}

func (f *stubFile) Seek(off int64, whence int) (int64, error) {
	f.check()
	if f.fs.fault() {
		return 0, os.ErrInvalid
	}
	return f.Reader.Seek(off, whence)
}

func (f *stubFile) Readdir(int) ([]os.FileInfo, error) { return nil, nil }

func (f *stubFile) Stat() (os.FileInfo, error) {
	f.check()
	if f.fs.fault() {
		return nil, os.ErrInvalid
	}
	return stubInfo{f.name, f.Reader.Size()}, nil
}

type stubInfo struct {
	name string
	size int64
}

func (i stubInfo) Name() string       { return i.name }
func (i stubInfo) Size() int64        { return i.size }
func (i stubInfo) Mode() os.FileMode  { return 0444 }
func (i stubInfo) ModTime() time.Time { return mtime }
func (i stubInfo) IsDir() bool        { return false }
func (i stubInfo) Sys() interface{}   { return nil }

// faulty: files that fail, and templates that fail, leave no handle open and
// give no wrong page.
func faulty(env int) vh.Scenario {
	return vh.Scenario{Name: "faulty-files", Bound: vs.Bound{Env: env}, Weight: 3, Body: func() {
		names := []string{"/good.html", "/plain", "/parse.html", "/exec.html"}
		fs := &stubFS{files: map[string]string{
			"/good.html":  "<i>{{ .metric }}</i>",
			"/plain":      "<i>{{ .metric }}</i>",
			"/parse.html": "text {{ .metric",
			"/exec.html":  "text {{ index .metric 100000 }}",
		}}
		name := names[vs.Choose(len(names))]
		req := &http.Request{Method: "GET", URL: &url.URL{Path: name, RawQuery: "metric=m"}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
		rec := httptest.NewRecorder()
		tmplfs.New(fs).ServeHTTP(rec, req)
		body := rec.Body.String()
		if fs.live != 0 {
			vs.Fail("open", "%s: %d files are left open, status %d after %d faults", name, fs.live, rec.Code, fs.faults)
		}
		want := fs.files[name]
		switch name {
		case "/good.html":
			want = page(want, req)
		case "/parse.html", "/exec.html":
			if rec.Code == 200 {
				vs.Fail("http", "%s: status 200 and %q for a template that fails", name, body)
			}
		}
		if rec.Code == 200 && !strings.HasPrefix(want, body) {
			vs.Fail("http", "%s: %q after %d faults", name, body, fs.faults)
		}
		if fs.faults == 0 && (rec.Code == 200) != (name == "/good.html" || name == "/plain") || rec.Code == 200 && fs.faults == 0 && body != want {
			vs.Fail("http", "%s: status %d and %q without a fault", name, rec.Code, body)
		}
		if rec.Code == 200 && name == "/good.html" && body != want {
			vs.Fail("http", "%s: %q after %d faults", name, body, fs.faults)
		}
		vs.Outcome(fmt.Sprint(name, rec.Code, len(body)))
	}}
}

var points bool

func main() {
	vs.SetStmtHook(func() {
		if points {
			vs.Point("stmt")
		}
	})
	vh.Main(vh.Check{ID: "W01", Level: "model_checking",
		Rule:        "every subset of the entries in every style of archive (with and without entries of directories, prefixes, orders, older versions), every path to them and to nothing, through the file system (every page size of listings, reads, seeks) and over HTTP; every truncation and flipped bit of an archive; schedules of two clients",
		Assumptions: []string{"a path to nothing is answered with the root page, if there is one"},
		Scenarios: func(tier string) []vh.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []vh.Scenario{packed(), archives(6+2*d, 16), damaged(0), concurrent(1 + d), faulty(2 + d)}
		}})
}
