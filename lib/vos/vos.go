//go:build go1.21

// Package vos models the file operations of packages os and io/ioutil.
package vos

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/vivint/rothko/zz_verif/vs"
)

// File is os.File.
type File struct {
	f      *os.File
	closed bool
}

func perr(op, path string, err error) error { return &os.PathError{Op: op, Path: path, Err: err} }

func wrap(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	vs.FDOpen(int(f.Fd()))
	return &File{f: f}, nil
}

// OpenFile is os.OpenFile.
//
//go:noinline
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	if e := vs.FileOp(op, name); e != nil {
		return nil, perr("open", name, e)
	}
	return wrap(os.OpenFile(name, flag, perm))
}

// Open is os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create is os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//go:noinline
func (f *File) op(op string) error { return vs.FileOp(op, "") }

// Name is (*os.File).Name.
func (f *File) Name() string { return f.f.Name() }

// Fd is (*os.File).Fd.
func (f *File) Fd() uintptr { return f.f.Fd() }

//go:noinline
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if vs.Aborting() {
		return nil
	}
	e := f.op("close")
	if f.closed {
		return os.ErrClosed
	}
	f.closed = true
	vs.FDClose(int(f.f.Fd()))
	if err := f.f.Close(); err != nil {
		return err
	}
	return e
}

func (f *File) Read(p []byte) (int, error) {
	if e := f.op("read"); e != nil {
		return 0, perr("read", f.Name(), e)
	}
	return f.f.Read(p)
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if e := f.op("read"); e != nil {
		return 0, perr("read", f.Name(), e)
	}
	return f.f.ReadAt(p, off)
}

func (f *File) Write(p []byte) (int, error) {
	if e := f.op("write"); e != nil {
		n, _ := f.f.Write(p[:len(p)/2])
		return n, perr("write", f.Name(), e)
	}
	return f.f.Write(p)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if e := f.op("write"); e != nil {
		return 0, perr("write", f.Name(), e)
	}
	return f.f.WriteAt(p, off)
}

func (f *File) Seek(o int64, w int) (int64, error) { return f.f.Seek(o, w) }

func (f *File) Sync() error { return f.op("fsync") }

func (f *File) Truncate(n int64) error {
	if e := f.op("truncate"); e != nil {
		return perr("truncate", f.Name(), e)
	}
	return f.f.Truncate(n)
}

func (f *File) Stat() (os.FileInfo, error) {
	if e := f.op("stat"); e != nil {
		return nil, perr("stat", f.Name(), e)
	}
	return f.f.Stat()
}

func (f *File) Chmod(m os.FileMode) error { return f.f.Chmod(m) }

func (f *File) Readdirnames(n int) ([]string, error) {
	if e := f.op("readdir"); e != nil {
		return nil, perr("readdir", f.Name(), e)
	}
	names, err := f.f.Readdirnames(n)
	sort.Strings(names)
	if vs.FS.Desc {
		sort.Sort(sort.Reverse(sort.StringSlice(names)))
	}
	return names, err
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	if e := f.op("readdir"); e != nil {
		return nil, perr("readdir", f.Name(), e)
	}
	fis, err := f.f.Readdir(n)
	sort.Slice(fis, func(i, j int) bool { return (fis[i].Name() < fis[j].Name()) != vs.FS.Desc })
	return fis, err
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	if e := f.op("readdir"); e != nil {
		return nil, perr("readdir", f.Name(), e)
	}
	fis, err := f.f.ReadDir(n)
	sort.Slice(fis, func(i, j int) bool { return (fis[i].Name() < fis[j].Name()) != vs.FS.Desc })
	return fis, err
}

var _ io.ReadWriteCloser = (*File)(nil)

func simple(op, path string, fn func() error) error {
	if e := vs.FileOp(op, path); e != nil {
		return perr(op, path, e)
	}
	return fn()
}

// Mkdir is os.Mkdir.
func Mkdir(p string, m os.FileMode) error {
	return simple("mkdir", p, func() error { return os.Mkdir(p, m) })
}

// MkdirAll is os.MkdirAll, one directory at a time.
func MkdirAll(p string, m os.FileMode) error {
	if fi, err := os.Stat(p); err == nil {
		if fi.IsDir() {
			return nil
		}
	}
	parent := filepath.Dir(filepath.Clean(p))
	if _, err := os.Stat(parent); os.IsNotExist(err) {
		if err := MkdirAll(parent, m); err != nil {
			return err
		}
	}
	return simple("mkdir", p, func() error { return os.MkdirAll(p, m) })
}

// Remove is os.Remove.
func Remove(p string) error {
	return simple("remove", p, func() error { return os.Remove(p) })
}

// RemoveAll is os.RemoveAll.
func RemoveAll(p string) error {
	return simple("removeall", p, func() error { return os.RemoveAll(p) })
}

// Rename is os.Rename.
func Rename(a, b string) error {
	if e := vs.FileOp("rename", a); e != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	return simple("rename-to", b, func() error { return os.Rename(a, b) })
}

// Link is os.Link.
func Link(a, b string) error {
	if e := vs.FileOp("link", a); e != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: e}
	}
	return simple("link-to", b, func() error { return os.Link(a, b) })
}

// Truncate is os.Truncate.
func Truncate(p string, n int64) error {
	return simple("truncate", p, func() error { return os.Truncate(p, n) })
}

// Chtimes is os.Chtimes.
func Chtimes(p string, a, m time.Time) error {
	return simple("chtimes", p, func() error { return os.Chtimes(p, a, m) })
}

// Chmod is os.Chmod.
func Chmod(p string, m os.FileMode) error {
	return simple("chmod", p, func() error { return os.Chmod(p, m) })
}

// Stat is os.Stat.
func Stat(p string) (os.FileInfo, error) {
	if e := vs.FileOp("stat", p); e != nil {
		return nil, perr("stat", p, e)
	}
	return os.Stat(p)
}

// Lstat is os.Lstat.
func Lstat(p string) (os.FileInfo, error) {
	if e := vs.FileOp("stat", p); e != nil {
		return nil, perr("lstat", p, e)
	}
	return os.Lstat(p)
}

// ReadDir is os.ReadDir.
func ReadDir(p string) ([]os.DirEntry, error) {
	if e := vs.FileOp("readdir", p); e != nil {
		return nil, perr("open", p, e)
	}
	return os.ReadDir(p)
}

// ReadFile is os.ReadFile.
func ReadFile(p string) ([]byte, error) {
	if e := vs.FileOp("read", p); e != nil {
		return nil, perr("open", p, e)
	}
	return os.ReadFile(p)
}

// WriteFile is os.WriteFile.
func WriteFile(p string, b []byte, m fs.FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if cerr := f.Close(); cerr != nil && err == nil {
		err = cerr
	}
	return err
}

// CreateTemp is os.CreateTemp with predictable names.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	if e := vs.FileOp("create", filepath.Join(dir, pattern)); e != nil {
		return nil, perr("open", dir, e)
	}
	return wrap(os.CreateTemp(dir, pattern))
}

// TempFile is ioutil.TempFile.
func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

// Exit is os.Exit.
func Exit(code int) { vs.Exit(code) }
