//go:build go1.21

// Package vsys models the system calls of package syscall that are used.
package vsys

import (
	"syscall"
	"unsafe"

	"github.com/vivint/rothko/zz_verif/vs"
)

func cstr(p uintptr) string {
	var b []byte
	for i := uintptr(0); i < 4096; i++ {
		c := *(*byte)(unsafe.Pointer(p + i))
		if c == 0 {
			break
		}
		b = append(b, c)
	}
	return string(b)
}

func errno(err error) syscall.Errno {
	if e, ok := err.(syscall.Errno); ok {
		return e
	}
	return syscall.EIO
}

// Syscall is syscall.Syscall.
//
//go:noinline
//go:uintptrescapes
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return Syscall6(trap, a1, a2, a3, 0, 0, 0)
}

// RawSyscall is syscall.RawSyscall.
//
//go:noinline
//go:uintptrescapes
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return Syscall6(trap, a1, a2, a3, 0, 0, 0)
}

// Syscall6 is syscall.Syscall6.
//
//go:noinline
//go:uintptrescapes
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	switch trap {
	case syscall.SYS_OPEN:
		if e := vs.FileOp("open", cstr(a1)); e != nil {
			return ^uintptr(0), 0, errno(e)
		}
		r1, r2, err = syscall.Syscall6(trap, a1, a2|syscall.O_CLOEXEC, a3, a4, a5, a6)
		if err == 0 {
			vs.FDOpen(int(r1))
		}
		return
	case syscall.SYS_MMAP:
		if e := vs.FileOp("mmap", ""); e != nil {
			return ^uintptr(0), 0, errno(e)
		}
		r1, r2, err = syscall.Syscall6(trap, a1, a2, a3, a4, a5, a6)
		if err == 0 {
			vs.MapAdd(r1, int(a2), int(a5))
		}
		return
	case syscall.SYS_MUNMAP:
		if e := vs.FileOp("munmap", ""); e != nil {
			return ^uintptr(0), 0, errno(e)
		}
		if e := vs.MapDel(a1, int(a2)); e != 0 {
			return ^uintptr(0), 0, e
		}
		return 0, 0, 0
	case syscall.SYS_MSYNC:
		if e := vs.FileOp("msync", ""); e != nil {
			return ^uintptr(0), 0, errno(e)
		}
		return 0, 0, 0
	}
	if e := vs.FileOp("syscall", ""); e != nil {
		return ^uintptr(0), 0, errno(e)
	}
	return syscall.Syscall6(trap, a1, a2, a3, a4, a5, a6)
}

// Close is syscall.Close.
//
//go:noinline
func Close(fd int) error {
	e := vs.FileOp("close", "")
	if vs.Aborting() {
		return nil
	}
	vs.FDClose(fd)
	if err := syscall.Close(fd); err != nil {
		return err
	}
	return e
}

// Open is syscall.Open.
//
//go:noinline
func Open(path string, mode int, perm uint32) (int, error) {
	if e := vs.FileOp("open", path); e != nil {
		return -1, e
	}
	fd, err := syscall.Open(path, mode|syscall.O_CLOEXEC, perm)
	if err == nil {
		vs.FDOpen(fd)
	}
	return fd, err
}

// ReadDirent is syscall.ReadDirent.
//
//go:noinline
func ReadDirent(fd int, buf []byte) (int, error) {
	if e := vs.FileOp("readdir", ""); e != nil {
		return -1, e
	}
	if n := vs.FS.DirentBuf; n > 0 && n < len(buf) {
		buf = buf[:n]
	}
	if !vs.FS.Holes {
		return syscall.ReadDirent(fd, buf)
	}
	some := make([]byte, len(buf)/2)
	n, err := syscall.ReadDirent(fd, some)
	if n < 0 || err != nil {
		return n, err
	}
	some = some[:n]
	n = 0
	for len(some) > 18 {
		l := int(some[16]) | int(some[17])<<8
		hole := buf[n : n+l]
		copy(hole, some[:l])
		for i := 0; i < 8; i++ {
			hole[i] = 0
		}
		hole[19] ^= 1 // the name of what is gone
		n += l
		n += copy(buf[n:], some[:l])
		some = some[l:]
	}
	return n, nil
}

// Fallocate is syscall.Fallocate.
//
//go:noinline
func Fallocate(fd int, mode uint32, off, n int64) error {
	if e := vs.FileOp("fallocate", ""); e != nil {
		return e
	}
	return syscall.Fallocate(fd, mode, off, n)
}

// Ftruncate is syscall.Ftruncate.
//
//go:noinline
func Ftruncate(fd int, n int64) error {
	if e := vs.FileOp("truncate", ""); e != nil {
		return e
	}
	return syscall.Ftruncate(fd, n)
}

// Fsync is syscall.Fsync.
//
//go:noinline
func Fsync(fd int) error { return vs.FileOp("fsync", "") }

// Rename is syscall.Rename.
//
//go:noinline
func Rename(a, b string) error {
	if e := vs.FileOp("rename", a); e != nil {
		return e
	}
	if e := vs.FileOp("rename-to", b); e != nil {
		return e
	}
	return syscall.Rename(a, b)
}

// Unlink is syscall.Unlink.
//
//go:noinline
func Unlink(p string) error {
	if e := vs.FileOp("remove", p); e != nil {
		return e
	}
	return syscall.Unlink(p)
}

// Mkdir is syscall.Mkdir.
//
//go:noinline
func Mkdir(p string, m uint32) error {
	if e := vs.FileOp("mkdir", p); e != nil {
		return e
	}
	return syscall.Mkdir(p, m)
}

// Mmap is syscall.Mmap.
//
//go:noinline
func Mmap(fd int, off int64, n, prot, flags int) ([]byte, error) {
	if e := vs.FileOp("mmap", ""); e != nil {
		return nil, e
	}
	r, _, err := syscall.Syscall6(syscall.SYS_MMAP, 0, uintptr(n), uintptr(prot), uintptr(flags), uintptr(fd), uintptr(off))
	if err != 0 {
		return nil, err
	}
	vs.MapAdd(r, n, fd)
	return unsafe.Slice((*byte)(unsafe.Pointer(r)), n), nil
}

// Munmap is syscall.Munmap.
//
//go:noinline
func Munmap(b []byte) error {
	if len(b) == 0 {
		return syscall.EINVAL
	}
	_, _, e := Syscall(syscall.SYS_MUNMAP, uintptr(unsafe.Pointer(&b[0])), uintptr(cap(b)), 0)
	if e != 0 {
		return e
	}
	return nil
}
