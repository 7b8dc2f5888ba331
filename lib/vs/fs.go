//go:build go1.21

package vs

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// FSConfig controls the file system shims. It is set by the harness before an
// execution.
type FSConfig struct {
	// Root is the only directory that may be touched.
	Root string

	// Fault returns the errors that the operation may fail with.
	Fault func(op, path string) []error

	// OnOp is called for every operation before it runs.
	OnOp func(op, path string)

	// Desc makes directory listings descending instead of ascending.
	Desc bool

	// DirentBuf limits how many bytes a ReadDirent returns.
	DirentBuf int
	// Holes adds an entry without an inode, as some file systems do for
	// removed files, in front of each entry a ReadDirent returns.
	Holes bool

	// NoPoints makes file operations no scheduling points.
	NoPoints bool
}

// FS is the current configuration.
var FS FSConfig

// FSStats are counters of the current execution.
type FSStats struct {
	Ops    int
	Faults int
	FDs    int // open descriptors
	Maps   int // live mappings
}

type mapping struct {
	addr uintptr
	len  int
	live bool
	ino  uint64 // of the file
}

var (
	fsStats FSStats
	maps    []mapping
	fds     []int
	lastFlt string
)

// Stats returns the counters.
//
//go:noinline
func Stats() FSStats {
	s := fsStats
	s.FDs = len(fds)
	s.Maps = 0
	for _, m := range maps {
		if m.live {
			s.Maps++
		}
	}
	return s
}

// LastFault describes the last injected fault.
//
//go:noinline
func LastFault() string { return lastFlt }

// SkipOps in unwinding executions: file operations fail then.
var errAborting = syscall.EINTR

// FileOp is called by the shims before a file operation.
//
//go:noinline
func FileOp(op, path string) error {
	if x == nil {
		return nil
	}
	if x.aborting {
		return errAborting
	}
	if !FS.NoPoints {
		Point("fs:" + op)
	}
	fsStats.Ops++
	if path != "" && FS.Root != "" {
		p, _ := filepath.Abs(path)
		if p != FS.Root && !strings.HasPrefix(p, FS.Root+"/") && !allowed(p) {
			Fail("escape", "file operation %s on %q outside of %q", op, path, FS.Root)
		}
	}
	if FS.OnOp != nil {
		FS.OnOp(op, path)
	}
	if x.traceOn {
		Trace("fs %s %s", op, path)
	}
	if FS.Fault != nil {
		if errs := FS.Fault(op, path); len(errs) > 0 {
			if p := Deviate(1 + len(errs)); p > 0 {
				fsStats.Faults++
				lastFlt = fmt.Sprintf("%s %s: %v", op, path, errs[p-1])
				Trace("fault %s", lastFlt)
				return errs[p-1]
			}
		}
	}
	return nil
}

func allowed(p string) bool {
	return p == "/dev/null" || p == os.TempDir()
}

// FDOpen and FDClose track descriptors.
//
//go:noinline
func FDOpen(fd int) {
	if x != nil && !x.aborting {
		fds = append(fds, fd)
	}
}

//go:noinline
func FDClose(fd int) bool {
	for i, f := range fds {
		if f == fd {
			fds = append(fds[:i], fds[i+1:]...)
			return true
		}
	}
	return false
}

// MapAdd tracks a mapping.
//
//go:noinline
func MapAdd(addr uintptr, n, fd int) {
	var st syscall.Stat_t
	syscall.Fstat(fd, &st)
	maps = append(maps, mapping{addr, n, true, st.Ino})
}

// MappedInodes gives the inodes of the files that are mapped.
//
//go:noinline
func MappedInodes() (out []uint64) {
	for _, m := range maps {
		if m.live {
			out = append(out, m.ino)
		}
	}
	return out
}

// MapDel marks a mapping as gone; the address space is kept inaccessible
// until the end of the execution, so that a later access faults.
//
//go:noinline
func MapDel(addr uintptr, n int) syscall.Errno {
	for i := range maps {
		m := &maps[i]
		if m.addr == addr && m.live {
			if m.len != n {
				Note("mapping", "munmap of %d bytes of a mapping of %d bytes", n, m.len)
			}
			m.live = false
			_, _, e := syscall.Syscall(syscall.SYS_MPROTECT, addr, uintptr(m.len), syscall.PROT_NONE)
			return e
		}
	}
	Note("mapping", "munmap of a region that is not mapped (double close)")
	return syscall.EINVAL
}

func init() {
	AtExecEnd(func(e *Exec) {
		for _, m := range maps {
			syscall.Syscall(syscall.SYS_MUNMAP, m.addr, uintptr(m.len), 0)
		}
		for _, fd := range fds {
			syscall.Close(fd)
		}
		maps, fds, fsStats, lastFlt = nil, nil, FSStats{}, ""
	})
}
