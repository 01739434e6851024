package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// The standard library is not edited in place: patched copies of a few files are
// put in the scratch workspace and handed to the compiler with -overlay.

type patch struct {
	file string // relative to GOROOT/src
	subs [][2]string
	tail string
}

func simPatches(withFS bool) []patch {
	ps := []patch{
		{"runtime/rand.go", [][2]string{{
			"func rand() uint64 {\n", `func rand() uint64 {
	if simRandGoid != 0 && getg().goid == simRandGoid {
		simRandState += 0x9E3779B97F4A7C15
		z := simRandState
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		return z ^ (z >> 31)
	}
`}}, `
var simRandGoid, simRandState uint64

// SimSetRand makes the calling goroutine's hash seeds and iteration orders a
// function of s (simulation only).
func SimSetRand(on bool, s uint64) {
	if on {
		simRandGoid = getg().goid
	} else {
		simRandGoid = 0
	}
	simRandState = s
}

func SimGetRand() uint64 { return simRandState }
`},
		{"runtime/alg.go", [][2]string{
			{"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9E3779B97F4A7C15 ^ uint64(i)*0xBF58476D1CE4E5B9)"},
			{"key[i] = bootstrapRand()", "key[i] = 0x94D049BB133111EB ^ uint64(i)*0x9E3779B97F4A7C15"},
		}, ""},
		{"sync/pool.go", [][2]string{
			{"func (p *Pool) Put(x any) {\n\tif x == nil {\n\t\treturn\n\t}\n", "func (p *Pool) Put(x any) {\n\tif x == nil {\n\t\treturn\n\t}\n\tif SimBlock != nil && SimPoolPut != nil {\n\t\tSimPoolPut(p, x)\n\t\treturn\n\t}\n"},
			{"func (p *Pool) Get() any {\n", `func (p *Pool) Get() any {
	if SimBlock != nil && SimPoolGet != nil {
		if x, ok := SimPoolGet(p); ok {
			return x
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
`},
		}, `
// Simulation seams (nil outside a simulated execution).
var (
	SimPoolGet func(p *Pool) (any, bool)
	SimPoolPut func(p *Pool, x any)
	SimBlock   func() bool
)
`},
		{"sync/mutex.go", [][2]string{
			{"func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tif SimBlock != nil {\n\t\tfor !m.mu.TryLock() {\n\t\t\tif !SimBlock() {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\treturn\n\t}\n"},
		}, ""},
		{"sync/rwmutex.go", [][2]string{
			{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tif SimBlock != nil {\n\t\tfor !rw.TryRLock() {\n\t\t\tif !SimBlock() {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\treturn\n\t}\n"},
			{"func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n\tif SimBlock != nil {\n\t\tfor !rw.TryLock() {\n\t\t\tif !SimBlock() {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\treturn\n\t}\n"},
		}, ""},
		{"sync/waitgroup.go", [][2]string{
			{"func (wg *WaitGroup) Wait() {\n", "func (wg *WaitGroup) Wait() {\n\tif SimBlock != nil {\n\t\tfor int32(wg.state.Load()>>32) != 0 {\n\t\t\tif !SimBlock() {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\treturn\n\t}\n"},
		}, ""},
		{"time/sleep.go", [][2]string{
			{"func Sleep(d Duration)\n", "func Sleep(d Duration) {\n\tif SimSleep != nil {\n\t\tSimSleep(int64(d))\n\t\treturn\n\t}\n\tsimRealSleep(d)\n}\n\nfunc simRealSleep(d Duration)\n"},
		}, "\n// SimSleep, when set, passes simulated time.\nvar SimSleep func(ns int64)\n"},
		{"runtime/time.go", [][2]string{
			{"//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.simRealSleep\n"},
		}, ""},
		{"time/time.go", [][2]string{
			{"func Now() Time {\n", "func Now() Time {\n\tif SimNow != nil {\n\t\ts, n := SimNow()\n\t\treturn Unix(s, n)\n\t}\n"},
		}, "\n// SimNow, when set, is the simulated clock.\nvar SimNow func() (sec int64, nsec int64)\n"},
	}
	if withFS {
		ps = append(ps, fsPatch(),
			patch{"internal/syscall/unix/at.go", [][2]string{
				{"func Unlinkat(dirfd int, path string, flags int) error {\n", "func Unlinkat(dirfd int, path string, flags int) error {\n\tif syscall.SimFS != nil {\n\t\treturn syscall.SimFS.Unlinkat(dirfd, path, flags)\n\t}\n"},
				{"func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n", "func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n\tif syscall.SimFS != nil {\n\t\treturn syscall.SimFS.Openat(dirfd, path, flags, perm)\n\t}\n"},
				{"func Readlinkat(dirfd int, path string, buf []byte) (int, error) {\n", "func Readlinkat(dirfd int, path string, buf []byte) (int, error) {\n\tif syscall.SimFS != nil {\n\t\treturn syscall.SimFS.Readlinkat(dirfd, path, buf)\n\t}\n"},
				{"func Mkdirat(dirfd int, path string, mode uint32) error {\n", "func Mkdirat(dirfd int, path string, mode uint32) error {\n\tif syscall.SimFS != nil {\n\t\treturn syscall.SimFS.Mkdirat(dirfd, path, mode)\n\t}\n"},
			}, ""},
			patch{"internal/syscall/unix/at_fstatat.go", [][2]string{
				{"func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n\tif syscall.SimFS != nil {\n\t\treturn syscall.SimFS.Fstatat(dirfd, path, stat, flags)\n\t}\n"},
			}, ""},
			patch{"os/zero_copy_linux.go", [][2]string{
				{"func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n", "func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n\tif syscall.SimFS != nil {\n\t\treturn 0, false, nil\n\t}\n"},
			}, ""},
		)
	}
	return ps
}

// fsPatch puts an interception point in every file-system system call wrapper.
func fsPatch() patch {
	mk := func(sig, call string) [2]string {
		return [2]string{sig + " {\n", sig + " {\n\tif SimFS != nil {\n\t\t" + call + "\n\t}\n"}
	}
	return patch{"syscall/zsyscall_linux_amd64.go", [][2]string{
		mk("func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error)", "return SimFS.Openat(dirfd, path, flags, mode)"),
		mk("func read(fd int, p []byte) (n int, err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Read(fd, p)\n\t\t}"),
		mk("func write(fd int, p []byte) (n int, err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Write(fd, p)\n\t\t}"),
		mk("func pread(fd int, p []byte, offset int64) (n int, err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Pread(fd, p, offset)\n\t\t}"),
		mk("func pwrite(fd int, p []byte, offset int64) (n int, err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Pwrite(fd, p, offset)\n\t\t}"),
		mk("func Seek(fd int, offset int64, whence int) (off int64, err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Seek(fd, offset, whence)\n\t\t}"),
		mk("func Close(fd int) (err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Close(fd)\n\t\t}"),
		mk("func Getdents(fd int, buf []byte) (n int, err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Getdents(fd, buf)\n\t\t}"),
		mk("func Fstat(fd int, stat *Stat_t) (err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Fstat(fd, stat)\n\t\t}"),
		mk("func Fchmod(fd int, mode uint32) (err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Fchmod(fd, mode)\n\t\t}"),
		mk("func Fchown(fd int, uid int, gid int) (err error)", "if SimFS.Owns(fd) {\n\t\t\treturn nil\n\t\t}"),
		mk("func Ftruncate(fd int, length int64) (err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Ftruncate(fd, length)\n\t\t}"),
		mk("func Fsync(fd int) (err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Fsync(fd)\n\t\t}"),
		mk("func Fdatasync(fd int) (err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Fsync(fd)\n\t\t}"),
		mk("func Flock(fd int, how int) (err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Flock(fd, how)\n\t\t}"),
		mk("func fcntl(fd int, cmd int, arg int) (val int, err error)", "if SimFS.Owns(fd) {\n\t\t\treturn SimFS.Fcntl(fd, cmd, arg)\n\t\t}"),
		mk("func Getpid() (pid int)", "return SimFS.Getpid()"),
		mk("func Getcwd(buf []byte) (n int, err error)", "return SimFS.Getcwd(buf)"),
		mk("func Chdir(path string) (err error)", "return SimFS.Chdir(path)"),
		mk("func Mkdirat(dirfd int, path string, mode uint32) (err error)", "return SimFS.Mkdirat(dirfd, path, mode)"),
		mk("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error)", "return SimFS.Renameat(olddirfd, oldpath, newdirfd, newpath)"),
		mk("func unlinkat(dirfd int, path string, flags int) (err error)", "return SimFS.Unlinkat(dirfd, path, flags)"),
		mk("func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error)", "return SimFS.Linkat(olddirfd, oldpath, newdirfd, newpath, flags)"),
		mk("func symlinkat(oldpath string, newdirfd int, newpath string) (err error)", "return SimFS.Symlinkat(oldpath, newdirfd, newpath)"),
		mk("func readlinkat(dirfd int, path string, buf []byte) (n int, err error)", "return SimFS.Readlinkat(dirfd, path, buf)"),
		mk("func fstatat(fd int, path string, stat *Stat_t, flags int) (err error)", "return SimFS.Fstatat(fd, path, stat, flags)"),
		mk("func fchmodat(dirfd int, path string, mode uint32) (err error)", "return SimFS.Fchmodat(dirfd, path, mode)"),
		mk("func Fchownat(dirfd int, path string, uid int, gid int, flags int) (err error)", "return SimFS.Fchmodat(dirfd, path, 0)"),
		mk("func Truncate(path string, length int64) (err error)", "return SimFS.Truncate(path, length)"),
		mk("func faccessat(dirfd int, path string, mode uint32) (err error)", "return SimFS.Faccessat(dirfd, path, mode)"),
		mk("func utimensat(dirfd int, path string, times *[2]Timespec, flag int) (err error)", "return SimFS.Fchmodat(dirfd, path, 0)"),
	}, `
// SimFileSystem is the simulated file system behind the system calls.
type SimFileSystem interface {
	Owns(fd int) bool
	Openat(dirfd int, path string, flags int, mode uint32) (fd int, err error)
	Read(fd int, p []byte) (n int, err error)
	Write(fd int, p []byte) (n int, err error)
	Pread(fd int, p []byte, offset int64) (n int, err error)
	Pwrite(fd int, p []byte, offset int64) (n int, err error)
	Seek(fd int, offset int64, whence int) (off int64, err error)
	Close(fd int) (err error)
	Getdents(fd int, buf []byte) (n int, err error)
	Fstat(fd int, stat *Stat_t) (err error)
	Fchmod(fd int, mode uint32) (err error)
	Ftruncate(fd int, length int64) (err error)
	Fsync(fd int) (err error)
	Fcntl(fd int, cmd int, arg int) (val int, err error)
	Flock(fd int, how int) (err error)
	Getcwd(buf []byte) (n int, err error)
	Getpid() int
	Chdir(path string) (err error)
	Mkdirat(dirfd int, path string, mode uint32) (err error)
	Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error)
	Unlinkat(dirfd int, path string, flags int) (err error)
	Linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error)
	Symlinkat(oldpath string, newdirfd int, newpath string) (err error)
	Readlinkat(dirfd int, path string, buf []byte) (n int, err error)
	Fstatat(fd int, path string, stat *Stat_t, flags int) (err error)
	Fchmodat(dirfd int, path string, mode uint32) (err error)
	Truncate(path string, length int64) (err error)
	Faccessat(dirfd int, path string, mode uint32) (err error)
}

// SimFS, when set, receives the file-system system calls.
var SimFS SimFileSystem
`}
}

// writeOverlay writes the patched files below dir and returns the overlay file.
func writeOverlay(goroot, dir string, withFS bool) (string, error) {
	repl := map[string]string{}
	for _, p := range simPatches(withFS) {
		src := filepath.Join(goroot, "src", p.file)
		b, err := os.ReadFile(src)
		if err != nil {
			return "", err
		}
		s := string(b)
		for _, sub := range p.subs {
			if strings.Count(s, sub[0]) != 1 {
				return "", fmt.Errorf("overlay: %s: anchor %q found %d times", p.file, sub[0], strings.Count(s, sub[0]))
			}
			s = strings.Replace(s, sub[0], sub[1], 1)
		}
		s += p.tail
		dst := filepath.Join(dir, strings.ReplaceAll(p.file, "/", "__"))
		if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
			return "", err
		}
		repl[src] = dst
	}
	out, _ := json.Marshal(map[string]any{"Replace": repl})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, out, 0o644)
}
