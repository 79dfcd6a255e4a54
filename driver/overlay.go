package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// patch is one anchored edit of a standard library source file. The anchor
// must occur exactly once, so a toolchain that differs from the one this was
// written for makes the build fail instead of silently losing a seam.
type patch struct {
	file     string // relative to GOROOT/src
	old, new string
}

var stdPatches = []patch{
	// ---- scheduler: every pick is the simulator's
	{"runtime/proc.go", "	if randomizeScheduler && next && randn(2) == 0 {\n", "	if simOn {\n		next = false\n	}\n	if randomizeScheduler && next && randn(2) == 0 {\n"},
	{"runtime/proc.go", "	// If there's a runnext, it's the next G to run.\n	next := pp.runnext\n", "	if simOn {\n		return simpick(pp), false\n	}\n	next := pp.runnext\n"},
	{"runtime/proc.go", "	dropg()\n	if preempted && sched.gcwaiting.Load() {\n", "	dropg()\n	if simOn || preempted && sched.gcwaiting.Load() {\n"},
	{"runtime/proc.go", "	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n", "	if simOn && !sched.gcwaiting.Load() && gcBlackenEnabled == 0 {\n		simidle(pp)\n		goto top\n	}\n\n	// Poll network.\n"},
	// ---- no background preemption, no timing
	{"runtime/proc.go", "	lastgomaxprocs := int64(0)\n	lasttrace := int64(0)\n", "	for simOn {\n		usleep(100 * 1000)\n	}\n	lastgomaxprocs := int64(0)\n	lasttrace := int64(0)\n"},
	{"runtime/mgc.go", "func GC() {\n", "func GC() {\n	if simOn && !simst.collect {\n		return\n	}\n"},
	// ---- clock
	{"runtime/time_nofake.go", "var faketime int64\n", "var faketime int64 = simEpoch\n"},
	{"runtime/time_nofake.go", "	return nanotime1()\n", "	return faketime\n"},
	{"runtime/timeasm.go", "func time_now() (sec int64, nsec int32, mono int64)\n", "func time_now() (sec int64, nsec int32, mono int64) {\n	return faketime / 1e9, int32(faketime % 1e9), faketime\n}\n"},
	{"runtime/time_linux_amd64.s", "//go:build !faketime\n", "//go:build ignore\n"},
	// ---- randomness
	{"runtime/rand.go", "	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&\n", "	seed := &globalRand.seed\n	if simOn {\n		for i := range seed {\n			seed[i] = byte(i*7 + 1)\n		}\n		startupRand = nil\n	} else if len(startupRand) >= 16 &&\n"},
	{"runtime/rand.go", "	// Note: We avoid acquirem here so that in the fast path\n", "	if simOn {\n		return simrand()\n	}\n	// Note: We avoid acquirem here so that in the fast path\n"},
	{"runtime/rand.go", "func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n	if simOn {\n		return uint32(simcheap())\n	}\n"},
	{"runtime/rand.go", "func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n	if simOn {\n		return simcheap()\n	}\n"},
	{"runtime/rand.go", "	mp.cheaprand = uint32(rand())\n	mp.cheaprand64 = rand()\n", "	mp.cheaprand, mp.cheaprand64 = 1, 1\n"},
	{"runtime/select.go", "		j := cheaprandn(uint32(norder + 1))\n", "		j := simchoose(uint32(norder+1), 1000000, 4)\n"},
	{"crypto/internal/sysrand/rand.go", "func Read(b []byte) {\n", "func Read(b []byte) {\n	if true {\n		simRead(b)\n		return\n	}\n"},
	{"crypto/internal/sysrand/rand.go", "var firstUse atomic.Bool\n", "//go:linkname simRead\nfunc simRead(b []byte)\n\nvar firstUse atomic.Bool\n"},
	{"crypto/rand/rand.go", "	if err != nil {\n		fatal(\"crypto/rand: failed", "	if err != nil {\n		if SimFatal != nil {\n			SimFatal(err)\n		}\n		fatal(\"crypto/rand: failed"},
	{"crypto/rand/rand.go", "//go:linkname fatal\n", "// SimFatal, when set, stands for the end of the process.\nvar SimFatal func(error)\n\n//go:linkname fatal\n"},
	// ---- preemption points
	{"runtime/chan.go", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	simpoint()\n"},
	{"runtime/chan.go", "func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n	simpoint()\n"},
	{"runtime/chan.go", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	simpoint()\n"},
	{"runtime/select.go", "	gp := getg()\n	if debugSelect {\n", "	simpoint()\n	gp := getg()\n	if debugSelect {\n"},
	{"sync/runtime.go", "// defined in package runtime\n", "func runtime_simYield()\n\n// defined in package runtime\n"},
	{"sync/mutex.go", "	m.mu.Lock()\n", "	runtime_simYield()\n	m.mu.Lock()\n"},
	{"sync/mutex.go", "	m.mu.Unlock()\n", "	m.mu.Unlock()\n	runtime_simYield()\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime_simYield()\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n	runtime_simYield()\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n	runtime_simYield()\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) Unlock() {\n", "func (rw *RWMutex) Unlock() {\n	runtime_simYield()\n"},
	// ---- process exit
	{"os/proc.go", "func Exit(code int) {\n", "// SimExit, when set, sees every call of Exit.\nvar SimExit func(code int)\n\nfunc Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n"},
	// ---- disk
	{"syscall/zsyscall_linux_amd64.go", "func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n", "func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n\tif SimDisk != nil {\n\t\treturn SimDisk.Open(path, flags, func() (int, error) { return simRealopenat(dirfd, path, flags, mode) })\n\t}\n\treturn simRealopenat(dirfd, path, flags, mode)\n}\n\nfunc simRealopenat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n"},
	{"syscall/zsyscall_linux_amd64.go", "func read(fd int, p []byte) (n int, err error) {\n", "func read(fd int, p []byte) (n int, err error) {\n\tif SimDisk != nil {\n\t\treturn SimDisk.Read(fd, p, func(p []byte) (int, error) { return simRealread(fd, p) })\n\t}\n\treturn simRealread(fd, p)\n}\n\nfunc simRealread(fd int, p []byte) (n int, err error) {\n"},
	{"syscall/zsyscall_linux_amd64.go", "func write(fd int, p []byte) (n int, err error) {\n", "func write(fd int, p []byte) (n int, err error) {\n\tif SimDisk != nil {\n\t\treturn SimDisk.Write(fd, p, -1, func(p []byte) (int, error) { return simRealwrite(fd, p) })\n\t}\n\treturn simRealwrite(fd, p)\n}\n\nfunc simRealwrite(fd int, p []byte) (n int, err error) {\n"},
	{"syscall/zsyscall_linux_amd64.go", "func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n", "func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n\tif SimDisk != nil {\n\t\treturn SimDisk.Write(fd, p, offset, func(p []byte) (int, error) { return simRealpwrite(fd, p, offset) })\n\t}\n\treturn simRealpwrite(fd, p, offset)\n}\n\nfunc simRealpwrite(fd int, p []byte, offset int64) (n int, err error) {\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Fsync(fd int) (err error) {\n", "func Fsync(fd int) (err error) {\n\tif SimDisk != nil {\n\t\treturn SimDisk.Sync(fd, func() error { return simRealFsync(fd) })\n\t}\n\treturn simRealFsync(fd)\n}\n\nfunc simRealFsync(fd int) (err error) {\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Fdatasync(fd int) (err error) {\n", "func Fdatasync(fd int) (err error) {\n\tif SimDisk != nil {\n\t\treturn SimDisk.Sync(fd, func() error { return simRealFdatasync(fd) })\n\t}\n\treturn simRealFdatasync(fd)\n}\n\nfunc simRealFdatasync(fd int) (err error) {\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n\tif SimDisk != nil {\n\t\treturn SimDisk.Close(fd, func() error { return simRealClose(fd) })\n\t}\n\treturn simRealClose(fd)\n}\n\nfunc simRealClose(fd int) (err error) {\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Ftruncate(fd int, length int64) (err error) {\n", "func Ftruncate(fd int, length int64) (err error) {\n\tif SimDisk != nil {\n\t\treturn SimDisk.Truncate(fd, length, func() error { return simRealFtruncate(fd, length) })\n\t}\n\treturn simRealFtruncate(fd, length)\n}\n\nfunc simRealFtruncate(fd int, length int64) (err error) {\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n", "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n\tif SimDisk != nil {\n\t\treturn SimDisk.Rename(oldpath, newpath, func() error { return simRealRenameat(olddirfd, oldpath, newdirfd, newpath) })\n\t}\n\treturn simRealRenameat(olddirfd, oldpath, newdirfd, newpath)\n}\n\nfunc simRealRenameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n"},
	{"syscall/zsyscall_linux_amd64.go", "func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {\n", "func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {\n\tif SimDisk != nil {\n\t\treturn SimDisk.Link(oldpath, newpath, func() error { return simReallinkat(olddirfd, oldpath, newdirfd, newpath, flags) })\n\t}\n\treturn simReallinkat(olddirfd, oldpath, newdirfd, newpath, flags)\n}\n\nfunc simReallinkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {\n"},
	{"syscall/zsyscall_linux_amd64.go", "func unlinkat(dirfd int, path string, flags int) (err error) {\n", "func unlinkat(dirfd int, path string, flags int) (err error) {\n\tif SimDisk != nil {\n\t\treturn SimDisk.Unlink(path, func() error { return simRealunlinkat(dirfd, path, flags) })\n\t}\n\treturn simRealunlinkat(dirfd, path, flags)\n}\n\nfunc simRealunlinkat(dirfd int, path string, flags int) (err error) {\n"},
	{"internal/poll/copy_file_range_linux.go", "	return unix.KernelVersionGE(5, 3)\n", "	return unix.KernelVersionGE(1000, 3)\n"},
	// ---- network: dial and listen go to the simulated network
	{"net/dial.go", "	ctx, cancel := d.dialCtx(ctx)\n	defer cancel()\n\n	// Shadow", "	if SimDial != nil {\n		return SimDial(ctx, network, address, d.Timeout)\n	}\n	ctx, cancel := d.dialCtx(ctx)\n	defer cancel()\n\n	// Shadow"},
	{"net/dial.go", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "// SimDial and SimListen, when set, replace the operating system's network.\nvar SimDial func(ctx context.Context, network, address string, timeout time.Duration) (Conn, error)\nvar SimListen func(network, address string) (Listener, error)\n\nfunc (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil {\n		return SimListen(network, address)\n	}\n"},
}

// modPatches are edits of dependencies, made where the anchor is found.
var modPatches = []struct{ module, file, old, new string }{
	{"github.com/rfjakob/eme", "eme.go", "func (e *EMECipher) Decrypt(tweak []byte, inputData []byte) []byte {\n", "func (e *EMECipher) Decrypt(tweak []byte, inputData []byte) []byte {\n	if syscall.SimName != nil {\n		syscall.SimName(tweak, inputData)\n	}\n"},
	{"github.com/rfjakob/eme", "eme.go", "	\"log\"\n", "	\"log\"\n	\"syscall\"\n"},
}

// patchModules replaces dependencies with patched copies, in the module file
// in dir. Without a patch the run sees less but goes on.
func patchModules(repo, dir string) error {
	gomod := filepath.Join(dir, "go.mod")
	for _, p := range modPatches {
		cmd := exec.Command("go", "list", "-m", "-modfile", gomod, "-f", "{{.Dir}}", p.module)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
		out, err := cmd.Output()
		src := strings.TrimSpace(string(out))
		if err != nil || src == "" {
			continue
		}
		dst := filepath.Join(dir, "mods", p.module)
		if src != dst {
			files, err := filepath.Glob(filepath.Join(src, "*"))
			if err != nil {
				return err
			}
			if err := os.MkdirAll(dst, 0o755); err != nil {
				return err
			}
			mod := []byte("module " + p.module + "\n")
			for _, f := range files {
				b, err := os.ReadFile(f)
				if err != nil || strings.HasSuffix(f, "_test.go") {
					continue // a directory
				}
				if filepath.Base(f) == "go.mod" {
					mod = b
					continue
				}
				if err := os.WriteFile(filepath.Join(dst, filepath.Base(f)), b, 0o644); err != nil {
					return err
				}
			}
			if err := os.WriteFile(filepath.Join(dst, "go.mod"), mod, 0o644); err != nil {
				return err
			}
			cmd := exec.Command("go", "mod", "edit", "-replace", p.module+"="+dst, gomod)
			if out, err := cmd.CombinedOutput(); err != nil {
				return fmt.Errorf("go mod edit: %v\n%s", err, out)
			}
		}
		f := filepath.Join(dst, p.file)
		b, err := os.ReadFile(f)
		if err != nil || strings.Count(string(b), p.old) != 1 {
			continue
		}
		if err := os.WriteFile(f, []byte(strings.Replace(string(b), p.old, p.new, 1)), 0o644); err != nil {
			return err
		}
	}
	return nil
}

type overlayFile struct{ Replace map[string]string }

func (o *overlayFile) add(dst, src string) { o.Replace[dst] = src }

// stdOverlay writes the patched standard library files under dir.
func stdOverlay(goroot, verif, dir string, ov *overlayFile) error {
	files := map[string]string{}
	for _, p := range stdPatches {
		s, ok := files[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
			if err != nil {
				return err
			}
			s = string(b)
		}
		if n := strings.Count(s, p.old); n != 1 {
			return fmt.Errorf("overlay anchor in %s occurs %d times: %q", p.file, n, p.old)
		}
		files[p.file] = strings.Replace(s, p.old, p.new, 1)
	}
	for f, s := range files {
		dst := filepath.Join(dir, "std", f)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
			return err
		}
		ov.add(filepath.Join(goroot, "src", f), dst)
	}
	ov.add(filepath.Join(goroot, "src/runtime/zz_sim.go"), filepath.Join(verif, "overlay/zz_sim.go"))
	ov.add(filepath.Join(goroot, "src/syscall/zz_sim.go"), filepath.Join(verif, "overlay/zz_syscall.go"))
	return nil
}

func (o *overlayFile) write(path string) error {
	b, err := json.MarshalIndent(o, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}
