//go:build go1.21

package main

import (
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
)

// The simulated disk. Files under root are kept by the real file system; every
// call is seen first, may be failed, shortened or delayed, and is recorded, so
// that the states a crash may leave behind can be built from the record.

type dop struct {
	kind string // create, write, trunc, sync, rename, link, unlink
	ino  int
	name string
	to   string
	off  int64
	data []byte
	n    int64
}

type dfd struct {
	ino   int
	path  string
	off   int64
	app   bool
	dirty bool
}

type simDisk struct {
	e      *Env
	roots  []string // the directories that are simulated
	skip   string   // harness files
	fds    map[int]*dfd
	inoOf  map[string]int
	nino   int
	log    []dop
	failed map[string]int            // injected failures per call
	faulty func(op, path string) int // 0 or the fault to inject
	seen   int                       // calls
}

func newSimDisk(e *Env, roots ...string) *simDisk {
	return &simDisk{e: e, roots: roots, fds: map[int]*dfd{}, inoOf: map[string]int{}, failed: map[string]int{}}
}

func (d *simDisk) on() { syscall.SimDisk = d }

func (d *simDisk) off() { syscall.SimDisk = nil }

func (d *simDisk) mine(p string) bool {
	if d.skip != "" && strings.HasPrefix(p, d.skip) {
		return false
	}
	for _, r := range d.roots {
		if p == r || strings.HasPrefix(p, r+"/") {
			return true
		}
	}
	return false
}

// inject decides whether this call fails.
func (d *simDisk) inject(op, path string) (error, int) {
	d.seen++
	if d.faulty == nil {
		return nil, 0
	}
	k := d.faulty(op, path)
	if k == 0 {
		return nil, 0
	}
	errs := map[string][]error{
		"open":   {syscall.EMFILE, syscall.ENOSPC, syscall.EIO, syscall.EROFS, syscall.EACCES},
		"read":   {syscall.EIO},
		"write":  {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT},
		"sync":   {syscall.EIO, syscall.ENOSPC},
		"close":  {syscall.EIO, syscall.ENOSPC},
		"rename": {syscall.EIO, syscall.ENOSPC, syscall.EROFS},
		"link":   {syscall.EIO, syscall.ENOSPC},
		"unlink": {syscall.EIO, syscall.EROFS},
		"trunc":  {syscall.EIO},
	}[op]
	if k < 0 { // only shorten
		d.e.fault("disk-short-" + op)
		return nil, -k
	}
	d.failed[op]++
	d.failed[op+" "+path]++
	d.e.fault("disk-" + op + "-error")
	return errs[k%len(errs)], k
}

func (d *simDisk) Open(path string, flags int, real func() (int, error)) (int, error) {
	if !d.mine(path) {
		return real()
	}
	if err, _ := d.inject("open", path); err != nil {
		return -1, err
	}
	_, serr := os.Lstat(path)
	fd, err := real()
	if err != nil {
		return fd, err
	}
	ino := d.inoOf[path]
	if serr != nil { // created
		d.nino++
		ino = d.nino
		d.inoOf[path] = ino
		d.log = append(d.log, dop{kind: "create", ino: ino, name: path})
	} else if ino == 0 {
		d.nino++
		ino = d.nino
		d.inoOf[path] = ino
	}
	if serr == nil && flags&syscall.O_TRUNC != 0 {
		d.log = append(d.log, dop{kind: "trunc", ino: ino})
	}
	d.fds[fd] = &dfd{ino: ino, path: path, app: flags&syscall.O_APPEND != 0}
	return fd, nil
}

func (d *simDisk) Read(fd int, p []byte, real func([]byte) (int, error)) (int, error) {
	f := d.fds[fd]
	if f == nil || len(p) == 0 {
		return real(p)
	}
	err, k := d.inject("read", f.path)
	if err != nil {
		return -1, err
	}
	if k > 0 && len(p) > 1 {
		p = p[:1+k%(len(p)-1)]
	}
	if f.path == "/dev/random" {
		for i := range p {
			p[i] = byte(runtime.SimRand())
		}
		return len(p), nil
	}
	n, err := real(p)
	if n > 0 {
		f.off += int64(n)
	}
	return n, err
}

func (d *simDisk) Write(fd int, p []byte, off int64, real func([]byte) (int, error)) (int, error) {
	f := d.fds[fd]
	if f == nil || len(p) == 0 {
		return real(p)
	}
	err, k := d.inject("write", f.path)
	part := p
	if err != nil {
		if k%2 == 0 || len(p) < 2 {
			return -1, err
		}
		part = p[:1+(k/2)%(len(p)-1)] // what fitted is on the disk, the next write fails
	} else if k > 0 && len(p) > 1 {
		part = p[:1+k%(len(p)-1)]
	}
	n, rerr := real(part)
	if n > 0 {
		at := off
		if off < 0 {
			at = f.off
			if f.app {
				if fi, serr := os.Lstat(f.path); serr == nil {
					at = fi.Size() - int64(n)
				}
			}
			f.off = at + int64(n)
		}
		d.log = append(d.log, dop{kind: "write", ino: f.ino, off: at, data: append([]byte{}, part[:n]...)})
	}
	if err != nil {
		if n > 0 {
			// report the short write now; poll.FD.Write tries again
			prev := d.faulty
			d.faulty = func(op, path string) int {
				if op == "write" && path == f.path {
					d.faulty = prev
					return 2 * (k / 2)
				}
				if prev == nil {
					return 0
				}
				return prev(op, path)
			}
			return n, nil
		}
		return -1, err
	}
	return n, rerr
}

func (d *simDisk) Sync(fd int, real func() error) error {
	f := d.fds[fd]
	if f == nil {
		return real()
	}
	if err, _ := d.inject("sync", f.path); err != nil {
		return err
	}
	// Nothing of it needs the real disk.
	d.log = append(d.log, dop{kind: "sync", ino: f.ino, name: f.path})
	return nil
}

func (d *simDisk) Close(fd int, real func() error) error {
	f := d.fds[fd]
	if f == nil {
		return real()
	}
	delete(d.fds, fd)
	err, _ := d.inject("close", f.path)
	if rerr := real(); err == nil {
		err = rerr
	}
	return err
}

func (d *simDisk) Truncate(fd int, n int64, real func() error) error {
	f := d.fds[fd]
	if f == nil {
		return real()
	}
	if err, _ := d.inject("trunc", f.path); err != nil {
		return err
	}
	err := real()
	if err == nil {
		d.log = append(d.log, dop{kind: "trunc", ino: f.ino, n: n})
	}
	return err
}

func (d *simDisk) ino(p string) int {
	if d.inoOf[p] == 0 {
		d.nino++
		d.inoOf[p] = d.nino
	}
	return d.inoOf[p]
}

func (d *simDisk) Rename(from, to string, real func() error) error {
	if !d.mine(from) && !d.mine(to) {
		return real()
	}
	if err, _ := d.inject("rename", from); err != nil {
		return err
	}
	err := real()
	if err == nil {
		i := d.ino(from)
		d.log = append(d.log, dop{kind: "rename", ino: i, name: from, to: to})
		delete(d.inoOf, from)
		d.inoOf[to] = i
	}
	return err
}

func (d *simDisk) Link(from, to string, real func() error) error {
	if !d.mine(from) && !d.mine(to) {
		return real()
	}
	if err, _ := d.inject("link", from); err != nil {
		return err
	}
	err := real()
	if err == nil {
		i := d.ino(from)
		d.log = append(d.log, dop{kind: "link", ino: i, name: from, to: to})
		d.inoOf[to] = i
	}
	return err
}

func (d *simDisk) Unlink(path string, real func() error) error {
	if !d.mine(path) {
		return real()
	}
	if err, _ := d.inject("unlink", path); err != nil {
		return err
	}
	err := real()
	if err == nil {
		d.log = append(d.log, dop{kind: "unlink", name: path})
		delete(d.inoOf, path)
	}
	return err
}

// image is the state of the simulated directories.
type image struct {
	names map[string]int
	data  map[int][]byte
}

// snapshot takes the present files as what is safely on the disk and forgets
// the record.
func (d *simDisk) snapshot() *image {
	im := &image{names: map[string]int{}, data: map[int][]byte{}}
	for _, r := range d.roots {
		_ = filepath.Walk(r, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() && d.mine(p) {
				i := d.ino(p)
				im.names[p] = i
				b, _ := os.ReadFile(p)
				im.data[i] = b
			}
			return nil
		})
	}
	d.log = nil
	return im
}

// crash builds a state the disk may be in after a crash at the point where the
// first k recorded calls have returned: changes of names survive in order, as
// a journal keeps them, all of them up to the last sync at least; of data that
// was not synced anything may be there. The choices are r's.
func (d *simDisk) crash(base *image, k int, r *Rand) *image {
	im := &image{names: map[string]int{}, data: map[int][]byte{}}
	for n, i := range base.names {
		im.names[n] = i
	}
	for i, b := range base.data {
		im.data[i] = append([]byte{}, b...)
	}
	min := 0
	for i := 0; i < k; i++ {
		if d.log[i].kind == "sync" {
			min = i
		}
	}
	meta := min + r.N(k-min+1) // names up to here
	synced := map[int]int{}
	for i := 0; i < k; i++ {
		if d.log[i].kind == "sync" {
			synced[d.log[i].ino] = i + 1
		}
	}
	mode := map[int]int{}
	for i := 0; i < k; i++ {
		o := d.log[i]
		switch o.kind {
		case "create":
			if _, ok := im.data[o.ino]; !ok {
				im.data[o.ino] = []byte{}
			}
			if i < meta || i < synced[o.ino] {
				im.names[o.name] = o.ino
			}
		case "link":
			if i < meta {
				im.names[o.to] = o.ino
			}
		case "rename":
			if i < meta {
				delete(im.names, o.name)
				im.names[o.to] = o.ino
			}
		case "unlink":
			if i < meta {
				delete(im.names, o.name)
			}
		case "trunc":
			if i < meta || i < synced[o.ino] {
				b := im.data[o.ino]
				if int64(len(b)) > o.n {
					b = b[:o.n]
				}
				for int64(len(b)) < o.n {
					b = append(b, 0)
				}
				im.data[o.ino] = b
			}
		case "write":
			m, ok := mode[o.ino]
			if !ok {
				m = r.N(6)
				mode[o.ino] = m
			}
			data := o.data
			if i >= synced[o.ino] {
				data = append([]byte{}, data...)
				switch m {
				case 0: // lost
					continue
				case 1: // all there
				case 2: // torn
					data = data[:r.N(len(data)+1)]
				case 3: // the length is there, the data is not
					for j := range data {
						data[j] = 0
					}
				case 4: // some sectors are there
					for j := 0; j < len(data); j += 512 {
						if r.P(50) {
							for x := j; x < j+512 && x < len(data); x++ {
								data[x] = 0
							}
						}
					}
				case 5: // torn at a sector
					data = data[:len(data)/512*512]
				}
			}
			b := im.data[o.ino]
			for int64(len(b)) < o.off+int64(len(data)) {
				b = append(b, 0)
			}
			copy(b[o.off:], data)
			im.data[o.ino] = b
		}
	}
	return im
}
