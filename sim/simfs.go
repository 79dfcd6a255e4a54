//go:build go1.21

package main

import (
	"errors"
	"io"
	"os"
	"path"
	"strings"
	"syscall"
	"time"
)

// fetch is one call that reached the simulated remote store.
type fetch struct {
	obj        string // "F path", "D path" or "S path"
	start, end uint64 // event numbers; end 0 while in flight
	endT       int64  // idle time of end
	fault      string
}

// overlaps tells whether a request that ran from event start (at idle time
// startT) to event end can have shared this fetch. What the proxy does with a
// reply takes a moment after the reply, but no idle time.
func (f *fetch) overlaps(start, end uint64, startT int64) bool {
	return f.start <= end && (f.end == 0 || f.end >= start || f.endT >= startT)
}

// simFS is the simulated remote store behind the proxy's own storage
// interface (ReadFile, ReadDir, Stat). It serves the vtree, delays calls and
// injects faults, and records everything it is asked for.
type simFS struct {
	e        *Env
	t        *vtree
	inflight map[string]int
	oks      map[string]int
	log      []*fetch
	active   int
	clears   int  // allowed refetches
	once     bool // check the one-fetch rules
	// mutate, when set, may change the content returned for a file.
	mutate    func(c *cnode, data []byte) []byte
	delivered map[string][][]byte // contents handed out per file, when mutate is set
}

func newSimFS(e *Env, t *vtree) *simFS {
	return &simFS{e: e, t: t, inflight: map[string]int{}, oks: map[string]int{}, once: true, delivered: map[string][][]byte{}}
}

var faultErrs = []error{
	errors.New("connection lost"), io.EOF, io.ErrUnexpectedEOF, os.ErrNotExist, syscall.EIO, syscall.EBADMSG,
	errors.New("sftp: \"Failure\" (SSH_FX_FAILURE)"), os.ErrPermission, errors.New(""),
}

// latency passes simulated time the way a remote call would.
func (e *Env) latency() {
	switch e.pick(6, kRemote) {
	case 0:
	case 1:
		time.Sleep(time.Microsecond * 100)
	case 2:
		time.Sleep(time.Millisecond)
	case 3:
		time.Sleep(20 * time.Millisecond)
	case 4:
		time.Sleep(150 * time.Millisecond)
	case 5:
		time.Sleep(time.Duration(1+e.pick(40, kRemote)) * time.Millisecond)
	}
	if e.chance("slow", kRemote) {
		e.fault("slow")
		time.Sleep(time.Duration(1+e.pick(90, kRemote)) * time.Second)
	}
}

func (s *simFS) enter(kind, raw string) *fetch {
	e := s.e
	obj := kind + " " + path.Clean(raw)
	if !s.t.listed(raw) {
		e.violate("C12", "path", "remote asked for %q, which is not made of the root %q and names the remote listed", raw, s.t.root)
	}
	e.seq++
	f := &fetch{obj: obj, start: e.seq}
	s.log = append(s.log, f)
	s.active++
	s.inflight[obj]++
	if kind != "S" && s.once {
		if s.inflight[obj] > 1 && s.clears == 0 {
			e.violate("C05", "inflight", "%d fetches of %q in flight at once", s.inflight[obj], obj)
		}
		if s.oks[obj] > s.clears {
			e.violate("C05", "refetch", "%q fetched again after %d successful fetches (%d clears)", obj, s.oks[obj], s.clears)
		}
	}
	return f
}

func (s *simFS) leave(f *fetch, ok bool) {
	s.e.seq++
	f.end, f.endT = s.e.seq, s.e.idle()
	s.active--
	s.inflight[f.obj]--
	if ok {
		s.oks[f.obj]++
	}
	s.e.note("fetch %s %v", f.obj, ok)
}

// fail decides whether this call fails, and how. The error is raised either
// before or after the delay.
func (s *simFS) fail(f *fetch) (error, bool) {
	if s.e.chance("err", kRemote) {
		s.e.fault("remote-error")
		f.fault = "error"
		return faultErrs[s.e.pick(len(faultErrs), kRemote)], false
	}
	if s.e.chance("partial", kRemote) {
		s.e.fault("partial-data-with-error")
		f.fault = "partial"
		return faultErrs[s.e.pick(len(faultErrs), kRemote)], true
	}
	return nil, false
}

func (s *simFS) ReadFile(raw string) ([]byte, error) {
	f := s.enter("F", raw)
	s.e.latency()
	if err, partial := s.fail(f); err != nil {
		s.leave(f, false)
		if c := s.t.c[path.Clean(raw)]; partial && c != nil && len(c.data) > 0 {
			return append([]byte{}, c.data[:s.e.pick(len(c.data), kRemote)]...), err
		}
		return nil, err
	}
	c := s.t.c[path.Clean(raw)]
	if c == nil || c.dir || !c.Mode().IsRegular() {
		s.leave(f, false)
		return nil, os.ErrNotExist
	}
	d := append([]byte{}, c.data...)
	if s.mutate != nil {
		d = s.mutate(c, d)
		s.delivered[c.path] = append(s.delivered[c.path], append([]byte{}, d...))
	}
	s.leave(f, true)
	if len(d) == 0 && s.e.pick(2, kRemote) == 0 {
		return nil, nil
	}
	return d, nil
}

func (s *simFS) ReadDir(raw string) ([]os.FileInfo, error) {
	f := s.enter("D", raw)
	s.e.latency()
	c := s.t.c[path.Clean(raw)]
	var l []os.FileInfo
	if c != nil {
		for _, k := range c.kids {
			l = append(l, k)
		}
	}
	if err, partial := s.fail(f); err != nil {
		s.leave(f, false)
		if partial && len(l) > 0 {
			return l[:s.e.pick(len(l), kRemote)], err
		}
		return nil, err
	}
	if c == nil || !c.dir {
		s.leave(f, false)
		return nil, os.ErrNotExist
	}
	s.leave(f, true)
	return l, nil
}

func (s *simFS) Stat(raw string) (os.FileInfo, error) {
	f := s.enter("S", raw)
	s.e.latency()
	if err, _ := s.fail(f); err != nil {
		f.fault = "error"
		s.leave(f, false)
		return nil, err
	}
	c := s.t.c[path.Clean(raw)]
	if c == nil || c.mode&os.ModeSymlink != 0 { // followed
		s.leave(f, false)
		return nil, os.ErrNotExist
	}
	s.leave(f, true)
	return c, nil
}

// faulted reports whether a faulted call on one of objs overlapped [start,end].
func (s *simFS) faulted(objs []string, start, end uint64, startT int64) bool {
	for _, f := range s.log {
		if f.fault == "" || !f.overlaps(start, end, startT) {
			continue
		}
		for _, o := range objs {
			if f.obj == o {
				return true
			}
		}
	}
	return false
}

// anyFault reports whether any call at all was faulted in or before [..end].
func (s *simFS) anyFault() bool {
	for _, f := range s.log {
		if f.fault != "" {
			return true
		}
	}
	return false
}

// drain waits until no remote call is in flight.
func (s *simFS) drain() {
	for i := 0; s.active > 0 && i < 100000; i++ {
		time.Sleep(100 * time.Millisecond)
	}
}

func shortPath(p string) string {
	if len(p) > 60 {
		return p[:28] + "..." + p[len(p)-28:]
	}
	return p
}

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", "\\n") }
