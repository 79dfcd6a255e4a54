//go:build go1.21

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"syscall"
	"unicode"
	"unicode/utf8"
)

// The watch sees every write the process makes, to its output, its log or a
// local file, and every error it reports to a client, and looks for secrets.

type disk interface {
	Open(path string, flags int, real func() (int, error)) (int, error)
	Read(fd int, p []byte, real func([]byte) (int, error)) (int, error)
	Write(fd int, p []byte, off int64, real func([]byte) (int, error)) (int, error)
	Sync(fd int, real func() error) error
	Close(fd int, real func() error) error
	Truncate(fd int, n int64, real func() error) error
	Rename(from, to string, real func() error) error
	Link(from, to string, real func() error) error
	Unlink(path string, real func() error) error
}

type needle struct {
	what  string
	plain bool // content of files: only clients may see it
	raw   []byte
	forms [][]byte
}

type watch struct {
	e     *Env
	inner disk
	list  []*needle
	names map[int]string
	tail  map[int][]byte
	mute  int
	all   []byte // everything written
}

func newWatch(e *Env) *watch {
	return &watch{e: e, names: map[int]string{}, tail: map[int][]byte{}}
}

func (w *watch) on()  { syscall.SimDisk = w }
func (w *watch) off() { syscall.SimDisk = nil }

// forms are the ways in which Go programs usually print bytes.
func forms(b []byte) [][]byte {
	add := [][]byte{b}
	put := func(s string) { add = append(add, []byte(s)) }
	put(hex.EncodeToString(b))
	put(strings.ToUpper(hex.EncodeToString(b)))
	short := b
	if len(short) > 8 {
		short = short[:8]
	}
	put(fmt.Sprintf("% x", short))
	put(fmt.Sprintf("% X", short))
	put(strings.Trim(fmt.Sprintf("%c", short), "[]"))
	if utf8.Valid(short) {
		put(strings.Trim(fmt.Sprintf("%q", []rune(string(short))), "[]"))
		put(strings.Trim(fmt.Sprintf("%U", []rune(string(short))), "[]"))
	}
	put(strings.Trim(fmt.Sprintf("%o", short), "[]"))
	put(strings.Trim(fmt.Sprintf("%b", short), "[]"))
	put(strings.Trim(fmt.Sprint(short), "[]"))
	put(strings.Join(strings.Fields(strings.Trim(fmt.Sprint(short), "[]")), ","))
	put(strings.Join(strings.Fields(strings.Trim(fmt.Sprint(short), "[]")), ", "))
	g := fmt.Sprintf("%#v", short)
	put(g[strings.IndexByte(g, '{')+1 : len(g)-1])
	put(strings.Trim(strconv.Quote(string(b)), `"`))
	put(strings.Trim(strconv.QuoteToASCII(string(b)), `"`))
	k := len(b) / 3 * 3 // what comes after it does not matter
	put(base64.StdEncoding.EncodeToString(b[:k]))
	put(base64.URLEncoding.EncodeToString(b[:k]))
	if len(b) >= 10 { // in the middle of something that is encoded as a whole
		for off := 1; off < 3; off++ {
			m := append(make([]byte, off), b...)
			m = m[:len(m)/3*3]
			put(base64.StdEncoding.EncodeToString(m)[4:])
			put(base64.URLEncoding.EncodeToString(m)[4:])
		}
	}
	if js, err := json.Marshal(string(b)); err == nil && utf8.Valid(b) {
		put(strings.Trim(string(js), `"`))
	}
	put(url.QueryEscape(string(b)))
	if len(b) >= 12 {
		put(fmt.Sprintf("%x-%x", b[:4], b[4:8]))
	}
	return add
}

// secret adds something to look for, if it is distinctive enough.
func (w *watch) secret(what string, b []byte, plain bool) {
	if len(b) < 6 || distinct(b) < 6 {
		return
	}
	for _, n := range w.list {
		if bytes.Equal(n.raw, b) {
			return
		}
	}
	w.list = append(w.list, &needle{what, plain, append([]byte{}, b...), forms(b)})
}

// late adds a secret that was not known before, and looks for it in what has
// been written already.
func (w *watch) late(what string, b []byte) {
	k := len(w.list)
	w.secret(what, b, false)
	if len(w.list) == k {
		return
	}
	if s := w.scan(w.all, false); s != "" {
		w.e.violate("C22", "written", "%s was written to the output or a local file", s)
	}
}

// known says that the proxy may print s.
func (w *watch) known(s string) {
	var keep []*needle
	word := func(s string) string { // however it is quoted or padded
		return strings.Map(func(r rune) rune {
			if unicode.IsLetter(r) || unicode.IsDigit(r) {
				return r
			}
			return -1
		}, s)
	}
	for _, n := range w.list {
		if k := word(string(n.raw)); len(k) >= 5 && strings.Contains(word(s), k) || strings.Contains(s, string(n.raw)) {
			continue
		}
		keep = append(keep, n)
	}
	w.list = keep
}

func (w *watch) scan(b []byte, toClient bool) string {
	for i, n := range w.list {
		if n.plain && toClient {
			continue
		}
		for _, f := range n.forms {
			if bytes.Contains(b, f) {
				w.list = append(w.list[:i:i], w.list[i+1:]...)
				return n.what + fmt.Sprintf(" (%.60q)", f)
			}
		}
	}
	return ""
}

// told looks at what a client is told.
func (w *watch) told(err error) {
	if w == nil || err == nil || w.mute > 0 || w.e.done {
		return
	}
	if s := w.scan([]byte(err.Error()), true); s != "" {
		w.e.violate("C22", "told", "%s is in what a client is told: %.300q", s, err.Error())
	}
}

func (w *watch) Open(path string, flags int, real func() (int, error)) (int, error) {
	var fd int
	var err error
	if w.inner != nil {
		fd, err = w.inner.Open(path, flags, real)
	} else {
		fd, err = real()
	}
	if err == nil {
		w.names[fd] = path
		delete(w.tail, fd)
	}
	return fd, err
}

func (w *watch) Read(fd int, p []byte, real func([]byte) (int, error)) (int, error) {
	if w.inner != nil {
		return w.inner.Read(fd, p, real)
	}
	return real(p)
}

func (w *watch) Write(fd int, p []byte, off int64, real func([]byte) (int, error)) (int, error) {
	if w.mute == 0 && !w.e.done && len(p) > 0 {
		b := append(w.tail[fd], p...)
		where := w.names[fd]
		if where == "" || where == "/dev/null" { // the harness' replacement of the standard streams
			where = "the output or log"
		} else {
			where = "the local file " + where
		}
		w.e.probe("watched-write")
		if len(w.all) < 1<<20 {
			w.all = append(w.all, p...)
		}
		if s := w.scan(b, false); s != "" {
			at := b
			if len(at) > 300 {
				at = at[:300]
			}
			w.e.violate("C22", "written", "%s is written to %s: %q", s, where, at)
		}
		if len(b) > 2048 {
			b = b[len(b)-2048:]
		}
		w.tail[fd] = append([]byte{}, b...)
	}
	if w.inner != nil {
		return w.inner.Write(fd, p, off, real)
	}
	return real(p)
}

func (w *watch) Sync(fd int, real func() error) error {
	if w.inner != nil {
		return w.inner.Sync(fd, real)
	}
	return real()
}

func (w *watch) Close(fd int, real func() error) error {
	delete(w.names, fd)
	delete(w.tail, fd)
	if w.inner != nil {
		return w.inner.Close(fd, real)
	}
	return real()
}

func (w *watch) Truncate(fd int, n int64, real func() error) error {
	if w.inner != nil {
		return w.inner.Truncate(fd, n, real)
	}
	return real()
}

func (w *watch) Rename(from, to string, real func() error) error {
	if w.inner != nil {
		return w.inner.Rename(from, to, real)
	}
	return real()
}

func (w *watch) Link(from, to string, real func() error) error {
	if w.inner != nil {
		return w.inner.Link(from, to, real)
	}
	return real()
}

func (w *watch) Unlink(path string, real func() error) error {
	if w.inner != nil {
		return w.inner.Unlink(path, real)
	}
	return real()
}

func distinct(b []byte) int {
	m := map[byte]bool{}
	for _, c := range b {
		m[c] = true
	}
	return len(m)
}
