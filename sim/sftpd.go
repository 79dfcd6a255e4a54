//go:build go1.21

package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/ssh"
)

// sftpd is the remote host: an SSH server (x/crypto) with an SFTP subsystem
// written for this simulator, which serves a vtree, misbehaves as told and
// records everything it is sent.
type sftpd struct {
	e       *Env
	n       *simNet
	t       *vtree
	addr    string
	key     *hostKey
	user    *hostKey // the only client key accepted
	name    string   // the only user accepted
	anyName bool     // so not
	ln      net.Listener

	par      bool // answer requests out of order
	sessions []*srvSess
	handles  map[string]*srvHandle
	nh       int
	badPath  bool                                 // check C12
	windows  map[int][]pktRec                     // link -> packets in order
	log      []*fetch                             // requests that were faulted
	gate     func(s *srvSess, typ byte, p string) // called before a request is answered
	fetches  map[string]int                       // opens in flight per object
	okOpens  map[string]int
	mutants  int
	logins   int
	twist    func(s *srvSess, typ byte, p string, reply []byte) []byte // hostile replies
	wrongKey *hostKey                                                  // presented instead of the right host key
	needles  map[string][]byte                                         // what must never reach the remote
}

type pktRec struct {
	path string
	typ  byte
	seq  uint64
}

type srvSess struct {
	d    *sftpd
	link *simLink
	ch   ssh.Channel
	conn *ssh.ServerConn
	dead bool
	open map[string]*srvHandle
	mu   sync.Mutex // one packet at a time
}

type srvHandle struct {
	id   string
	raw  string
	c    *cnode
	dir  bool
	pos  int
	sess *srvSess
}

// hostKey is an ECDSA key made from a number.
type hostKey struct {
	priv   *ecdsa.PrivateKey
	signer ssh.Signer
	pem    []byte
}

func newHostKey(n int64) *hostKey {
	c := elliptic.P256()
	d := new(big.Int).Add(big.NewInt(n), new(big.Int).Lsh(big.NewInt(0x5eed), 200))
	k := &ecdsa.PrivateKey{D: d}
	k.PublicKey.Curve = c
	k.PublicKey.X, k.PublicKey.Y = c.ScalarBaseMult(d.Bytes())
	s, err := ssh.NewSignerFromKey(k)
	if err != nil {
		panic("harness: " + err.Error())
	}
	b, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &hostKey{k, s, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b})}
}

func newSftpd(e *Env, n *simNet, t *vtree, addr string) *sftpd {
	return &sftpd{e: e, n: n, t: t, addr: addr, key: newHostKey(1), user: newHostKey(2), name: "remoteuser",
		handles: map[string]*srvHandle{}, windows: map[int][]pktRec{}, fetches: map[string]int{}, okOpens: map[string]int{}}
}

func (d *sftpd) start() {
	if d.ln != nil {
		return
	}
	ln, err := d.n.listen(d.addr)
	if err != nil {
		panic("harness: " + err.Error())
	}
	d.ln = ln
	d.n.refuse[d.addr] = false
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go d.serveConn(c.(*simConn))
		}
	}()
}

// stop crashes the host.
func (d *sftpd) stop() {
	if d.ln != nil {
		d.ln.Close()
		d.ln = nil
	}
	d.n.crash(d.addr)
}

func (d *sftpd) serveConn(c *simConn) {
	key := d.key
	if d.wrongKey != nil {
		key = d.wrongKey
		d.e.fault("wrong-host-key")
	}
	cfg := &ssh.ServerConfig{
		PasswordCallback: func(m ssh.ConnMetadata, pw []byte) (*ssh.Permissions, error) {
			d.e.violate("C12", "password", "the remote was offered a password: %q", pw)
			return nil, fmt.Errorf("no")
		},
		KeyboardInteractiveCallback: func(m ssh.ConnMetadata, ask ssh.KeyboardInteractiveChallenge) (*ssh.Permissions, error) {
			a, err := ask(m.User(), "", []string{"Password: "}, []bool{false})
			if err == nil && len(a) > 0 && a[0] != "" {
				d.e.violate("C12", "password", "the remote was offered a password: %q", a[0])
			}
			return nil, fmt.Errorf("no")
		},
		PublicKeyCallback: func(m ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {
			if key != d.key {
				d.e.violate("C16", "imposter", "the proxy logs in at a remote whose host key is not in the known hosts file")
			}
			d.scan([]byte(m.User()), "user name")
			d.scan(m.ClientVersion(), "version of the SSH client")
			if d.e.chance("auth-refuse", kNet) {
				d.e.fault("login-refused")
				return nil, fmt.Errorf("no")
			}
			if (m.User() == d.name || d.anyName) && string(k.Marshal()) == string(d.user.signer.PublicKey().Marshal()) {
				return nil, nil
			}
			return nil, fmt.Errorf("no")
		},
	}
	cfg.AddHostKey(key.signer)
	if d.e.chance("no-handshake", kNet) {
		d.e.fault("server-closes-before-handshake")
		c.Close()
		return
	}
	sc, chans, reqs, err := ssh.NewServerConn(c, cfg)
	if err != nil {
		c.Close()
		return
	}
	d.logins++
	go ssh.DiscardRequests(reqs)
	for nc := range chans {
		if nc.ChannelType() != "session" {
			_ = nc.Reject(ssh.UnknownChannelType, "")
			continue
		}
		if d.e.chance("no-session", kNet) {
			d.e.fault("session-refused")
			_ = nc.Reject(ssh.ResourceShortage, "no more sessions")
			continue
		}
		ch, rq, err := nc.Accept()
		if err != nil {
			continue
		}
		s := &srvSess{d: d, link: c.l, ch: ch, conn: sc, open: map[string]*srvHandle{}}
		d.sessions = append(d.sessions, s)
		go func() {
			for r := range rq {
				ok := r.Type == "subsystem" && len(r.Payload) > 4 && string(r.Payload[4:]) == "sftp"
				d.scan(r.Payload, "request "+r.Type)
				if r.Type == "exec" || r.Type == "shell" {
					d.e.violate("C11", "exec", "the remote was asked for a %s: %q", r.Type, r.Payload)
				}
				if ok && d.e.chance("no-subsystem", kNet) {
					d.e.fault("subsystem-refused")
					ok = false
				}
				_ = r.Reply(ok, nil)
				if ok {
					go s.serve()
				} else {
					ch.Close()
				}
			}
			s.end()
		}()
	}
	c.Close()
	for _, s := range d.sessions {
		if s.link == c.l {
			s.end()
		}
	}
}

func (s *srvSess) end() {
	s.dead = true
	for _, h := range s.open {
		delete(s.d.handles, h.id)
		s.d.fetches[h.obj()]--
	}
	s.open = map[string]*srvHandle{}
}

func (h *srvHandle) obj() string {
	if h.dir {
		return "D " + path.Clean(h.raw)
	}
	return "F " + path.Clean(h.raw)
}

const (
	fxInit = 1 + iota
	fxVersion
	fxOpen
	fxClose
	fxRead
	fxWrite
	fxLstat
	fxFstat
	fxSetstat
	fxFsetstat
	fxOpendir
	fxReaddir
	fxRemove
	fxMkdir
	fxRmdir
	fxRealpath
	fxStat
	fxRename
	fxReadlink
	fxSymlink

	fxStatus   = 101
	fxHandle   = 102
	fxData     = 103
	fxName     = 104
	fxAttrs    = 105
	fxExtended = 200
)

var fxNames = map[byte]string{fxOpen: "OPEN", fxClose: "CLOSE", fxRead: "READ", fxWrite: "WRITE", fxLstat: "LSTAT", fxFstat: "FSTAT", fxSetstat: "SETSTAT", fxFsetstat: "FSETSTAT", fxOpendir: "OPENDIR", fxReaddir: "READDIR", fxRemove: "REMOVE", fxMkdir: "MKDIR", fxRmdir: "RMDIR", fxRealpath: "REALPATH", fxStat: "STAT", fxRename: "RENAME", fxReadlink: "READLINK", fxSymlink: "SYMLINK", fxExtended: "EXTENDED"}

func getStr(b []byte) (string, []byte, bool) {
	if len(b) < 4 {
		return "", nil, false
	}
	n := binary.BigEndian.Uint32(b)
	b = b[4:]
	if uint64(n) > uint64(len(b)) {
		return "", nil, false
	}
	return string(b[:n]), b[n:], true
}

func putU32(b []byte, v uint32) []byte { return binary.BigEndian.AppendUint32(b, v) }
func putU64(b []byte, v uint64) []byte { return binary.BigEndian.AppendUint64(b, v) }
func putStr(b []byte, s string) []byte { return append(putU32(b, uint32(len(s))), s...) }

func fxStatusPkt(id, code uint32, msg string) []byte {
	b := putU32([]byte{fxStatus}, id)
	b = putU32(b, code)
	b = putStr(b, msg)
	return putStr(b, "")
}

func putAttrs(b []byte, c os.FileInfo) []byte {
	b = putU32(b, 1|2|4|8)
	b = putU64(b, uint64(c.Size()))
	b = putU32(b, 1000)
	b = putU32(b, 1000)
	m := uint32(c.Mode().Perm())
	for i, f := range []os.FileMode{os.ModeSticky, os.ModeSetgid, os.ModeSetuid} {
		if c.Mode()&f != 0 {
			m |= 0o1000 << uint(i)
		}
	}
	switch {
	case c.IsDir():
		m |= 0o040000
	case c.Mode()&os.ModeSymlink != 0:
		m |= 0o120000
	case c.Mode()&os.ModeNamedPipe != 0:
		m |= 0o010000
	case c.Mode()&os.ModeSocket != 0:
		m |= 0o140000
	case c.Mode()&os.ModeCharDevice != 0:
		m |= 0o020000
	case c.Mode()&os.ModeDevice != 0:
		m |= 0o060000
	default:
		m |= 0o100000
	}
	b = putU32(b, m)
	b = putU32(b, uint32(c.ModTime().Unix()))
	return putU32(b, uint32(c.ModTime().Unix()))
}

func (s *srvSess) send(p []byte) {
	if s.dead {
		return
	}
	b := putU32(nil, uint32(len(p)))
	s.mu.Lock()
	_, _ = s.ch.Write(append(b, p...))
	s.mu.Unlock()
}

// sendRaw sends bytes that need not be a packet.
func (s *srvSess) sendRaw(p []byte) { _, _ = s.ch.Write(p) }

// kill ends the SFTP session but not the SSH connection.
func (s *srvSess) kill() {
	if s.dead {
		return
	}
	s.end()
	_ = s.ch.Close()
}

func (s *srvSess) serve() {
	defer s.end()
	var hdr [4]byte
	for {
		if _, err := io.ReadFull(s.ch, hdr[:]); err != nil {
			_ = s.ch.Close()
			return
		}
		n := binary.BigEndian.Uint32(hdr[:])
		if n == 0 || n > 1<<20 {
			_ = s.ch.Close()
			return
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(s.ch, b); err != nil {
			_ = s.ch.Close()
			return
		}
		if s.dead {
			return
		}
		if b[0] == fxInit {
			if s.d.e.chance("sess-die-init", kRemote) {
				s.d.e.fault("session-dies-at-init")
				s.kill()
				return
			}
			s.send(putU32([]byte{fxVersion}, 3))
			continue
		}
		if s.d.par {
			go s.handle(b)
		} else {
			s.handle(b)
		}
	}
}

func (d *sftpd) lat() {
	switch d.e.pick(6, kRemote) {
	case 3:
		time.Sleep(time.Millisecond)
	case 4:
		time.Sleep(10 * time.Millisecond)
	case 5:
		time.Sleep(time.Duration(1+d.e.pick(50, kRemote)) * time.Millisecond)
	}
	if d.e.chance("srv-slow", kRemote) {
		d.e.fault("slow")
		time.Sleep(time.Duration(1+d.e.pick(40, kRemote)) * time.Second)
	}
}

// mark notes that requests for p overlapping this moment may fail.
func (d *sftpd) mark(kind, p string) {
	d.e.seq++
	d.log = append(d.log, &fetch{obj: p, start: d.e.seq, end: d.e.seq, endT: d.e.idle(), fault: kind})
}

func (s *srvSess) handle(b []byte) {
	d, e := s.d, s.d.e
	typ := b[0]
	if len(b) < 5 {
		_ = s.ch.Close()
		return
	}
	id := binary.BigEndian.Uint32(b[1:])
	body := b[5:]
	arg, rest, ok := getStr(body)
	var h *srvHandle
	raw := arg
	switch typ {
	case fxClose, fxRead, fxWrite, fxFstat, fxFsetstat, fxReaddir:
		h = s.open[arg]
		raw = ""
		if h != nil {
			raw = h.raw
		}
	}
	if !ok {
		raw = ""
	}
	e.seq++
	d.windows[s.link.id] = append(d.windows[s.link.id], pktRec{path.Clean(raw), typ, e.seq})
	e.note("srv %d %d %s", s.link.id, typ, raw)
	d.scan(b, "packet "+fxNames[typ])
	if d.badPath {
		switch typ {
		case fxOpen, fxOpendir, fxStat, fxLstat, fxReadlink, fxRealpath:
			if !d.t.listed(raw) {
				e.violate("C12", "path", "remote asked for %q, which is not made of the root %q and names the remote listed", raw, d.t.root)
			}
		}
	}
	bad := ""
	switch typ {
	case fxWrite, fxSetstat, fxFsetstat, fxRemove, fxMkdir, fxRmdir, fxRename, fxSymlink:
		bad = fxNames[typ]
	case fxExtended:
		if !strings.HasPrefix(arg, "statvfs") && !strings.HasPrefix(arg, "fstatvfs") {
			bad = "EXTENDED " + arg
		}
	case fxOpen:
		if len(rest) >= 4 {
			if f := binary.BigEndian.Uint32(rest); f&^1 != 0 {
				bad = fmt.Sprintf("OPEN with flags %#x", f)
			}
		}
	}
	if bad != "" {
		d.mutants++
		e.violate("C11", "mutation", "the remote received %s for %q", bad, raw)
		s.send(fxStatusPkt(id, 3, "permission denied"))
		return
	}
	if d.gate != nil {
		d.gate(s, typ, raw)
	}
	d.lat()
	if s.dead {
		return
	}
	switch {
	case e.chance("conn-rst", kNet):
		e.fault("connection-reset-by-server")
		s.link.reset()
		return
	case e.chance("sess-die", kRemote):
		e.fault("session-dies")
		d.mark("session", path.Clean(raw))
		s.kill()
		return
	case e.chance("sess-die-after", kRemote): // the reply is sent, then the session ends
		e.fault("session-dies-after-reply")
		d.mark("session", path.Clean(raw))
		s.reply(typ, id, raw, h, rest)
		s.kill()
		return
	case e.chance("op-err", kRemote):
		e.fault("error-reply-" + fxNames[typ])
		d.mark("status", path.Clean(raw))
		code := []uint32{4, 3, 2, 5, 8, 6, 7}[e.pick(7, kRemote)]
		if typ == fxRead || typ == fxReaddir { // an early end of file would be a lie, not a failure
			code = []uint32{4, 3, 5, 8, 6, 7}[e.pick(6, kRemote)]
		}
		s.send(fxStatusPkt(id, code, "simulated failure"))
		if typ == fxClose && h != nil {
			s.drop(h)
		}
		return
	}
	s.reply(typ, id, raw, h, rest)
}

// scan looks for secrets among what the proxy sends.
func (d *sftpd) scan(b []byte, where string) {
	for what, n := range d.needles {
		if bytes.Contains(b, n) {
			d.e.violate("C12", "leak", "%s was sent to the remote (%s)", what, where)
			delete(d.needles, what)
			return
		}
	}
}

func (s *srvSess) drop(h *srvHandle) {
	if s.open[h.id] != nil {
		delete(s.open, h.id)
		delete(s.d.handles, h.id)
		s.d.fetches[h.obj()]--
	}
}

func (s *srvSess) reply(typ byte, id uint32, raw string, h *srvHandle, rest []byte) {
	r := s.makeReply(typ, id, raw, h, rest)
	if s.d.twist != nil {
		r = s.d.twist(s, typ, raw, r)
		if r == nil {
			return
		}
	}
	s.send(r)
}

func (s *srvSess) makeReply(typ byte, id uint32, raw string, h *srvHandle, rest []byte) []byte {
	d, e := s.d, s.d.e
	c := d.t.c[path.Clean(raw)]
	noent := fxStatusPkt(id, 2, "no such file")
	switch typ {
	case fxStat, fxLstat:
		if c == nil || typ == fxStat && c.mode&os.ModeSymlink != 0 {
			return noent
		}
		return putAttrs(putU32([]byte{fxAttrs}, id), c)
	case fxFstat:
		if h == nil {
			return fxStatusPkt(id, 4, "bad handle")
		}
		return putAttrs(putU32([]byte{fxAttrs}, id), h.c)
	case fxOpen, fxOpendir:
		if c == nil || c.mode&os.ModeSymlink != 0 {
			return noent
		}
		if !c.dir && !c.mode.IsRegular() {
			return fxStatusPkt(id, 4, "failure")
		}
		if c.dir != (typ == fxOpendir) {
			return fxStatusPkt(id, 4, "failure")
		}
		d.nh++
		h := &srvHandle{id: fmt.Sprintf("h%d", d.nh), raw: raw, c: c, dir: c.dir, sess: s}
		s.open[h.id] = h
		d.handles[h.id] = h
		d.fetches[h.obj()]++
		if d.badPath && d.twist == nil && e.plan.Scenario != "E/outage" && d.fetches[h.obj()] > 1 { // a lost connection leaves its handles open for a while
			e.violate("C05", "inflight", "%q is open %d times at once", h.obj(), d.fetches[h.obj()])
		}
		d.okOpens[h.obj()]++
		return putStr(putU32([]byte{fxHandle}, id), h.id)
	case fxClose:
		if h == nil {
			return fxStatusPkt(id, 4, "bad handle")
		}
		s.drop(h)
		return fxStatusPkt(id, 0, "")
	case fxRead:
		if h == nil || h.dir || len(rest) < 12 {
			return fxStatusPkt(id, 4, "bad handle")
		}
		off := binary.BigEndian.Uint64(rest)
		n := uint64(binary.BigEndian.Uint32(rest[8:]))
		if off >= uint64(len(h.c.data)) {
			return fxStatusPkt(id, 1, "end of file")
		}
		x := h.c.data[off:]
		if uint64(len(x)) > n {
			x = x[:n]
		}
		if len(x) > 1 && e.chance("short-read", kRemote) {
			e.fault("short-read-reply")
			d.mark("short", path.Clean(raw))
			x = x[:1+e.pick(len(x)-1, kRemote)]
		}
		return append(putU32(putU32([]byte{fxData}, id), uint32(len(x))), x...)
	case fxReaddir:
		if h == nil || !h.dir {
			return fxStatusPkt(id, 4, "bad handle")
		}
		ents := append([]*cnode{{name: ".", dir: true, mode: 0o755}, {name: "..", dir: true, mode: 0o755}}, h.c.kids...)
		if h.pos >= len(ents) {
			return fxStatusPkt(id, 1, "end of file")
		}
		n := []int{100, 1, 3, 64}[e.pick(4, kRemote)]
		if n > len(ents)-h.pos {
			n = len(ents) - h.pos
		}
		b := putU32(putU32([]byte{fxName}, id), uint32(n))
		for _, k := range ents[h.pos : h.pos+n] {
			b = putStr(b, k.name)
			b = putStr(b, "-rw-r--r-- 1 user user 0 Jan 1 00:00 "+k.name)
			b = putAttrs(b, k)
		}
		h.pos += n
		return b
	case fxRealpath:
		b := putU32(putU32([]byte{fxName}, id), 1)
		b = putStr(b, path.Clean("/"+raw))
		b = putStr(b, "")
		return putU32(b, 0)
	case fxReadlink:
		return noent
	}
	return fxStatusPkt(id, 8, "unsupported")
}

// faulted tells whether something was faulted meanwhile. A faulted reply takes a
// while to reach the proxy, where a request that began after the fault may have
// joined the one that waits for it.
func (d *sftpd) faulted(start, end uint64, startT int64) bool {
	for _, f := range d.log {
		if f.overlaps(start, end, startT-int64(5*time.Second)) {
			return true
		}
	}
	return false
}

const remoteAddr = "remote.example.org:22"

// planCut decides how a new connection will fail.
func planCut(e *Env) func(l *simLink) {
	return func(l *simLink) {
		if l.addr != remoteAddr || !e.chance("cut", kNet) {
			return
		}
		l.cutDir = 1 + e.pick(2, kNet)
		l.cutMode = []string{"rst", "fin", "torn", "lost", "silent"}[e.pick(5, kNet)]
		// handshake is some 2-3 kB each way; transfers follow
		switch e.pick(4, kNet) {
		case 0:
			l.cutAt = 1 + e.pick(3500, kNet)
		case 1, 2:
			l.cutAt = 2000 + e.pick(8000, kNet)
		case 3:
			l.cutAt = 2000 + e.pick(350000, kNet)
		}
	}
}

func outage(e *Env, n *simNet, d *sftpd) {
	dur := time.Duration(1+e.pick(30, kEnv)) * time.Second
	switch e.pick(5, kEnv) {
	case 0: // crash and restart
		e.fault("remote-crash")
		d.stop()
		time.Sleep(dur)
		d.start()
	case 1: // partition: bytes are late, connections survive
		e.fault("partition")
		n.dark[remoteAddr] = true
		time.Sleep(dur)
		n.dark[remoteAddr] = false
	case 2: // partition after which the remote has forgotten its connections
		e.fault("partition-with-resets")
		n.dark[remoteAddr] = true
		time.Sleep(dur)
		for _, l := range n.links {
			if l.addr == remoteAddr {
				l.reset()
			}
		}
		n.dark[remoteAddr] = false
	case 3: // all sessions end, SSH connections stay
		e.fault("sessions-dropped")
		for _, s := range d.sessions {
			s.kill()
		}
	case 4: // connections refused for a while, existing ones live on
		e.fault("refusing")
		n.refuse[remoteAddr] = true
		time.Sleep(dur)
		n.refuse[remoteAddr] = false
	}
}
