//go:build go1.21

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/flawedmatrix/gocryptsftp/zzproxy"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
	"golang.org/x/crypto/ssh/knownhosts"
)

// The whole proxy: its real main function with real SSH and SFTP on both
// sides, between simulated clients and the simulated remote host.

var (
	proxyUser string
	proxyPass string
)

// credentials the proxy is configured with
var creds = [][2]string{
	{"proxy-user", "correct horse"}, {"proxy-user", "correct horse"},
	{"proxy-user", strings.Repeat("0123456789abcdef", 9) + "last words"},
	{"u", "p4ssWord"}, {"Ünïcode 用户", "pässwörd 密码-9"}, {"Proxy.User@example.com", " spaces at both ends  "},
	{strings.Repeat("longuser", 20) + "-z", "Pa:ss%20word\\\"q"}, {"a\x00b", "before\x00after it"}, {"7", "7261549"},
}

type proxyEnv struct {
	e          *Env
	n          *simNet
	d          *sftpd
	t          *vtree
	dir        string
	cfg        map[string]interface{}
	exited     bool
	panicked   string
	code       int
	gone       chan struct{}
	addr       string
	j          *judge
	conns      map[int]*cliConn
	kept       []*cliConn
	asked      int // passphrase prompts
	pass       []byte
	ask        func() ([]byte, error)
	args       []string
	writeCfg   bool
	errw       *os.File
	w          *watch
	cantRemove bool     // the local disk would not let it
	users      []string // names that clients gave
	idleG      map[string]map[string]int
	idleR      int
}

func newProxyEnv(e *Env, t *vtree) *proxyEnv {
	cr := creds[e.par("creds")%len(creds)]
	proxyUser, proxyPass = cr[0], cr[1]
	x := &proxyEnv{e: e, n: newSimNet(e), t: t, gone: make(chan struct{}), conns: map[int]*cliConn{}, pass: t.pass, w: newWatch(e)}
	x.n.cutPlan = planCut(e)
	x.d = newSftpd(e, x.n, t, remoteAddr)
	x.d.badPath = true
	x.d.par = e.par("ooo") == 1
	dir, err := ioutil.TempDir("", "conf")
	if err != nil {
		panic("harness: " + err.Error())
	}
	x.dir = dir
	x.file("id_ec", x.d.user.pem)
	x.file("known_hosts", []byte(knownhosts.Line([]string{remoteAddr}, x.d.key.signer.PublicKey())+"\n"))
	x.cfg = map[string]interface{}{
		"ProxyUser": proxyUser, "ProxyPassword": proxyPass, "KnownHostsPath": filepath.Join(dir, "known_hosts"),
		"Remote": map[string]interface{}{"Addr": remoteAddr, "FileRoot": t.root, "User": x.d.name, "PrivateKeyPath": filepath.Join(dir, "id_ec")},
	}
	x.d.needles = map[string][]byte{}
	need := func(what string, b []byte) {
		if distinct(b) >= 6 {
			x.d.needles[what] = b
		}
	}
	need("the drive's passphrase", t.pass)
	need("the proxy's password", []byte(proxyPass))
	need("part of the master key", t.master[:12])
	need("part of the master key (end)", t.master[20:])
	if e.par("t_secret") == 1 {
		need("a plaintext name", []byte(secretTag))
	}
	for i, f := range t.files {
		if pl := t.p[f].plain; i < 12 && len(pl) >= 24 {
			need("plaintext content of "+f, pl[:16])
			need("plaintext content of the end of "+f, pl[len(pl)-16:])
		}
	}
	x.w.drive(t)
	x.w.secret("the proxy's password", []byte(proxyPass), false)
	x.w.secret("the private key", x.d.user.pem[60:100], false)
	if blk, _ := pem.Decode(x.d.user.pem); blk != nil {
		x.w.secret("the private key", blk.Bytes[8:32], false)
	}
	for _, s := range []string{proxyUser, t.root, x.d.name, dir} {
		x.w.known(s)
	}
	e.told = x.w.told
	x.n.wire = func(l *simLink, toServer bool, b []byte) {
		if !toServer && l.addr == x.addr && !e.done {
			for _, n := range x.w.list {
				if !n.plain && bytes.Contains(b, n.raw) {
					e.violate("C22", "clear", "%s is on the wire to a client in the clear", n.what)
				}
			}
		}
		if toServer && l.addr == remoteAddr {
			x.d.scan(b, "on the wire")
		}
	}
	return x
}

func (x *proxyEnv) file(name string, b []byte) {
	x.w.mute++
	defer func() { x.w.mute-- }()
	if err := os.WriteFile(filepath.Join(x.dir, name), b, 0o600); err != nil {
		panic("harness: " + err.Error())
	}
}

// listening reports the address the proxy serves on, once it does.
func (x *proxyEnv) listening() string {
	for a, l := range x.n.listeners {
		if a != remoteAddr && !l.closed {
			return a
		}
	}
	return ""
}

// start runs the proxy's main function and waits until it serves or exits.
func (x *proxyEnv) start() bool {
	b, _ := json.Marshal(x.cfg)
	x.file("config.json", b)
	return x.boot()
}

func (x *proxyEnv) ended(code int) {
	if x.exited || x.e.done {
		return
	}
	x.exited, x.code = true, code
	close(x.gone)
}

func (x *proxyEnv) boot() bool {
	os.Args = []string{"proxy", "-c", filepath.Join(x.dir, "config.json")}
	if x.e.plan.Seed%3 == 0 {
		os.Args = append(os.Args, "-e")
	}
	if x.args != nil {
		os.Args = x.args
	}
	// The proxy logs; the child's stderr must stay readable.
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	x.errw = os.Stderr
	os.Stderr = null
	os.Stdout = null
	runtime.SimPassword = func(fd int) ([]byte, error) {
		x.asked++
		if x.ask != nil {
			return x.ask()
		}
		return append([]byte{}, x.pass...), nil
	}
	os.SimExit = func(code int) {
		x.ended(code)
		select {}
	}
	x.w.on()
	go func() {
		defer func() {
			if r := recover(); r != nil { // the main goroutine panics: the process ends
				x.panicked = fmt.Sprint(r)
				x.w.told(errors.New(x.panicked))
				x.ended(2)
			}
		}()
		zzproxy.Main()
		x.ended(0)
	}()
	for i := 0; i < 6000; i++ {
		if x.exited {
			return false
		}
		if a := x.listening(); a != "" {
			x.addr = a
			return true
		}
		time.Sleep(100 * time.Millisecond)
	}
	return false
}

// ---- clients

type cliConn struct {
	x    *proxyEnv
	id   int
	link *simLink
	ssh  *ssh.Client
	sftp *sftp.Client
	raw  *rawSftp
}

// clientVersion is what a client calls itself.
func clientVersion(n int) string {
	v := []string{"", "SSH-2.0-OpenSSH_9.6", "SSH-2.0-WinSCP_release_6.1", "SSH-2.0-x", "SSH-2.0-a b c", "SSH-2.0", "SSH-2.0-", "SSH-", "SSH-2.0-\xff\x80%s%d", "SSH-1.99-old", "SSH-2.0-" + strings.Repeat("v", 240), "SSH-2.0--", "SSH-2.0- "}
	return v[n*7%len(v)]
}

// from is the address that client id connects from.
func (x *proxyEnv) from(id, port int) string {
	if x.e.par("oneaddr") > 0 {
		return fmt.Sprintf("192.0.2.77:%d", 1024+port%60000)
	}
	return fmt.Sprintf("192.0.2.%d:%d", id%250, port)
}

func (x *proxyEnv) login(id int, user, pass string) (*cliConn, error) {
	c, err := x.n.dialFrom(context.Background(), x.addr, x.from(id, 50000+id), 0)
	if err != nil {
		return nil, err
	}
	cc := &cliConn{x: x, id: id, link: c.(*simConn).l}
	sc, chans, reqs, err := ssh.NewClientConn(c, x.addr, &ssh.ClientConfig{User: user, Auth: []ssh.AuthMethod{ssh.Password(pass)}, HostKeyCallback: ssh.InsecureIgnoreHostKey(), ClientVersion: clientVersion(id)})
	if err != nil {
		x.w.told(err)
		c.Close()
		return nil, err
	}
	cc.ssh = ssh.NewClient(sc, chans, reqs)
	return cc, nil
}

// client returns the connection of client c, opening it at its first use.
func (x *proxyEnv) client(c int) *cliConn {
	if cc := x.conns[c]; cc != nil {
		return cc
	}
	id := x.e.begin(fmt.Sprintf("client %d login", c))
	t0 := x.e.idle()
	cc, err := x.login(c, proxyUser, proxyPass)
	most := 2 * time.Second
	if x.e.plan.Faults["accept-err"] > 0 { // the proxy may take a breath after an error
		most = 6 * time.Second
	}
	if d := time.Duration(x.e.idle() - t0); err == nil && d > most {
		x.e.violate("C16", "login-late", "the login of a client with the right name and password took %v", d)
	}
	if err == nil {
		cc.sftp, err = sftp.NewClient(cc.ssh)
	}
	x.e.end(id)
	if err != nil {
		x.e.violate("C16,C13", "login", "client %d with the right name and password was not served: %v", c, err)
		return nil
	}
	x.conns[c] = cc
	return cc
}

type sftpView struct{ c *cliConn }

func (v sftpView) read(p string, op Op) ([]byte, func() error, error) {
	f, err := v.c.sftp.Open(p)
	if err != nil {
		return nil, nil, err
	}
	chunk := []int{32768, 4096, 10000, 32768, 100000, 65536}[op.B%6]
	get := func() ([]byte, error) {
		var out []byte
		if op.B%3 == 0 {
			if _, err := f.Seek(0, io.SeekStart); err != nil {
				return nil, err
			}
			var b bytes.Buffer
			_, err := f.WriteTo(&b)
			return b.Bytes(), err
		}
		if _, err := f.Seek(0, io.SeekStart); err != nil {
			return nil, err
		}
		buf := make([]byte, chunk)
		for len(out) < 1<<24 {
			n, err := f.Read(buf)
			out = append(out, buf[:n]...)
			if err == io.EOF {
				return out, nil
			}
			if err != nil {
				return nil, err
			}
		}
		return nil, errors.New("endless file")
	}
	out, err := get()
	if err != nil {
		f.Close()
		return nil, nil, err
	}
	if op.B%2 == 0 || len(v.c.x.j.rechk) > 20 {
		return out, nil, f.Close()
	}
	cp := append([]byte{}, out...)
	return out, func() error {
		defer f.Close()
		again, err := get()
		if err != nil {
			return err
		}
		if !bytes.Equal(again, cp) {
			return fmt.Errorf("reading it again through the same handle: %s", diffBytes(again, cp))
		}
		return nil
	}, nil
}

func (v sftpView) list(p string, op Op) ([]os.FileInfo, error) { return v.c.sftp.ReadDir(p) }

func (v sftpView) stat(p string, op Op) (os.FileInfo, error) {
	switch op.B % 3 {
	case 1:
		return v.c.sftp.Lstat(p)
	case 2:
		// fstat of an open file
		if n := v.c.x.t.p[filepath.Clean(p)]; n != nil && !n.dir && n.kind == 0 && n.giant == 0 {
			f, err := v.c.sftp.Open(p)
			if err != nil {
				return nil, err
			}
			defer f.Close()
			return f.Stat()
		}
	}
	return v.c.sftp.Stat(p)
}

var mutNames = []string{"OPEN-write", "OPEN-create", "OPEN-trunc", "OPEN-append", "OPEN-rw", "SETSTAT", "REMOVE", "MKDIR", "RMDIR", "RENAME", "SYMLINK", "EXT-posix-rename", "EXT-hardlink", "WRITE", "FSETSTAT", "OPEN-excl", "SETSTAT-size"}

func (v sftpView) readlink(p string) error {
	_, err := v.c.sftp.ReadLink(p)
	return err
}

func (v sftpView) mutation(p string, op Op) (string, error) {
	name := mutNames[op.B%len(mutNames)]
	if op.B/17%3 == 1 {
		p += "-new"
	}
	// a session of its own: an unknown extended request ends a session
	r, err := v.c.newRaw()
	if err != nil {
		return name, err
	}
	defer r.close()
	to := v.c.x.t.mutTarget(p, op)
	attrs := putU32(nil, 0)
	var b []byte
	typ := byte(0)
	flags := uint32(0)
	switch name {
	case "OPEN-write":
		flags = 2
	case "OPEN-create":
		flags = 2 | 8
	case "OPEN-trunc":
		flags = 2 | 16
	case "OPEN-append":
		flags = 4
	case "OPEN-rw":
		flags = 1 | 2
	case "OPEN-excl":
		flags = 1 | 8 | 32
	case "SETSTAT":
		typ, b = fxSetstat, append(putStr(nil, p), putU32(putU32(nil, 4), 0o777)...)
	case "SETSTAT-size":
		typ, b = fxSetstat, append(putStr(nil, p), putU64(putU32(nil, 1), 0)...)
	case "REMOVE":
		typ, b = fxRemove, putStr(nil, p)
	case "MKDIR":
		typ, b = fxMkdir, append(putStr(nil, p), attrs...)
	case "RMDIR":
		typ, b = fxRmdir, putStr(nil, p)
	case "RENAME":
		typ, b = fxRename, putStr(putStr(nil, p), to)
	case "SYMLINK":
		typ, b = fxSymlink, putStr(putStr(nil, p), to)
	case "EXT-posix-rename":
		typ, b = fxExtended, putStr(putStr(putStr(nil, "posix-rename@openssh.com"), p), to)
	case "EXT-hardlink":
		typ, b = fxExtended, putStr(putStr(putStr(nil, "hardlink@openssh.com"), p), to)
	case "WRITE", "FSETSTAT":
		rt, rb, err := r.call(fxOpen, append(putStr(nil, p), putU32(putU32(nil, 1), 0)...))
		if err != nil || rt != fxHandle {
			return name, fmt.Errorf("open failed")
		}
		h, _, _ := getStr(rb)
		if name == "WRITE" {
			typ, b = fxWrite, putStr(putU64(putStr(nil, h), 0), "overwritten")
		} else {
			typ, b = fxFsetstat, append(putStr(nil, h), putU64(putU32(nil, 1), 3)...)
		}
	}
	if flags != 0 {
		if op.A%4 == 1 { // bits no version of the protocol gives a meaning
			flags |= []uint32{0x40, 0x10000, 1 << 31, 0xffffffc0}[op.A/4%4]
		}
		typ, b = fxOpen, append(putStr(nil, p), putU32(putU32(nil, flags), 0)...)
	}
	rt, rb, err := r.call(typ, b)
	if err != nil {
		return name, err
	}
	switch rt {
	case fxStatus:
		if code := binary.BigEndian.Uint32(rb); code != 0 {
			return name, fmt.Errorf("status %d", code)
		}
		return name, nil
	case fxHandle:
		return name, nil // the file would be open for writing
	}
	return name, fmt.Errorf("packet type %d", rt)
}

// ---- a client that speaks SFTP packet by packet

type rawSftp struct {
	ch ssh.Channel
	id uint32
}

func (c *cliConn) newRaw() (*rawSftp, error) {
	ch, reqs, err := c.ssh.OpenChannel("session", nil)
	if err != nil {
		return nil, err
	}
	go ssh.DiscardRequests(reqs)
	ok, err := ch.SendRequest("subsystem", true, putStr(nil, "sftp"))
	if err != nil || !ok {
		ch.Close()
		return nil, fmt.Errorf("subsystem: %v %v", ok, err)
	}
	r := &rawSftp{ch: ch}
	if err := r.send(putU32([]byte{fxInit}, 3)); err != nil {
		return nil, err
	}
	if t, _, err := r.recv(); err != nil || t != fxVersion {
		return nil, fmt.Errorf("no version: %d %v", t, err)
	}
	return r, nil
}

func (r *rawSftp) close() { _ = r.ch.Close() }

func (r *rawSftp) send(p []byte) error {
	_, err := r.ch.Write(append(putU32(nil, uint32(len(p))), p...))
	return err
}

func (r *rawSftp) recv() (byte, []byte, error) {
	var h [5]byte
	if _, err := io.ReadFull(r.ch, h[:]); err != nil {
		return 0, nil, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n < 1 || n > 1<<20 {
		return 0, nil, fmt.Errorf("bad length %d", n)
	}
	b := make([]byte, n-1)
	if _, err := io.ReadFull(r.ch, b); err != nil {
		return 0, nil, err
	}
	return h[4], b, nil
}

// call sends one request and returns the reply's type and body after the id.
func (r *rawSftp) call(typ byte, body []byte) (byte, []byte, error) {
	r.id++
	if err := r.send(append(putU32([]byte{typ}, r.id), body...)); err != nil {
		return 0, nil, err
	}
	t, b, err := r.recv()
	if err != nil {
		return 0, nil, err
	}
	if len(b) < 4 {
		return 0, nil, errors.New("short reply")
	}
	if t == fxStatus && env.told != nil {
		env.told(errors.New(string(b[4:])))
	}
	return t, b[4:], nil
}

// finalChecks judges what holds for every end to end run.
func (x *proxyEnv) finalChecks() {
	if x.exited {
		x.e.violate("*", "exit", "the proxy ended with status %d while serving %s", x.code, x.panicked)
	}
	x.leftovers()
}

// leftovers looks for copies of the drive configuration on the local disk.
func (x *proxyEnv) leftovers() {
	if x.cantRemove {
		return
	}
	tmp := os.TempDir()
	secret := x.t.conf.EncryptedKey
	_ = filepath.Walk(tmp, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		if filepath.Dir(p) == x.dir {
			return nil
		}
		b, _ := ioutil.ReadFile(p)
		if bytes.Contains(bytes.ToLower([]byte(filepath.Base(p))), []byte("gocryptfs")) || bytes.Contains(b, secret) || bytes.Contains(b, []byte("EncryptedKey")) {
			x.e.violate("C17", "leftover", "%s (%d bytes) is left behind on the local disk", filepath.Base(p), len(b))
		}
		return nil
	})
}

var _ net.Conn = (*simConn)(nil)
