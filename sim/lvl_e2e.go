//go:build go1.21

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/crypto/ssh"
)

// Level E: the whole proxy process, from its main function, between SSH/SFTP
// clients and the remote host, all over the simulated network.

func init() {
	reg := func(name string, kinds []string, f func(r *Rand, p *Plan)) {
		register(&Scenario{Name: name, Gen: func(r *Rand, p *Plan) {
			genTreePars(r, p)
			p.Par["t_files"] = r.Range(1, 5)
			p.Par["t_dirs"] = r.Range(0, 3)
			if p.Par["t_wide"] > 0 && r.P(50) {
				delete(p.Par, "t_wide")
			}
			p.Par["t_secret"] = r.Pick(0, 1)
			p.Par["warm"] = r.Pick(0, 1)
			p.Par["creds"] = r.N(len(creds))
			nc := r.Pick(1, 2, 2, 3, 4)
			no := r.Range(1, 5)
			kinds := kinds
			if r.P(25) { // everybody does the same few things
				kinds = []string{kinds[r.N(len(kinds))], kinds[r.N(len(kinds))]}
				no = r.Range(2, 10)
			}
			for c := 0; c < nc; c++ {
				for i := 0; i < no; i++ {
					p.Ops = append(p.Ops, Op{C: c, K: kinds[r.N(len(kinds))], A: r.Pick(r.N(3), r.N(1000)), B: r.N(2100)})
					if r.P(3) { // a long time without requests
						p.Ops = append(p.Ops, Op{C: c, K: "sleep", A: r.Pick(70000, 700000, 7200000, 200000000)})
					}
				}
			}
			p.Sched = genSched(r, false)
			p.Faults["split"] = r.Pick(0, 0, 100000, 500000)
			p.Par["ooo"] = r.Pick(0, 1)
			f(r, p)
		}, Run: runE})
	}
	rd := []string{"read", "read", "list", "stat", "read", "list", "stat", "miss", "cross"}
	reg("E/clean", rd, func(r *Rand, p *Plan) {})
	reg("E/errs", rd, func(r *Rand, p *Plan) {
		p.Faults["op-err"] = r.Pick(20000, 100000, 200000)
	})
	reg("E/slow", rd, func(r *Rand, p *Plan) {
		p.Faults["srv-slow"] = r.Pick(10000, 50000, 200000)
		p.Par["slowrun"] = 1
	})
	reg("E/outage", []string{"read", "list", "stat"}, func(r *Rand, p *Plan) {
		p.Par["outages"] = r.Range(1, 3)
		for _, k := range []string{"sess-die", "sess-die-after", "conn-rst", "op-err", "sess-die-init", "no-session", "no-subsystem", "dial-fail", "no-handshake", "auth-refuse"} {
			if r.P(15) {
				p.Faults[k] = r.Pick(5000, 30000, 100000)
			}
		}
		if r.P(30) {
			p.Faults["cut"] = r.Pick(200000, 600000)
		}
		for i := range p.Ops {
			if r.P(30) {
				p.Ops[i].K, p.Ops[i].A = "sleep", r.Pick(100, 2000, 10000)
			}
		}
	})
	reg("E/mut", append([]string{"mut", "mut", "mut", "mut", "mut"}, rd...), func(r *Rand, p *Plan) {
		if r.P(30) {
			p.Faults["op-err"] = r.Pick(5000, 50000)
		}
	})
	reg("E/paths", append([]string{"miss", "miss", "cross"}, rd...), func(r *Rand, p *Plan) {
		p.Par["t_strangers"], p.Par["t_secret"] = 1, 1
		if r.P(40) {
			p.Par["hostile"] = r.Range(1, 6)
		}
		if r.P(50) {
			p.Faults["op-err"] = r.Pick(5000, 50000)
		}
	})
	reg("E/auth", rd, func(r *Rand, p *Plan) {
		for i, n := 0, r.Range(1, 6); i < n; i++ {
			p.Ops = append(p.Ops, Op{C: 100 + i, K: "bad-login", A: r.N(1000), B: r.N(100000)})
			if r.P(40) {
				p.Ops = append(p.Ops, Op{C: 100 + i, K: "bad-login", A: r.N(1000), B: r.N(100000)})
			}
		}
		p.Par["wrongkey"] = r.Pick(0, 0, 1, 2)
		p.Faults["accept-err"] = r.Pick(0, 0, 100000, 500000)
		if r.P(20) { // everybody comes from behind one address
			p.Par["oneaddr"] = 1
			for i, n := 0, r.Range(3, 20); i < n; i++ {
				p.Ops = append(p.Ops, Op{C: 100 + i%4, K: "bad-login", A: r.N(1000), B: r.N(100000)})
			}
		}
		if r.P(10) { // a crowd that never gets through the door
			n := r.Pick(12, 30, 70, 110)
			var crowd []Op
			for i := 0; i < n; i++ {
				crowd = append(crowd, Op{C: 100 + i%30, K: "stall", A: r.N(1000)})
			}
			if r.P(70) { // it was there first
				seen := map[int]bool{}
				for _, op := range p.Ops {
					if !seen[op.C] {
						seen[op.C] = true
						crowd = append(crowd, Op{C: op.C, K: "sleep", A: 3000})
					}
				}
			}
			p.Ops = append(crowd, p.Ops...)
		}
	})
	reg("E/rude", rd, func(r *Rand, p *Plan) {
		p.Faults["accept-err"] = r.Pick(0, 0, 100000, 500000)
		for i, n := 0, r.Range(1, 5); i < n; i++ {
			for k, m := 0, r.Range(1, 4); k < m; k++ {
				p.Ops = append(p.Ops, Op{C: 100 + i, K: "rude", A: r.N(1000), B: r.N(100000)})
			}
		}
		if r.P(50) {
			p.Par["hostile"] = r.Range(1, 8)
		}
		if r.P(40) {
			p.Faults["twist"] = r.Pick(5000, 50000)
		}
	})
	reg("E/malformed", []string{"read", "list"}, func(r *Rand, p *Plan) {
		p.Par["t_files"], p.Par["t_dirs"], p.Par["t_wide"] = 2, 1, 0
		p.Par["malformed"] = 1 + r.N(6)
	})
}

func runE(e *Env) {
	t := buildTree(e.rng, specFromPlan(e.plan))
	var dirty map[string]bool
	if n := e.par("hostile"); n > 0 {
		dirty = makeHostile(e.rng, t, n)
		e.res.Faults["hostile-entries"] += n
	}
	x := newProxyEnv(e, t)
	defer x.cleanup()
	x.d.start()
	e.quiet = true
	up := x.start()
	e.quiet = false
	if !up {
		if len(dirty) > 0 && x.exited { // the configuration itself may have been replaced
			return
		}
		e.violate("C01,C02,C03,C10,C13,C16,C17", "no-start", "the proxy does not start with good settings and an intact drive: status %d %s", x.code, x.panicked)
		return
	}
	x.idleState()
	j := &judge{e: e, t: t, dirty: dirty, slow: e.par("slowrun") != 0}
	x.j = j
	j.v = func(c int) view {
		if cc := x.client(c); cc != nil {
			return sftpView{cc}
		}
		return nil
	}
	calm := e.par("outages") == 0
	for k, v := range e.plan.Faults {
		switch k {
		case "split", "op-err", "srv-slow", "accept-err":
		default:
			if v > 0 {
				calm = false
			}
		}
	}
	if e.plan.Faults["op-err"] > 0 {
		j.mayErr = x.d.faulted
	}
	if !calm {
		j.mayErr = func(a, b uint64, t int64) bool { return !e.quiet }
	}
	if e.plan.Scenario == "E/rude" || e.plan.Scenario == "E/malformed" {
		j.prop = "C13"
	}
	if e.plan.Scenario == "E/auth" {
		j.prop = "C16"
		j.bound = 60 * time.Second
	}
	if e.plan.Faults["twist"] > 0 {
		x.d.twist = x.twist
	}
	if n := e.par("outages"); n > 0 {
		go func() {
			for i := 0; i < n && !e.quiet; i++ {
				time.Sleep(time.Duration(e.pick(8000, kEnv)) * time.Millisecond)
				if !e.quiet {
					outage(e, x.n, x.d)
				}
			}
		}()
	}
	if n := e.par("malformed"); n > 0 {
		x.malformed(n)
	}
	wk := e.par("wrongkey")
	if wk == 1 {
		// Another host answers for a while.
		go func() {
			time.Sleep(time.Duration(e.pick(3000, kEnv)) * time.Millisecond)
			x.d.stop()
			x.d.wrongKey = newHostKey(77)
			j.mayErr = func(a, b uint64, t int64) bool { return !e.quiet }
			x.d.start()
		}()
	}
	e.clients(e.plan.Ops, func(c int, op Op) {
		switch op.K {
		case "bad-login":
			x.badLogin(c, op)
		case "stall":
			x.stall(c, op)
		case "rude":
			x.rude(c, op)
		default:
			j.do(c, op)
		}
	})
	// the faults end
	e.stopFaults()
	if wk == 1 {
		time.Sleep(10 * time.Second)
		x.d.stop()
		x.d.wrongKey = nil
		x.d.start()
	}
	for x.n.refuse[remoteAddr] || x.n.dark[remoteAddr] {
		time.Sleep(time.Second)
	}
	for _, l := range x.n.links {
		l.cutDir = 0
	}
	time.Sleep(90 * time.Second)
	x.dropDead()
	if !calm || wk == 1 {
		x.recover()
	}
	j.mayErr = nil
	j.bound = 60 * time.Second
	if e.par("outages") > 0 {
		j.prop = "C10"
	}
	j.sweep(2)
	for _, f := range j.rechk {
		_ = f()
	}
	time.Sleep(time.Second)
	if h := x.n.held(remoteAddr); h > 32 {
		e.violate("C08", "unbounded", "%d idle connections are held", h)
	}
	for _, h := range x.d.handles {
		if x.d.twist != nil { // a handle opened by a request that was told it failed
			break
		}
		e.violate("C08", "handle-leak", "handle on %s is still open at quiescence", h.raw)
		break
	}
	x.departures()
	x.finalChecks()
}

// idleState notes what the proxy runs without clients, after it has had one.
func (x *proxyEnv) idleState() {
	if x.e.par("warm") == 0 {
		return
	}
	// What the first client makes the proxy start and keep is not left behind
	// by the others.
	x.e.quiet = true
	if cc := x.client(951); cc != nil {
		id := x.e.begin("stat /")
		_, _ = cc.sftp.Stat("/")
		x.e.end(id)
		cc.link.reset()
		delete(x.conns, 951)
	}
	time.Sleep(60 * time.Second)
	x.e.quiet = false
	x.idleG, x.idleR = creators(), x.n.open(remoteAddr)
}

// departures lets every client go, each in its own way, and compares what
// is left with the idle proxy before.
func (x *proxyEnv) departures() {
	e := x.e
	left := map[*simLink]bool{}
	for _, l := range x.n.links {
		if l.addr != x.addr {
			continue
		}
		left[l] = true
		if l.dead || l.a.closed {
			continue
		}
		if l.stuck || e.rng.P(50) {
			l.reset()
		} else {
			l.a.Close()
		}
	}
	x.conns = map[int]*cliConn{}
	gone := func() bool {
		for _, l := range x.n.links {
			if left[l] && !l.b.closed {
				return false
			}
		}
		return true
	}
	for i := 0; i < 60 && !gone(); i++ {
		time.Sleep(10 * time.Second)
	}
	k := 0
	for _, l := range x.n.links {
		if left[l] && !l.b.closed {
			k++
		}
	}
	if k > 0 {
		e.violate("C21", "held-connection", "600 s after all %d clients have left the proxy has not closed its end of %d connections", len(left), k)
	}
	e.probe("all-clients-left")
	if x.idleG == nil || x.idleR != 1 || x.exited {
		return
	}
	// One connection to the remote and no clients, as before the first client.
	for _, l := range x.n.links {
		if l.addr == remoteAddr {
			l.reset()
		}
	}
	time.Sleep(30 * time.Second)
	cc := x.client(950)
	if cc == nil {
		return
	}
	for i := 0; ; i++ {
		id := e.begin("stat /")
		_, err := cc.sftp.Stat("/")
		e.end(id)
		if err == nil {
			break
		}
		if i > 100 {
			return // C10's concern
		}
	}
	cc.link.reset()
	for i := 0; i < 60; i++ {
		time.Sleep(10 * time.Second)
		if x.n.open(remoteAddr) != 1 {
			return
		}
		if i%6 == 0 && len(more(creators(), x.idleG)) == 0 {
			e.probe("back-to-idle")
			e.after = x.memory
			return
		}
	}
	if m := more(creators(), x.idleG); len(m) > 0 {
		e.violate("C21", "goroutines", "600 s after the last client has left the process still runs goroutines it did not run before they came: %s", strings.Join(m, ", "))
	}
}

// memory looks whether the connections of clients that have left are still
// held.
func (x *proxyEnv) memory() {
	runtime.SimCollect()
	runtime.GC()
	runtime.GC()
	n := len(x.n.guests)
	if k := x.n.kept(); k > 3 {
		x.e.violate("C21", "memory", "the proxy runs nothing for clients any more but still holds %d of their %d connections in memory", k, n)
	}
	if n > 3 {
		x.e.probe("memory-checked")
	}
}

// creators counts the goroutines of the proxy by what started them and by where
// they are, leaving out the runtime's and the standard library's frames.
func creators() map[string]map[string]int {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	m := map[string]map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		i := strings.Index(g, "created by ")
		if i < 0 {
			continue
		}
		l := g[i+len("created by "):]
		l, _, _ = strings.Cut(l, "\n")
		l, _, _ = strings.Cut(l, " in goroutine")
		at := "?"
		fr := strings.Split(g[:i], "\n")
		for k := 1; k+1 < len(fr); k += 2 {
			if fn := fr[k]; strings.Contains(strings.Split(fn, "(")[0], ".com/") || strings.Contains(fn, "golang.org/") {
				at = strings.TrimSpace(fr[k+1])
				at, _, _ = strings.Cut(at, " ")
				if q := strings.LastIndex(at, "github.com/"); q >= 0 {
					at = at[q:]
				} else if q := strings.LastIndex(at, "golang.org/"); q >= 0 {
					at = at[q:]
				} else if strings.Contains(fn, "/gocryptsftp/") {
					at = strings.Join(strings.Split(at, "/")[max(0, strings.Count(at, "/")-1):], "/")
				}
				break
			}
		}
		if m[l] == nil {
			m[l] = map[string]int{}
		}
		m[l][at]++
	}
	return m
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// more lists what a has more of than b. What one function starts in place of
// another is not more: only when there are more goroutines in all.
func more(a, b map[string]map[string]int) (out []string) {
	sum := func(m map[string]int) (n int) {
		for _, k := range m {
			n += k
		}
		return
	}
	na, nb := 0, 0
	for _, m := range a {
		na += sum(m)
	}
	for _, m := range b {
		nb += sum(m)
	}
	if na <= nb {
		return nil
	}
	type extra struct {
		by, at string
		n      int
	}
	var ex []extra
	for l, m := range a {
		if sum(m) <= sum(b[l]) {
			continue
		}
		for at, n := range m {
			if n > b[l][at] {
				ex = append(ex, extra{l, at, n - b[l][at]})
			}
		}
	}
	// Sessions of the SFTP library stuck in its own packet manager are named
	// once: a manager that waits, its controller, the session and its workers.
	const lib = "github.com/pkg/sftp@v1.10.0/"
	k := 0
	for _, x := range ex {
		if strings.HasSuffix(x.by, "pkg/sftp.(*packetManager).workerChan") && strings.HasPrefix(x.at, lib+"packet-manager.go:") {
			k += x.n
		}
	}
	room := map[string]int{"manager": k, "controller": k, "session": k, "worker": 8 * k}
	for _, x := range ex {
		what := ""
		if strings.HasPrefix(x.at, lib+"packet-manager.go:") || strings.HasPrefix(x.at, lib+"request-server.go:") {
			switch {
			case strings.HasSuffix(x.by, "pkg/sftp.(*packetManager).workerChan"):
				what = "manager"
			case strings.HasSuffix(x.by, "pkg/sftp.newPktMgr"):
				what = "controller"
			case strings.HasSuffix(x.by, "pkg/sftp.(*RequestServer).Serve.func1"):
				what = "worker"
			default:
				what = "session"
			}
		}
		if n := x.n; what != "" {
			if n > room[what] {
				n = room[what]
			}
			room[what] -= n
			x.n -= n
		}
		if x.n > 0 {
			out = append(out, fmt.Sprintf("%d of %s at %s", x.n, x.by, x.at))
		}
	}
	if k > 0 {
		out = append(out, "sessions of "+lib+" whose packet manager waits for a packet its workers have lost")
	}
	sort.Strings(out)
	return out
}

// dropDead forgets client connections that are gone.
func (x *proxyEnv) dropDead() {
	for c, cc := range x.conns {
		if cc.link.dead {
			delete(x.conns, c)
		}
	}
}

// recover makes requests until every connection the proxy may hold was used.
func (x *proxyEnv) recover() {
	e := x.e
	total := 0
	for _, l := range x.n.links {
		if l.addr == remoteAddr {
			total++
		}
	}
	if total > 32 {
		total = 32
	}
	cc := x.client(900)
	if cc == nil {
		return
	}
	fails := 0
	for good := 0; good < total+2; {
		id := e.begin("recovery stat /")
		_, err := cc.sftp.Stat("/")
		e.end(id)
		if err == nil {
			good++
			continue
		}
		e.probe("recovery-failure")
		if fails++; fails > total {
			e.violate("C10", "still-failing", "%d requests failed since the remote is back, although the proxy made only %d connections in all: %v", fails, total, err)
			return
		}
	}
}

// ---- clients that may not get in

func (x *proxyEnv) badLogin(c int, op Op) {
	e := x.e
	user, pass := proxyUser, proxyPass
	var auth []ssh.AuthMethod
	what := ""
	r := &Rand{s: uint64(op.B)*977 + uint64(op.A)}
	switch op.B % 27 {
	case 22, 23: // one character is another
		b := []byte(pass)
		b[r.Pick(len(b)-1, r.N(len(b)))] ^= byte(1 << uint(r.N(7)))
		pass, what = string(b), "a password of which one character differs"
	case 24:
		b := []byte(user)
		b[r.Pick(len(b)-1, r.N(len(b)))] ^= byte(1 << uint(r.N(7)))
		user, what = string(b), "a user name of which one character differs"
	case 25:
		pass, what = strings.TrimSpace(pass), "a password without the spaces around it"
		if r.P(50) {
			pass, what = strings.ToLower(proxyPass), "password in lower case"
		}
	case 26:
		pass, what = pass[:r.N(len(pass))], "the beginning of the password"
		if i := strings.IndexByte(proxyPass, 0); i > 0 {
			pass = proxyPass[:i+r.N(2)]
		}
	case 0:
		pass, what = "", "empty password"
	case 1:
		pass, what = proxyPass+"x", "password with a suffix"
	case 2:
		pass, what = proxyPass[:len(proxyPass)-1], "password without its end"
	case 3:
		pass, what = strings.ToUpper(proxyPass), "password in upper case"
	case 4:
		pass, what = proxyPass+"\x00", "password with a NUL"
	case 5:
		pass, what = " "+proxyPass, "password with a space"
	case 6:
		user, what = "", "empty user"
		if op.B%2 == 0 {
			user, what = proxyUser[:len(proxyUser)-1], "user without its end"
		}
	case 7:
		user, what = "root", "another user"
	case 8:
		user, what = strings.ToUpper(proxyUser), "user in upper case"
	case 9:
		user, what = proxyUser+" ", "user with a space"
	case 10:
		user, pass, what = proxyPass, proxyUser, "user and password swapped"
	case 11:
		user, pass, what = "", "", "nothing"
	case 12:
		pass, what = string(x.t.pass), "the drive's passphrase"
	case 13:
		user, pass, what = proxyUser+"\x00", proxyPass, "user with a NUL"
	case 14:
		user, pass, what = x.d.name, proxyPass, "the remote's user"
	case 15:
		auth, what = []ssh.AuthMethod{}, "no authentication"
	case 16:
		auth, what = []ssh.AuthMethod{ssh.PublicKeys(newHostKey(5).signer)}, "some key"
	case 17:
		auth, what = []ssh.AuthMethod{ssh.PublicKeys(x.d.user.signer)}, "the proxy's own key"
	case 18:
		auth, what = []ssh.AuthMethod{ssh.KeyboardInteractive(func(u, i string, q []string, echo []bool) ([]string, error) {
			a := make([]string, len(q))
			for i := range a {
				a[i] = proxyPass
			}
			return a, nil
		})}, "keyboard-interactive"
	case 19:
		pw := 0
		auth, what = []ssh.AuthMethod{ssh.RetryableAuthMethod(ssh.PasswordCallback(func() (string, error) {
			pw++
			return fmt.Sprintf("guess%d", pw), nil
		}), 20)}, "many guesses"
	default: // never finishes
		x.stall(c, op)
		return
	}
	if auth == nil {
		if user == proxyUser && pass == proxyPass {
			return
		}
		auth = []ssh.AuthMethod{ssh.Password(pass)}
	}
	e.fault("bad-login")
	x.w.known(user)
	if !strings.Contains(proxyUser, pass) && len(pass) >= 8 {
		x.w.secret("a password that a client offered", []byte(pass), false)
	}
	x.w.known(proxyUser)
	x.w.known(x.d.name)
	x.users = append(x.users, user)
	for _, u := range x.users {
		x.w.known(u)
	}
	from := x.from(c, 50000+op.A)
	switch op.B / 50 % 4 {
	case 0: // the address of a client that is being served
		from = x.from(op.A%4, 60000+op.A)
	case 1: // the address and port of one that was
		if cc, err := x.login(300+c%100, proxyUser, proxyPass); err == nil {
			from = x.from(300+c%100, 50000+300+c%100)
			if op.A%2 == 0 {
				cc.ssh.Close()
			} else {
				cc.link.reset()
			}
			time.Sleep(time.Duration(e.pick(3000, kEnv)) * time.Millisecond)
		}
	}
	conn, err := x.n.dialFrom(context.Background(), x.addr, from, 0)
	if err != nil {
		e.violate("C16,C13", "refused", "the proxy refuses connections: %v", err)
		return
	}
	id := e.begin("login with " + what)
	sc, chans, reqs, err := ssh.NewClientConn(conn, x.addr, &ssh.ClientConfig{User: user, Auth: auth, HostKeyCallback: ssh.InsecureIgnoreHostKey(), ClientVersion: clientVersion(op.A + op.B)})
	e.end(id)
	if err != nil {
		x.w.told(err)
		conn.Close()
		return
	}
	_ = chans
	_ = reqs
	e.violate("C16", "admitted", "a client was admitted with %s", what)
	sc.Close()
}

// stall connects and never finishes the handshake or the authentication.
func (x *proxyEnv) stall(c int, op Op) {
	e := x.e
	e.fault("stalled-login")
	conn, err := x.n.dialFrom(context.Background(), x.addr, x.from(c, 51000+op.A), 0)
	if err != nil {
		return
	}
	switch op.A % 6 {
	case 0: // silence
	case 1:
		_, _ = conn.Write([]byte("SSH-2.0-slow"))
	case 2:
		_, _ = conn.Write([]byte("SSH-2.0-slow\r\n"))
	case 3:
		_, _ = conn.Write([]byte("SSH-2.0-slow\r\n"))
		_, _ = conn.Write((&Rand{s: uint64(op.A)}).Bytes(200))
	case 4: // the connection goes silent some way into the handshake
		lim := &limitConn{Conn: conn, left: 1 + op.A*4}
		go func() {
			_, _, _, _ = ssh.NewClientConn(lim, x.addr, &ssh.ClientConfig{User: proxyUser, Auth: []ssh.AuthMethod{ssh.Password(proxyPass)}, HostKeyCallback: ssh.InsecureIgnoreHostKey()})
		}()
	case 5: // the password prompt is never answered
		go func() {
			_, _, _, _ = ssh.NewClientConn(conn, x.addr, &ssh.ClientConfig{User: proxyUser, Auth: []ssh.AuthMethod{ssh.PasswordCallback(func() (string, error) {
				for i := 0; i < 600 && !conn.(*simConn).l.dead && !conn.(*simConn).closed; i++ {
					time.Sleep(time.Minute)
				}
				return "", errSim
			})}, HostKeyCallback: ssh.InsecureIgnoreHostKey()})
		}()
	}
}

// limitConn stops sending after some bytes without telling anybody.
type limitConn struct {
	net.Conn
	left int
}

func (l *limitConn) Write(b []byte) (int, error) {
	if l.left <= 0 {
		return len(b), nil
	}
	k := len(b)
	if k > l.left {
		k = l.left
	}
	l.left -= k
	_, err := l.Conn.Write(b[:k])
	return len(b), err
}

// ---- clients that misbehave after logging in

func (x *proxyEnv) rude(c int, op Op) {
	e := x.e
	r := &Rand{s: uint64(op.A)*1000003 + uint64(op.B)}
	kind := op.B % 15
	e.fault(fmt.Sprintf("rude-client-%d", kind))
	if kind == 0 { // garbage instead of SSH
		conn, err := x.n.dialFrom(context.Background(), x.addr, x.from(c, 52000+op.A), 0)
		if err != nil {
			return
		}
		if r.P(30) {
			_, _ = conn.Write([]byte("SSH-2.0-x\r\n"))
		}
		_, _ = conn.Write(r.Bytes(r.Range(1, 70000)))
		sleepMs(r.N(2000))
		conn.Close()
		return
	}
	id := e.begin("rude client login")
	cc, err := x.login(c*100+op.A, proxyUser, proxyPass)
	e.end(id)
	if err != nil {
		e.violate("C13,C16", "login", "a client with the right password was not admitted: %v", err)
		return
	}
	x.kept = append(x.kept, cc)
	bye := func() {
		switch r.N(4) {
		case 0:
			cc.link.reset()
		case 1:
			cc.ssh.Close()
		case 2:
			cc.link.hush(time.Duration(1+r.N(60)) * time.Second)
		}
	}
	some := func() string {
		all := append(append([]string{}, x.t.files...), x.t.dirs...)
		return all[r.N(len(all))]
	}
	switch kind {
	case 1: // other channel types
		for i := 0; i < r.Range(1, 4); i++ {
			_, _, err := cc.ssh.OpenChannel(r.PickS("direct-tcpip", "x11", "auth-agent@openssh.com", "forwarded-tcpip", "", "session "), r.Bytes(r.N(40)))
			if err == nil {
				e.violate("C16", "channel", "a channel other than a session was accepted")
			}
		}
		bye()
	case 2: // other requests, malformed subsystem requests
		ch, reqs, err := cc.ssh.OpenChannel("session", r.Bytes(r.N(3)))
		if err != nil {
			return
		}
		go ssh.DiscardRequests(reqs)
		for i := 0; i < r.Range(1, 6); i++ {
			typ := r.PickS("exec", "shell", "pty-req", "env", "x11-req", "signal", "window-change", "auth-agent-req@openssh.com", "", "exit-status")
			pay := append(putStr(nil, "id"), r.Bytes(r.N(10))...)
			if r.P(40) {
				pay = r.Bytes(r.N(9))
			}
			if r.P(50) {
				typ = "subsystem"
				pay = [][]byte{nil, {}, {0}, {0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 4}, {255, 255, 255, 255}, putStr(nil, "sftpx"), putStr(nil, "shell"), putStr(nil, "sft"), {1, 2, 3, 4, 's', 'f'}}[r.N(11)]
			}
			want := r.P(70)
			ok, err := ch.SendRequest(typ, want, pay)
			if err != nil {
				break
			}
			if ok && want {
				e.violate("C16", "request", "the request %q %q was granted", typ, pay)
			}
		}
		bye()
	case 3: // global requests
		for i := 0; i < r.Range(1, 5); i++ {
			_, _, _ = cc.ssh.SendRequest(r.PickS("tcpip-forward", "keepalive@openssh.com", "", "no-more-sessions@openssh.com"), r.P(50), r.Bytes(r.N(30)))
		}
		bye()
	case 4: // disappears in the middle of a transfer
		raw, err := cc.newRaw()
		if err != nil {
			return
		}
		for i := 0; i < r.Range(1, 6); i++ {
			_ = raw.send(append(putU32([]byte{fxOpen}, uint32(i)), append(putStr(nil, some()), putU32(putU32(nil, 1), 0)...)...))
			_ = raw.send(append(putU32([]byte{fxOpendir}, uint32(100+i)), putStr(nil, some())...))
		}
		sleepMs(r.N(40))
		cc.link.reset()
	case 5, 6, 7: // odd but well formed packets
		raw, err := cc.newRaw()
		if err != nil {
			return
		}
		x.odd(raw, r, some, r.Range(1, 12))
		bye()
	case 8: // many sessions
		for i := 0; i < r.Range(2, 12); i++ {
			raw, err := cc.newRaw()
			if err != nil {
				break
			}
			_ = raw.send(append(putU32([]byte{fxStat}, 1), putStr(nil, some())...))
			if r.P(50) {
				raw.close()
			}
		}
		bye()
	case 9: // opens things and never closes them
		raw, err := cc.newRaw()
		if err != nil {
			return
		}
		for i := 0; i < r.Range(2, 20); i++ {
			if r.P(50) {
				_, _, _ = raw.call(fxOpen, append(putStr(nil, some()), putU32(putU32(nil, 1), 0)...))
			} else {
				_, _, _ = raw.call(fxOpendir, putStr(nil, some()))
			}
		}
		bye()
	case 10: // sends requests and reads no replies
		raw, err := cc.newRaw()
		if err != nil {
			return
		}
		for i := 0; i < r.Range(5, 40); i++ {
			_ = raw.send(append(putU32([]byte{fxStat}, uint32(i)), putStr(nil, some())...))
		}
		if r.P(50) {
			cc.link.stuck = true
			go func() { time.Sleep(70 * time.Second); cc.link.reset() }()
		}
	case 11: // a packet cut short, or longer than allowed
		raw, err := cc.newRaw()
		if err != nil {
			return
		}
		switch r.N(4) {
		case 0:
			_, _ = raw.ch.Write(putU32(nil, 0x7fffffff))
		case 1:
			_, _ = raw.ch.Write(append(putU32(nil, 1000), r.Bytes(10)...))
		case 2:
			_, _ = raw.ch.Write(putU32(nil, 0xffffffff)[:r.Range(1, 4)])
		case 3:
			_, _ = raw.ch.Write(putU32(nil, 256*1024+1))
			_, _ = raw.ch.Write(r.Bytes(1000))
		}
		sleepMs(r.N(500))
		if r.P(50) {
			raw.close()
		}
		bye()
	case 12: // a body shorter than its fields say
		raw, err := cc.newRaw()
		if err != nil {
			return
		}
		typ := byte(r.Pick(fxOpen, fxClose, fxRead, fxWrite, fxLstat, fxFstat, fxOpendir, fxReaddir, fxRemove, fxMkdir, fxRmdir, fxRealpath, fxStat, fxRename, fxReadlink, fxSymlink, fxExtended))
		_ = raw.send(append([]byte{typ}, r.Bytes(r.N(12))...))
		sleepMs(r.N(500))
		bye()
	case 14: // opens sessions and vanishes before they are confirmed
		for i := r.Range(1, 6); i > 0; i-- {
			go func() {
				if ch, reqs, err := cc.ssh.OpenChannel("session", nil); err == nil {
					go ssh.DiscardRequests(reqs)
					_, _ = ch.SendRequest("subsystem", false, putStr(nil, "sftp"))
				}
			}()
		}
		time.Sleep(time.Duration(r.Pick(0, r.N(300), r.N(1000), r.N(10000))) * time.Microsecond)
		if r.P(50) {
			cc.link.reset()
		} else {
			cc.ssh.Close()
		}
	case 13: // no subsystem request before the packets
		ch, reqs, err := cc.ssh.OpenChannel("session", nil)
		if err != nil {
			return
		}
		go ssh.DiscardRequests(reqs)
		raw := &rawSftp{ch: ch}
		_ = raw.send(putU32([]byte{fxInit}, uint32(r.Pick(0, 3, 4, 6, 99))))
		_ = raw.send(append(putU32([]byte{fxStat}, 1), putStr(nil, some())...))
		sleepMs(r.N(500))
		bye()
	}
}

// odd sends well formed requests nobody should send.
func (x *proxyEnv) odd(raw *rawSftp, r *Rand, some func() string, n int) {
	e := x.e
	var hs []string
	for i := 0; i < n; i++ {
		h := r.PickS("", "0", "1", "999", "-1", "abc", string(r.Bytes(300)))
		if len(hs) > 0 && r.P(70) {
			h = hs[r.N(len(hs))]
		}
		p := some()
		if r.P(40) {
			p = r.PickS("", ".", "..", "/", "//", "/../..", "relative", strings.Repeat("/a", 3000), strings.Repeat("x", 30000), "/\x00", "/\xff\xfe", "/etc/passwd", p+"/", p+"/..", "/"+strings.Repeat("../", 200))
		}
		off := []uint64{0, 1, 4096, 1 << 31, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.N(9)]
		ln := []uint32{0, 1, 4096, 32768, 65536, 1 << 20, 1 << 31, 1<<32 - 1}[r.N(8)]
		if ln > 1<<26 && r.P(90) { // the server allocates what is asked for
			ln = 1 << 18
		}
		var typ byte
		var b []byte
		switch r.N(16) {
		case 0, 1:
			typ, b = fxOpen, append(putStr(nil, p), putU32(putU32(nil, uint32(r.Pick(0, 1, 1, 1, 2, 8, 16, 59, 1<<31, 1<<31|1, 1<<31|2, 1<<32-1, 1<<32-2, 64, 0x10001))), 0)...)
		case 2:
			typ, b = fxOpendir, putStr(nil, p)
		case 3, 4:
			typ, b = fxRead, putU32(putU64(putStr(nil, h), off), ln)
		case 5:
			typ, b = fxReaddir, putStr(nil, h)
		case 6:
			typ, b = fxClose, putStr(nil, h)
		case 7:
			typ, b = fxWrite, putStr(putU64(putStr(nil, h), off), "data")
		case 8:
			typ, b = fxFstat, putStr(nil, h)
		case 9:
			typ, b = fxRealpath, putStr(nil, p)
		case 10:
			typ, b = fxReadlink, putStr(nil, p)
		case 11:
			typ, b = fxStat, putStr(nil, p)
		case 12:
			typ, b = fxLstat, putStr(nil, p)
		case 13:
			typ, b = fxExtended, append(putStr(nil, r.PickS("statvfs@openssh.com", "fsync@openssh.com", "nonsense", "posix-rename@openssh.com")), putStr(putStr(nil, p), h)...)
		case 14:
			typ, b = fxFsetstat, append(putStr(nil, h), putU32(nil, 0)...)
		case 15:
			typ, b = fxInit, nil
		}
		if len(hs) > 0 && r.P(10) { // everything at once on one handle
			for k := 0; k < 5; k++ {
				_ = raw.send(append(putU32([]byte{fxRead}, uint32(1000+k)), putU32(putU64(putStr(nil, hs[0]), uint64(k)), 4096)...))
			}
			_ = raw.send(append(putU32([]byte{fxClose}, 2000), putStr(nil, hs[0])...))
			for k := 0; k < 6; k++ {
				if _, _, err := raw.recv(); err != nil {
					return
				}
			}
			continue
		}
		t, rb, err := raw.call(typ, b)
		if err != nil {
			return
		}
		switch {
		case t == fxHandle:
			if s, _, ok := getStr(rb); ok {
				hs = append(hs, s)
			}
		case t == fxData && typ == fxRead && len(rb) >= 4:
			if n := binary.BigEndian.Uint32(rb); n > ln {
				e.violate("C01,C13", "too-much", "a read of %d bytes was answered with %d", ln, n)
			}
		}
	}
}

// twist replaces well formed replies of the remote by other well formed ones.
func (x *proxyEnv) twist(s *srvSess, typ byte, p string, reply []byte) []byte {
	e := x.e
	if !e.chance("twist", kRemote) || len(reply) < 5 {
		return reply
	}
	e.fault("twisted-reply")
	id := binary.BigEndian.Uint32(reply[1:])
	k := e.pick(6, kRemote)
	if typ == fxFstat && reply[0] == fxAttrs && e.pick(2, kRemote) == 0 {
		k = 6
	}
	switch k {
	case 6: // another size
		n := binary.BigEndian.Uint64(reply[9:])
		binary.BigEndian.PutUint64(reply[9:], []uint64{0, n / 2, n - 1, n + 1, n + 5000, 1 << 46, 1 << 62, 1<<63 - 1, 1 << 63, ^uint64(0)}[e.pick(10, kRemote)])
		return reply
	case 0:
		return fxStatusPkt(id, []uint32{4, 2, 3, 5, 8, 99}[e.pick(6, kRemote)], "twisted")
	case 1: // for a request never made
		binary.BigEndian.PutUint32(reply[1:], id+1000)
		return reply
	case 2: // answered twice
		s.send(reply)
		return reply
	case 3: // empty answers
		switch typ {
		case fxRead:
			return fxStatusPkt(id, 4, "")
		case fxReaddir:
			return fxStatusPkt(id, 3, "")
		}
		return fxStatusPkt(id, 4, "")
	case 4:
		s.kill()
		return nil
	}
	return fxStatusPkt(id, 4, strings.Repeat("long message ", 1000))
}

// malformed arranges one packet no correct peer sends.
func (x *proxyEnv) malformed(kind int) {
	e := x.e
	sent := false
	client := func(f func(raw *rawSftp)) {
		go func() {
			sleepMs(300)
			cc, err := x.login(200, proxyUser, proxyPass)
			if err != nil {
				return
			}
			if raw, err := cc.newRaw(); err == nil {
				e.fault("malformed-packet")
				f(raw)
			}
		}()
	}
	remote := func(f func(s *srvSess, typ byte, reply []byte) bool) {
		x.j.mayErr = func(a, b uint64, t int64) bool { return true }
		x.d.twist = func(s *srvSess, typ byte, p string, reply []byte) []byte {
			if !sent && f(s, typ, reply) {
				e.fault("malformed-packet")
				sent = true
				return nil
			}
			return reply
		}
	}
	switch kind {
	case 1: // a packet of length zero from a client
		client(func(raw *rawSftp) { _, _ = raw.ch.Write([]byte{0, 0, 0, 0}) })
	case 2: // a packet of unknown type from a client
		client(func(raw *rawSftp) { _ = raw.send(append([]byte{77}, bytes.Repeat([]byte{0}, 8)...)) })
	case 6: // a request to set attributes without attributes
		client(func(raw *rawSftp) { _ = raw.send(putU32([]byte{fxSetstat}, 7)) })
	case 3: // a packet of fewer than 4 bytes from the remote
		remote(func(s *srvSess, typ byte, reply []byte) bool {
			s.sendRaw([]byte{0, 0, 0, 2, fxStatus, 0})
			return true
		})
	case 4: // a list of names shorter than its count from the remote
		remote(func(s *srvSess, typ byte, reply []byte) bool {
			if typ != fxReaddir || reply[0] != fxName {
				return false
			}
			s.send(reply[:len(reply)-30])
			return true
		})
	case 5: // attributes cut short from the remote
		remote(func(s *srvSess, typ byte, reply []byte) bool {
			if reply[0] != fxAttrs {
				return false
			}
			s.send(reply[:7])
			return true
		})
	}
}

func (x *proxyEnv) cleanup() { _ = os.RemoveAll(x.dir) }
