//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// view is how an operation reaches the proxy: directly through the handlers
// (level F) or through SSH and SFTP (level E).
type view interface {
	read(p string, op Op) ([]byte, func() error, error) // content, later re-check, error
	list(p string, op Op) ([]os.FileInfo, error)
	stat(p string, op Op) (os.FileInfo, error)
	readlink(p string) error
	mutation(p string, op Op) (string, error) // what was tried
}

// ops on the plaintext view, judged against the model
type judge struct {
	e      *Env
	t      *vtree
	s      *simFS
	v      func(c int) view
	rechk  []func() error
	slow   bool            // requests may fail when they took long
	dirty  map[string]bool // remote objects that are damaged or hostile
	strict bool            // errors must be excused by an overlapping fault
	mayErr func(start, end uint64, startT int64) bool
	prop   string // extra properties to blame for unexcused errors
	bound  time.Duration

	names   map[string]int // decryptions by IV and encrypted name
	longest time.Duration  // of any operation
}

func opProp(k string) string {
	switch k {
	case "read":
		return "C01"
	case "list":
		return "C02"
	}
	return "C03"
}

func (j *judge) target(op Op) string {
	t := j.t
	switch op.K {
	case "read":
		if len(t.files) == 0 {
			return ""
		}
		return t.files[op.A%len(t.files)]
	case "list":
		return t.dirs[op.A%len(t.dirs)]
	case "stat":
		n := op.A % (len(t.files) + len(t.dirs) + len(t.others))
		if n < len(t.files) {
			return t.files[n]
		}
		n -= len(t.files)
		if n < len(t.dirs) {
			return t.dirs[n]
		}
		return t.others[n-len(t.dirs)]
	case "miss":
		return t.missing(&Rand{s: uint64(op.A) * 77})
	case "cross": // a directory or symbolic link read as a file, a file listed as a directory
		if op.B%5 == 0 && len(t.others) > 0 {
			return t.others[op.A%len(t.others)]
		}
		if op.B%2 == 0 || len(t.files) == 0 {
			return t.dirs[op.A%len(t.dirs)]
		}
		return t.files[op.A%len(t.files)]
	case "mut":
		all := append(append([]string{}, t.files...), t.dirs...)
		return all[op.A%len(all)]
	}
	return ""
}

// respell gives another spelling of a clean path.
func respell(p string, n int) string {
	switch n % 7 {
	case 1:
		return p + "/"
	case 2:
		return "/." + p
	case 3:
		return "/nonexistent/.." + p
	case 4:
		return strings.ReplaceAll(p, "/", "//")
	case 5:
		return "/../.." + p
	}
	return p
}

func (j *judge) do(c int, op Op) {
	e := j.e
	if op.K == "sleep" {
		sleepMs(op.A)
		return
	}
	p := j.target(op)
	if p == "" {
		return
	}
	v := j.v(c)
	if v == nil {
		return
	}
	k := op.K
	e.seq++
	start, startT := e.seq, e.idle()
	t0 := time.Now()
	id := e.begin(fmt.Sprintf("client %d %s %q", c, k, shortPath(p)))
	var err error
	var data []byte
	var chk func() error
	var infos []os.FileInfo
	var info os.FileInfo
	var what string
	sp := respell(p, op.B/7)
	switch k {
	case "read":
		data, chk, err = v.read(sp, op)
	case "list":
		infos, err = v.list(sp, op)
	case "stat":
		info, err = v.stat(sp, op)
	case "miss":
		switch op.B % 4 {
		case 0:
			what = "read"
			_, _, err = v.read(p, op)
		case 3:
			what = "link"
			err = v.readlink(p)
		case 1:
			what = "list"
			_, err = v.list(p, op)
		default:
			what = "stat"
			_, err = v.stat(p, op)
		}
	case "cross":
		if op.A%5 == 0 {
			what = "link"
			err = v.readlink(p)
		} else if j.t.p[p].dir || j.t.p[p].kind == os.ModeSymlink && op.A%2 == 0 {
			what = "read"
			_, _, err = v.read(p, op)
		} else {
			what = "list"
			_, err = v.list(p, op)
		}
	case "mut":
		what, err = v.mutation(p, op)
	}
	e.end(id)
	e.seq++
	end := e.seq
	dur := time.Since(t0)
	if dur > j.longest {
		j.longest = dur
	}
	e.note("%d %s %s %v %d", c, k, p, err != nil, len(data))
	if e.told != nil {
		e.told(err)
	}
	if os.Getenv("SIM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "[%v] client %d %s %q -> %v (%v, %d..%d)\n", time.Duration(e.now()), c, k, shortPath(p), err, dur, start, end)
	}
	if j.bound > 0 && dur > j.bound {
		e.violate(joinProps("C07", j.prop), "late", "%s %q took %v with nothing wrong with the remote", k, shortPath(p), dur)
	}
	switch k {
	case "miss", "cross":
		if what != "link" && err == nil && len(j.dirty) == 0 {
			e.violate(opProp(what), "ghost", "%s of %q succeeded but there is no such %s", what, shortPath(p), map[string]string{"read": "file", "list": "directory", "stat": "entry"}[what])
		}
		e.probe("op-" + k)
		return
	case "mut":
		if err == nil {
			e.violate("C11", "accepted", "mutating request %s on %q was answered with success", what, shortPath(p))
		}
		e.probe("op-mut")
		return
	}
	n := j.t.p[p]
	objs := j.t.objects(k, p)
	if k != "read" && !n.dir { // the content is not needed
		var o2 []string
		for _, o := range objs {
			if o != "F "+n.c.path {
				o2 = append(o2, o)
			}
		}
		objs = o2
	}
	touched := false
	for _, o := range objs {
		if j.dirty[o] {
			touched = true
		}
	}
	if err != nil {
		e.probe("op-error")
		if touched {
			return
		}
		if j.s != nil && j.s.faulted(objs, start, end, startT) {
			e.probe("op-error-excused")
			return
		}
		if j.mayErr != nil && j.mayErr(start, end, startT) {
			return
		}
		if j.slow && !e.quiet && dur >= 10*time.Second {
			e.probe("op-timeout")
			return
		}
		props := opProp(k)
		if j.s != nil && j.s.anyFault() {
			props = joinProps(props, "C06")
		}
		if j.slow {
			props = joinProps(props, "C07")
		}
		e.violate(joinProps(props, j.prop), "spurious-error", "%s %q failed although nothing was wrong with what it needs: %s", k, shortPath(p), oneLine(err.Error()))
		return
	}
	e.probe("op-ok")
	switch k {
	case "read":
		if touched {
			j.checkDamaged(n, data)
			return
		}
		if !bytes.Equal(data, n.plain) {
			props := "C01"
			if len(j.dirty) > 0 {
				props = "C01,C04"
			}
			e.violate(joinProps(props, j.prop), "wrong-bytes", "read %q: %s", shortPath(p), diffBytes(data, n.plain))
		}
		if chk != nil && len(j.rechk) < 60 {
			j.rechk = append(j.rechk, func() error {
				if err := chk(); err != nil {
					e.violate(joinProps("C01", j.prop), "later-change", "open file %q: %v", shortPath(p), err)
				}
				return nil
			})
		}
	case "list":
		if touched {
			for _, i := range infos {
				if bad := badVisibleName(i.Name()); bad != "" {
					e.violate("C12,C02", "bad-name", "listing of %q shows %s name %q", shortPath(p), bad, i.Name())
				}
			}
			return
		}
		if msg := checkListing(n, infos); msg != "" {
			props := "C02"
			if j.s != nil && j.s.anyFault() {
				props = "C02,C06"
			}
			if j.slow {
				props = joinProps(props, "C07")
			}
			e.violate(joinProps(props, j.prop), "wrong-listing", "listing of %q: %s", shortPath(p), msg)
		}
	case "stat":
		if touched {
			return
		}
		if msg := checkStat(n, info); msg != "" {
			e.violate(joinProps("C03", j.prop), "wrong-stat", "stat of %q: %s", shortPath(p), msg)
		}
	}
}

// countNames has the decryptions of names counted from here on.
func (j *judge) countNames() {
	j.names = map[string]int{}
	syscall.SimName = func(iv, name []byte) { j.names[string(iv)+string(name)]++ }
}

// checkNames looks whether a name that decrypts was decrypted more than once.
// When requests to the proxy's own queue may have timed out, somebody can have
// helped himself.
func (j *judge) checkNames() {
	syscall.SimName = nil
	if j.longest >= 15*time.Second {
		return
	}
	j.e.probe("names-counted")
	var again []string
	for k, n := range j.names {
		if n < 2 || len(k) < 32 || len(k)%16 != 0 {
			continue
		}
		b := refEME(j.t.keys.eme, []byte(k[:16]), []byte(k[16:]), true)
		if !badPad(b) && badVisibleName(string(b[:len(b)-int(b[len(b)-1])])) == "" {
			again = append(again, k)
		}
	}
	sort.Strings(again)
	if len(again) > 0 {
		k := again[0]
		j.e.violate("C05", "decrypted-again", "%d names were decrypted more than once, such as %x with IV %x: %d times", len(again), k[16:], k[:16], j.names[k])
	}
}

func (j *judge) checkDamaged(n *pnode, data []byte) {
	vs := [][]byte{n.c.data}
	if j.s != nil && j.s.mutate != nil {
		vs = j.s.delivered[n.c.path]
	}
	if len(vs) == 0 {
		return // a hostile directory, not a damaged file
	}
	for _, v := range vs {
		if len(v) <= refHeader && len(data) == 0 {
			return
		}
		if ref, err := j.t.keys.decFile(v); err == nil && bytes.Equal(ref, data) {
			j.e.probe("damaged-authentic")
			return
		}
	}
	ref, err := j.t.keys.decFile(vs[0])
	why := "the format authenticates no content for them"
	if err == nil {
		why = "the format authenticates other content: " + diffBytes(data, ref)
	}
	j.e.violate("C04", "served-damaged", "read of damaged file %q (%d stored bytes, %s) returned %d bytes; %s", shortPath(n.path), len(vs[0]), n.c.name, len(data), why)
}

func badVisibleName(s string) string {
	switch {
	case s == "":
		return "an empty"
	case s == "." || s == "..":
		return "a dot"
	case strings.ContainsAny(s, "/\x00"):
		return "an impossible"
	}
	return ""
}

func checkListing(n *pnode, infos []os.FileInfo) string {
	seen := map[string]bool{}
	for _, i := range infos {
		if i == nil {
			return "an entry is nil"
		}
		k := n.kids[i.Name()]
		if k == nil {
			return fmt.Sprintf("shows %q, which does not exist", i.Name())
		}
		if seen[i.Name()] {
			return fmt.Sprintf("shows %q twice", i.Name())
		}
		seen[i.Name()] = true
		if i.IsDir() != k.dir {
			return fmt.Sprintf("%q has the wrong kind", i.Name())
		}
		if msg := checkAttrs(k, i); msg != "" {
			return fmt.Sprintf("%q has %s", i.Name(), msg)
		}
		if k.kind != 0 {
			if i.Mode()&os.ModeType != k.kind {
				return fmt.Sprintf("%q is shown as %v, not %v", i.Name(), i.Mode(), k.kind)
			}
			continue
		}
		if !k.dir && !i.Mode().IsRegular() {
			return fmt.Sprintf("%q is not shown as a regular file", i.Name())
		}
		if !k.dir && !k.anySize && i.Size() != k.size() {
			return fmt.Sprintf("%q has size %d, not %d", i.Name(), i.Size(), k.size())
		}
	}
	if len(seen) != len(n.kids) {
		var miss []string
		for k := range n.kids {
			if !seen[k] {
				miss = append(miss, k)
			}
		}
		sort.Strings(miss)
		if len(miss) > 3 {
			miss = miss[:3]
		}
		return fmt.Sprintf("%d of %d entries missing, such as %q", len(n.kids)-len(seen), len(n.kids), miss)
	}
	return ""
}

// checkAttrs compares what the proxy passes on from the remote.
func checkAttrs(n *pnode, i os.FileInfo) string {
	if n.anySize {
		return ""
	}
	if g, w := i.ModTime().Unix(), n.c.mtime.Unix(); g != w {
		return fmt.Sprintf("modification time %d, not %d", g, w)
	}
	const perms = os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky
	if g, w := i.Mode()&perms, n.c.mode&perms; g != w {
		return fmt.Sprintf("permissions %v, not %v", g, w)
	}
	return ""
}

func checkStat(n *pnode, i os.FileInfo) string {
	if i == nil {
		return "no answer"
	}
	if i.IsDir() != n.dir {
		return "wrong kind"
	}
	if msg := checkAttrs(n, i); msg != "" {
		return msg
	}
	if n.kind != 0 {
		if i.Mode()&os.ModeType != n.kind {
			return fmt.Sprintf("shown as %v, not %v", i.Mode(), n.kind)
		}
	} else if !n.dir && !i.Mode().IsRegular() {
		return "not shown as a regular file"
	}
	if n.path != "/" && i.Name() != n.name {
		return fmt.Sprintf("name %q", i.Name())
	}
	if !n.dir && n.kind == 0 && i.Size() != n.size() {
		return fmt.Sprintf("size %d, but the file has %d bytes", i.Size(), n.size())
	}
	return ""
}

// ---- generation

func genTreeOps(r *Rand, p *Plan, kinds ...string) {
	nc := r.Pick(1, 2, 3, 4, 6, 8, 12)
	no := r.Range(1, 8)
	hot := r.Pick(1, 2, 3, 1000)
	if r.P(5) { // a long history
		nc, no, hot = r.Pick(1, 2, 4), r.Range(40, 120), r.Pick(3, 1000)
	} else if r.P(35) { // everybody does the same few things, over and over
		kinds = []string{kinds[r.N(len(kinds))], kinds[r.N(len(kinds))]}
		nc, no = r.Pick(2, 3, 4, 6, 8, 12), r.Range(4, 20)
		if hot == 1 {
			hot = r.Pick(1, 2, 4, 8)
		}
	}
	for c := 0; c < nc; c++ {
		for i := 0; i < no; i++ {
			op := Op{C: c, K: kinds[r.N(len(kinds))], A: r.N(hot), B: r.N(210)}
			if r.P(20) {
				op.A = r.N(1000)
			}
			if op.K == "miss" || op.K == "mut" || op.K == "cross" {
				op.A = r.N(1 << 16)
			}
			p.Ops = append(p.Ops, op)
			if r.P(15) {
				p.Ops = append(p.Ops, Op{C: c, K: "sleep", A: r.Pick(1, 30, 300, 3000)})
			} else if r.P(2) { // a long time without requests
				p.Ops = append(p.Ops, Op{C: c, K: "sleep", A: r.Pick(70000, 700000, 7200000, 200000000, 5000000000)})
			}
		}
	}
	p.Par["workers"] = r.Pick(1, 2, 3, 4, 32)
}

var mixed = []string{"read", "read", "list", "stat", "read", "list", "stat", "miss", "cross"}

// damage returns a damaged copy of ciphertext content.
func damage(r *Rand, t *vtree, c *cnode, d []byte) []byte {
	d = append([]byte{}, d...)
	nb := 0
	if len(d) > refHeader {
		nb = (len(d) - refHeader + refCBS - 1) / refCBS
	}
	blk := func(i int) (int, int) {
		a := refHeader + i*refCBS
		b := a + refCBS
		if b > len(d) {
			b = len(d)
		}
		return a, b
	}
	other := func() *cnode {
		if len(t.files) == 0 {
			return c
		}
		return t.p[t.files[r.N(len(t.files))]].c
	}
	switch k := r.N(23); {
	case k == 20 && len(d) >= refHeader: // another format version, the rest intact
		v := r.Pick(0, 1, 3, 4, 0x0102, 0x0200, 0x8002)
		d[0], d[1] = byte(v>>8), byte(v)
	case k == 21 && len(d) >= refHeader: // no file ID: lost with the blocks that followed
		for i := 2; i < refHeader; i++ {
			d[i] = 0
		}
		n := refHeader + r.Range(0, nb)*refCBS
		if r.P(50) {
			n = len(d)
			if r.P(50) && nb > 0 {
				d = d[:refHeader+r.N(nb)*refCBS]
			}
		}
		for i := refHeader; i < n && i < len(d); i++ {
			d[i] = 0
		}
	case k == 22 && nb > 1: // a block replaced by another one of the file
		i := r.N(nb)
		j := []int{i ^ 1, i ^ 2, i ^ 16, i ^ 32, i ^ 64, i ^ 256, r.N(nb)}[r.N(7)]
		if j < nb {
			a1, b1 := blk(i)
			a2, b2 := blk(j)
			if b1-a1 == b2-a2 {
				copy(d[a1:b1], d[a2:b2])
			}
		}
	case k < 4 && len(d) > 0: // bit flip anywhere
		i := r.N(len(d))
		d[i] ^= 1 << uint(r.N(8))
	case k == 4 && len(d) > 0: // in the header
		d[r.N(min(len(d), refHeader))] ^= byte(1 + r.N(255))
	case k == 5 && nb > 0: // in a tag or nonce
		a, b := blk(r.N(nb))
		if r.P(50) {
			d[b-1-r.N(min(16, b-a))] ^= byte(1 + r.N(255))
		} else {
			d[a+r.N(min(16, b-a))] ^= byte(1 + r.N(255))
		}
	case k == 6: // truncate anywhere
		d = d[:r.N(len(d)+1)]
	case k == 7: // truncate around a boundary
		n := refHeader + r.N(nb+1)*refCBS + r.Range(-2, 52)
		if n < 0 {
			n = 0
		}
		if n < len(d) {
			d = d[:n]
		}
	case k == 8: // short lengths
		d = d[:min(len(d), r.N(60))]
	case k == 9 && nb > 1: // swap two blocks
		i, j := r.N(nb), r.N(nb)
		a1, b1 := blk(i)
		a2, b2 := blk(j)
		if b1-a1 == b2-a2 {
			x := append([]byte{}, d[a1:b1]...)
			copy(d[a1:b1], d[a2:b2])
			copy(d[a2:b2], x)
		}
	case k == 10 && nb > 0: // duplicate a block
		a, b := blk(r.N(nb))
		d = append(d, d[a:b]...)
	case k == 11 && nb > 1: // remove a block
		a, b := blk(r.N(nb))
		d = append(d[:a:a], d[b:]...)
	case k == 12: // splice from another file
		o := other()
		if nb > 0 {
			a, b := blk(r.N(nb))
			if len(o.data) >= b {
				copy(d[a:b], o.data[a:b])
			}
		}
	case k == 13: // another file's header
		o := other()
		if len(o.data) >= refHeader && len(d) >= refHeader {
			copy(d, o.data[:refHeader])
		}
	case k == 14 && len(d) > 0: // zeroed range
		a := r.N(len(d))
		b := a + r.N(len(d)-a+1)
		for i := a; i < b; i++ {
			d[i] = 0
		}
	case k == 15 && nb > 0: // zeroed block or nonce
		a, b := blk(r.N(nb))
		if r.P(40) && b-a > 16 {
			b = a + 16
		}
		for i := a; i < b; i++ {
			d[i] = 0
		}
	case k == 16: // trailing garbage
		d = append(d, r.Bytes(r.Range(1, 60))...)
	case k == 17: // torn write: tail replaced by garbage
		if len(d) > 0 {
			a := r.N(len(d))
			copy(d[a:], r.Bytes(len(d)-a))
		}
	case k == 18: // header only, version or id damaged
		d = append([]byte{0, byte(r.N(4))}, make([]byte, 16)...)
		if r.P(70) {
			copy(d[2:], r.Bytes(16))
		}
		d = append(d, r.Bytes(r.N(40))...)
	default:
		d = r.Bytes(r.N(5000))
	}
	return d
}

// makeHostile turns parts of the drive into things no gocryptfs would write.
// It returns the objects that were touched.
func makeHostile(r *Rand, t *vtree, n int) map[string]bool {
	dirty := map[string]bool{}
	for i := 0; i < n; i++ {
		dn := t.dirs[r.N(len(t.dirs))]
		if dn == "/" && r.P(60) && len(t.dirs) > 1 {
			dn = t.dirs[1+r.N(len(t.dirs)-1)]
		}
		d := t.p[dn].c
		mark := func() { dirty["D "+d.path] = true }
		add := func(name string, dir bool, data []byte) {
			mark()
			c := &cnode{name: name, dir: dir, data: data, mode: 0o644, mtime: time.Unix(int64(r.Next()), 0)}
			c.path = path.Join(d.path, name)
			d.kids = append(d.kids, c)
			if !strings.Contains(name, "/") && name != "." && name != ".." && name != "" && t.c[c.path] == nil {
				t.c[c.path] = c
			}
		}
		switch r.N(14) {
		case 0, 1: // directory IV of a wrong length or all zero
			if k := d.kid("gocryptfs.diriv"); k != nil {
				k.data = r.Bytes(r.Pick(0, 1, 8, 15, 17, 32, 4096))
				if r.P(15) {
					k.data = make([]byte, 16)
				}
				dirty["F "+k.path] = true
			}
		case 2: // no directory IV at all
			for x, k := range d.kids {
				if k.name == "gocryptfs.diriv" {
					delete(t.c, k.path)
					dirty["F "+k.path] = true
					mark()
					d.kids = append(d.kids[:x:x], d.kids[x+1:]...)
					break
				}
			}
		case 3:
			add(r.PickS("", ".", "..", "../../../etc/passwd", "/etc/passwd", "a/b", "\x00", "\n", "=", "====", "-", "_", "QQ", "QQ==", "\xff\xff"), r.P(40), r.Bytes(10))
		case 4: // very long names
			ln := r.Pick(256, 2032, 2048, 2049, 2064, 2080, 4096, 65536)
			ln = ln / 16 * 16
			add(t.keys.b64.EncodeToString(r.Bytes(ln)), r.P(30), nil)
		case 5: // decrypts to something that must never be shown
			iv := t.ivOf(d)
			if len(iv) == 16 {
				bad := r.PickS("..", ".", "a/b", "/", "../x", "x\x00y", "\x00", "/etc/passwd")
				add(t.keys.encName(bad, iv), r.P(50), r.Bytes(30))
			}
		case 6: // duplicate of an existing entry, or the same name spelt differently
			if len(d.kids) > 0 {
				k := d.kids[r.N(len(d.kids))]
				mark()
				cp := *k
				if r.P(50) && !strings.HasPrefix(k.name, "goc") {
					cp.name = k.name[:len(k.name)/2] + "\n" + k.name[len(k.name)/2:]
					cp.path = path.Join(d.path, cp.name)
					t.c[cp.path] = &cp
				}
				d.kids = append(d.kids, &cp)
			}
		case 7: // a file listed as a directory or the reverse
			if len(d.kids) > 0 {
				k := d.kids[r.N(len(d.kids))]
				if k.name == "gocryptfs.conf" {
					break
				}
				k.dir = !k.dir
				mark()
				dirty["F "+k.path] = true
				dirty["D "+k.path] = true
				dirty["S "+k.path] = true
			}
		case 8: // empty listing
			if dn != "/" || r.P(10) {
				d.kids = nil
				mark()
			}
		case 9: // random decodable names
			for x, m := 0, r.Range(1, 20); x < m; x++ {
				add(t.keys.b64.EncodeToString(r.Bytes(16*r.Range(1, 4))), r.P(30), r.Bytes(r.N(60)))
			}
		case 10: // short contents of every length
			if len(t.files) > 0 {
				f := t.p[t.files[r.N(len(t.files))]].c
				f.data = r.Bytes(r.N(70))
				if len(f.data) > 1 && r.P(70) {
					f.data[0], f.data[1] = 0, 2
				}
				dirty["F "+f.path] = true
				dirty["S "+f.path] = true
				f.p.anySize = true
			}
		case 12: // names that decode to any number of bytes
			for x, m := 0, r.Range(1, 24); x < m; x++ {
				add(t.keys.b64.EncodeToString(r.Bytes(r.Pick(r.Range(1, 300), 8*r.Range(1, 40), r.Range(1, 40)))), r.P(30), nil)
			}
		case 13: // long names with strange name files
			for x, m := 0, r.Range(1, 6); x < m; x++ {
				h := "gocryptfs.longname." + t.keys.b64.EncodeToString(r.Bytes(r.Pick(32, 32, 32, 1, 16, 24)))
				if r.P(10) {
					h = "gocryptfs.longname."
				}
				add(h, r.P(30), r.Bytes(r.N(40)))
				var b []byte
				switch r.N(8) {
				case 0: // nothing in it
				case 1:
					b = r.Bytes(r.Range(1, 400))
				case 2, 3:
					b = []byte(t.keys.b64.EncodeToString(r.Bytes(r.Pick(16*r.Range(1, 16), 8*r.Range(1, 40), r.Range(1, 300), 2064, 4096))))
				case 4:
					if iv := t.ivOf(d); len(iv) == 16 {
						b = []byte(t.keys.encName(r.PickS("..", ".", "a/b", "/", "../x", "x\x00y", "/etc/passwd"), iv))
					}
				case 5:
					b = []byte(h)
				case 6:
					b = bytes.Repeat([]byte("A"), r.Pick(256, 65536, 1<<20))
				case 7:
					continue // no name file
				}
				add(h+".name", r.P(8), b)
			}
		case 11: // the directory IV is a directory
			if k := d.kid("gocryptfs.diriv"); k != nil {
				k.dir = true
				mark()
				dirty["F "+k.path] = true
			}
		}
	}
	return dirty
}

// sweep asks for everything once more, with a few clients.
func (j *judge) sweep(clients int) {
	var ops []Op
	r := &Rand{s: j.e.plan.Seed + 5}
	n := 0
	for i := range j.t.files {
		if i >= 40 {
			break
		}
		ops = append(ops, Op{C: n % clients, K: "read", A: i, B: r.N(200)})
		n++
	}
	for i := range j.t.dirs {
		if i >= 40 {
			break
		}
		ops = append(ops, Op{C: n % clients, K: "list", A: i, B: r.N(200)})
		n++
	}
	for i := 0; i < len(j.t.files)+len(j.t.dirs)+len(j.t.others) && i < 60; i++ {
		ops = append(ops, Op{C: n % clients, K: "stat", A: i, B: r.N(200)})
		n++
	}
	for i := len(ops) - 1; i > 0; i-- {
		k := r.N(i + 1)
		ops[i], ops[k] = ops[k], ops[i]
	}
	j.e.clients(ops, j.do)
}
