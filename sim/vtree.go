//go:build go1.21

package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"time"
)

// cnode is one entry of the encrypted drive as the remote stores it.
type cnode struct {
	name  string
	path  string
	dir   bool
	data  []byte
	kids  []*cnode
	mtime time.Time
	mode  os.FileMode
	p     *pnode // plaintext entry it stands for, nil for internal files and strangers
}

func (c *cnode) Name() string { return c.name }
func (c *cnode) Size() int64 {
	if c.dir {
		return 4096
	}
	if c.p != nil && c.p.giant > 0 {
		n := c.p.giant
		return refHeader + n + (n+refBS-1)/refBS*(refCBS-refBS)
	}
	return int64(len(c.data))
}
func (c *cnode) Mode() os.FileMode {
	if c.dir {
		return os.ModeDir | c.mode
	}
	return c.mode
}
func (c *cnode) ModTime() time.Time { return c.mtime }
func (c *cnode) IsDir() bool        { return c.dir }
func (c *cnode) Sys() interface{}   { return nil }

// pnode is one entry of the plaintext view.
type pnode struct {
	name  string
	path  string
	dir   bool
	kind  os.FileMode // type bits of what is neither a file nor a directory
	plain []byte
	kids  map[string]*pnode
	c     *cnode
	up    *pnode
	giant int64 // size of a file that is too big to exist here and is never read
	// anySize: the stored content was damaged, sizes shown are not checked
	anySize bool
}

// vtree is a generated encrypted drive with its plaintext meaning.
type vtree struct {
	keys   *refKeys
	format refFormat
	master []byte
	pass   []byte
	conf   *refConf
	root   string // as configured
	clean  string // cleaned
	c      map[string]*cnode
	p      map[string]*pnode
	croot  *cnode
	proot  *pnode
	files  []string // plaintext paths, sorted
	dirs   []string
	others []string // symbolic links, pipes, sockets
}

// treeSpec is what a plan decides about a tree.
type treeSpec struct {
	files, dirs, depth, wide, chain int
	bigs                            int  // how many files may be large
	vast                            int  // how many are even larger
	longs                           bool // the wide directory holds long names
	strangers                       bool
	longNames                       bool // long and odd names
	secret                          bool // every plaintext name carries a recognisable token
	format                          int
	root                            int
	others                          int // symbolic links, pipes, sockets
	twins                           int // how many look-alikes: copied subtrees, case twins, related IVs ...
}

const secretTag = "Zq9SecretName"

var giantSizes = []int64{1<<31 - 1<<20, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 5000000000, 1 << 40, 1 << 45}

// size is the plaintext size of a regular file.
func (p *pnode) size() int64 {
	if p.giant > 0 {
		return p.giant
	}
	return int64(len(p.plain))
}

var edgeSizes = []int{0, 1, 2, 15, 16, 17, 4095, 4096, 4097, 8191, 8192, 8193, 12288}
var bigSizes = []int{131071, 131072, 131073, 135167, 135168, 135169, 139264, 200000, 262144, 400001, 32768, 65536, 65537}

// past 256 blocks, and past the windows of SSH and SFTP
var hugeSizes = []int{1048575, 1048577, 1060864, 1200001, 2097152, 2228225}

var vastSizes = []int{4<<20 + 1, 5 << 20, 8<<20 + 4096, 8<<20 + 4097, 16 << 20, 17<<20 + 17}

func genName(r *Rand, spec *treeSpec) string {
	var n string
	switch k := r.N(14); {
	case !spec.longNames || k < 5:
		n = fmt.Sprintf("%s%d", r.PickS("file", "doc", "a", "photo.jpg", "IMG_", ".hidden", "x y"), r.N(1000))
	case k == 5:
		n = r.PickS("gocryptfs.diriv", "gocryptfs.conf", "...", "..a", ".x.", "gocryptfs.longname.abc", "lost+found", "a+b", "CON", "-rf", "*", "~", "%2e%2e", "._x", ".DS_Store", ".git", "._.DS_Store", "Thumbs.db", "x~", "#x#", ".x.swp", ".nfs0001", "a.tmp", "a.part", ".Trash-1000", "@eaDir", "gocryptfs.", "gocryptfs.longname.", "A", "-", "--", "a b ", " a", ".a ", "a.", "NUL", "aux.txt", "\\", "a\\b", "\x01", "\x7f", "\xff\xfe", "new\nline", "tab\t", " ", "é", "日本", "a:b", "a%sb%d", "q?x=1#f", "'\"")
	case k == 6:
		n = string(bytes.Repeat([]byte{byte('a' + r.N(26))}, r.Pick(15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 127, 128, 159, 160, 175, 176, 177, 191, 192, 200, 239, 240, 254, 255)))
	case k == 7:
		n = string(bytes.Repeat([]byte{byte(1 + r.N(16))}, r.Range(1, 40)))
	case k == 8:
		b := r.Bytes(r.Range(1, 60))
		for i := range b {
			if b[i] == 0 || b[i] == '/' {
				b[i] = '_'
			}
		}
		n = string(b)
	case k == 9:
		n = fmt.Sprintf("%d", r.N(10))
	default:
		n = fmt.Sprintf("%c%d", 'a'+r.N(26), r.N(10000))
	}
	if spec.secret {
		n = secretTag + n
	}
	if max := spec.maxName(); len(n) > max {
		n = n[:max]
	}
	if n == "." || n == ".." || n == "" {
		n = "dot"
	}
	return n
}

// maxName is the length of the longest name the format can store.
func (s *treeSpec) maxName() int {
	if s.format&8 != 0 {
		return 175
	}
	return 255
}

func specFromPlan(p *Plan) treeSpec {
	q := func(k string) int { return p.Par["t_"+k] }
	return treeSpec{files: q("files"), dirs: q("dirs"), depth: q("depth"), wide: q("wide"), chain: q("chain"), bigs: q("bigs"), vast: q("vast"), longs: q("longs") != 0,
		strangers: q("strangers") != 0, longNames: q("long") != 0, secret: q("secret") != 0, format: q("format"), root: q("root"), twins: q("twins"), others: q("others")}
}

// genTreePars draws the tree parameters of a plan.
func genTreePars(r *Rand, p *Plan) {
	p.Par["t_files"] = r.Range(1, 8)
	p.Par["t_dirs"] = r.Range(0, 5)
	p.Par["t_depth"] = r.Range(1, 4)
	if r.P(8) { // more than the path cache holds
		p.Par["t_dirs"] = r.Range(12, 40)
		p.Par["t_depth"] = r.Pick(1, 2, 6)
	}
	if r.P(8) {
		p.Par["t_wide"] = r.Pick(99, 100, 101, 128, 130, 205)
	}
	if r.N(250) == 0 { // more than the queue and the caches are made for
		p.Par["t_wide"] = r.Pick(999, 1003, 1100)
	}
	if r.P(12) {
		p.Par["t_chain"] = r.Range(3, 20)
	}
	if r.P(35) {
		p.Par["t_bigs"] = r.Range(1, 2)
	}
	if n := p.Par["t_wide"]; n > 0 && n < 200 && r.P(25) {
		p.Par["t_longs"] = 1
	}
	p.Par["t_strangers"] = r.Pick(0, 1)
	p.Par["t_long"] = r.Pick(0, 1, 1)
	p.Par["t_format"] = r.N(8)
	if r.P(20) {
		p.Par["t_format"] |= 8
	}
	p.Par["t_root"] = r.N(6)
	p.Par["t_twins"] = r.Pick(0, 0, 1, 2, 3, 4)
	p.Par["t_others"] = r.Pick(0, 0, 0, 1, 2)
}

var treeRoots = []string{"/crypt", "/remote/path/to/gocryptfs/drive/", "/", "/srv//x/", "/crypt/./d", "/a b/ü"}

func buildTree(r *Rand, spec treeSpec) *vtree {
	t := &vtree{c: map[string]*cnode{}, p: map[string]*pnode{}}
	t.format = refFormat{HKDF: spec.format&1 == 0, Raw64: spec.format&2 == 0, SIV: spec.format&4 != 0, LongNames: spec.format&8 == 0}
	t.master = r.Bytes(32)
	t.pass = []byte(fmt.Sprintf("pw-%x", r.Bytes(6)))
	t.keys = newRefKeys(t.master, t.format)
	t.conf = makeConf(t.master, t.pass, t.format, r)
	t.root = treeRoots[spec.root%len(treeRoots)]
	t.clean = path.Clean(t.root)
	t.croot = &cnode{name: path.Base(t.clean), path: t.clean, dir: true, mode: 0o755, mtime: time.Unix(1500000000, 0)}
	t.proot = &pnode{name: "/", path: "/", dir: true, kids: map[string]*pnode{}, c: t.croot}
	t.croot.p = t.proot
	t.c[t.clean] = t.croot
	t.p["/"] = t.proot
	t.fillDir(r, t.croot)
	t.addC(t.croot, &cnode{name: "gocryptfs.conf", data: t.conf.json(), mode: 0o400})
	dirs := []*pnode{t.proot}
	depth := map[*pnode]int{t.proot: 0}
	for i := 0; i < spec.dirs; i++ {
		up := dirs[r.N(len(dirs))]
		if depth[up] >= spec.depth {
			up = t.proot
		}
		if d := t.addDir(r, up, genName(r, &spec)); d != nil {
			dirs = append(dirs, d)
			depth[d] = depth[up] + 1
		}
	}
	up := t.proot
	for i := 0; i < spec.chain; i++ {
		d := t.addDir(r, up, genName(r, &spec))
		if d == nil {
			break
		}
		if r.P(50) {
			t.addFile(r, d, genName(r, &spec), r.Bytes(r.Range(1, 50)), nil)
		}
		dirs = append(dirs, d)
		up = d
	}
	for i := 0; i < spec.files; i++ {
		size := edgeSizes[r.N(len(edgeSizes))]
		switch {
		case i < spec.vast:
			size = vastSizes[r.N(len(vastSizes))]
		case i < spec.bigs:
			size = bigSizes[r.N(len(bigSizes))]
			if r.P(4) {
				size = hugeSizes[r.N(len(hugeSizes))]
			}
		case r.P(40):
			size = r.Range(0, 300)
		case r.P(15):
			size = r.Range(0, 20000)
		}
		plain := r.Bytes(size)
		holes := map[int]bool{}
		for no := 0; (no+1)*refBS <= size; no++ {
			if r.P(8) {
				for j := no * refBS; j < (no+1)*refBS; j++ {
					plain[j] = 0
				}
				holes[no] = true
			} else if r.P(4) { // zeros that are really encrypted
				for j := no * refBS; j < (no+1)*refBS; j++ {
					plain[j] = 0
				}
			}
		}
		f := t.addFile(r, dirs[r.N(len(dirs))], genName(r, &spec), plain, holes)
		if f != nil && size == 0 && r.P(40) { // header only: an interrupted first write
			f.c.data = append([]byte{0, 2}, r.Bytes(16)...)
		}
	}
	if spec.wide > 0 {
		d := t.addDir(r, dirs[r.N(len(dirs))], genName(r, &spec))
		if d != nil {
			dirs = append(dirs, d)
			for i := 0; i < spec.wide; i++ {
				long := ""
				if spec.longs && spec.format&8 == 0 && r.P(40) {
					long = string(bytes.Repeat([]byte{'w'}, r.Pick(170, 171, 180, 240)))
				}
				if r.P(10) {
					t.addDir(r, d, fmt.Sprintf("sub%d%s", i, long))
				} else {
					t.addFile(r, d, fmt.Sprintf("entry%d%s", i, long), r.Bytes(r.Range(0, 40)*r.N(3)), nil)
				}
			}
		}
	}
	if spec.strangers {
		for i, n := 0, r.Range(1, 4); i < n; i++ {
			d := dirs[r.N(len(dirs))].c
			var name string
			switch r.N(9) {
			case 0:
				name = "gocryptfs.longname." + t.keys.b64.EncodeToString(r.Bytes(32))
			case 1:
				name = "gocryptfs.longname." + t.keys.b64.EncodeToString(r.Bytes(32)) + ".name"
			case 8: // a long name that does not decrypt
				name = "gocryptfs.longname." + t.keys.b64.EncodeToString(r.Bytes(32))
				t.addC(d, &cnode{name: name + ".name", data: []byte(r.PickS("", "garbage", t.keys.b64.EncodeToString(r.Bytes(33)))), mode: 0o400})
			case 2:
				name = ".DS_Store"
			case 3:
				name = "plain text.txt"
			case 4:
				name = t.keys.b64.EncodeToString(r.Bytes(15))
			case 5: // right shape, wrong key: padding is almost surely wrong
				for {
					b := r.Bytes(16 * r.Range(1, 3))
					if badPad(refEME(t.keys.eme, t.ivOf(d), b, true)) {
						name = t.keys.b64.EncodeToString(b)
						break
					}
				}
			case 6:
				name = "A==="
			default:
				name = fmt.Sprintf("%d.tmp", r.N(100))
			}
			if d.kid(name) == nil {
				if r.P(20) {
					t.addC(d, &cnode{name: name, dir: true, mode: 0o755})
				} else {
					t.addC(d, &cnode{name: name, data: r.Bytes(r.N(100)), mode: 0o644})
				}
			}
		}
	}
	for i := 0; i < spec.others; i++ {
		k := []os.FileMode{os.ModeSymlink, os.ModeSymlink, os.ModeNamedPipe, os.ModeSocket, os.ModeDevice, os.ModeDevice | os.ModeCharDevice, 0, 0}[r.N(8)]
		p := t.addOther(r, dirs[r.N(len(dirs))], genName(r, &spec), k)
		if p != nil && k == 0 {
			p.giant = giantSizes[r.N(len(giantSizes))] + int64(r.Pick(0, 1, 77, r.N(1<<20)))
		}
	}
	for i := 0; i < spec.twins; i++ {
		t.addTwin(r, &spec, &dirs)
	}
	// the remote's own order is arbitrary but fixed
	var cps []string
	for p := range t.c {
		cps = append(cps, p)
	}
	sort.Strings(cps)
	for _, p := range cps {
		k := t.c[p].kids
		for i := len(k) - 1; i > 0; i-- {
			j := r.N(i + 1)
			k[i], k[j] = k[j], k[i]
		}
	}
	for p, n := range t.p {
		if n.kind != 0 || n.giant > 0 {
			t.others = append(t.others, p)
		} else if n.dir {
			t.dirs = append(t.dirs, p)
		} else {
			t.files = append(t.files, p)
		}
	}
	sort.Strings(t.dirs)
	sort.Strings(t.files)
	sort.Strings(t.others)
	return t
}

// addTwin adds something that is easily taken for something else: what a user
// gets from copying a directory of the encrypted drive, names that differ only
// in case, the same name at several depths, ciphertext names that belong to
// another directory, directory IVs that are nearly equal.
func (t *vtree) addTwin(r *Rand, spec *treeSpec, dirs *[]*pnode) {
	pick := func() *pnode { return (*dirs)[r.N(len(*dirs))] }
	kids := func(d *pnode) []*pnode {
		var ns []string
		for n := range d.kids {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		var out []*pnode
		for _, n := range ns {
			out = append(out, d.kids[n])
		}
		return out
	}
	switch r.N(5) {
	case 0: // a copied subtree, some files changed in the copy since
		src := t.addDir(r, pick(), genName(r, spec))
		if src == nil {
			return
		}
		*dirs = append(*dirs, src)
		at := src
		for i, n := 0, r.Range(0, 6); i < n; i++ {
			d := t.addDir(r, at, genName(r, spec))
			if d == nil {
				break
			}
			*dirs = append(*dirs, d)
			if r.P(50) {
				at = d
			}
			t.addFile(r, d, genName(r, spec), r.Bytes(r.Range(1, 60)), nil)
		}
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			t.addFile(r, at, genName(r, spec), r.Bytes(r.Range(1, 5000)), nil)
		}
		up := pick()
		for a := up; a != nil; a = a.up {
			if a == src {
				up = t.proot
			}
		}
		name := src.name
		if up.kids[name] != nil {
			name = genName(r, spec)
		}
		if dst := t.addDir(r, up, name); dst != nil {
			t.copyInto(r, src, dst, kids, dirs)
			*dirs = append(*dirs, dst)
		}
	case 1: // names that differ only in case
		d := pick()
		for _, k := range kids(d) {
			n := strings.TrimPrefix(k.name, secretTag)
			f := []func(string) string{strings.ToUpper, strings.ToLower, strings.Title}[r.N(3)]
			n = f(n)
			if spec.secret {
				n = secretTag + n
			}
			if len(n) <= spec.maxName() && r.P(60) {
				if k.dir {
					if nd := t.addDir(r, d, n); nd != nil {
						t.addFile(r, nd, genName(r, spec), r.Bytes(r.Range(1, 60)), nil)
					}
				} else {
					t.addFile(r, d, n, r.Bytes(len(k.plain)), nil)
				}
			}
		}
	case 2: // ciphertext names of another directory
		from, to := pick(), pick()
		if len(to.c.kids) > 120 {
			return
		}
		for _, k := range kids(from) {
			t.addAlien(r, k, to)
		}
	case 3: // nearly the same directory IV, with foreign names in it
		from := pick()
		to := t.addDir(r, pick(), genName(r, spec))
		if to == nil {
			return
		}
		*dirs = append(*dirs, to)
		iv := append([]byte{}, t.ivOf(from.c)...)
		iv[r.Pick(0, 7, 8, 15, r.N(16))] ^= byte(1 << uint(r.N(8)))
		to.c.kid("gocryptfs.diriv").data = iv
		for i, n := 0, r.Range(0, 2); i < n; i++ {
			t.addFile(r, to, genName(r, spec), r.Bytes(r.Range(1, 60)), nil)
		}
		for _, k := range kids(from) {
			if len(to.c.kids) < 20 {
				t.addAlien(r, k, to)
			}
		}
	default: // one name at several depths
		n := genName(r, spec)
		if d := pick(); len(d.kids) > 0 && r.P(60) {
			ks := kids(d)
			n = ks[r.N(len(ks))].name
		}
		at := pick()
		for i, k := 0, r.Range(1, 3); i < k && at != nil; i++ {
			if at = t.addDir(r, at, n); at != nil {
				*dirs = append(*dirs, at)
				if len(n) < spec.maxName() {
					t.addFile(r, at, n+"x", r.Bytes(r.Range(1, 60)), nil)
				}
			}
		}
		if at != nil {
			t.addFile(r, at, n, r.Bytes(r.Range(1, 60)), nil)
		}
	}
}

// addAlien puts an entry into to whose ciphertext name is that of k elsewhere.
func (t *vtree) addAlien(r *Rand, k *pnode, to *pnode) {
	raw, err := t.keys.b64.DecodeString(k.c.name)
	if err != nil || to.c.kid(k.c.name) != nil || !badPad(refEME(t.keys.eme, t.ivOf(to.c), raw, true)) {
		return
	}
	if k.kind != 0 {
		t.addC(to.c, &cnode{name: k.c.name, data: k.c.data, mode: k.c.mode})
	} else if k.dir {
		t.addC(to.c, &cnode{name: k.c.name, dir: true, mode: 0o755})
	} else {
		t.addC(to.c, &cnode{name: k.c.name, data: append([]byte{}, k.c.data...), mode: 0o644})
	}
}

// copyInto makes dst what copying the ciphertext of src gives.
func (t *vtree) copyInto(r *Rand, src, dst *pnode, kids func(*pnode) []*pnode, dirs *[]*pnode) {
	dst.c.kid("gocryptfs.diriv").data = t.ivOf(src.c)
	for _, k := range kids(src) {
		if k.dir {
			d := t.addDir(r, dst, k.name)
			*dirs = append(*dirs, d)
			t.copyInto(r, k, d, kids, dirs)
			continue
		}
		if k.kind != 0 {
			t.addOther(r, dst, k.name, k.kind)
			continue
		}
		plain := k.plain
		if changed := r.P(60); changed {
			plain = r.Bytes(len(k.plain) + r.Pick(0, 0, 1, 5))
		}
		f := t.addFile(r, dst, k.name, plain, nil)
		if bytes.Equal(plain, k.plain) {
			f.c.data = k.c.data
		}
	}
}

// badPad reports whether a decrypted name is certainly no legal name.
func badPad(b []byte) bool {
	n := int(b[len(b)-1])
	if n == 0 || n > 16 || n >= len(b) {
		return true
	}
	for _, c := range b[len(b)-n:] {
		if int(c) != n {
			return true
		}
	}
	return false
}

func (c *cnode) kid(name string) *cnode {
	for _, k := range c.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

func (t *vtree) ivOf(d *cnode) []byte {
	if k := d.kid("gocryptfs.diriv"); k != nil {
		return k.data
	}
	return nil
}

func (t *vtree) addC(up, c *cnode) *cnode {
	c.path = path.Join(up.path, c.name)
	c.mtime = time.Unix(1500000000+int64(len(t.c))*61, 0)
	if n := len(t.c); n%11 == 7 {
		c.mtime = time.Unix([]int64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 946684800}[n/11%6], 0)
	}
	up.kids = append(up.kids, c)
	t.c[c.path] = c
	return c
}

func permAt(n int) os.FileMode {
	return []os.FileMode{0o640, 0o750, 0o600, 0o777, 0o400, 0o644, 0o755, 0o755 | os.ModeSetuid, 0o700, 0o1, 0o770 | os.ModeSetgid, 0o777 | os.ModeSticky, 0}[n%13]
}

func (t *vtree) fillDir(r *Rand, c *cnode) {
	t.addC(c, &cnode{name: "gocryptfs.diriv", data: oddBytes(r, 16), mode: 0o440})
}

func (t *vtree) addDir(r *Rand, up *pnode, name string) *pnode {
	if up.kids[name] != nil {
		return nil
	}
	c := t.addC(up.c, &cnode{name: t.storedName(up.c, name), dir: true, mode: permAt(len(t.c))})
	t.fillDir(r, c)
	p := &pnode{name: name, path: path.Join(up.path, name), dir: true, kids: map[string]*pnode{}, c: c, up: up}
	if up.path == "/" {
		p.path = "/" + name
	} else {
		p.path = up.path + "/" + name
	}
	c.p = p
	up.kids[name] = p
	t.p[p.path] = p
	return p
}

func (t *vtree) addFile(r *Rand, up *pnode, name string, plain []byte, holes map[int]bool) *pnode {
	if up.kids[name] != nil {
		return nil
	}
	id := oddBytes(r, 16)
	c := t.addC(up.c, &cnode{name: t.storedName(up.c, name), data: t.keys.encFile(plain, id, r, holes), mode: permAt(len(t.c))})
	p := &pnode{name: name, plain: plain, c: c, up: up}
	if up.path == "/" {
		p.path = "/" + name
	} else {
		p.path = up.path + "/" + name
	}
	c.p = p
	up.kids[name] = p
	t.p[p.path] = p
	return p
}

// storedName gives the name under which the remote stores an entry called name,
// and stores the name itself if it is too long.
func (t *vtree) storedName(up *cnode, name string) string {
	n := t.keys.encName(name, t.ivOf(up))
	if len(n) <= 255 {
		return n
	}
	h := sha256.Sum256([]byte(n))
	s := "gocryptfs.longname." + t.keys.b64.EncodeToString(h[:])
	t.addC(up, &cnode{name: s + ".name", data: []byte(n), mode: 0o400})
	return s
}

// addOther adds what is neither a file nor a directory. The target of a symbolic
// link is encrypted, so it leads nowhere on the remote.
func (t *vtree) addOther(r *Rand, up *pnode, name string, kind os.FileMode) *pnode {
	if up.kids[name] != nil {
		return nil
	}
	c := t.addC(up.c, &cnode{name: t.storedName(up.c, name), mode: kind | permAt(len(t.c))})
	if kind == os.ModeSymlink {
		c.data = []byte(t.keys.b64.EncodeToString(r.Bytes(r.Range(33, 80))))
	}
	p := &pnode{name: name, kind: kind, c: c, up: up, path: strings.TrimSuffix(up.path, "/") + "/" + name}
	c.p = p
	up.kids[name] = p
	t.p[p.path] = p
	return p
}

// objects lists the remote objects ("F path" or "D path") needed to serve an
// operation on the plaintext path p (which may not exist).
func (t *vtree) objects(op, p string) []string {
	var out []string
	add := func(d *cnode) {
		out = append(out, "D "+d.path, "F "+path.Join(d.path, "gocryptfs.diriv"))
		for _, k := range d.kids {
			if strings.HasSuffix(k.name, ".name") && strings.HasPrefix(k.name, "gocryptfs.longname.") {
				out = append(out, "F "+k.path)
			}
		}
	}
	p = path.Clean("/" + p)
	n := t.proot
	add(n.c)
	if p != "/" {
		for _, part := range strings.Split(p[1:], "/") {
			k := n.kids[part]
			if k == nil {
				n = nil
				break
			}
			n = k
			if n.dir {
				add(n.c)
			}
		}
	}
	if n == nil {
		return out
	}
	if !n.dir && n.kind == 0 && n.giant == 0 {
		out = append(out, "F "+n.c.path)
	}
	out = append(out, "S "+n.c.path)
	_ = op
	return out
}

// listed reports whether a raw remote path is made only of the root and of
// names the remote itself lists (or the drive's own files).
func (t *vtree) listed(raw string) bool {
	if raw != t.root && raw != t.clean {
		for _, part := range strings.Split(raw, "/") {
			if part == ".." {
				return false
			}
		}
	}
	p := path.Clean(raw)
	if t.c[p] != nil {
		return true
	}
	if b := path.Base(p); b == "gocryptfs.diriv" || (b == "gocryptfs.conf" && path.Dir(p) == t.clean) {
		return t.c[path.Dir(p)] != nil // asked for, although a hostile remote lacks it
	}
	return false
}

// missing returns some paths that do not exist in the plaintext view.
func (t *vtree) missing(r *Rand) string {
	d := t.dirs[r.N(len(t.dirs))]
	if d == "/" {
		d = ""
	}
	var s string
	switch r.N(13) {
	case 11, 12: // the name of an entry elsewhere
		if len(t.files) > 0 {
			s = d + "/" + path.Base(t.files[r.N(len(t.files))])
		}
	case 0:
		s = d + "/nope"
	case 1:
		s = d + "/nope/deeper/x"
	case 2: // ciphertext names are not plaintext names
		c := t.p[t.dirs[r.N(len(t.dirs))]].c
		if len(c.kids) > 0 {
			s = d + "/" + c.kids[r.N(len(c.kids))].name
		}
	case 3:
		s = d + "/gocryptfs.diriv"
	case 4:
		s = "/gocryptfs.conf"
	case 5:
		if len(t.files) > 0 {
			s = t.files[r.N(len(t.files))] + "/below"
		}
	case 6:
		if len(t.files) > 0 {
			s = t.files[r.N(len(t.files))] + "x"
		}
	case 7: // prefix of an existing name
		if len(t.files) > 0 {
			f := t.files[r.N(len(t.files))]
			s = f[:len(f)-1]
		}
	case 8:
		s = t.clean + "/gocryptfs.conf"
	case 9:
		s = d + "/\x00"
	default:
		if len(t.files) > 0 {
			s = strings.ToUpper(t.files[r.N(len(t.files))])
		}
	}
	s = path.Clean("/" + s)
	if t.p[s] != nil {
		return ""
	}
	return s
}

// drive adds what nobody but the proxy and its clients may learn.
func (w *watch) drive(t *vtree) {
	w.secret("the drive's passphrase", t.pass, false)
	w.secret("the master key", t.master[:16], false)
	w.secret("the master key (end)", t.master[16:], false)
	w.secret("the key that wraps the master key", t.conf.kek[:16], false)
	for _, k := range t.keys.derived {
		w.secret("a key derived from the master key", k[:16], false)
		w.secret("a key derived from the master key (end)", k[len(k)-16:], false)
	}
	for i, f := range t.files {
		pl := t.p[f].plain
		if i >= 12 || len(pl) < 32 {
			continue
		}
		for _, o := range []int{0, 1000, 4096, 8192, len(pl) - 16} {
			if o >= 0 && o+16 <= len(pl) {
				w.secret("plaintext content of "+shortPath(f), pl[o:o+16], true)
			}
		}
	}
}

// mutTarget is what a renaming or a new link names besides its path.
func (t *vtree) mutTarget(p string, op Op) string {
	switch (op.A + op.B/3) % 9 {
	case 0:
		return p
	case 1:
		return "/"
	case 2:
		return ""
	case 3:
		return p + "/below"
	case 4:
		return path.Dir(p)
	case 5:
		return t.dirs[op.A%len(t.dirs)]
	case 6:
		if len(t.files) > 0 {
			return t.files[op.A%len(t.files)]
		}
	case 7:
		return p + "~"
	}
	return p + "-moved"
}
