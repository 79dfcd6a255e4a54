//go:build go1.21

package main

import (
	"bytes"
	"crypto/cipher"
	"crypto/rand"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"time"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

// Level K: concurrent encryption and decryption through the content layer, its
// buffer pools and the randomness prefetcher.

func init() {
	reg := func(name string, faults bool) {
		register(&Scenario{Name: name, Gen: func(r *Rand, p *Plan) {
			nc := r.Range(1, 5)
			n := r.Range(3, 14)
			for i := 0; i < n; i++ {
				k := r.PickS("encs", "encs", "encs", "enc", "enc", "dec", "head", "rand", "fixed")
				nb := 1
				if k == "encs" || k == "dec" {
					nb = r.Pick(1, 2, 3, 5, 8, 17, 31, 32, 33, 34, r.Range(1, 70), r.Range(1, 70), r.Range(64, 140))
				}
				p.Ops = append(p.Ops, Op{C: i % nc, K: k, A: nb, B: r.N(1 << 30)})
			}
			p.Par["bs"] = r.Pick(4096, 4096, 1024, 512, 512)
			p.Par["cores"] = r.Range(1, 3)
			p.Par["kind"] = r.N(1 << 20)
			p.Sched = genSched(r, false)
			p.Par["ops_gap"] = r.Pick(0, 0, 1)
			if faults {
				p.Faults["random-short"] = r.Pick(0, 100000, 500000)
				p.Faults["random-slow"] = r.Pick(0, 0, 100000)
				p.Faults["random-error"] = r.Pick(0, 0, 20000, 100000, 300000)
			}
		}, Run: runEnc})
	}
	reg("K/enc", false)
	reg("K/rand", true)
}

type encCore struct {
	ce    *contentenc.ContentEnc
	siv   bool
	ivLen int
	gcm   cipher.AEAD
	sivK  []byte
	name  string
}

func (k *encCore) seal(no uint64, id, nonce, plain []byte) []byte {
	out := append([]byte{}, nonce...)
	if k.siv {
		return append(out, sivSeal(k.sivK, nonce, plain, blockAD(no, id))...)
	}
	return k.gcm.Seal(out, nonce, plain, blockAD(no, id))
}

func (k *encCore) open(no uint64, id, c []byte) ([]byte, error) {
	if len(c) < k.ivLen+16 {
		return nil, errRef
	}
	if k.siv {
		return sivOpen(k.sivK, c[:k.ivLen], c[k.ivLen:], blockAD(no, id))
	}
	return k.gcm.Open(nil, c[:k.ivLen], c[k.ivLen:], blockAD(no, id))
}

type held struct {
	live, copy []byte
	what       string
}

type encEnv struct {
	e      *Env
	bs     int
	cores  []*encCore
	win    map[[8]byte]string // every 8 byte window of random output -> whose
	used   uint64             // random bytes seen in outputs
	held   []held
	failed bool // the source of randomness failed
	deadC  chan bool
	gave   uint64
}

// faultyRandom is a randomness source that fails, returns less than asked for
// and takes its time.
type faultyRandom struct{ x *encEnv }

func (f *faultyRandom) Read(b []byte) (int, error) {
	e := f.x.e
	if e.chance("random-slow", kEnv) {
		e.fault("random-slow")
		time.Sleep(time.Duration(1+e.pick(5, kEnv)) * time.Second)
	}
	if e.chance("random-error", kEnv) {
		e.fault("random-error")
		f.x.failed = true
		// Ending the process is now a correct reaction.
		expectedDeath()
		n := 0
		if len(b) > 0 && e.pick(2, kEnv) == 1 {
			n = e.pick(len(b), kEnv)
		}
		fillRandom(b[:n])
		f.x.gave += uint64(n)
		return n, errors.New("simulated failure of the random device")
	}
	n := len(b)
	if n > 1 && e.chance("random-short", kEnv) {
		e.fault("random-short")
		n = 1 + e.pick(n-1, kEnv)
	}
	fillRandom(b[:n])
	f.x.gave += uint64(n)
	return n, nil
}

func fillRandom(b []byte) {
	for i := range b {
		b[i] = byte(runtime.SimRand() >> 24)
	}
}

func runEnc(e *Env) {
	x := &encEnv{e: e, bs: e.par("bs"), win: map[[8]byte]string{}, deadC: make(chan bool)}
	rand.SimFatal = func(err error) {
		// The process ends here.
		if !x.failed {
			e.violate("C19", "fatal", "the randomness source is reported as failed (%v) though it worked", err)
		}
		e.probe("died-of-random")
		if !x.dead() {
			close(x.deadC)
		}
		select {}
	}
	old := stuckHook
	stuckHook = func(why string) {
		if x.failed {
			return
		}
		e.violate("C19", "hang", "%s; outstanding: %s", why, e.pending())
	}
	_ = old
	if len(e.plan.Faults) > 0 {
		rand.Reader = &faultyRandom{x}
	}
	kind := e.par("kind")
	for i := 0; i < e.par("cores"); i++ {
		key := e.rng.Bytes(32)
		hk := kind&1 == 1
		k := &encCore{ivLen: 16, siv: kind>>1&3 == 0}
		if !k.siv && kind>>3&3 == 0 {
			k.ivLen = 12
		}
		kind >>= 5
		be := cryptocore.BackendGoGCM
		if k.siv {
			be = cryptocore.BackendAESSIV
		}
		gk := append([]byte{}, key...)
		ref := newRefKeys(append([]byte{}, key...), refFormat{HKDF: hk})
		k.sivK = ref.siv
		if hk {
			gk = refHKDF(gk, "AES-GCM file content encryption", 32)
		}
		var err error
		k.gcm, err = cipher.NewGCMWithNonceSize(mustAES(gk), k.ivLen)
		if err != nil {
			panic(err)
		}
		cc := cryptocore.New(key, be, k.ivLen*8, hk, false)
		k.ce = contentenc.New(cc, uint64(x.bs), false)
		k.name = fmt.Sprintf("key %d", i)
		x.cores = append(x.cores, k)
	}
	okC := make(chan bool)
	go func() {
		e.clients(e.plan.Ops, x.do)
		close(okC)
	}()
	select {
	case <-okC:
	case <-x.deadC:
	}
	x.checkHeld()
	gave := runtime.SimRandBytes() + x.gave
	if x.used > gave {
		e.violate("C19", "nonce-bytes", "the outputs contain %d bytes of randomness, but the source delivered only %d", x.used, gave)
	}
}

func (x *encEnv) dead() bool {
	select {
	case <-x.deadC:
		return true
	default:
		return false
	}
}

// fresh records random output and checks that it is.
func (x *encEnv) fresh(b []byte, what string) {
	x.used += uint64(len(b))
	if len(b) < 8 {
		return
	}
	seen := map[[8]byte]bool{}
	for i := 0; i+8 <= len(b); i++ {
		var w [8]byte
		copy(w[:], b[i:])
		if w == [8]byte{} {
			x.e.violate("C19", "nonce-zero", "%s is %x: not random", what, b)
			return
		}
		if o, ok := x.win[w]; ok || seen[w] {
			x.e.violate("C19", "nonce-repeat", "%s (%x) shares 8 bytes with %s", what, b, o)
			return
		}
		seen[w] = true
	}
	for w := range seen {
		x.win[w] = what
	}
}

func (x *encEnv) checkHeld() {
	for _, h := range x.held {
		if !bytes.Equal(h.live, h.copy) {
			x.e.violate("C19", "buffer", "%s changed after it was returned and while its owner held it: %s", h.what, diffBytes(h.live, h.copy))
			return
		}
	}
}

func (x *encEnv) do(c int, op Op) {
	e := x.e
	if x.dead() {
		return
	}
	r := &Rand{s: uint64(op.B)*77 + 5}
	k := x.cores[r.N(len(x.cores))]
	what := fmt.Sprintf("client %d %s %d seed %d %s", c, op.K, op.A, op.B, k.name)
	id := r.Bytes(16)
	if op.K == "head" || r.P(15) {
		h := contentenc.RandomHeader()
		if x.dead() {
			return
		}
		x.fresh(h.ID, "file id of "+what)
		id = append([]byte{}, h.ID...)
		packed := h.Pack()
		if len(packed) != refHeader || packed[0] != 0 || packed[1] != 2 || !bytes.Equal(packed[2:], id) {
			e.violate("C19", "header", "%s: header packed as %x, id %x", what, packed, id)
		}
		if g, err := contentenc.ParseHeader(packed); err != nil || !bytes.Equal(g.ID, id) {
			e.violate("C19", "header", "%s: header %x does not parse back: %v", what, packed, err)
		}
	}
	pend := e.begin(what)
	defer e.end(pend)
	first := uint64(r.Pick(0, 0, 1, 31, 32, 1000))
	if r.P(10) {
		first = r.Next() >> 1
	}
	var blocks [][]byte
	var plain []byte
	for i := 0; i < op.A; i++ {
		n := x.bs
		if i == op.A-1 && r.P(50) {
			n = r.Pick(1, 15, 16, 17, x.bs-1, r.Range(1, x.bs))
		}
		b := r.Bytes(n)
		plain = append(plain, b...)
		blocks = append(blocks, b)
	}
	switch op.K {
	case "head":
	case "rand":
		if r.P(50) {
			n := r.Pick(8, 16, 32, 100, 600)
			b := cryptocore.RandBytes(n)
			if x.dead() {
				return
			}
			if len(b) != n {
				e.violate("C19", "random-length", "%s: %d random bytes instead of %d", what, len(b), n)
			}
			x.fresh(b, "RandBytes of "+what)
		} else {
			v := cryptocore.RandUint64()
			if x.dead() {
				return
			}
			b := make([]byte, 8)
			binary.BigEndian.PutUint64(b, v)
			x.fresh(b, "RandUint64 of "+what)
		}
	case "enc":
		if r.P(20) {
			id = nil
		}
		if r.P(5) {
			if out := k.ce.EncryptBlock(nil, first, id); len(out) != 0 && !x.dead() {
				e.violate("C19", "empty", "%s: the empty block is encrypted as %d bytes", what, len(out))
			}
		}
		out := k.ce.EncryptBlock(blocks[0], first, id)
		if x.dead() {
			return
		}
		x.judge(k, what, out, blocks, first, id, true)
		p, err := k.ce.DecryptBlock(append([]byte{}, out...), first, id)
		if err != nil || !bytes.Equal(p, plain) {
			e.violate("C19", "round-trip", "%s: does not decrypt to its input: %v, %s", what, err, diffBytes(p, plain))
		}
		x.held = append(x.held, held{out, append([]byte{}, out...), "the result of " + what}, held{p, append([]byte{}, p...), "the decryption of " + what})
	case "fixed":
		if !k.siv {
			return
		}
		nonce := r.Bytes(16)
		out := k.ce.EncryptBlockNonce(blocks[0], first, id, nonce)
		if !bytes.Equal(out, k.seal(first, id, nonce, blocks[0])) {
			e.violate("C19", "fixed-nonce", "%s: wrong output for a given nonce", what)
		}
	case "encs", "dec":
		var out []byte
		if op.K == "encs" {
			out = k.ce.EncryptBlocks(blocks, first, id)
			if x.dead() {
				return
			}
			x.judge(k, what, out, blocks, first, id, true)
		} else {
			for i, b := range blocks {
				nonce := r.Bytes(k.ivLen)
				nonce[0] |= 1
				out = append(out, k.seal(first+uint64(i), id, nonce, b)...)
			}
		}
		cp := append([]byte{}, out...)
		p, err := k.ce.DecryptBlocks(append([]byte{}, cp...), first, id)
		if err != nil || !bytes.Equal(p, plain) {
			e.violate("C19", "round-trip", "%s: does not decrypt to its input: %v, %s", what, err, diffBytes(p, plain))
		}
		if len(blocks) > 1 && r.P(30) && len(cp) > k.ivLen {
			// Under another block number or identity it must not decrypt.
			id2 := append([]byte{}, id...)
			f2 := first
			if r.P(50) {
				id2[r.N(16)] ^= 1 << uint(r.N(8))
			} else {
				f2++
			}
			if _, err := k.ce.DecryptBlocks(append([]byte{}, cp...), f2, id2); err == nil {
				e.violate("C19", "binding", "%s: decrypts under another block number or file id", what)
			}
		}
		if op.K == "encs" && r.P(60) && cap(out) == x.reqSize(k) {
			// The caller is done with it; the next holder may reuse it.
			for i := range out {
				out[i] = 0xEE
			}
			k.ce.CReqPool.Put(out)
		} else {
			x.held = append(x.held, held{out, cp, "the result of " + what})
		}
		if r.P(60) && cap(p) == 128*1024+x.bs {
			for i := range p {
				p[i] = 0xDD
			}
			k.ce.PReqPool.Put(p)
		} else {
			x.held = append(x.held, held{p, append([]byte{}, p...), "the decryption of " + what})
		}
	}
	e.note("%s %d", what, x.used)
	x.checkHeld()
	if e.par("ops_gap") == 1 {
		sleepMs(1)
	}
}

func (x *encEnv) reqSize(k *encCore) int {
	return (128*1024/x.bs + 1) * (x.bs + k.ivLen + 16)
}

// judge decodes an output independently.
func (x *encEnv) judge(k *encCore, what string, out []byte, blocks [][]byte, first uint64, id []byte, nonces bool) {
	rest := out
	for i, b := range blocks {
		n := len(b) + k.ivLen + 16
		if len(rest) < n {
			x.e.violate("C19", "length", "%s: the output has %d bytes, too few for block %d of %d", what, len(out), i, len(blocks))
			return
		}
		c := rest[:n]
		rest = rest[n:]
		p, err := k.open(first+uint64(i), id, c)
		if err != nil || !bytes.Equal(p, b) {
			x.e.violate("C19", "block", "%s: block %d of %d does not decrypt to its input under its own number and file id: %v", what, i, len(blocks), err)
			return
		}
		x.fresh(c[:k.ivLen], fmt.Sprintf("nonce of block %d of %s", i, what))
	}
	if len(rest) != 0 {
		x.e.violate("C19", "length", "%s: %d extra bytes of output", what, len(rest))
	}
}
