//go:build go1.21

package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"

	"golang.org/x/crypto/scrypt"
)

// An independent implementation of the gocryptfs on-disk format (forward mode,
// EME names, per-directory IVs, AES-GCM or AES-SIV content), written from the
// format description. It is the reference the proxy is compared with.

type refFormat struct {
	HKDF, Raw64, LongNames, SIV bool
}

type refKeys struct {
	f   refFormat
	eme cipher.Block
	gcm cipher.AEAD
	siv []byte // 64 byte
	b64 *base64.Encoding

	derived [][]byte // the keys themselves
}

func refHKDF(key []byte, info string, n int) []byte {
	ext := hmac.New(sha256.New, make([]byte, 32))
	ext.Write(key)
	prk := ext.Sum(nil)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		m := hmac.New(sha256.New, prk)
		m.Write(t)
		m.Write([]byte(info))
		m.Write([]byte{i})
		t = m.Sum(nil)
		out = append(out, t...)
	}
	return out[:n]
}

func mustAES(k []byte) cipher.Block {
	b, err := aes.NewCipher(k)
	if err != nil {
		panic(err)
	}
	return b
}

func newRefKeys(master []byte, f refFormat) *refKeys {
	k := &refKeys{f: f, b64: base64.URLEncoding}
	if f.Raw64 {
		k.b64 = base64.RawURLEncoding
	}
	nameKey, gcmKey := master, master
	s := sha512.Sum512(master)
	k.siv = s[:]
	if f.HKDF {
		nameKey = refHKDF(master, "EME filename encryption", 32)
		gcmKey = refHKDF(master, "AES-GCM file content encryption", 32)
		k.siv = refHKDF(master, "AES-SIV file content encryption", 64)
	}
	k.derived = [][]byte{nameKey, gcmKey, k.siv}
	k.eme = mustAES(nameKey)
	var err error
	k.gcm, err = cipher.NewGCMWithNonceSize(mustAES(gcmKey), 16)
	if err != nil {
		panic(err)
	}
	return k
}

// ---- EME (Halevi, Rogaway), as used for names

func gfDouble(in []byte) []byte { // little endian doubling as in EME-32 / eme.go
	out := make([]byte, 16)
	out[0] = 2 * in[0]
	if in[15] >= 128 {
		out[0] ^= 135
	}
	for j := 1; j < 16; j++ {
		out[j] = 2 * in[j]
		if in[j-1] >= 128 {
			out[j]++
		}
	}
	return out
}

func xor16(a, b []byte) []byte {
	o := make([]byte, 16)
	for i := range o {
		o[i] = a[i] ^ b[i]
	}
	return o
}

func refEME(b cipher.Block, tweak, in []byte, decrypt bool) []byte {
	aesT := func(x []byte) []byte {
		o := make([]byte, 16)
		if decrypt {
			b.Decrypt(o, x)
		} else {
			b.Encrypt(o, x)
		}
		return o
	}
	m := len(in) / 16
	L := make([][]byte, m)
	z := make([]byte, 16)
	li := make([]byte, 16)
	b.Encrypt(li, z)
	for i := 0; i < m; i++ {
		li = gfDouble(li)
		L[i] = li
	}
	C := make([][]byte, m)
	for j := 0; j < m; j++ {
		C[j] = aesT(xor16(in[j*16:j*16+16], L[j]))
	}
	MP := xor16(C[0], tweak)
	for j := 1; j < m; j++ {
		MP = xor16(MP, C[j])
	}
	MC := aesT(MP)
	M := xor16(MP, MC)
	for j := 1; j < m; j++ {
		M = gfDouble(M)
		C[j] = xor16(C[j], M)
	}
	CCC1 := xor16(MC, tweak)
	for j := 1; j < m; j++ {
		CCC1 = xor16(CCC1, C[j])
	}
	C[0] = CCC1
	var out []byte
	for j := 0; j < m; j++ {
		out = append(out, xor16(aesT(C[j]), L[j])...)
	}
	return out
}

func (k *refKeys) encName(plain string, iv []byte) string {
	p := []byte(plain)
	n := 16 - len(p)%16
	for i := 0; i < n; i++ {
		p = append(p, byte(n))
	}
	return k.b64.EncodeToString(refEME(k.eme, iv, p, false))
}

// ---- AES-SIV (RFC 5297) with associated data (ad, nonce)

func cmac(b cipher.Block, msg []byte) []byte {
	dbl := func(x []byte) []byte {
		o := make([]byte, 16)
		c := byte(0)
		for i := 15; i >= 0; i-- {
			o[i] = x[i]<<1 | c
			c = x[i] >> 7
		}
		if c != 0 {
			o[15] ^= 0x87
		}
		return o
	}
	z := make([]byte, 16)
	b.Encrypt(z, z)
	k1 := dbl(z)
	k2 := dbl(k1)
	n := (len(msg) + 15) / 16
	var last []byte
	if n == 0 || len(msg)%16 != 0 {
		if n == 0 {
			n = 1
		}
		l := append([]byte{}, msg[(n-1)*16:]...)
		l = append(l, 0x80)
		for len(l) < 16 {
			l = append(l, 0)
		}
		last = xor16(l, k2)
	} else {
		last = xor16(msg[(n-1)*16:], k1)
	}
	x := make([]byte, 16)
	for i := 0; i < n-1; i++ {
		x = xor16(x, msg[i*16:i*16+16])
		b.Encrypt(x, x)
	}
	x = xor16(x, last)
	b.Encrypt(x, x)
	return x
}

func s2v(b cipher.Block, ads [][]byte, msg []byte) []byte {
	dbl := func(x []byte) []byte {
		o := make([]byte, 16)
		c := byte(0)
		for i := 15; i >= 0; i-- {
			o[i] = x[i]<<1 | c
			c = x[i] >> 7
		}
		if c != 0 {
			o[15] ^= 0x87
		}
		return o
	}
	d := cmac(b, make([]byte, 16))
	for _, a := range ads {
		d = xor16(dbl(d), cmac(b, a))
	}
	var t []byte
	if len(msg) >= 16 {
		t = append([]byte{}, msg...)
		o := len(t) - 16
		for i := 0; i < 16; i++ {
			t[o+i] ^= d[i]
		}
	} else {
		p := append([]byte{}, msg...)
		p = append(p, 0x80)
		for len(p) < 16 {
			p = append(p, 0)
		}
		t = xor16(dbl(d), p)
	}
	return cmac(b, t)
}

func sivSeal(key, nonce, msg, ad []byte) []byte {
	v := s2v(mustAES(key[:32]), [][]byte{ad, nonce}, msg)
	q := append([]byte{}, v...)
	q[8] &= 0x7f
	q[12] &= 0x7f
	out := make([]byte, len(msg))
	cipher.NewCTR(mustAES(key[32:]), q).XORKeyStream(out, msg)
	return append(append([]byte{}, v...), out...)
}

func sivOpen(key, nonce, ct, ad []byte) ([]byte, error) {
	if len(ct) < 16 {
		return nil, errors.New("siv: short")
	}
	v := ct[:16]
	q := append([]byte{}, v...)
	q[8] &= 0x7f
	q[12] &= 0x7f
	out := make([]byte, len(ct)-16)
	cipher.NewCTR(mustAES(key[32:]), q).XORKeyStream(out, ct[16:])
	if !bytes.Equal(v, s2v(mustAES(key[:32]), [][]byte{ad, nonce}, out)) {
		return nil, errors.New("siv: not authentic")
	}
	return out, nil
}

// ---- content

func blockAD(no uint64, fileID []byte) []byte {
	ad := make([]byte, 8)
	binary.BigEndian.PutUint64(ad, no)
	return append(ad, fileID...)
}

func (k *refKeys) encBlock(no uint64, fileID, nonce, plain []byte) []byte {
	ad := blockAD(no, fileID)
	out := append([]byte{}, nonce...)
	if k.f.SIV {
		return append(out, sivSeal(k.siv, nonce, plain, ad)...)
	}
	return k.gcm.Seal(out, nonce, plain, ad)
}

const (
	refBS     = 4096
	refCBS    = 4096 + 32
	refHeader = 18
)

// encFile encrypts a whole file. holes lists block numbers stored as file
// holes (they must be all-zero in plain and full sized).
func (k *refKeys) encFile(plain, fileID []byte, r *Rand, holes map[int]bool) []byte {
	if len(plain) == 0 {
		return nil
	}
	out := append([]byte{0, 2}, fileID...)
	for no := 0; no*refBS < len(plain); no++ {
		end := (no + 1) * refBS
		if end > len(plain) {
			end = len(plain)
		}
		if holes[no] {
			out = append(out, make([]byte, refCBS)...)
			continue
		}
		nonce := oddBytes(r, 16)
		out = append(out, k.encBlock(uint64(no), fileID, nonce, plain[no*refBS:end])...)
	}
	return out
}

var errRef = errors.New("not authentic")

// decFile is the reference decoder.
func (k *refKeys) decFile(c []byte) ([]byte, error) {
	if len(c) == 0 {
		return []byte{}, nil
	}
	if len(c) < refHeader {
		return nil, errRef
	}
	if c[0] != 0 || c[1] != 2 {
		return nil, errRef
	}
	id := c[2:18]
	if bytes.Equal(id, make([]byte, 16)) {
		return nil, errRef
	}
	out := []byte{}
	body := c[18:]
	for no := uint64(0); len(body) > 0; no++ {
		n := refCBS
		if n > len(body) {
			n = len(body)
		}
		blk := body[:n]
		body = body[n:]
		if n == refCBS && bytes.Equal(blk, make([]byte, refCBS)) {
			out = append(out, make([]byte, refBS)...)
			continue
		}
		if n <= 32 {
			return nil, errRef
		}
		nonce := blk[:16]
		if bytes.Equal(nonce, make([]byte, 16)) {
			return nil, errRef
		}
		var p []byte
		var err error
		if k.f.SIV {
			p, err = sivOpen(k.siv, nonce, blk[16:], blockAD(no, id))
		} else {
			p, err = k.gcm.Open(nil, nonce, blk[16:], blockAD(no, id))
		}
		if err != nil {
			return nil, errRef
		}
		out = append(out, p...)
	}
	return out, nil
}

// ---- configuration file

type refConf struct {
	kek []byte

	Creator      string
	EncryptedKey []byte
	ScryptObject refScrypt
	Version      int
	FeatureFlags []string

	TrezorPayload []byte `json:",omitempty"`
}
type refScrypt struct {
	Salt            []byte
	N, R, P, KeyLen int
}

func makeConf(master, pass []byte, f refFormat, r *Rand) *refConf {
	c := &refConf{Creator: "sim", Version: 2, FeatureFlags: []string{"GCMIV128", "DirIV", "EMENames"}}
	if f.HKDF {
		c.FeatureFlags = append(c.FeatureFlags, "HKDF")
	}
	if f.LongNames {
		c.FeatureFlags = append(c.FeatureFlags, "LongNames")
	}
	if f.Raw64 {
		c.FeatureFlags = append(c.FeatureFlags, "Raw64")
	}
	if f.SIV {
		c.FeatureFlags = append(c.FeatureFlags, "AESSIV")
	}
	c.ScryptObject = refScrypt{Salt: r.Bytes(32), N: 1024, R: 8, P: 1, KeyLen: 32}
	c.lock(master, pass, r)
	return c
}

// relock wraps the master key with parameters nobody should use; false when
// that cannot be done at all.
func (c *refConf) relock(master, pass []byte, r *Rand) bool {
	s := c.ScryptObject
	if s.N < 2 || s.N&(s.N-1) != 0 || s.R < 1 || s.P < 1 || s.KeyLen < 1 {
		return false
	}
	h, err := scrypt.Key(pass, s.Salt, s.N, s.R, s.P, s.KeyLen)
	if err != nil {
		return false
	}
	for _, f := range c.FeatureFlags {
		if f == "HKDF" {
			g, err := cipher.NewGCMWithNonceSize(mustAES(refHKDF(h, "AES-GCM file content encryption", 32)), 16)
			if err != nil {
				return false
			}
			nonce := r.Bytes(16)
			c.EncryptedKey = g.Seal(append([]byte{}, nonce...), nonce, master, make([]byte, 8))
			return true
		}
	}
	if len(h) < 32 {
		return false
	}
	c.lock(master, pass, r)
	return true
}

// lock wraps the master key with the passphrase.
func (c *refConf) lock(master, pass []byte, r *Rand) {
	h, err := scrypt.Key(pass, c.ScryptObject.Salt, c.ScryptObject.N, c.ScryptObject.R, c.ScryptObject.P, c.ScryptObject.KeyLen)
	if err != nil {
		panic(err)
	}
	ivLen := 12
	hk := false
	for _, f := range c.FeatureFlags {
		if f == "HKDF" {
			hk = true
		}
	}
	key := h[:32]
	if hk {
		ivLen = 16
		key = refHKDF(h, "AES-GCM file content encryption", 32)
	}
	c.kek = h
	g, err := cipher.NewGCMWithNonceSize(mustAES(key), ivLen)
	if err != nil {
		panic(err)
	}
	nonce := r.Bytes(ivLen)
	nonce[0] |= 1
	c.EncryptedKey = g.Seal(append([]byte{}, nonce...), nonce, master, make([]byte, 8))
}

// unlock returns the master key, or nil when pass is wrong.
func (c *refConf) unlock(pass []byte) []byte {
	h, err := scrypt.Key(pass, c.ScryptObject.Salt, c.ScryptObject.N, c.ScryptObject.R, c.ScryptObject.P, c.ScryptObject.KeyLen)
	if err != nil {
		return nil
	}
	ivLen := 12
	key := h[:32]
	for _, f := range c.FeatureFlags {
		if f == "HKDF" {
			ivLen = 16
			key = refHKDF(h, "AES-GCM file content encryption", 32)
		}
	}
	g, err := cipher.NewGCMWithNonceSize(mustAES(key), ivLen)
	if err != nil || len(c.EncryptedKey) < ivLen {
		return nil
	}
	m, err := g.Open(nil, c.EncryptedKey[:ivLen], c.EncryptedKey[ivLen:], make([]byte, 8))
	if err != nil {
		return nil
	}
	return m
}

func (c *refConf) json() []byte {
	b, err := json.MarshalIndent(c, "", "\t")
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

// oddBytes gives n random bytes, some of them of a kind that is easily taken
// for something else.
func oddBytes(r *Rand, n int) []byte {
	b := r.Bytes(n)
	if !r.P(12) {
		b[0] |= 1
		return b
	}
	put := func(at int, s string) { copy(b[at:], s) }
	switch r.N(7) {
	case 0:
		put(0, "\x00\x00\x00\x00\x00\x00\x00\x00"[:r.Pick(1, 2, 4, 8)])
		b[n-1] |= 1
	case 1:
		put(n-8, "\x00\x00\x00\x00\x00\x00\x00\x00"[:8])
		b[0] |= 1
	case 2:
		put(r.Pick(0, n-8), "\xff\xff\xff\xff\xff\xff\xff\xff")
		b[n/2] |= 1
	case 3:
		b[n-1] = '\n'
	case 4:
		put(n-2, "\r\n")
	case 5:
		b[0], b[n-1] = ' ', '\t'
	case 6:
		for i := range b {
			b[i] = "0123456789abcdef"[b[i]&15]
		}
	}
	return b
}
