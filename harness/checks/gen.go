// Package checks states every property as generated cases plus an oracle.
package checks

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"pgregory.net/rapid"
)

type (
	T    = rapid.T
	Hex  = core.Hex
	Text = core.Text
	Fail = core.Fail
)

var failf = core.Failf

// ---------------------------------------------------------------- primitives

// pick is a nearly uniform choice in [0,n) that shrinks to 0.
func pick(t *T, l string, n int) int {
	return int(rapid.Uint32Range(0, 1<<24-1).Draw(t, l) % uint32(n))
}

func oneIn(t *T, l string, n int) bool { return pick(t, l, n) == n-1 }

// weighted picks an index with the given weights.
func weighted(t *T, l string, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := pick(t, l, sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func from[V any](t *T, l string, vs []V) V { return vs[pick(t, l, len(vs))] }

func expand(seed []byte, n int) []byte {
	out := make([]byte, 0, n+32)
	for i := uint64(0); len(out) < n; i++ {
		var c [8]byte
		binary.BigEndian.PutUint64(c[:], i)
		h := sha256.Sum256(append(append([]byte{}, seed...), c[:]...))
		out = append(out, h[:]...)
	}
	return out[:n]
}

// rnd is n pseudo-random bytes determined by drawn values.
func rnd(t *T, l string, n int) []byte {
	var s [24]byte
	for i := 0; i < 3; i++ {
		binary.BigEndian.PutUint64(s[8*i:], rapid.Uint64().Draw(t, l))
	}
	return expand(s[:], n)
}

// genBytes is n bytes of a drawn shape.
func genBytes(t *T, l string, n int) []byte {
	b := rnd(t, l, n)
	if n == 0 {
		return b
	}
	switch weighted(t, l+"-shape", 10, 1, 1, 4, 2, 1, 2) {
	case 1:
		for i := range b {
			b[i] = 0
		}
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3: // leading zeros
		z := 1 + pick(t, l+"-zeros", min(n, 4))
		for i := 0; i < z; i++ {
			b[i] = 0
		}
	case 4: // one bit
		k := pick(t, l+"-bit", n*8)
		for i := range b {
			b[i] = 0
		}
		b[k/8] = 0x80 >> (k % 8)
	case 5:
		v := from(t, l+"-fill", []byte{0x80, 0x7f, 0x01, 0xaa, 0x55})
		for i := range b {
			b[i] = v
		}
	case 6: // trailing zeros
		z := 1 + pick(t, l+"-zeros", min(n, 4))
		for i := 0; i < z; i++ {
			b[n-1-i] = 0
		}
	}
	if v, ok := dictInt(t, l); ok { // a literal's byte somewhere, often at an end
		i := from(t, l+"-at", []int{0, n - 1, pick(t, l+"-pos", n)})
		if w := from(t, l+"-width", []int{1, 4, 8}); w <= n {
			var c [8]byte
			binary.BigEndian.PutUint64(c[:], v)
			copy(b[min(i, n-w):], c[8-w:])
		}
	} else if len(dict.texts) > 0 && oneIn(t, l+"-text", dictRate(40)) {
		s, _ := dictText(t, l)
		if raw, err := hex.DecodeString(s); err == nil && len(raw) > 1 && oneIn(t, l+"-hex", 2) {
			s = string(raw)
		}
		copy(b[pick(t, l+"-pos", n):], s)
	}
	if len(dict.newInts) > 0 && oneIn(t, l+"-where", 4) { // bytes where literals say
		for k, m := 0, 1+pick(t, l+"-many", 4); k < m; k++ {
			p := [2]uint64{from(t, l+"-at2", dict.newInts), from(t, l+"-val", dict.newInts)}
			if len(dict.newPairs) > 0 && oneIn(t, l+"-paired", 2) {
				p = from(t, l+"-pair", dict.newPairs)
			}
			if p[0] < uint64(n) {
				b[p[0]] = byte(p[1])
			}
		}
	}
	return b
}

var edgeIdx = []uint32{0, 1, 2, 255, 256, 65535, 65536, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<31 + 44, 1<<32 - 2, 1<<32 - 1}

// genIdx draws a child index; kind 0 any, 1 plain only, 2 hardened only.
func genIdx(t *T, l string, kind int) uint32 {
	var v uint32
	switch weighted(t, l+"-k", 3, 3, 3) {
	case 0:
		v = from(t, l+"-edge", edgeIdx)
	case 1:
		v = binary.BigEndian.Uint32(rnd(t, l, 4))
	case 2:
		v = uint32(pick(t, l+"-small", 100))
		if kind == 0 && pick(t, l+"-h", 2) == 1 {
			v |= ref.Hardened
		}
	}
	if d, ok := dictInt(t, l); ok {
		v = v&ref.Hardened ^ uint32(d)
	}
	switch kind {
	case 1:
		v &^= ref.Hardened
	case 2:
		v |= ref.Hardened
	}
	return v
}

// ------------------------------------------------------------- keys

// genScalar is a private scalar in [1, n-1] of a drawn shape.
func genScalar(t *T, l string) *big.Int {
	v := new(big.Int)
	switch weighted(t, l+"-kind", 8, 2, 2, 2, 3, 1, 2) {
	case 0:
		v.SetBytes(rnd(t, l, 32))
	case 1: // small
		v.SetInt64(int64(1 + pick(t, l+"-small", 300)))
	case 2: // near n
		v.Sub(ref.N, big.NewInt(int64(1+pick(t, l+"-small", 300))))
	case 3: // power of two (and around it)
		v.Lsh(big.NewInt(1), uint(pick(t, l+"-exp", 256)))
		v.Add(v, big.NewInt(int64(pick(t, l+"-off", 3)-1)))
	case 4: // leading zeros
		z := 1 + pick(t, l+"-zeros", 31)
		v.SetBytes(rnd(t, l, 32-z))
	case 5: // around n/2
		v.Rsh(ref.N, 1)
		v.Add(v, big.NewInt(int64(pick(t, l+"-off", 5)-2)))
	case 6: // exactly one or two zero bytes in front, or trailing zeros
		b := rnd(t, l, 32)
		z := 1 + pick(t, l+"-zeros", 3)
		for i := 0; i < z; i++ {
			if z == 3 {
				b[31-i] = 0
			} else {
				b[i] = 0
			}
		}
		v.SetBytes(b)
	}
	if d, ok := dictInt(t, l); ok { // a literal of the code, or one in the value's bits
		w := new(big.Int).SetUint64(d)
		if sh := from(t, l+"-sh", []uint{0, 0, 8, 32, 192, 224, 248}); sh > 0 {
			v.Xor(v, w.Lsh(w, sh))
		} else {
			v = w
		}
	}
	v.Mod(v, ref.N)
	if v.Sign() == 0 {
		v.SetInt64(1)
	}
	return v
}

// genPoint is a curve point whose discrete log may be unknown; coordinates
// with leading zeros are constructed.
func genPoint(t *T, l string) ref.Point {
	switch weighted(t, l+"-pk", 3, 3, 3) {
	case 0:
		return ref.BaseMul(genScalar(t, l))
	case 1: // x with z leading zero bytes
		z := pick(t, l+"-z", 32)
		if oneIn(t, l+"-hi", 6) { // x just below p
			x := new(big.Int).Sub(ref.P, big.NewInt(int64(1+pick(t, l+"-off", 200))))
			for {
				if p, ok := ref.LiftX(x, pick(t, l+"-odd", 2) == 1); ok {
					return p
				}
				x.Sub(x, big.NewInt(1))
			}
		}
		x := new(big.Int).SetBytes(rnd(t, l, 32-z))
		x.Mod(x, ref.P)
		if d, ok := dictInt(t, l); ok { // a literal in its leading or last bits
			w := new(big.Int).SetUint64(d)
			if sh := from(t, l+"-sh", []uint{0, 224, 240, 248}); sh > 0 {
				b := x.FillBytes(make([]byte, 32))
				copy(b, w.Lsh(w, sh).FillBytes(make([]byte, 48))[16:16+(256-sh)/8])
				x.SetBytes(b)
			} else {
				x = w
			}
			x.Mod(x, ref.P)
		}
		odd := pick(t, l+"-odd", 2) == 1
		for {
			if p, ok := ref.LiftX(x, odd); ok {
				return p
			}
			x.Add(x, big.NewInt(1))
			x.Mod(x, ref.P)
		}
	default: // y with z leading zero bytes
		z := pick(t, l+"-z", 31)
		y := new(big.Int).SetBytes(rnd(t, l, 32-z))
		y.Mod(y, ref.P)
		for {
			if p, ok := ref.LiftY(y); ok {
				return p
			}
			y.Add(y, big.NewInt(1))
			y.Mod(y, ref.P)
		}
	}
}

// keyOpts restricts genKey.
type keyOpts struct {
	priv, pub bool // which kinds are allowed
	reg       bool // registered version of the right kind only
	maxDepth  int  // largest depth (255 when 0)
}

var depthEdges = []int{0, 1, 2, 3, 4, 5, 9, 10, 11, 127, 128, 200, 253, 254, 255}

var unregVersions = []uint32{0, 1, 0xffffffff, 0x0488ade3, 0x0488ade5, 0x0488b21f, 0x0488b21d, 0x04358395, 0xe4ad8804, 0x0488b2e4, 0x04358000}

// genVersion draws a version for a key of the given kind that import accepts.
func genVersion(t *T, l string, priv, regOnly bool) uint32 {
	reg := ref.PubVersions
	if priv {
		reg = ref.PrvVersions
	}
	if regOnly || !oneIn(t, l+"-unreg", 4) {
		if d, ok := dictInt(t, l); ok {
			for _, v := range reg {
				if uint64(v) == d {
					return v
				}
			}
		}
		return from(t, l+"-ver", reg)
	}
	for i := 0; ; i++ {
		var v uint32
		if pick(t, l+"-uk", 2) == 0 {
			v = from(t, l+"-ver", unregVersions)
		} else {
			v = binary.BigEndian.Uint32(rnd(t, l, 4))
		}
		if d, ok := dictInt(t, l); ok {
			v = uint32(d)
		}
		if _, ok := ref.PubVersion[v]; ok {
			continue
		}
		if _, ok := ref.PrvVersion[v]; ok {
			continue
		}
		return v
	}
}

// genX draws a valid (importable) extended key.
func genX(t *T, l string, o keyOpts) ref.XKey {
	var k ref.XKey
	priv := o.priv
	if o.priv && o.pub {
		priv = pick(t, l+"-priv", 2) == 0
	}
	if priv {
		k.Priv = genScalar(t, l+"-s")
		if len(mined.Parents) > 0 && oneIn(t, l+"-mined", 12) {
			m := from(t, l+"-m", mined.Parents)
			k.Priv = new(big.Int).SetBytes(m.Priv)
			copy(k.Chain[:], m.Chain)
		}
		k.Pub = ref.BaseMul(k.Priv)
	} else {
		k.Pub = genPoint(t, l+"-p")
	}
	k.Version = genVersion(t, l, priv, o.reg)
	if k.Chain == [32]byte{} {
		copy(k.Chain[:], genBytes(t, l+"-cc", 32))
	}
	maxD := o.maxDepth
	if maxD == 0 {
		maxD = 255
	}
	d := 0
	switch weighted(t, l+"-dk", 3, 3, 1) {
	case 1:
		d = from(t, l+"-depth", depthEdges)
	case 2:
		d = int(rnd(t, l+"-d", 1)[0])
	}
	d = dictLen(t, l+"-d", d, 255)
	if d > maxD {
		d = maxD
	}
	k.Depth = byte(d)
	if d > 0 {
		copy(k.FP[:], genBytes(t, l+"-fp", 4))
		k.Child = genIdx(t, l+"-cn", 0)
	}
	return k
}

// rootX draws a valid depth-zero private key.
func rootX(t *T, l string, regOnly bool) ref.XKey {
	k := genX(t, l, keyOpts{priv: true, reg: regOnly, maxDepth: 1})
	k.Depth, k.Child, k.FP = 0, 0, [4]byte{}
	return k
}

func keyHex(k ref.XKey) Hex { b := k.Bytes(); return b[:] }

func mustX(b Hex) ref.XKey {
	k, ok := ref.ParseX(b)
	if !ok {
		panic("harness: bad key in case")
	}
	return k
}

// keyClasses labels a key.
func keyClasses(b Hex) []string {
	var c []string
	k, ok := ref.ParseX(b)
	if !ok {
		return []string{"key:invalid"}
	}
	if k.Priv != nil {
		c = append(c, "key:private")
		if k.Priv.BitLen() <= 248 {
			c = append(c, "+scalar-leading-zero")
		}
	} else {
		c = append(c, "key:public")
	}
	if k.Pub.X.BitLen() <= 248 {
		c = append(c, "+x-leading-zero")
	}
	if k.Pub.Y.BitLen() <= 248 {
		c = append(c, "+y-leading-zero")
	}
	switch {
	case k.Depth == 255:
		c = append(c, "+depth-255")
	case k.Depth > 0:
		c = append(c, "+depth-nonzero")
	default:
		c = append(c, "depth-0")
	}
	_, a := ref.PubVersion[k.Version]
	_, b2 := ref.PrvVersion[k.Version]
	if !a && !b2 {
		c = append(c, "+unregistered-version")
	} else if k.Version != 0x0488ade4 && k.Version != 0x0488b21e {
		c = append(c, "+non-default-version")
	}
	return c
}

// ------------------------------------------------------------- paths

// genComps draws path components: hardened first, then plain.
func genComps(t *T, l string, maxLen int) []uint32 {
	n := 0
	switch weighted(t, l+"-lk", 6, 2, 1) {
	case 0:
		n = pick(t, l+"-n", 7)
	case 1:
		n = pick(t, l+"-n", 20)
	case 2:
		n = pick(t, l+"-n", maxLen+1)
	}
	n = dictLen(t, l, n, maxLen)
	if n > maxLen {
		n = maxLen
	}
	h := 0
	if n > 0 {
		h = pick(t, l+"-h", n+1)
	}
	var out []uint32
	for i := 0; i < n; i++ {
		if i < h {
			out = append(out, genIdx(t, l, 2))
		} else {
			out = append(out, genIdx(t, l, 0))
		}
	}
	return out
}

// spell writes accepted path text for components; plain components may be any
// 32-bit value after the hardened ones.
func spell(t *T, l string, comps []uint32) string {
	var sb strings.Builder
	ws := func() {
		if oneIn(t, l+"-ws", 25) {
			sb.WriteString(from(t, l+"-w", []string{" ", "\t", "\n", "\r\n", "\f", "  "}))
		}
	}
	zeros := func() {
		if oneIn(t, l+"-z", 20) {
			sb.WriteString(strings.Repeat("0", 1+pick(t, l+"-nz", 25)))
		}
	}
	ws()
	if oneIn(t, l+"-M", 6) {
		sb.WriteString("M")
	} else {
		sb.WriteString("m")
	}
	ws()
	plain := false
	for _, c := range comps {
		sb.WriteString("/")
		ws()
		zeros()
		hard := !plain && c >= ref.Hardened
		if hard && oneIn(t, l+"-raw", 8) {
			hard = false // hardened index spelt as a plain number
		}
		if hard {
			sb.WriteString(ref.FormatIdx(c))
		} else {
			plain = true
			sb.WriteString(utoa(c))
		}
		ws()
	}
	return sb.String()
}

func utoa(v uint32) string { return new(big.Int).SetUint64(uint64(v)).String() }

// ------------------------------------------------------------- text

var uniBits = []string{"é", "e\u0301", "ñ", "가", "ﬁ", "Å", "Ω", "　", "\u00a0", "か\u3099", "が", "ſ", "①", "😀", "\u0000", "'", "\"", "\\", "%s", "Ａ", "ǆ", "\u0323\u0307", "\u2028", "½", "\u202e"}

// genText draws text of any length up to max (runes, mostly valid UTF-8).
func genText(t *T, l string, max int) string {
	s := genPlainText(t, l, max)
	if len(dict.texts) > 0 && oneIn(t, l+"-dict", dictRate(12)) { // with a literal of the code in it
		d, _ := dictText(t, l)
		i := 0
		if len(s) > 0 {
			i = from(t, l+"-at", []int{0, len(s), pick(t, l+"-pos", len(s)+1)})
		}
		if len(s)+len(d) <= max {
			s = s[:i] + d + s[i:]
		}
	}
	return s
}

func genPlainText(t *T, l string, max int) string {
	switch weighted(t, l+"-tk", 3, 3, 3, 2, 1, 1, 2) {
	case 0:
		return ""
	case 1: // ASCII
		n := min(max, dictLen(t, l, pick(t, l+"-n", 40), 5000))
		b := rnd(t, l, n)
		for i := range b {
			b[i] = 0x20 + b[i]%0x5f
		}
		return string(b)
	case 2: // accented pieces
		var sb strings.Builder
		for i, n := 0, 1+pick(t, l+"-n", 8); i < n; i++ {
			if pick(t, l+"-u", 2) == 0 {
				sb.WriteString(from(t, l+"-bit", uniBits))
			} else {
				sb.WriteByte("abcXYZ 019"[pick(t, l+"-a", 10)])
			}
		}
		return sb.String()
	case 3: // long ASCII
		n := from(t, l+"-ln", []int{63, 64, 65, 119, 120, 121, 127, 128, 129, 200, 255, 256, 1000, 4096})
		if n > max {
			n = max
		}
		b := rnd(t, l, n)
		for i := range b {
			b[i] = 0x21 + b[i]%0x5e
		}
		return string(b)
	case 4:
		return rapid.StringN(0, min(30, max), -1).Draw(t, l)
	case 6: // something written in another way
		s := genWritten(t, l, from(t, l+"-base", []string{"pass", "a b", "correct horse", "m/44'/0'/0'", "0a1b2c3d", "1", "Bitcoin", abandonAbout}))
		return s[:min(len(s), max)]
	default: // raw bytes
		return string(rnd(t, l, min(max, dictLen(t, l, pick(t, l+"-n", 40), 5000))))
	}
}

// ------------------------------------------------------------- mined data

// mined holds inputs with rare outcomes found by cmd mine.
var mined struct {
	// Parents whose child at Index has Zeros leading zero bytes in What.
	Parents []minedParent `json:"parents"`
	// Seeds whose master key or chain code has leading zero bytes.
	Seeds []Hex `json:"seeds"`
	// Scalars whose public key hash has leading zero bytes.
	Hashes []Hex `json:"hashes"`
	// Passphrases that with abandonAbout give seeds with leading zero bytes.
	Passes []Text `json:"passes"`
}

const abandonAbout = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"

type minedParent struct {
	Priv  Hex    `json:"priv"`
	Chain Hex    `json:"chain"`
	Index uint32 `json:"index"`
	What  string `json:"what"`
}

var loadOnce sync.Once

func loadData() {
	loadOnce.Do(func() {
		if b, err := os.ReadFile(filepath.Join(core.DataDir, "mined.json")); err == nil {
			if err := json.Unmarshal(b, &mined); err != nil {
				panic(err)
			}
		}
		loadLists()
		loadDict(repoDir())
	})
}

func rapidString(t *T, l string) string { return rapid.StringN(0, 20, -1).Draw(t, l) }
