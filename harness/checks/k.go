package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"math/big"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
)

func lib(k ref.XKey) bip32.Key { return bip32.Key(k.Bytes()) }

func libHex(b Hex) bip32.Key { return bip32.Key(b) }

func sameKey(got bip32.Key, want ref.XKey) bool { return [78]byte(got) == want.Bytes() }

// diffKey describes a mismatch by field.
func diffKey(got bip32.Key, want ref.XKey) string {
	w := want.Bytes()
	var f []string
	for _, p := range []struct {
		n    string
		a, b int
	}{{"version", 0, 4}, {"depth", 4, 5}, {"fingerprint", 5, 9}, {"child number", 9, 13}, {"chain code", 13, 45}, {"key", 45, 78}} {
		if !bytes.Equal(got[p.a:p.b], w[p.a:p.b]) {
			f = append(f, p.n+" "+hex.EncodeToString(got[p.a:p.b])+" want "+hex.EncodeToString(w[p.a:p.b]))
		}
	}
	return strings.Join(f, "; ")
}

// ------------------------------------------------------------------ K01

type k01 struct {
	Seed Hex
	Case Hex // per-character case choice for the hex form
}

func (c k01) hexText() string {
	s := []byte(hex.EncodeToString(c.Seed))
	for i := range s {
		if len(c.Case) > 0 && c.Case[i%len(c.Case)]&1 == 1 && s[i] >= 'a' {
			s[i] -= 32
		}
	}
	return string(s)
}

// bigSizes are lengths around limits that code may impose.
var bigSizes = []int{511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100001}

// hugeSizes are around limits and block sizes that only large inputs reach.
var hugeSizes = []int{131071, 131073, 262145, 1<<20 + 5, 524289, 1<<20 - 1, 1 << 20, 1<<21 + 3, 5000001}

var seedSizes = []int{16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 96, 127, 128, 129, 130, 200, 255, 256, 257, 512, 1000}

var specK01 = core.Spec[k01]{
	Name: "master", Quick: 60000, Thorough: 3000000,
	Gen: func(t *T) k01 {
		var c k01
		n := from(t, "size", seedSizes)
		switch weighted(t, "nk", 4, 2, 1, 1) {
		case 1:
			n = pick(t, "n", 300)
		case 2:
			n = 64
		case 3:
			n = pick(t, "n", 18)
		}
		c.Seed = genBytes(t, "seed", dictLen(t, "size", n, 5000))
		if len(mined.Seeds) > 0 && oneIn(t, "mined", 40) {
			c.Seed = from(t, "ms", mined.Seeds)
		}
		switch pick(t, "case", 3) {
		case 1:
			c.Case = Hex{1}
		case 2:
			c.Case = rnd(t, "cases", 7)
		}
		return c
	},
	Fixed: func() []k01 {
		var out []k01
		for n := 0; n <= 300; n++ {
			out = append(out, k01{Seed: expand([]byte{4}, n)}, k01{Seed: make([]byte, n)})
		}
		for _, n := range append(hugeSizes[:len(hugeSizes):len(hugeSizes)], bigSizes...) {
			out = append(out, k01{Seed: expand([]byte{4}, n)})
		}
		for _, m := range mined.Seeds {
			out = append(out, k01{Seed: m})
		}
		return out
	},
	Check: func(c k01) *Fail {
		want, _ := ref.Master(c.Seed)
		k, err := bip32.NewMasterKey(inBuf(0, c.Seed, 0))
		if err != nil || k == nil {
			return failf("NewMasterKey(%x) failed: %v", []byte(c.Seed), err)
		}
		if !sameKey(*k, want) {
			return failf("NewMasterKey(%x): %s", []byte(c.Seed), diffKey(*k, want))
		}
		hs := c.hexText()
		r, err := util.RootKeyFromSeed(hs)
		if len(c.Seed) < 16 {
			if err == nil {
				return failf("RootKeyFromSeed(%q) accepted %d bytes", hs, len(c.Seed))
			}
			return nil
		}
		if err != nil || r == nil {
			return failf("RootKeyFromSeed(%q) failed: %v", hs, err)
		}
		if !sameKey(*r, want) {
			return failf("RootKeyFromSeed(%q): %s", hs, diffKey(*r, want))
		}
		return nil
	},
	Class: func(c k01) []string {
		if len(c.Seed) < 16 {
			return []string{"+short-seed"}
		}
		out := []string{"+seed"}
		if len(c.Seed) > 128 {
			out = append(out, "+over-one-block")
		}
		if k, _ := ref.Master(c.Seed); k.Priv.BitLen() <= 248 || k.Chain[0] == 0 {
			out = append(out, "+leading-zero-result")
		}
		return out
	},
}

type k01b struct{ S Text }

var specK01b = core.Spec[k01b]{
	Name: "hex-seed", Quick: 30000, Thorough: 600000,
	Gen: func(t *T) k01b {
		s := hex.EncodeToString(genBytes(t, "b", from(t, "n", []int{0, 8, 15, 16, 17, 32, 64})))
		b := []byte(s)
		switch pick(t, "mut", 8) {
		case 0:
			s = s[:max(0, len(s)-1)]
		case 1:
			if len(b) > 0 {
				b[pick(t, "i", len(b))] = from(t, "c", []byte("gGzZ xX-_+\x00\xff:/@`"))
			}
			s = string(b)
		case 2:
			s = from(t, "pre", []string{"0x", "0X", " ", "x", "\\x"}) + s
		case 3:
			s += from(t, "suf", []string{" ", "\n", "h", "00 ", "\x00"})
		case 4:
			s = genText(t, "txt", 300)
		case 5:
			s = strings.ToUpper(s)
		case 7:
			s = genWritten(t, "form", s)
		}
		return k01b{Text(s)}
	},
	Fixed: func() []k01b {
		var out []k01b
		for _, n := range []int{8, 16, 24, 32, 64} {
			for _, s := range allWritten(hex.EncodeToString(expand([]byte{21, byte(n)}, n)), strings.Repeat("0", 2*n), strings.Repeat("12", n)) {
				out = append(out, k01b{Text(s)})
			}
		}
		return out
	},
	Check: func(c k01b) *Fail {
		s := string(c.S)
		ok := len(s)%2 == 0 && len(s) >= 32
		for i := 0; i < len(s); i++ {
			if !strings.Contains("0123456789abcdefABCDEF", s[i:i+1]) {
				ok = false
			}
		}
		k, err := util.RootKeyFromSeed(s)
		if (err == nil) != ok {
			return failf("RootKeyFromSeed(%q) error %v, acceptable=%v", s, err, ok)
		}
		if ok {
			b, _ := hex.DecodeString(s)
			if want, _ := ref.Master(b); !sameKey(*k, want) {
				return failf("RootKeyFromSeed(%q): %s", s, diffKey(*k, want))
			}
		}
		return nil
	},
	Class: func(c k01b) []string { return []string{"+hex-text"} },
}

// ------------------------------------------------------------------ K02/K03

type derive struct {
	Key Hex
	Idx []uint32
}

// checkDerive derives a chain of children and compares each with ref.
func checkDerive(c derive) *Fail {
	k := mustX(c.Key)
	cur := at(0, c.Key)
	for n, idx := range c.Idx {
		before := *cur
		got, err := cur.NewChildKey(idx)
		if *cur != before {
			return failf("NewChildKey changed its receiver")
		}
		if !k.CanDerive(idx) {
			if err == nil {
				return failf("step %d: NewChildKey(%d) of %s succeeded (depth %d, version %08x, private %v): got %s", n, idx, k.Text(), k.Depth, k.Version, k.Priv != nil, got.String())
			}
			if k.CanDerive(0) && !errors.Is(err, bip32.ErrHardenedChildPublicKey) { // that is the only reason
				return failf("step %d: hardened child %d of a public key refused with %q", n, idx, err)
			}
			return nil
		}
		want, ok := k.Derive(idx)
		if !ok { // probability 2^-127
			if err == nil {
				return failf("step %d: invalid child accepted", n)
			}
			return nil
		}
		if err != nil {
			return failf("step %d: NewChildKey(%d) of %s failed: %v", n, idx, k.Text(), err)
		}
		if !sameKey(got, want) {
			return failf("step %d: child %d of %s: %s", n, idx, k.Text(), diffKey(got, want))
		}
		if got.IsPrivate() != (want.Priv != nil) {
			return failf("step %d: child IsPrivate %v", n, got.IsPrivate())
		}
		*cur, k = got, want
	}
	return nil
}

func classDerive(c derive) []string {
	out := keyClasses(c.Key)
	if len(c.Idx) == 0 {
		return []string{"no-step"}
	}
	out = append(out, "+derivation")
	k, ok := ref.ParseX(c.Key)
	if !ok {
		return out
	}
	if !k.CanDerive(c.Idx[0]) {
		out = append(out, "+refused")
	} else if w, _ := k.Derive(c.Idx[0]); w.Priv != nil && w.Priv.BitLen() <= 248 {
		out = append(out, "+child-scalar-leading-zero")
	} else if w.Pub.X != nil && w.Pub.X.BitLen() <= 248 {
		out = append(out, "+child-x-leading-zero")
	}
	for _, i := range c.Idx {
		if i >= ref.Hardened {
			return append(out, "+hardened")
		}
	}
	return out
}

func genDerive(t *T, o keyOpts, kind int) derive {
	k := genX(t, "k", o)
	c := derive{Key: keyHex(k)}
	n := 1
	if oneIn(t, "chain", 3) {
		n = 1 + pick(t, "n", 6)
	}
	for i := 0; i < n; i++ {
		kk := kind
		if kind == 1 && oneIn(t, "hard", 8) {
			kk = 2
		}
		c.Idx = append(c.Idx, genIdx(t, "i", kk))
	}
	if k.Priv != nil { // a mined parent with its index
		for _, m := range mined.Parents {
			if bytes.Equal(c.Key[46:], m.Priv) && bytes.Equal(c.Key[13:45], m.Chain) {
				c.Idx[0] = m.Index
			}
		}
	}
	return c
}

// wrongKindKeys have a registered version of the other kind (not importable).
func wrongKind(k ref.XKey) ref.XKey {
	if v, ok := ref.PubVersion[k.Version]; ok && k.Priv != nil {
		k.Version = v
	} else if v, ok := ref.PrvVersion[k.Version]; ok && k.Priv == nil {
		k.Version = v
	}
	return k
}

func minedDerives(pub bool) []derive {
	var out []derive
	for _, m := range mined.Parents {
		k := ref.XKey{Version: 0x0488ade4, Priv: new(big.Int).SetBytes(m.Priv)}
		copy(k.Chain[:], m.Chain)
		k.Pub = ref.BaseMul(k.Priv)
		if pub {
			if m.Index < ref.Hardened {
				out = append(out, derive{keyHex(k.Neuter()), []uint32{m.Index}})
			}
		} else {
			out = append(out, derive{keyHex(k), []uint32{m.Index}})
		}
	}
	return out
}

func allVersionDerives(priv bool) []derive {
	var out []derive
	for i := range ref.PrvVersions {
		for _, d := range []byte{0, 1, 127, 128, 253, 254, 255} {
			for _, idx := range edgeIdx {
				k := ref.XKey{Version: ref.PrvVersions[i], Depth: d, Priv: big.NewInt(int64(1000*i + int(d) + 1))}
				copy(k.Chain[:], expand([]byte{byte(i), d}, 32))
				if d > 0 {
					k.Child = idx
					k.FP = [4]byte{1, 2, 3, d}
				}
				k.Pub = ref.BaseMul(k.Priv)
				if !priv {
					k = k.Neuter()
				}
				out = append(out, derive{keyHex(k), []uint32{idx}})
			}
		}
	}
	return out
}

var specK02 = core.Spec[derive]{
	Name: "ckd-priv", Quick: 25000, Thorough: 900000,
	Gen: func(t *T) derive {
		if oneIn(t, "wrongkind", 30) {
			k := wrongKind(genX(t, "k", keyOpts{priv: true, reg: true}))
			return derive{keyHex(k), []uint32{genIdx(t, "i", 0)}}
		}
		return genDerive(t, keyOpts{priv: true}, 0)
	},
	Fixed: func() []derive { return append(minedDerives(false), allVersionDerives(true)...) },
	Check: checkDerive, Class: classDerive,
}

var specK03 = core.Spec[derive]{
	Name: "ckd-pub", Quick: 20000, Thorough: 700000,
	Gen: func(t *T) derive {
		if oneIn(t, "wrongkind", 30) {
			k := wrongKind(genX(t, "k", keyOpts{pub: true, reg: true}))
			return derive{keyHex(k), []uint32{genIdx(t, "i", 0)}}
		}
		return genDerive(t, keyOpts{pub: true}, 1)
	},
	Fixed: func() []derive { return append(minedDerives(true), allVersionDerives(false)...) },
	Check: checkDerive, Class: classDerive,
}

// commutation: N(CKDpriv(k,i)) = CKDpub(N(k),i), by the library alone
var specK03b = core.Spec[derive]{
	Name: "commutes", Quick: 15000, Thorough: 500000,
	Gen: func(t *T) derive { return genDerive(t, keyOpts{priv: true, reg: true, maxDepth: 249}, 1) },
	Fixed: func() []derive {
		var out []derive
		for _, d := range minedDerives(false) {
			if d.Idx[0] < ref.Hardened {
				out = append(out, d)
			}
		}
		return out
	},
	Check: func(c derive) *Fail {
		prv, pub := at(0, c.Key), at(1, c.Key)
		*pub = prv.PublicKeyExtended()
		for n, idx := range c.Idx {
			idx &^= ref.Hardened
			cp, err := prv.NewChildKey(idx)
			if err != nil {
				return failf("step %d: private child %d: %v", n, idx, err)
			}
			cq, err := pub.NewChildKey(idx)
			if err != nil {
				return failf("step %d: public child %d: %v", n, idx, err)
			}
			if cp.PublicKeyExtended() != cq {
				return failf("step %d: neutered private child and public child %d differ: %x vs %x", n, idx, cp.PublicKeyExtended(), cq)
			}
			if _, err := pub.NewChildKey(idx | ref.Hardened); !errors.Is(err, bip32.ErrHardenedChildPublicKey) {
				return failf("step %d: hardened child %d of a public key: error %v", n, idx, err)
			}
			*prv, *pub = cp, cq
		}
		return nil
	},
	Class: classDerive,
}

// ------------------------------------------------------------------ K04

type keyCase struct{ Key Hex }

func genKeyCase(o keyOpts) func(*T) keyCase {
	return func(t *T) keyCase { return keyCase{keyHex(genX(t, "k", o))} }
}

func classKey(c keyCase) []string { return append(keyClasses(c.Key), "+key") }

var specK04 = core.Spec[keyCase]{
	Name: "neuter", Quick: 25000, Thorough: 900000,
	Gen: genKeyCase(keyOpts{priv: true, pub: true}),
	Fixed: func() []keyCase {
		var out []keyCase
		for _, d := range append(allVersionDerives(true), allVersionDerives(false)...) {
			out = append(out, keyCase{d.Key})
		}
		return out
	},
	Check: func(c keyCase) *Fail {
		k := mustX(c.Key)
		l, got := at(0, c.Key), at(1, c.Key)
		want := k.Neuter()
		*got = l.PublicKeyExtended()
		if !sameKey(*got, want) {
			return failf("PublicKeyExtended of %s: %s", k.Text(), diffKey(*got, want))
		}
		if got.IsPrivate() {
			return failf("public version of %s is private", k.Text())
		}
		if twice := got.PublicKeyExtended(); twice != *got {
			return failf("PublicKeyExtended is not idempotent on %s", k.Text())
		}
		if [78]byte(*l) != k.Bytes() {
			return failf("PublicKeyExtended changed the key")
		}
		pub := ref.Compress(k.Pub)
		ph := hex.EncodeToString(pub[:])
		if g := l.PublicKeyHex(); g != ph {
			return failf("PublicKeyHex of %s = %q, want %q", k.Text(), g, ph)
		}
		if g := got.PublicKeyHex(); g != ph {
			return failf("PublicKeyHex of the public version = %q, want %q", g, ph)
		}
		if g := got.PrivateKeyHex(); g != "" {
			return failf("PrivateKeyHex of a public key = %q", g)
		}
		if k.Priv == nil {
			if g := l.PrivateKeyHex(); g != "" {
				return failf("PrivateKeyHex of a public key = %q", g)
			}
			return nil
		}
		var pv [32]byte
		k.Priv.FillBytes(pv[:])
		sh := hex.EncodeToString(pv[:])
		if g := l.PrivateKeyHex(); g != sh {
			return failf("PrivateKeyHex of %s = %q, want %q", k.Text(), g, sh)
		}
		if k.Priv.BitLen() > 128 && k.Pub.X.Cmp(k.Priv) != 0 && !bytes.Contains(c.Key[:45], pv[:]) { // no view of the public key holds the scalar
			ser, err := got.Serialize()
			if err != nil {
				return failf("Serialize: %v", err)
			}
			dec, _ := ref.B58Decode(got.String())
			kb, gp := got.GetKeyBytes(), got.GetPvtKeyBytes()
			for n, v := range map[string][]byte{"array": got[:], "Serialize": ser, "String": dec, "KeyBytes": kb[:], "PvtKeyBytes": gp[:]} {
				if bytes.Contains(v, pv[:]) {
					return failf("%s of the public key contains the private key", n)
				}
			}
		}
		return nil
	},
	Class: classKey,
}

// ------------------------------------------------------------------ K05

type k05 struct {
	Key Hex
	Ver uint32
}

var specK05 = core.Spec[k05]{
	Name: "roundtrip", Quick: 50000, Thorough: 1500000,
	Gen: func(t *T) k05 {
		return k05{Key: keyHex(genX(t, "k", keyOpts{priv: true, pub: true})), Ver: genVersion(t, "v", pick(t, "vp", 2) == 0, false)}
	},
	Fixed: func() []k05 {
		var out []k05
		for i, d := range append(allVersionDerives(true), allVersionDerives(false)...) {
			out = append(out, k05{d.Key, uint32(i) * 0x01010101})
		}
		return out
	},
	Check: func(c k05) *Fail {
		k := mustX(c.Key)
		l := at(0, c.Key)
		want := append(append([]byte{}, c.Key...), ref.Checksum(c.Key)...)
		ser, err := l.Serialize()
		if err != nil || !bytes.Equal(ser, want) {
			return failf("Serialize of %x = %x, %v; want %x", []byte(c.Key), ser, err, want)
		}
		txt := k.Text()
		if g := l.B58Serialize(); g != txt {
			return failf("B58Serialize of %x = %q, want %q", []byte(c.Key), g, txt)
		}
		if g := l.String(); g != txt {
			return failf("String of %x = %q, want %q", []byte(c.Key), g, txt)
		}
		back, err := bip32.Deserialize(ser)
		if err != nil || back != *l {
			return failf("Deserialize(%x) = %x, %v", ser, back, err)
		}
		back, err = bip32.B58Deserialize(txt)
		if err != nil || back != *l {
			return failf("B58Deserialize(%q) = %x, %v", txt, back, err)
		}
		if !l.IsValid() {
			return failf("IsValid is false for %s", txt)
		}
		if g := l.GetVersion(); g != k.Version {
			return failf("GetVersion = %08x, want %08x", g, k.Version)
		}
		if g := l.GetDepth(); g[0] != k.Depth {
			return failf("GetDepth = %d, want %d", g[0], k.Depth)
		}
		if g := l.GetFingerPrint(); g != bip32.FingerPrint(k.FP) {
			return failf("GetFingerPrint = %x, want %x", g, k.FP)
		}
		if g := l.GetChildNumber(); binary.BigEndian.Uint32(g[:]) != k.Child {
			return failf("GetChildNumber = %x, want %08x", g, k.Child)
		}
		if g := l.GetChainCode(); g != bip32.ChainCode(k.Chain) {
			return failf("GetChainCode = %x, want %x", g, k.Chain)
		}
		if g := l.GetKeyBytes(); !bytes.Equal(g[:], c.Key[45:]) {
			return failf("GetKeyBytes = %x, want %x", g, []byte(c.Key[45:]))
		}
		if g := l.GetPvtKeyBytes(); k.Priv != nil && !bytes.Equal(g[:], c.Key[46:]) {
			return failf("GetPvtKeyBytes = %x, want %x", g, []byte(c.Key[46:]))
		}
		if l.IsPrivate() != (k.Priv != nil) {
			return failf("IsPrivate = %v", l.IsPrivate())
		}
		// setters
		var vb [4]byte
		binary.BigEndian.PutUint32(vb[:], c.Ver)
		a, b := at(0, c.Key), at(1, c.Key)
		a.SetVersionUint32(c.Ver)
		b.SetVersion(bip32.Version(vb))
		w := append(append([]byte{}, vb[:]...), c.Key[4:]...)
		if !bytes.Equal(a[:], w) || !bytes.Equal(b[:], w) {
			return failf("SetVersion(%08x) gives %x / %x, want %x", c.Ver, *a, *b, w)
		}
		if a.GetVersion() != c.Ver {
			return failf("GetVersion after SetVersion(%08x) = %08x", c.Ver, a.GetVersion())
		}
		x := k
		x.Version = c.Ver
		if g := a.String(); g != x.Text() {
			return failf("String after SetVersion(%08x) = %q, want %q", c.Ver, g, x.Text())
		}
		return nil
	},
	Class: func(c k05) []string { return append(keyClasses(c.Key), "+key") },
}

// arbitrary 78 bytes: serialisation is total except for the empty key, and
// injective under single-byte changes
type k05b struct {
	Raw Hex
	Pos int
	Xor byte
}

var specK05b = core.Spec[k05b]{
	Name: "encode-any", Quick: 40000, Thorough: 1000000,
	Gen: func(t *T) k05b {
		c := k05b{Raw: genBytes(t, "raw", 78), Pos: pick(t, "pos", 78), Xor: byte(1 + pick(t, "xor", 255))}
		if oneIn(t, "sparse", 4) {
			c.Raw = make([]byte, 78)
			if pick(t, "one", 3) > 0 {
				c.Raw[pick(t, "p", 78)] = byte(1 + pick(t, "v", 255))
			}
		}
		return c
	},
	Fixed: func() []k05b {
		out := []k05b{{Raw: make([]byte, 78), Pos: 0, Xor: 1}}
		for i := 0; i < 78; i++ {
			r := make([]byte, 78)
			r[i] = 1
			out = append(out, k05b{Raw: r, Pos: (i + 1) % 78, Xor: 0x80})
		}
		return out
	},
	Check: func(c k05b) *Fail {
		l := at(0, c.Raw)
		ser, err := l.Serialize()
		if bytes.Equal(c.Raw, make([]byte, 78)) {
			if err == nil || len(ser) != 0 || l.String() != "" || l.B58Serialize() != "" || l.IsValid() {
				return failf("the empty key serialises to %x / %q", ser, l.String())
			}
			return nil
		}
		want := append(append([]byte{}, c.Raw...), ref.Checksum(c.Raw)...)
		if err != nil || !bytes.Equal(ser, want) {
			return failf("Serialize of %x = %x, %v", []byte(c.Raw), ser, err)
		}
		if s := l.String(); s != ref.B58Encode(want) {
			return failf("String of %x = %q, want %q", []byte(c.Raw), s, ref.B58Encode(want))
		}
		m := append([]byte{}, c.Raw...)
		m[c.Pos] ^= c.Xor
		o := at(1, m)
		if o.String() == l.String() {
			return failf("two keys share the text %q", l.String())
		}
		return nil
	},
	Class: func(c k05b) []string {
		if c.Raw[0] == 0 {
			return []string{"+leading-zero-version"}
		}
		return []string{"+bytes"}
	},
}

// ------------------------------------------------------------------ K06

type k06 struct {
	Data Hex
	Cap  int // bytes behind the data in the caller's buffer
}

func importOK(data []byte) bool {
	return len(data) == 82 && bytes.Equal(ref.Checksum(data[:78]), data[78:]) && ref.Importable(data[:78])
}

func checkK06(c k06) *Fail {
	in := inBuf(0, c.Data, c.Cap)
	k, err := bip32.Deserialize(in)
	if !bufIntact(in, c.Data) {
		return failf("Deserialize changed the caller's buffer (%d bytes, %d spare)", len(c.Data), c.Cap)
	}
	ok := importOK(c.Data)
	if (err == nil) != ok {
		return failf("Deserialize(%x) error %v, acceptable=%v", []byte(c.Data), err, ok)
	}
	if ok && !bytes.Equal(k[:], c.Data[:78]) {
		return failf("Deserialize(%x) returned %x", []byte(c.Data), k)
	}
	txt := ref.B58Encode(c.Data)
	k2, err := bip32.B58Deserialize(txt)
	if (err == nil) != ok {
		return failf("B58Deserialize(%q) error %v, acceptable=%v", txt, err, ok)
	}
	if ok && k2 != k {
		return failf("B58Deserialize(%q) returned %x", txt, k2)
	}
	if len(c.Data) >= 78 {
		l := at(0, c.Data[:78])
		nz := !bytes.Equal(c.Data[:78], make([]byte, 78))
		if got, want := l.IsValid(), nz && ref.Importable(c.Data[:78]); got != want {
			return failf("IsValid of %x = %v, want %v", []byte(c.Data[:78]), got, want)
		}
	}
	return nil
}

func withSum(b []byte) Hex { return append(append(Hex{}, b...), ref.Checksum(b)...) }

// badMaterial makes 78 bytes with one thing wrong.
func badMaterial(t *T) []byte {
	k := genX(t, "k", keyOpts{priv: true, pub: true})
	b := append([]byte{}, keyHex(k)...)
	switch pick(t, "bad", 9) {
	case 0: // scalar 0, n, n+small, max
		b[45] = 0
		v := from(t, "sv", []*big.Int{new(big.Int), ref.N, new(big.Int).Add(ref.N, big.NewInt(1)), ref.P, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))})
		v.FillBytes(b[46:])
	case 1: // off-curve abscissa
		x := new(big.Int).SetBytes(rnd(t, "x", 32-pick(t, "xz", 31)))
		for {
			x.Mod(x, ref.P)
			if _, ok := ref.LiftX(x, false); !ok {
				break
			}
			x.Add(x, big.NewInt(1))
		}
		b[45] = byte(2 + pick(t, "odd", 2))
		x.FillBytes(b[46:])
	case 2: // abscissa >= p whose residue is on the curve
		x := big.NewInt(int64(1 + pick(t, "x", 400)))
		for {
			if _, ok := ref.LiftX(x, false); ok {
				break
			}
			x.Add(x, big.NewInt(1))
		}
		x.Add(x, ref.P)
		b[45] = byte(2 + pick(t, "odd", 2))
		x.FillBytes(b[46:])
	case 3: // prefix
		b[45] = from(t, "prefix", []byte{1, 4, 5, 6, 7, 0x12, 0x42, 0x80, 0x82, 0xff, 0x02, 0x03, 0x00})
	case 4: // version of the other kind
		k2 := k
		if k.Priv != nil {
			k2.Version = from(t, "v", ref.PubVersions)
		} else {
			k2.Version = from(t, "v", ref.PrvVersions)
		}
		b = append([]byte{}, keyHex(k2)...)
	case 5: // depth 0 with fingerprint
		b[4] = 0
		copy(b[5:9], genBytes(t, "fp", 4))
	case 6: // depth 0 with child number
		b[4] = 0
		copy(b[5:9], make([]byte, 4))
		binary.BigEndian.PutUint32(b[9:], genIdx(t, "cn", 0))
	case 7:
		copy(b[45:], genBytes(t, "kb", 33))
	case 8:
		b = genBytes(t, "raw", 78)
	}
	return b
}

var specK06 = core.Spec[k06]{
	Name: "import-bytes", Quick: 80000, Thorough: 2500000,
	Gen: func(t *T) k06 {
		c := k06{Cap: from(t, "cap", []int{0, 0, 1, 4, 64, 100, 200})}
		switch weighted(t, "kind", 3, 6, 5, 3, 1) {
		case 0: // good
			c.Data = withSum(keyHex(genX(t, "k", keyOpts{priv: true, pub: true})))
		case 1: // bad material, good checksum
			c.Data = withSum(badMaterial(t))
		case 2: // damaged
			c.Data = withSum(keyHex(genX(t, "k", keyOpts{priv: true, pub: true})))
			switch pick(t, "dmg", 5) {
			case 0:
				i := pick(t, "bit", 82*8)
				c.Data[i/8] ^= 1 << (i % 8)
			case 1:
				c.Data = c.Data[:pick(t, "len", 82)]
			case 2:
				c.Data = append(c.Data, rnd(t, "ext", 1+pick(t, "n", 10))...)
			case 3: // truncated or extended payload with a fresh checksum
				n := from(t, "n", []int{0, 1, 4, 13, 45, 46, 70, 77, 79, 80, 82, 100})
				p := append(append([]byte{}, c.Data[:78]...), make([]byte, 64)...)
				c.Data = withSum(p[:n])
			case 4: // checksum bytes wrong
				j := 78 + pick(t, "cs", 4)
				c.Data[j] ^= byte(1 + pick(t, "x", 255))
				if pick(t, "more", 2) == 1 {
					c.Data[78+pick(t, "cs2", 4)] ^= byte(1 + pick(t, "x", 255))
				}
			}
		case 3: // arbitrary length
			c.Data = genBytes(t, "any", pick(t, "n", 200))
		case 4: // checksum of something else
			b := keyHex(genX(t, "k", keyOpts{priv: true, pub: true}))
			c.Data = append(append(Hex{}, b...), ref.Sha256(b)[:4]...)
		}
		return c
	},
	Fixed: func() []k06 {
		var out []k06
		good := withSum(allVersionDerives(true)[100].Key)
		pub := withSum(allVersionDerives(false)[100].Key)
		for n := 0; n < 82; n++ {
			out = append(out, k06{good[:n], 0}, k06{good[:n], 100}, k06{withSum(good[:n]), 200}, k06{make([]byte, n), 90})
		}
		for _, n := range bigSizes { // the key first or last of much data
			out = append(out, k06{append(append(Hex{}, good...), expand([]byte{5}, n)...), 0},
				k06{withSum(append(expand([]byte{5}, n), good...)), 0}, k06{append(expand([]byte{5}, n), good...), 0})
		}
		for _, g := range []Hex{good, pub} {
			for i := 0; i < 82*8; i++ { // every bit, stale and fresh checksum
				d := append(Hex{}, g...)
				d[i/8] ^= 1 << (i % 8)
				out = append(out, k06{d, 0}, k06{withSum(d[:78]), 0})
			}
		}
		for i := 0; i < 256; i++ { // every prefix byte, private and public material
			for _, g := range []Hex{good, pub} {
				d := append([]byte{}, g[:78]...)
				d[45] = byte(i)
				out = append(out, k06{withSum(d), 0})
			}
		}
		for i := range ref.PrvVersions { // every version on both kinds
			for _, g := range []Hex{good, pub} {
				for _, v := range []uint32{ref.PrvVersions[i], ref.PubVersions[i]} {
					d := append([]byte{}, g[:78]...)
					binary.BigEndian.PutUint32(d, v)
					out = append(out, k06{withSum(d), 0})
				}
			}
		}
		return out
	},
	Check: checkK06,
	Class: func(c k06) []string {
		switch {
		case importOK(c.Data):
			return []string{"+accepted"}
		case len(c.Data) != 82:
			return []string{"+wrong-length"}
		case !bytes.Equal(ref.Checksum(c.Data[:78]), c.Data[78:]):
			return []string{"+wrong-checksum"}
		}
		return []string{"+bad-material-good-checksum"}
	},
}

// text mutations
type k06b struct{ S Text }

func textOK(s string) ([]byte, bool) {
	b, ok := ref.B58Decode(s)
	return b, ok && importOK(b)
}

var specK06b = core.Spec[k06b]{
	Name: "import-text", Quick: 60000, Thorough: 1500000,
	Gen: func(t *T) k06b {
		s := []byte(genX(t, "k", keyOpts{priv: true, pub: true}).Text())
		const al = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
		switch weighted(t, "mut", 2, 4, 2, 2, 2, 2, 2, 2, 1, 2) {
		case 1:
			s[pick(t, "i", len(s))] = al[pick(t, "c", 58)]
		case 2:
			s[pick(t, "i", len(s))] = from(t, "c", []byte("0OIl+/ -_.\x00\xff\n"))
		case 3:
			s = s[:pick(t, "n", len(s))]
		case 4:
			i := pick(t, "i", len(s)+1)
			s = append(s[:i:i], append([]byte{al[pick(t, "c", 58)]}, s[i:]...)...)
		case 5:
			i := pick(t, "i", len(s)-1)
			s[i], s[i+1] = s[i+1], s[i]
		case 6:
			w := from(t, "ws", []string{" ", "\n", "\t", "\u200b", "\x00", "1"})
			if pick(t, "front", 2) == 0 {
				s = append([]byte(w), s...)
			} else {
				s = append(s, w...)
			}
		case 7:
			i := pick(t, "i", len(s))
			if s[i] >= 'a' && s[i] <= 'z' {
				s[i] -= 32
			} else if s[i] >= 'A' && s[i] <= 'Z' {
				s[i] += 32
			}
		case 8:
			return k06b{Text(genText(t, "txt", 2000))}
		case 9:
			return k06b{Text(genWritten(t, "form", string(s)))}
		}
		return k06b{Text(s)}
	},
	Fixed: func() []k06b {
		s := mustX(allVersionDerives(true)[7].Key).Text()
		out := []k06b{{""}, {"1"}, {Text(strings.Repeat("1", 82))}, {Text(strings.Repeat("1", 78))}, {Text("1" + s)}}
		for _, n := range bigSizes {
			if n <= 5000 { // decoding takes quadratic time
				out = append(out, k06b{Text(strings.Repeat("1", n) + s)}, k06b{Text(s + strings.Repeat("1", n))}, k06b{Text(s + strings.Repeat(" ", n))})
			}
		}
		for i := range s {
			for _, ch := range "1zA0 " {
				b := []byte(s)
				b[i] = byte(ch)
				out = append(out, k06b{Text(b)})
			}
			out = append(out, k06b{Text(s[:i])}, k06b{Text(s[i:])}, k06b{Text(s[:i] + s[i+1:])})
		}
		for _, w := range allWritten(s, mustX(allVersionDerives(false)[7].Key).Text(), hex.EncodeToString(withSum(allVersionDerives(true)[7].Key))) {
			out = append(out, k06b{Text(w)})
		}
		return out
	},
	Check: checkK06b,
	Class: func(c k06b) []string {
		if _, ok := textOK(string(c.S)); ok {
			return []string{"+accepted"}
		}
		return []string{"+rejected"}
	},
}

func checkK06b(c k06b) *Fail {
	b, ok := textOK(string(c.S))
	k, err := bip32.B58Deserialize(string(c.S))
	if (err == nil) != ok {
		return failf("B58Deserialize(%q) error %v, acceptable=%v", string(c.S), err, ok)
	}
	if ok && !bytes.Equal(k[:], b[:78]) {
		return failf("B58Deserialize(%q) = %x", string(c.S), k)
	}
	if ok && k.String() != string(c.S) {
		return failf("%q re-exports as %q", string(c.S), k.String())
	}
	return nil
}

// ------------------------------------------------------------------ K07

type k07 struct {
	Scalar Hex // 32 bytes
	Point  Hex // 33 bytes, on the curve
	Data   Hex
	Cap    int
}

var specK07 = core.Spec[k07]{
	Name: "helpers", Quick: 50000, Thorough: 1500000,
	Gen: func(t *T) k07 {
		var c k07
		v := new(big.Int)
		switch weighted(t, "sk", 3, 3, 1, 2) {
		case 0:
			v = genScalar(t, "s")
		case 1: // around n
			v.Add(ref.N, big.NewInt(int64(pick(t, "d", 41)-20)))
		case 2:
			v.SetBytes(rnd(t, "s", 32))
		case 3: // n with one byte changed
			b := ref.N.Bytes()
			b[pick(t, "i", 32)] = byte(pick(t, "v", 256))
			v.SetBytes(b)
		}
		c.Scalar = make([]byte, 32)
		v.FillBytes(c.Scalar)
		if oneIn(t, "raw", 8) {
			c.Scalar = genBytes(t, "rs", 32)
		}
		p := ref.Compress(genPoint(t, "p"))
		c.Point = p[:]
		n := pick(t, "n", 200)
		if oneIn(t, "edge", 3) {
			n = from(t, "en", []int{0, 1, 33, 55, 56, 57, 63, 64, 65, 78, 82, 119, 120, 128, 1000})
		}
		c.Data = genBytes(t, "data", n)
		c.Cap = from(t, "cap", []int{0, 3, 4, 5, 64})
		return c
	},
	Fixed: func() []k07 {
		var out []k07
		g := ref.Compress(ref.Point{X: ref.Gx, Y: ref.Gy})
		for d := int64(-3); d < 4; d++ {
			b := make([]byte, 32)
			new(big.Int).Add(ref.N, big.NewInt(d)).FillBytes(b)
			out = append(out, k07{Scalar: b, Point: g[:]})
			b2 := make([]byte, 32)
			b2[31] = byte(d + 3)
			out = append(out, k07{Scalar: b2, Point: g[:], Data: b})
		}
		for i := 0; i < 32; i++ {
			b := make([]byte, 32)
			b[i] = 1
			out = append(out, k07{Scalar: b, Point: g[:]})
			nb := ref.N.Bytes()
			nb[i]++
			out = append(out, k07{Scalar: nb, Point: g[:]})
			nb = ref.N.Bytes()
			nb[i]--
			out = append(out, k07{Scalar: nb, Point: g[:]})
		}
		one := make([]byte, 32)
		one[31] = 1
		for _, n := range append(hugeSizes[:len(hugeSizes):len(hugeSizes)], bigSizes...) {
			out = append(out, k07{Scalar: one, Point: g[:], Data: expand([]byte{7}, n), Cap: 5})
		}
		return out
	},
	Check: func(c k07) *Fail {
		v := new(big.Int).SetBytes(c.Scalar)
		ok := v.Sign() > 0 && v.Cmp(ref.N) < 0
		if err := bip32.ValidatePrivateKey(bip32.PvtKeyBytes(c.Scalar)); (err == nil) != ok {
			return failf("ValidatePrivateKey(%x) = %v, valid=%v", []byte(c.Scalar), err, ok)
		}
		p, _ := ref.Decompress(c.Point)
		x, y := bip32.ExpandPublicKey(inBuf(1, c.Point, 0))
		if x == nil || y == nil || x.Cmp(p.X) != 0 || y.Cmp(p.Y) != 0 {
			return failf("ExpandPublicKey(%x) = %x, %x; want %x, %x", []byte(c.Point), x, y, p.X, p.Y)
		}
		buf := inBuf(0, c.Data, c.Cap)
		h, err := bip32.HashRipeMD160onSha256(buf)
		if err != nil || !bytes.Equal(h, ref.Hash160(c.Data)) {
			return failf("HashRipeMD160onSha256(%x) = %x, %v", []byte(c.Data), h, err)
		}
		s, err := bip32.ChecksumDblSha256(buf)
		if err != nil || !bytes.Equal(s, ref.Checksum(c.Data)) {
			return failf("ChecksumDblSha256(%x) = %x, %v", []byte(c.Data), s, err)
		}
		a, err := bip32.AddChecksumDblSha256ToBytes(buf)
		if err != nil || !bytes.Equal(a, withSum(c.Data)) {
			return failf("AddChecksumDblSha256ToBytes(%x) = %x, %v", []byte(c.Data), a, err)
		}
		return nil
	},
	Class: func(c k07) []string {
		out := []string{"+helpers"}
		v := new(big.Int).SetBytes(c.Scalar)
		if v.Sign() == 0 || v.Cmp(ref.N) >= 0 {
			out = append(out, "+invalid-scalar")
		}
		if c.Point[1] == 0 {
			out = append(out, "+x-leading-zero")
		}
		return out
	},
}
