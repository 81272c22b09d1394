package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
)

func bigOf(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

// pow2 is 2^e+d in decimal.
func pow2(e uint, d int64) string {
	v := new(big.Int).Lsh(big.NewInt(1), e)
	return v.Add(v, big.NewInt(d)).String()
}

// ------------------------------------------------------------------ A01

func smallCoordKeys() []keyCase {
	var out []keyCase
	for z := 0; z < 32; z++ {
		x := bigOf(expand([]byte{5, byte(z)}, 32-z))
		x.Mod(x, ref.P)
		for i := 0; i < 2; {
			if p, ok := ref.LiftX(x, i == 1); ok {
				k := ref.XKey{Version: 0x0488b21e, Pub: p}
				out = append(out, keyCase{keyHex(k)})
				i++
			} else {
				x.Add(x, big.NewInt(1))
			}
		}
		y := bigOf(expand([]byte{6, byte(z)}, 32-z))
		y.Mod(y, ref.P)
		for {
			if p, ok := ref.LiftY(y); ok {
				k := ref.XKey{Version: 0x0488b21e, Pub: p}
				out = append(out, keyCase{keyHex(k)})
				break
			}
			y.Add(y, big.NewInt(1))
		}
	}
	for i := int64(1); i <= 700; i++ { // small scalars, whose coordinates vary
		k := ref.XKey{Version: 0x0488ade4, Priv: big.NewInt(i)}
		out = append(out, keyCase{keyHex(k)})
		k.Priv = new(big.Int).Sub(ref.N, big.NewInt(i))
		out = append(out, keyCase{keyHex(k)})
	}
	for _, h := range mined.Hashes {
		out = append(out, keyCase{keyHex(ref.XKey{Version: 0x0488ade4, Priv: bigOf(h)})})
	}
	return out
}

var specA01 = core.Spec[keyCase]{
	Name: "keccak-address", Quick: 35000, Thorough: 1200000,
	Gen:   genKeyCase(keyOpts{priv: true, pub: true}),
	Fixed: smallCoordKeys,
	Check: func(c keyCase) *Fail {
		k := mustX(c.Key)
		kp := util.KeyPath{Path: "m", Key: *at(0, c.Key)}
		want := ref.EthAddr(k.Pub)
		if g := kp.AddrHex(); g != want {
			return failf("AddrHex of %s = %q, want %q", k.Text(), g, want)
		}
		l := at(0, c.Key)
		pub := util.KeyPath{Path: "x", Key: l.PublicKeyExtended()}
		if g := pub.AddrHex(); g != want {
			return failf("AddrHex of the public version of %s = %q, want %q", k.Text(), g, want)
		}
		return nil
	},
	Class: classKey,
}

// ------------------------------------------------------------------ A02

type a02 struct {
	Key  Hex
	P, Q byte
}

var specA02 = core.Spec[a02]{
	Name: "base58check-address", Quick: 35000, Thorough: 1200000,
	Gen: func(t *T) a02 {
		c := a02{Key: keyHex(genX(t, "k", keyOpts{priv: true, pub: true})), P: byte(pick(t, "p", 256)), Q: byte(pick(t, "q", 256))}
		if oneIn(t, "zero", 3) {
			c.P = from(t, "ep", []byte{0, 5, 0x6f, 0xc4, 0xff})
		}
		if len(mined.Hashes) > 0 && oneIn(t, "mined", 8) {
			c.Key = keyHex(ref.XKey{Version: 0x0488ade4, Priv: bigOf(from(t, "m", mined.Hashes))})
		}
		return c
	},
	Fixed: func() []a02 {
		var out []a02
		for i, k := range smallCoordKeys() {
			out = append(out, a02{k.Key, 0, byte(i)})
		}
		for i := 0; i < 256; i++ {
			for _, h := range append([]Hex{allVersionDerives(true)[0].Key[46:]}, mined.Hashes...) {
				out = append(out, a02{keyHex(ref.XKey{Version: 0x0488ade4, Priv: bigOf(h)}), byte(i), byte(255 - i)})
			}
		}
		return out
	},
	Check: func(c a02) *Fail {
		k := mustX(c.Key)
		l := at(0, c.Key)
		kp := util.KeyPath{Path: "m", Key: *l}
		want := ref.P2PKHLike(c.P, k.Pub)
		got := kp.AddrP2SH(c.P)
		if got != want {
			return failf("AddrP2SH(%#x) of %s = %q, want %q", c.P, k.Text(), got, want)
		}
		pub := util.KeyPath{Key: l.PublicKeyExtended()}
		if g := pub.AddrP2SH(c.P); g != want {
			return failf("AddrP2SH(%#x) of the public version of %s = %q, want %q", c.P, k.Text(), g, want)
		}
		cp := ref.Compress(k.Pub)
		b, ok := ref.B58Decode(got)
		if !ok || len(b) != 25 || b[0] != c.P || !bytes.Equal(b[1:21], ref.Hash160(cp[:])) || !bytes.Equal(ref.Checksum(b[:21]), b[21:]) {
			return failf("address %q decodes to %x", got, b)
		}
		if c.P != c.Q && kp.AddrP2SH(c.Q) == got {
			return failf("prefixes %#x and %#x give the same address %q", c.P, c.Q, got)
		}
		return nil
	},
	Class: func(c a02) []string {
		out := append(keyClasses(c.Key), "+key")
		k := mustX(c.Key)
		p := ref.Compress(k.Pub)
		if ref.Hash160(p[:])[0] == 0 {
			out = append(out, "+hash-leading-zero")
		}
		if c.P == 0 {
			out = append(out, "+prefix-zero")
		}
		return out
	},
}

// ------------------------------------------------------------------ A03

type a03 struct {
	Ent     Hex
	Pass    Text
	Ver     int // registered version pair
	Account []uint32
	Suffix  []uint32
	Export  Hex // per step: bit 0 text trip of the watch key, bit 1 byte trip
	Prefix  byte
	Range   [2]uint32
}

func trip(k bip32.Key, how byte) (bip32.Key, error) {
	if how&1 != 0 {
		r, err := bip32.B58Deserialize(k.String())
		if err != nil {
			return r, err
		}
		k = r
	}
	if how&2 != 0 {
		b, err := k.Serialize()
		if err != nil {
			return k, err
		}
		r, err := bip32.Deserialize(b)
		if err != nil {
			return r, err
		}
		k = r
	}
	return k, nil
}

var specA03 = core.Spec[a03]{
	Name: "watch-only", Quick: 4000, Thorough: 120000,
	Gen: func(t *T) a03 {
		c := a03{Ent: genEntropy(t, "ent"), Ver: pick(t, "ver", len(ref.PrvVersions)), Export: rnd(t, "exp", 8), Prefix: byte(pick(t, "prefix", 256))}
		if oneIn(t, "pass", 3) {
			c.Pass = Text(genText(t, "passphrase", 100))
		}
		for i, n := 0, pick(t, "na", 5); i < n; i++ {
			c.Account = append(c.Account, genIdx(t, "a", 0))
		}
		for i, n := 0, 1+pick(t, "ns", 5); i < n; i++ {
			c.Suffix = append(c.Suffix, genIdx(t, "s", 1))
		}
		c.Range[0] = genIdx(t, "rs", 1)
		if c.Range[0] > ref.Hardened-10 {
			c.Range[0] -= 10
		}
		c.Range[1] = c.Range[0] + uint32(pick(t, "rn", 5))
		return c
	},
	Check: func(c a03) *Fail {
		bip39.SetWordList(libList(0))
		mn, err := bip39.NewMnemonic(c.Ent)
		if err != nil {
			return failf("mnemonic: %v", err)
		}
		seed, err := util.DeriveSeedFromMnemonic(mn, string(c.Pass))
		if err != nil {
			return failf("seed: %v", err)
		}
		root, err := util.RootKeyFromSeed(seed)
		if err != nil {
			return failf("root: %v", err)
		}
		root.SetVersionUint32(ref.PrvVersions[c.Ver])
		acct := *root
		for _, i := range c.Account {
			if acct, err = acct.NewChildKey(i); err != nil {
				return failf("account key: %v", err)
			}
		}
		watch, err := trip(acct.PublicKeyExtended(), 1)
		if err != nil {
			return failf("exported account key %s not importable: %v", acct.String(), err)
		}
		// watch-only range against the full wallet's range
		rng := func(k bip32.Key) (util.KeyPathRange, error) {
			r := util.KeyPathRange{StartIndex: c.Range[0], EndIndex: c.Range[1], KeyPath: util.KeyPath{Path: "m", Key: k}}
			return r, r.GenerateRange()
		}
		rp, e1 := rng(acct)
		rw, e2 := rng(watch)
		if (e1 == nil) != (e2 == nil) || len(rp.KeyPaths) != len(rw.KeyPaths) {
			return failf("ranges: full wallet %d entries, %v; watch-only %d entries, %v", len(rp.KeyPaths), e1, len(rw.KeyPaths), e2)
		}
		for i := range rp.KeyPaths {
			if rp.KeyPaths[i].Key.PublicKeyExtended() != rw.KeyPaths[i].Key || rp.KeyPaths[i].Path != rw.KeyPaths[i].Path {
				return failf("range entry %d differs: %s vs %s", i, rp.KeyPaths[i].Path, rw.KeyPaths[i].Path)
			}
		}
		full := acct
		for n, i := range c.Suffix {
			if full, err = full.NewChildKey(i); err != nil {
				return failf("full wallet step %d: %v", n, err)
			}
			if watch, err = watch.NewChildKey(i); err != nil {
				return failf("watch-only step %d: %v", n, err)
			}
			if watch, err = trip(watch, c.Export[n%len(c.Export)]); err != nil {
				return failf("step %d: watch-only key not importable: %v", n, err)
			}
			fk, wk := util.KeyPath{Key: full}, util.KeyPath{Key: watch}
			if full.PublicKeyExtended() != watch {
				return failf("step %d (index %d): watch-only key %s, full wallet's public key %s", n, i, watch.String(), fmt.Sprintf("%x", full.PublicKeyExtended()))
			}
			if a, b := fk.AddrHex(), wk.AddrHex(); a != b || len(a) != 40 {
				return failf("step %d: addresses %q and %q", n, a, b)
			}
			if a, b := fk.AddrP2SH(c.Prefix), wk.AddrP2SH(c.Prefix); a != b || a == "" {
				return failf("step %d: addresses %q and %q", n, a, b)
			}
			if a, b := full.PublicKeyHex(), watch.PublicKeyHex(); a != b || len(a) != 66 {
				return failf("step %d: public keys %q and %q", n, a, b)
			}
			if watch.IsPrivate() || watch.PrivateKeyHex() != "" {
				return failf("step %d: the watch-only key exposes a private key", n)
			}
		}
		// the private root along the whole path by the walker
		var g util.Generator
		g.SetRootKey(*root)
		hardFirst := hardenedFirst(append(append([]uint32{}, c.Account...), c.Suffix...))
		if hardFirst {
			ks, err := g.DeriveBIP32Result(bip32.Path(ref.FormatPath(append(append([]uint32{}, c.Account...), c.Suffix...))))
			if err != nil || len(ks) == 0 || ks[len(ks)-1].Key.PublicKeyExtended() != watch {
				return failf("the walk of the private root does not end in the watch-only key (%v)", err)
			}
		}
		return nil
	},
	Class: func(c a03) []string {
		out := []string{"+wallet"}
		for _, a := range c.Account {
			if a >= ref.Hardened {
				out = append(out, "+hardened-account")
				break
			}
		}
		return append(out, "suffix:"+utoa(uint32(len(c.Suffix))))
	},
}
