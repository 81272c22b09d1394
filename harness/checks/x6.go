package checks

import (
	"encoding/hex"
	"errors"
	"math/big"
	"regexp"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
)

// ------------------------------------------------------------------ X06

// x06 is a request with exactly one reason to be refused.
type x06 struct {
	K    string
	Key  Hex  `json:",omitempty"`
	B    Hex  `json:",omitempty"`
	S    Text `json:",omitempty"`
	N    uint32
	N2   uint32
	List int `json:",omitempty"`
}

var sentinels = []struct {
	name string
	err  error
}{
	{"bip32.ErrSerializedKeyWrongSize", bip32.ErrSerializedKeyWrongSize}, {"bip32.ErrHardenedChildPublicKey", bip32.ErrHardenedChildPublicKey},
	{"bip32.ErrInvalidChecksum", bip32.ErrInvalidChecksum}, {"bip32.ErrInvalidPrivateKey", bip32.ErrInvalidPrivateKey},
	{"bip32.ErrInvalidPublicKey", bip32.ErrInvalidPublicKey}, {"bip32.ErrEmptyKey", bip32.ErrEmptyKey}, {"bip32.ErrMasterKeyWithParent", bip32.ErrMasterKeyWithParent},
	{"bip32.ErrMaxDepth", bip32.ErrMaxDepth}, {"bip32.ErrUnSupportedHDVersionBytes", bip32.ErrUnSupportedHDVersionBytes},
	{"bip32.ErrUnSupportedOrInvalidPath", bip32.ErrUnSupportedOrInvalidPath},
	{"bip39.ErrInvalidMnemonic", bip39.ErrInvalidMnemonic}, {"bip39.ErrEntropyLengthInvalid", bip39.ErrEntropyLengthInvalid}, {"bip39.ErrChecksumIncorrect", bip39.ErrChecksumIncorrect},
	{"util.ErrInvalidMnemonicWordsCount", util.ErrInvalidMnemonicWordsCount}, {"util.ErrInvalidBIP39Seed", util.ErrInvalidBIP39Seed}, {"util.ErrInvalidRootKey", util.ErrInvalidRootKey},
	{"util.ErrInvalidRangeProvided", util.ErrInvalidRangeProvided}, {"util.ErrUnSupportedOrInvalidPath", util.ErrUnSupportedOrInvalidPath},
}

// reason fails unless err is want and no other documented error. An invalid
// path has a documented error in both packages; either will do.
func reason(call string, err error, want ...error) *Fail {
	if err == nil {
		return failf("%s succeeded, want refusal: %v", call, want[0])
	}
	ok := false
	for _, w := range want {
		ok = ok || errors.Is(err, w)
	}
	if !ok {
		return failf("%s refused with %q, want %q", call, err, want[0])
	}
next:
	for _, s := range sentinels {
		for _, w := range want {
			if s.err == w {
				continue next
			}
		}
		if errors.Is(err, s.err) {
			return failf("%s refused with %q, which is also %s", call, err, s.name)
		}
	}
	return nil
}

var pathShape = regexp.MustCompile(`^[mM](/[0-9]+')*(/[0-9]+)*$`)

var x06kinds = []string{"import-length", "import-checksum", "import-private", "import-public", "import-kind", "import-parent",
	"hardened-from-public", "max-depth", "version", "empty-key", "private-key", "path-shape", "path-depth", "path-replace",
	"entropy-size", "word-count", "checksum", "unknown-word", "words", "seed-length", "walk-root", "walk-path", "walk-step", "range-bounds", "range-key", "range-path", "range-step", "version-path"}

func genX06(t *T) x06 {
	c := x06{K: from(t, "k", x06kinds)}
	material := func(pub bool) Hex { // a valid key with invalid material
		k := genX(t, "key", keyOpts{priv: !pub, pub: pub})
		b := keyHex(k)
		if pub {
			for {
				copy(b[46:], rnd(t, "x", 32))
				if oneIn(t, "small", 3) {
					copy(b[46:77], make([]byte, 31))
				}
				if _, ok := ref.Decompress(b[45:]); !ok {
					return b
				}
			}
		}
		switch pick(t, "m", 3) {
		case 0:
			copy(b[46:], make([]byte, 32))
		case 1:
			ref.N.FillBytes(b[46:])
		default:
			new(big.Int).Add(ref.N, big.NewInt(int64(pick(t, "over", 1000)))).FillBytes(b[46:])
		}
		return b
	}
	switch c.K {
	case "import-length":
		b := keyHex(genX(t, "key", keyOpts{priv: true, pub: true}))
		for len(b) == 78 {
			if pick(t, "long", 2) == 0 {
				b = append(b, genBytes(t, "more", 1+pick(t, "nmore", 100))...)
			} else {
				b = b[:pick(t, "cut", 78)]
			}
		}
		c.B = append(append(Hex{}, b...), ref.Checksum(b)...)
	case "import-checksum":
		b := keyHex(genX(t, "key", keyOpts{priv: true, pub: true}))
		sum := ref.Checksum(b)
		for {
			if pick(t, "bits", 2) == 0 {
				sum[pick(t, "byte", 4)] ^= 1 << pick(t, "bit", 8)
			} else {
				sum = rnd(t, "sum", 4)
			}
			if string(sum) != string(ref.Checksum(b)) {
				break
			}
		}
		c.B = append(append(Hex{}, b...), sum...)
	case "import-private", "import-public", "private-key":
		c.Key = material(c.K == "import-public")
	case "import-kind":
		k := genX(t, "key", keyOpts{priv: true, pub: true})
		k.Version = genVersion(t, "v", k.Priv == nil, true)
		c.Key = keyHex(k)
	case "import-parent":
		k := genX(t, "key", keyOpts{priv: true, pub: true})
		k.Depth, k.FP, k.Child = 0, [4]byte{}, 0
		if pick(t, "which", 2) == 0 {
			k.FP[pick(t, "fpi", 4)] = byte(1 + pick(t, "fpb", 255))
		} else {
			k.Child = 1 + genIdx(t, "child", 0)%0xfffffffe
		}
		c.Key = keyHex(k)
	case "hardened-from-public":
		c.Key = keyHex(genX(t, "key", keyOpts{pub: true, reg: true, maxDepth: 254}))
		c.N = genIdx(t, "i", 0) | ref.Hardened
	case "max-depth":
		k := genX(t, "key", keyOpts{priv: true, pub: true, reg: true})
		k.Depth = 255
		c.Key = keyHex(k)
		c.N = genIdx(t, "i", 0)
		if k.Priv == nil {
			c.N &^= ref.Hardened
		}
	case "version":
		k := genX(t, "key", keyOpts{priv: true, pub: true, maxDepth: 254})
		for {
			k.Version = genVersion(t, "v", k.Priv != nil, false)
			_, a := ref.PubVersion[k.Version]
			_, b := ref.PrvVersion[k.Version]
			if !a && !b {
				break
			}
		}
		c.Key = keyHex(k)
		c.N = genIdx(t, "i", 0)
		if k.Priv == nil {
			c.N &^= ref.Hardened
		}
	case "path-shape", "walk-path", "range-path":
		for {
			s := genPathText(t, "p", 12)
			if !pathShape.MatchString(ref.StripWS(s)) {
				c.S = Text(s)
				break
			}
		}
		c.Key = keyHex(rootX(t, "key", true))
		c.N, c.N2 = 1, 3
		if pick(t, "val", 2) == 0 {
			c.N = uint32(pick(t, "d", 12))
		}
		c.N2 = c.N + 2
	case "path-depth", "path-replace":
		comps := genComps(t, "c", 8)
		c.S = Text(spell(t, "s", comps))
		n := uint32(len(comps) + 1)
		c.N = n + uint32(pick(t, "over", int(256-n)))
		c.N2 = genIdx(t, "v", 0)
		if c.K == "path-replace" && pick(t, "zero", 3) == 0 {
			c.N = 0
		}
	case "entropy-size":
		for {
			c.N = uint32(pick(t, "n", 300))
			if oneIn(t, "big", 10) {
				c.N = uint32(pick(t, "nb", 4000))
			}
			if c.N%4 != 0 || c.N < 16 || c.N > 32 {
				break
			}
		}
	case "word-count":
		c.List = genList(t)
		n := 0
		for {
			n = pick(t, "n", 60)
			if n%3 != 0 || n < 12 || n > 24 {
				break
			}
		}
		var w []string
		for i := 0; i < n; i++ {
			w = append(w, from(t, "w", refLists[c.List]))
		}
		c.S = Text(strings.Join(w, from(t, "sep", seps)))
	case "checksum", "unknown-word":
		c.List = genList(t)
		s, _ := ref.Mnemonic(genEntropy(t, "ent"), refLists[c.List])
		w := strings.Fields(s)
		i := pick(t, "i", len(w))
		for {
			if c.K == "checksum" {
				w[i] = from(t, "w", refLists[c.List])
			} else {
				x := strings.Fields(from(t, "spoil", spoils)(w[i], pick(t, "at", 10)))
				if len(x) != 1 {
					x = []string{"qqq"}
				}
				w[i] = x[0]
			}
			_, v := ref.DecodeMnemonic(strings.Join(w, " "), refIndex[c.List])
			if c.K == "checksum" && v == ref.BadChecksum || c.K == "unknown-word" && v == ref.BadWord {
				break
			}
		}
		c.S = Text(strings.Join(w, " "))
	case "words":
		for {
			c.N = uint32(pick(t, "n", 256))
			if c.N%3 != 0 || c.N < 12 || c.N > 24 {
				break
			}
		}
	case "seed-length":
		c.S = Text(hex.EncodeToString(genBytes(t, "b", pick(t, "n", 16))))
	case "walk-root":
		k := genX(t, "key", keyOpts{priv: true, pub: true})
		switch pick(t, "root", 4) {
		case 0:
			k = genX(t, "key", keyOpts{pub: true})
			k.Depth, k.Child, k.FP = 0, 0, [4]byte{}
			c.Key = keyHex(k)
		case 1:
			if k.Depth == 0 {
				k.Depth = 1
			}
			c.Key = keyHex(k)
		case 2:
			c.Key = make(Hex, 78)
		default:
			c.Key = material(false)
			copy(c.Key[4:13], make([]byte, 9))
		}
		c.S = Text(spell(t, "s", genComps(t, "c", 4)))
	case "walk-step":
		k := rootX(t, "key", true)
		if pick(t, "why", 2) == 0 {
			for {
				k.Version = genVersion(t, "v", true, false)
				_, a := ref.PubVersion[k.Version]
				_, b := ref.PrvVersion[k.Version]
				if !a && !b {
					break
				}
			}
			c.S = "m/1"
		} else {
			c.S = Text("m" + strings.Repeat(from(t, "rep", []string{"/0", "/1'", "/7"}), 256+pick(t, "more", 5)))
		}
		c.Key = keyHex(k)
	case "range-bounds", "range-key", "range-step":
		k := genX(t, "key", keyOpts{priv: true, pub: true, reg: true, maxDepth: 200})
		c.N = genIdx(t, "start", 0)
		c.N2 = c.N + 1 + uint32(pick(t, "len", 4))
		if c.N2 < c.N {
			c.N, c.N2 = 5, 7
		}
		if k.Priv == nil && c.K != "range-step" {
			c.N, c.N2 = c.N&0x7ffffff0, c.N&0x7ffffff0+2
		}
		c.S = Text(spell(t, "s", genComps(t, "c", 4)))
		switch c.K {
		case "range-bounds":
			c.N2 = c.N - uint32(pick(t, "back", 3))
			if c.N2 > c.N {
				c.N2 = c.N
			}
		case "range-key":
			k.Depth |= 1
			if pick(t, "zero", 2) == 0 {
				c.Key = make(Hex, 78)
			} else {
				c.Key = material(pick(t, "pub", 2) == 0)
			}
			c.N, c.N2 = 3, 5
		case "range-step":
			k = genX(t, "key", keyOpts{pub: true, reg: true, maxDepth: 200})
			c.N |= ref.Hardened
			c.N2 |= ref.Hardened
			if c.N2 <= c.N {
				c.N, c.N2 = ref.Hardened, ref.Hardened+2
			}
			switch pick(t, "later", 3) {
			case 0: // the first steps succeed, a later one is hardened
				c.N = ref.Hardened - 1 - uint32(pick(t, "plain", 5))
				c.N2 = ref.Hardened + 1 + uint32(pick(t, "hard", 5))
			case 1: // the first steps succeed, then the depth is exhausted
				k = genX(t, "deep", keyOpts{priv: true, pub: true, reg: true})
				n := pick(t, "left", 6)
				k.Depth = byte(255 - n)
				c.N = genIdx(t, "dstart", 0) &^ ref.Hardened
				if k.Priv != nil && pick(t, "dhard", 2) == 0 {
					c.N |= ref.Hardened
				}
				c.N &^= 0xff
				c.N += uint32(pick(t, "dlow", 100))
				c.N2 = c.N + uint32(n) + 1 + uint32(pick(t, "dmore", 100))
			}
		}
		if c.Key == nil {
			c.Key = keyHex(k)
		}
	case "version-path":
		for {
			c.S = Text(genPathText(t, "p", 6))
			if !versionPath.MatchString(ref.StripWS(string(c.S))) {
				break
			}
		}
	}
	return c
}

var versionPath = regexp.MustCompile(`^m/[0-9]{0,8}'/[0-9]{0,8}'$`)

func checkX06(c x06) *Fail {
	var key bip32.Key
	copy(key[:], c.Key)
	path := bip32.Path(c.S)
	imports := func(b []byte, want error) *Fail {
		_, err := bip32.Deserialize(append([]byte{}, b...))
		if f := reason("Deserialize", err, want); f != nil {
			return f
		}
		_, err = bip32.B58Deserialize(ref.B58Encode(b))
		return reason("B58Deserialize", err, want)
	}
	checked := func(want error) *Fail {
		return imports(append(append([]byte{}, c.Key...), ref.Checksum(c.Key)...), want)
	}
	sentence := func(want error) *Fail {
		bip39.SetWordList(libList(c.List))
		defer bip39.SetWordList(libList(0))
		s := string(c.S)
		errs := map[string]error{}
		_, errs["EntropyFromMnemonic"] = bip39.EntropyFromMnemonic(s)
		_, errs["MnemonicToByteArray"] = bip39.MnemonicToByteArray(s)
		_, errs["MnemonicToByteArray(raw)"] = bip39.MnemonicToByteArray(s, true)
		_, errs["NewSeedWithErrorChecking"] = bip39.NewSeedWithErrorChecking(s, "")
		_, errs["DeriveSeedFromMnemonic"] = util.DeriveSeedFromMnemonic(s, "")
		for _, k := range []string{"EntropyFromMnemonic", "MnemonicToByteArray", "MnemonicToByteArray(raw)", "NewSeedWithErrorChecking", "DeriveSeedFromMnemonic"} {
			if want == nil { // no documented error names this reason
				if err := errs[k]; err == nil || errors.Is(err, bip39.ErrChecksumIncorrect) || errors.Is(err, bip39.ErrEntropyLengthInvalid) {
					return failf("%s of a sentence with an unknown word: %v", k, err)
				}
			} else if f := reason(k, errs[k], want); f != nil {
				return f
			}
		}
		return nil
	}
	badPath := []error{bip32.ErrUnSupportedOrInvalidPath, util.ErrUnSupportedOrInvalidPath}
	walk := func(want ...error) *Fail {
		var g util.Generator
		g.SetRootKey(key)
		_, err := g.DeriveBIP32Result(path)
		return reason("DeriveBIP32Result", err, want...)
	}
	rng := func(want ...error) *Fail {
		r := util.KeyPathRange{StartIndex: c.N, EndIndex: c.N2}
		r.Key, r.Path = key, path
		return reason("GenerateRange", r.GenerateRange(), want...)
	}
	child := func(want error) *Fail {
		_, err := key.NewChildKey(c.N)
		return reason("NewChildKey", err, want)
	}
	switch c.K {
	case "import-length":
		return imports(c.B, bip32.ErrSerializedKeyWrongSize)
	case "import-checksum":
		return imports(c.B, bip32.ErrInvalidChecksum)
	case "import-private":
		return checked(bip32.ErrInvalidPrivateKey)
	case "import-public":
		return checked(bip32.ErrInvalidPublicKey)
	case "import-kind":
		return checked(bip32.ErrUnSupportedHDVersionBytes)
	case "import-parent":
		return checked(bip32.ErrMasterKeyWithParent)
	case "private-key":
		return reason("ValidatePrivateKey", bip32.ValidatePrivateKey(key.GetPvtKeyBytes()), bip32.ErrInvalidPrivateKey)
	case "hardened-from-public":
		return child(bip32.ErrHardenedChildPublicKey)
	case "max-depth":
		return child(bip32.ErrMaxDepth)
	case "version":
		return child(bip32.ErrUnSupportedHDVersionBytes)
	case "empty-key":
		_, err := (&bip32.Key{}).Serialize()
		return reason("Serialize", err, bip32.ErrEmptyKey)
	case "path-shape":
		_, err := path.ValuesAtDepth()
		if f := reason("ValuesAtDepth", err, bip32.ErrUnSupportedOrInvalidPath); f != nil {
			return f
		}
		_, err = path.ValueAtDepth(byte(c.N))
		if f := reason("ValueAtDepth", err, bip32.ErrUnSupportedOrInvalidPath); f != nil {
			return f
		}
		_, err = path.ReplaceValueAtDepth(byte(c.N), c.N2)
		return reason("ReplaceValueAtDepth", err, bip32.ErrUnSupportedOrInvalidPath)
	case "path-depth":
		_, err := path.ValueAtDepth(byte(c.N))
		return reason("ValueAtDepth", err, bip32.ErrUnSupportedOrInvalidPath)
	case "path-replace":
		_, err := path.ReplaceValueAtDepth(byte(c.N), c.N2)
		return reason("ReplaceValueAtDepth", err, bip32.ErrUnSupportedOrInvalidPath)
	case "entropy-size":
		_, err := bip39.NewMnemonic(make([]byte, c.N))
		if f := reason("NewMnemonic", err, bip39.ErrEntropyLengthInvalid); f != nil {
			return f
		}
		_, err = bip39.NewEntropy(int(c.N) * 8)
		if f := reason("NewEntropy", err, bip39.ErrEntropyLengthInvalid); f != nil {
			return f
		}
		_, err = bip39.NewEntropy(int(c.N)*8 + 1 + int(c.N%7))
		return reason("NewEntropy", err, bip39.ErrEntropyLengthInvalid)
	case "word-count":
		return sentence(bip39.ErrInvalidMnemonic)
	case "checksum":
		return sentence(bip39.ErrChecksumIncorrect)
	case "unknown-word":
		return sentence(nil)
	case "words":
		_, err := util.GenerateMnemonic(byte(c.N))
		return reason("GenerateMnemonic", err, util.ErrInvalidMnemonicWordsCount)
	case "seed-length":
		_, err := util.RootKeyFromSeed(string(c.S))
		return reason("RootKeyFromSeed", err, util.ErrInvalidBIP39Seed)
	case "walk-root":
		return walk(util.ErrInvalidRootKey)
	case "walk-path":
		return walk(badPath...)
	case "walk-step":
		if strings.Count(string(c.S), "/") > 200 {
			return walk(bip32.ErrMaxDepth)
		}
		return walk(bip32.ErrUnSupportedHDVersionBytes)
	case "range-bounds":
		return rng(util.ErrInvalidRangeProvided)
	case "range-key":
		return rng(util.ErrInvalidRootKey)
	case "range-path":
		return rng(badPath...)
	case "range-step":
		if key.IsPrivate() || c.N2 <= ref.Hardened { // nothing else can be wrong
			return rng(bip32.ErrMaxDepth)
		}
		return rng(bip32.ErrHardenedChildPublicKey)
	case "version-path":
		v := bip32.VersionBytes{Path: path}
		for n, f := range map[string]func() (uint32, error){"PurposeVal": v.PurposeVal, "CoinVal": v.CoinVal, "PurposeValFull": v.PurposeValFull, "CoinValFull": v.CoinValFull} {
			_, err := f()
			if f := reason(n, err, bip32.ErrUnSupportedHDVersionBytes); f != nil {
				return f
			}
		}
		return nil
	}
	panic(core.Harness("unknown kind " + c.K))
}

var specX06 = core.Spec[x06]{
	Name: "refusals", Quick: 25000, Thorough: 800000,
	Gen:   genX06,
	Check: checkX06,
	Class: func(c x06) []string { return []string{"+" + c.K} },
}
