package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"github.com/mearaj/bips/zzverif/yield"
)

// op is one library call with plain-data arguments.
type op struct {
	K    string
	Key  Hex    `json:",omitempty"` // 78 bytes
	B    Hex    `json:",omitempty"`
	S    Text   `json:",omitempty"`
	S2   Text   `json:",omitempty"`
	N    uint32 `json:",omitempty"`
	N2   uint32 `json:",omitempty"`
	Spar int    `json:",omitempty"` // spare capacity behind B
}

// input is an op's prepared arguments.
type input struct {
	op
	key  *bip32.Key
	buf  []byte // the argument
	full []byte // the argument with the memory behind it
	gen  *util.Generator
	text [2]string // copies of the texts
}

func (o op) prep() *input {
	in := &input{op: o, key: new(bip32.Key), gen: &util.Generator{}}
	in.text = [2]string{strings.Clone(string(o.S)), strings.Clone(string(o.S2))}
	copy(in.key[:], o.Key)
	in.full = make([]byte, len(o.B)+o.Spar)
	copy(in.full, o.B)
	for i := len(o.B); i < len(in.full); i++ {
		in.full[i] = byte(0xc3 ^ i)
	}
	in.buf = in.full[:len(o.B)]
	in.gen.SetRootKey(*in.key)
	return in
}

// intact says what of the arguments has changed.
func (in *input) intact() string {
	if !bytes.Equal(in.key[:], in.keyWant()) {
		return "the key it was called on"
	}
	if !bytes.Equal(in.full[:len(in.B)], in.B) {
		return "its input bytes"
	}
	for i := len(in.B); i < len(in.full); i++ {
		if in.full[i] != byte(0xc3^i) {
			return "the memory behind its input bytes"
		}
	}
	if string(in.S) != in.text[0] || string(in.S2) != in.text[1] {
		return "the text it was given"
	}
	if r := in.gen.RootKey(); !bytes.Equal(r[:], in.keyWant()) {
		return "the root held by the generator"
	}
	return ""
}

func (in *input) keyWant() []byte {
	return append(append([]byte{}, in.Key...), make([]byte, 78)...)[:78]
}

// held is returned storage that can be inspected and overwritten.
type held struct {
	snap     func() string
	scribble func()
}

func heldBytes(b []byte) held {
	return held{func() string { return string(b) }, func() {
		b := b[:cap(b)]
		for i := range b {
			b[i] ^= 0xa5
		}
	}}
}

func heldPaths(l []util.KeyPath) held {
	return held{func() string { return showPaths(l) }, func() {
		l := l[:cap(l)]
		for i := range l {
			for j := range l[i].Key {
				l[i].Key[j] ^= 0xa5
			}
			l[i].Path = "overwritten"
		}
	}}
}

func heldText(s string) held {
	return held{func() string { return strings.Clone(s) }, func() {}}
}

func heldKey(k *bip32.Key) held { return heldBytes(k[:]) }

func heldInt(x *big.Int) held {
	return held{func() string { return x.Text(16) }, func() {
		w := x.Bits()
		w = w[:cap(w)]
		for i := range w {
			w[i] ^= 0xa5a5
		}
	}}
}

func showPaths(l []util.KeyPath) string {
	var sb strings.Builder
	for _, k := range l {
		fmt.Fprintf(&sb, "%s=%x;", string(k.Path), k.Key[:])
	}
	return sb.String()
}

// state is what the histories share.
type state struct {
	rng [2]*util.KeyPathRange
	own bool // every call gets objects of its own

	shared bool // all calls use these
	key    bip32.Key
	gen    util.Generator
	mem    [4096]byte
	calls  int
}

func bres(b []byte, err error) string {
	if err != nil {
		return "error"
	}
	return hex.EncodeToString(b)
}
func sres(s string, err error) string {
	if err != nil {
		return "error"
	}
	return "s:" + s
}
func ures(v []uint32, err error) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprint(v)
}
func u1(v uint32, err error) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprint(v)
}

// run calls the library and renders what it returned.
func (in *input) run(st *state) (out string, hs []held) {
	if !st.shared {
		out, hs = in.call(st, in.key, in.buf, in.gen)
		return strings.Clone(out), hs
	}
	// in variables and memory that other calls use too
	st.key = *in.key
	buf := st.mem[:0]
	if in.buf != nil {
		buf = append(buf, in.full...)[:len(in.buf)]
	}
	st.calls++
	setRoot(&st.gen, st.key, st.calls%2 == 0)
	out, hs = in.call(st, &st.key, buf, &st.gen)
	switch {
	case st.key != *in.key:
		out = "the key it was called on was changed"
	case *st.gen.RootKey() != *in.key:
		out = "the generator's root was changed"
	case !bytes.Equal(buf[:len(in.full)], in.full):
		out = "the input bytes, or the memory behind them, were changed"
	}
	return strings.Clone(out), hs
}

func (in *input) call(st *state, key *bip32.Key, buf []byte, gen *util.Generator) (out string, hs []held) {
	kb := func(b []byte, err error) {
		out = bres(b, err)
		hs = append(hs, heldBytes(b))
	}
	text := func(s string, err error) {
		out = sres(s, err)
		hs = append(hs, heldText(s))
	}
	path := bip32.Path(in.S)
	switch in.K {
	case "NewMnemonic":
		text(bip39.NewMnemonic(buf))
	case "EntropyFromMnemonic":
		kb(bip39.EntropyFromMnemonic(string(in.S)))
	case "MnemonicToByteArray":
		if in.N%3 == 0 {
			kb(bip39.MnemonicToByteArray(string(in.S)))
		} else {
			kb(bip39.MnemonicToByteArray(string(in.S), in.N%3 == 1))
		}
	case "IsMnemonicValid":
		out = fmt.Sprint(bip39.IsMnemonicValid(string(in.S)))
	case "NewSeed":
		kb(bip39.NewSeed(string(in.S), string(in.S2)), nil)
	case "NewSeedWithErrorChecking":
		kb(bip39.NewSeedWithErrorChecking(string(in.S), string(in.S2)))
	case "DeriveSeedFromMnemonic":
		text(util.DeriveSeedFromMnemonic(string(in.S), string(in.S2)))
	case "GetWordIndex":
		i, ok := bip39.GetWordIndex(string(in.S))
		out = fmt.Sprint(ok)
		if ok {
			out += fmt.Sprint(" ", i)
		}
	case "GetWordList":
		out = strings.Join(bip39.GetWordList(), " ")
	case "NewEntropy":
		b, err := bip39.NewEntropy(int(int32(in.N)))
		out = fmt.Sprint(len(b), err != nil)
		hs = append(hs, heldBytes(b))
	case "GenerateMnemonic":
		s, err := util.GenerateMnemonic(byte(in.N))
		out = fmt.Sprint(len(strings.Fields(s)), err != nil)
	case "RandomSeed":
		b, err := bip32.NewSeed()
		out = fmt.Sprint(len(b), err != nil)
		hs = append(hs, heldBytes(b))
	case "RootKeyFromSeed":
		k, err := util.RootKeyFromSeed(string(in.S))
		if err != nil || k == nil {
			out = "error"
		} else {
			kb(k[:], nil)
		}
	case "NewMasterKey":
		k, err := bip32.NewMasterKey(buf)
		if err != nil || k == nil {
			out = "error"
		} else {
			kb(k[:], nil)
		}
	case "NewChildKey":
		k, err := key.NewChildKey(in.N)
		out = bres(k[:], err)
	case "PublicKeyExtended":
		k := key.PublicKeyExtended()
		out = bres(k[:], nil)
	case "PrivateKeyHex":
		out = key.PrivateKeyHex()
		hs = append(hs, heldText(out))
	case "PublicKeyHex":
		out = key.PublicKeyHex()
		hs = append(hs, heldText(out))
	case "IsPrivate":
		out = fmt.Sprint(key.IsPrivate())
	case "Serialize":
		kb(key.Serialize())
	case "B58Serialize":
		out = key.B58Serialize()
		hs = append(hs, heldText(out))
	case "String":
		out = key.String()
		hs = append(hs, heldText(out))
	case "KeyIsValid":
		out = fmt.Sprint(key.IsValid())
	case "Accessors":
		v, c, d, f, n, p, q := key.GetVersion(), key.GetChainCode(), key.GetDepth(), key.GetFingerPrint(), key.GetChildNumber(), key.GetPvtKeyBytes(), key.GetKeyBytes()
		out = fmt.Sprintf("%08x %x %x %x %x %x %x", v, c, d, f, n, p, q)
	case "SetVersion":
		k := *key
		if in.N2&1 == 0 {
			k.SetVersionUint32(in.N)
		} else {
			var v bip32.Version
			binary.BigEndian.PutUint32(v[:], in.N)
			k.SetVersion(v)
		}
		out = bres(k[:], nil)
	case "Deserialize":
		k, err := bip32.Deserialize(buf)
		out = bres(k[:], err)
	case "B58Deserialize":
		k, err := bip32.B58Deserialize(string(in.S))
		out = bres(k[:], err)
	case "HashRipeMD160onSha256":
		kb(bip32.HashRipeMD160onSha256(buf))
	case "ChecksumDblSha256":
		kb(bip32.ChecksumDblSha256(buf))
	case "AddChecksumDblSha256ToBytes":
		kb(bip32.AddChecksumDblSha256ToBytes(buf))
	case "ValidatePrivateKey":
		var p bip32.PvtKeyBytes
		copy(p[:], buf)
		out = fmt.Sprint(bip32.ValidatePrivateKey(p) == nil)
	case "ExpandPublicKey":
		x, y := bip32.ExpandPublicKey(buf)
		out = x.Text(16) + "," + y.Text(16)
		hs = append(hs, heldInt(x), heldInt(y))
	case "PathString":
		a, b := path.String(), string(path.Formatted())
		out = a + "|" + b
		hs = append(hs, heldText(a), heldText(b))
	case "PathIsValid":
		out = fmt.Sprint(path.IsValid())
	case "ValuesAtDepth":
		v, err := path.ValuesAtDepth()
		out = ures(v, err)
		hs = append(hs, held{func() string { return fmt.Sprint(v) }, func() {
			v := v[:cap(v)]
			for i := range v {
				v[i] ^= 0xa5a5
			}
		}})
	case "ValueAtDepth":
		out = u1(path.ValueAtDepth(byte(in.N)))
	case "ReplaceValueAtDepth":
		p, err := path.ReplaceValueAtDepth(byte(in.N), in.N2)
		text(string(p), err)
	case "VersionBytes":
		v := bip32.VersionBytes{Coin: string(in.S2), Path: path, PvtKeyFlag: in.N, PubKeyFlag: in.N2}
		p, perr := v.PurposeVal()
		c, cerr := v.CoinVal()
		pf, pferr := v.PurposeValFull()
		cf, cferr := v.CoinValFull()
		a, b := v.PvtKeyFlagBytes(), v.PubKeyFlagBytes()
		out = fmt.Sprint(u1(p, perr), u1(c, cerr), u1(pf, pferr), u1(cf, cferr), a, b, v.IsValid(), v.IsRegistered())
	case "VersionLookup":
		for _, l := range [][]bip32.VersionBytes{bip32.PvtFlagToHDBytesSlice[in.N], bip32.PubFlagToHDBytesSlice[in.N], bip32.PurposeToHDBytesSlice[in.N],
			bip32.PurposeFullToHDBytesSlice[in.N], bip32.CoinTypeToHDBytesSlice[in.N], bip32.PathToHDBytesSlice[string(in.S)]} {
			out += versions(l)
		}
		out += fmt.Sprint(len(bip32.HDVersionBytesSlice))
	case "CoinLookup":
		out = coinLookup(in.N, string(in.S))
	case "Coin":
		c := bip44.Coin{Type: in.N, PathComponent: in.N2, Symbol: string(in.S), Name: string(in.S2)}
		j, err := json.Marshal(c)
		a, b := c.String(), c.StringForMD()
		out = fmt.Sprint(a, "|", b, "|", c.IsValid(), "|", string(j), err != nil)
		hs = append(hs, heldText(a), heldText(b))
	case "AddrHex":
		out = util.KeyPath{Path: path, Key: *key}.AddrHex()
		hs = append(hs, heldText(out))
	case "AddrP2SH":
		out = util.KeyPath{Path: path, Key: *key}.AddrP2SH(byte(in.N))
		hs = append(hs, heldText(out))
	case "Walk":
		l, err := gen.DeriveBIP32Result(path)
		out = "error"
		if err == nil {
			out = showPaths(l)
		}
		hs = append(hs, heldPaths(l))
	case "Range":
		r := &util.KeyPathRange{}
		if !st.own {
			i := in.N2 % 2
			if st.rng[i] == nil {
				st.rng[i] = &util.KeyPathRange{}
			}
			r = st.rng[i]
		}
		r.StartIndex, r.EndIndex, r.Path, r.Key = in.N, in.N2, path, *key
		err := r.GenerateRange()
		out = "error"
		if err == nil {
			out = showPaths(r.KeyPaths)
			hs = append(hs, heldPaths(r.KeyPaths))
		}
		if !bytes.Equal(r.Key[:], key[:]) || r.Path != path || r.StartIndex != in.N || r.EndIndex != in.N2 {
			out = "the range's own fields were changed by deriving"
		}
	default:
		panic("harness: unknown op " + in.K)
	}
	return out, hs
}

// versions renders entries, which come in no promised order.
func versions(l []bip32.VersionBytes) string {
	var out []string
	for _, v := range l {
		out = append(out, fmt.Sprint(v))
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

func coinLookup(n uint32, s string) string {
	var sb strings.Builder
	c, ok := bip44.RegBip44CoinsTypeToValMap[n]
	fmt.Fprint(&sb, c, ok)
	c, ok = bip44.RegBip44CoinsPathCompToValMap[n]
	fmt.Fprint(&sb, c, ok)
	d, ok := bip44.RegBip44CoinsNameToValMap[s]
	fmt.Fprint(&sb, d.Name, ok, len(bip44.RegCoins)) // any of several coins of a name
	return sb.String()
}

// expect is what the call must return by the reference, where known.
func (o op) expect(list int) (string, bool) {
	var k ref.XKey
	ok := false
	if len(o.Key) == 78 {
		k, ok = ref.ParseX(o.Key)
	}
	switch o.K {
	case "NewMnemonic":
		s, ok := ref.Mnemonic(o.B, refLists[list])
		if !ok {
			return "error", true
		}
		return "s:" + s, true
	case "EntropyFromMnemonic":
		e, v := ref.DecodeMnemonic(string(o.S), refIndex[list])
		if v != ref.OK {
			return "error", true
		}
		return hex.EncodeToString(e), true
	case "IsMnemonicValid":
		_, v := ref.DecodeMnemonic(string(o.S), refIndex[list])
		return fmt.Sprint(v == ref.OK), true
	case "GetWordIndex":
		i, ok := refIndex[list][string(o.S)]
		if !ok {
			return "false", true
		}
		return fmt.Sprint("true ", i), true
	case "NewMasterKey":
		m, ok := ref.Master(o.B)
		b := m.Bytes()
		return hex.EncodeToString(b[:]), ok
	case "NewChildKey":
		if !ok {
			return "", false
		}
		if !k.CanDerive(o.N) {
			return "error", true
		}
		c, ok := k.Derive(o.N)
		b := c.Bytes()
		return hex.EncodeToString(b[:]), ok
	case "PublicKeyExtended":
		if !ok {
			return "", false
		}
		b := k.Neuter().Bytes()
		return hex.EncodeToString(b[:]), true
	case "B58Serialize", "String":
		return ref.B58Check(o.Key), ok
	case "Serialize":
		return hex.EncodeToString(o.Key) + hex.EncodeToString(ref.Checksum(o.Key)), ok
	case "AddrHex":
		if !ok {
			return "", false
		}
		return ref.EthAddr(k.Pub), true
	case "AddrP2SH":
		if !ok {
			return "", false
		}
		return ref.P2PKHLike(byte(o.N), k.Pub), true
	case "HashRipeMD160onSha256":
		return hex.EncodeToString(ref.Hash160(o.B)), true
	case "ChecksumDblSha256":
		return hex.EncodeToString(ref.Checksum(o.B)), true
	case "AddChecksumDblSha256ToBytes":
		return hex.EncodeToString(o.B) + hex.EncodeToString(ref.Checksum(o.B)), true
	case "ValuesAtDepth":
		v, ok := ref.ParsePath(string(o.S))
		if !ok {
			return "error", true
		}
		return fmt.Sprint(v), true
	case "Deserialize":
		if len(o.B) != 82 || !bytes.Equal(ref.Checksum(o.B[:78]), o.B[78:]) || !ref.Importable(o.B[:78]) {
			return "error", true
		}
		return hex.EncodeToString(o.B[:78]), true
	case "Walk":
		if !ok || k.Priv == nil || k.Depth != 0 || !ref.Importable(o.Key) {
			return "error", true
		}
		v, ok := ref.ParsePath(string(o.S))
		if !ok {
			return "error", true
		}
		out := "m=" + hex.EncodeToString(o.Key) + ";"
		for i, x := range v[1:] {
			if !k.CanDerive(x) {
				return "error", true
			}
			if k, ok = k.Derive(x); !ok {
				return "", false
			}
			b := k.Bytes()
			out += fmt.Sprintf("%s=%x;", ref.FormatPath(v[1:2+i]), b[:])
		}
		return out, true
	}
	return "", false
}

// allKinds lists every op kind.
var allKinds = []string{"NewMnemonic", "EntropyFromMnemonic", "MnemonicToByteArray", "IsMnemonicValid", "NewSeed", "NewSeedWithErrorChecking",
	"DeriveSeedFromMnemonic", "GetWordIndex", "GetWordList", "NewEntropy", "GenerateMnemonic", "RandomSeed", "RootKeyFromSeed", "NewMasterKey", "NewChildKey",
	"PublicKeyExtended", "PrivateKeyHex", "PublicKeyHex", "IsPrivate", "Serialize", "B58Serialize", "String", "KeyIsValid", "Accessors", "SetVersion",
	"Deserialize", "B58Deserialize", "HashRipeMD160onSha256", "ChecksumDblSha256", "AddChecksumDblSha256ToBytes", "ValidatePrivateKey", "ExpandPublicKey",
	"PathString", "PathIsValid", "ValuesAtDepth", "ValueAtDepth", "ReplaceValueAtDepth", "VersionBytes", "VersionLookup", "CoinLookup", "Coin",
	"AddrHex", "AddrP2SH", "Walk", "Range"}

var slowKinds = map[string]bool{"NewSeed": true, "NewSeedWithErrorChecking": true, "DeriveSeedFromMnemonic": true}

// pool is the small set of related arguments one history draws from.
type pool struct {
	keys  []Hex
	bufs  []Hex
	sents []Text
	texts []Text
	paths []Text
	large bool
}

func genPool(t *T, lists []int) pool {
	var p pool
	for i, n := 0, 1+pick(t, "nkeys", 2); i < n; i++ {
		k := genX(t, "key", keyOpts{priv: true, pub: true})
		p.keys = append(p.keys, keyHex(k))
		if k.Priv != nil && pick(t, "neuter", 2) == 0 {
			p.keys = append(p.keys, keyHex(k.Neuter()))
		}
		if pick(t, "twin", 2) == 0 { // the same key but for one field
			w := k
			switch pick(t, "field", 5) {
			case 0:
				w.Version = genVersion(t, "tv", k.Priv != nil, true)
			case 1:
				w.Chain[pick(t, "tc", 32)] ^= 1 << pick(t, "tb", 8)
			case 2:
				w.Depth = byte(1 + pick(t, "td", 255))
			case 3:
				w.Depth |= 1
				w.Child = genIdx(t, "tn", 0)
			case 4:
				w.Depth |= 1
				w.FP[pick(t, "tf", 4)] ^= 1
			}
			p.keys = append(p.keys, keyHex(w))
		}
	}
	if pick(t, "root", 2) == 0 {
		p.keys = append(p.keys, keyHex(rootX(t, "root", true)))
	}
	for i, n := 0, 1+pick(t, "nbufs", 3); i < n; i++ {
		switch pick(t, "bk", 4) {
		case 0:
			p.bufs = append(p.bufs, genBytes(t, "ent", from(t, "el", []int{16, 20, 24, 28, 32})))
		case 1:
			k := from(t, "bkey", p.keys)
			b := append(append(Hex{}, k...), ref.Checksum(k)...)
			switch pick(t, "damage", 6) {
			case 0: // anywhere, or in one byte of the checksum
				b[from(t, "at", []int{pick(t, "any", 82), 78, 79, 80, 81})] ^= 1 << pick(t, "bit", 8)
			case 1: // refused for another reason
				b = append(Hex{}, k...)
				copy(b[46:], from(t, "material", [][]byte{make([]byte, 32), ref.N.Bytes(), bytesFF(32)}))
				b = append(b, ref.Checksum(b)...)
			}
			p.bufs = append(p.bufs, b)
			if oneIn(t, "astext", 4) {
				p.texts = append(p.texts, Text(ref.B58Encode(b)))
			}
		case 2:
			x := mustX(from(t, "bkey", p.keys))
			c := ref.Compress(x.Pub)
			p.bufs = append(p.bufs, c[:])
		case 3:
			p.bufs = append(p.bufs, genBytes(t, "raw", pick(t, "rl", 100)))
		}
	}
	for i, n := 0, 1+pick(t, "nsents", 3); i < n; i++ {
		l := from(t, "sl", lists)
		s, _ := ref.Mnemonic(genBytes(t, "sent", from(t, "el", []int{16, 20, 24, 28, 32})), refLists[l])
		switch pick(t, "sk", 6) {
		case 0:
			w := strings.Fields(s)
			w[pick(t, "wi", len(w))] = refLists[l][pick(t, "wx", 2048)]
			s = strings.Join(w, " ")
		case 1:
			s = strings.ReplaceAll(s, " ", "\t ")
		case 2: // a word of no list, of another list, or misspelt, asked for as well
			w := strings.Fields(s)
			i := pick(t, "ui", len(w))
			w[i] = from(t, "uw", []string{"zzz", w[i] + "x", w[i][:len(w[i])-1], refLists[pick(t, "ul", len(listNames))][pick(t, "ux", 2048)], "-1", "0"})
			s = strings.Join(w, " ")
			p.texts = append(p.texts, Text(w[i]))
		}
		p.sents = append(p.sents, Text(s))
	}
	for i, n := 0, 1+pick(t, "ntexts", 3); i < n; i++ {
		switch pick(t, "tk", 3) {
		case 0:
			p.texts = append(p.texts, Text(ref.B58Check(from(t, "tkey", p.keys))))
		case 1:
			p.texts = append(p.texts, Text(hex.EncodeToString(genBytes(t, "ts", from(t, "tl", []int{15, 16, 32, 64})))))
		case 2:
			l := from(t, "wl", lists)
			p.texts = append(p.texts, Text(refLists[l][pick(t, "wi", 2048)]))
		}
	}
	if oneIn(t, "large", 24) {
		p.large = true
		p.bufs = append(p.bufs, genBytes(t, "lraw", 100+pick(t, "lrl", 20000)))
		l := from(t, "lsl", lists)
		p.sents = append(p.sents, Text(strings.Repeat(refLists[l][pick(t, "lw", 2048)]+" ", 25+pick(t, "lsn", 400))))
		p.texts = append(p.texts, Text(genText(t, "lt", 20000)), Text(hex.EncodeToString(genBytes(t, "lseed", 64+pick(t, "lsb", 4000)))))
		p.paths = append(p.paths, Text(ref.FormatPath(genComps(t, "lpc", 255))), Text("m"+strings.Repeat("/"+ref.FormatIdx(genIdx(t, "lpi", 0)), 60+pick(t, "lpn", 198))))
	}
	for i, n := 0, 1+pick(t, "npaths", 2); i < n; i++ {
		if oneIn(t, "badpath", 5) {
			p.paths = append(p.paths, Text(genPathText(t, "pt", 6)))
		} else {
			p.paths = append(p.paths, Text(spell(t, "ps", genComps(t, "pc", 6))))
		}
	}
	return p
}

// genOp draws one call over the pool.
func (p pool) genOp(t *T, kinds []string) op {
	o := op{K: from(t, "op", kinds)}
	if slowKinds[o.K] && !oneIn(t, "slow", 3) {
		o.K = "IsMnemonicValid"
	}
	o.fill(t, p)
	return o
}

func (o *op) fill(t *T, p pool) {
	switch o.K {
	case "NewMnemonic", "NewMasterKey", "Deserialize", "HashRipeMD160onSha256", "ChecksumDblSha256", "AddChecksumDblSha256ToBytes":
		o.B = from(t, "buf", p.bufs)
		o.Spar = from(t, "spare", []int{0, 1, 4, 60, 100})
	case "ValidatePrivateKey":
		o.B = from(t, "pk", p.keys)[46:]
	case "ExpandPublicKey":
		x := mustX(from(t, "epk", p.keys))
		c := ref.Compress(x.Pub)
		o.B = c[:]
		o.Spar = pick(t, "spare", 2) * 40
	case "EntropyFromMnemonic", "IsMnemonicValid", "MnemonicToByteArray":
		o.S = from(t, "sent", p.sents)
		o.N = uint32(pick(t, "raw", 3))
	case "NewSeed", "NewSeedWithErrorChecking", "DeriveSeedFromMnemonic":
		o.S = from(t, "sent", p.sents)
		o.S2 = from(t, "pass", p.texts)
	case "GetWordIndex", "RootKeyFromSeed", "B58Deserialize":
		o.S = from(t, "text", p.texts)
	case "NewEntropy":
		o.N = from(t, "bits", []uint32{128, 160, 192, 224, 256, 0, 100})
	case "GenerateMnemonic":
		o.N = from(t, "words", []uint32{12, 15, 18, 21, 24, 0, 13})
	case "NewChildKey":
		o.Key = from(t, "key", p.keys)
		o.N = from(t, "idx", []uint32{0, 1, 2, 0x80000000, 0x80000001, 0x7fffffff, 0xffffffff})
	case "PublicKeyExtended", "PrivateKeyHex", "PublicKeyHex", "IsPrivate", "Serialize", "B58Serialize", "String", "KeyIsValid", "Accessors":
		o.Key = from(t, "key", p.keys)
	case "SetVersion":
		o.Key = from(t, "key", p.keys)
		o.N = genVersion(t, "v", pick(t, "vk", 2) == 0, false)
		o.N2 = uint32(pick(t, "form", 2))
	case "PathString", "PathIsValid", "ValuesAtDepth":
		o.S = from(t, "path", p.paths)
	case "ValueAtDepth", "ReplaceValueAtDepth":
		o.S = from(t, "path", p.paths)
		o.N = uint32(pick(t, "depth", 8))
		o.N2 = genIdx(t, "val", 0)
	case "VersionBytes":
		o.S = from(t, "path", p.paths)
		if pick(t, "regpath", 2) == 0 {
			o.S = Text(from(t, "row", ref.Registry).Path)
		}
		o.N, o.N2 = 1, 2
	case "VersionLookup":
		r := from(t, "row", ref.Registry)
		o.N = from(t, "lk", []uint32{r.Prv, r.Pub, 44, 49, 84, 44 | ref.Hardened, 0, 1, 17})
		o.S = Text(r.Path)
	case "CoinLookup":
		o.N = from(t, "ct", []uint32{0, 1, 60, 0x80000000, 0x8000003c, 77777777})
		o.S = from(t, "cn", []Text{"Bitcoin", "Ether", "Litecoin", "", "nothing"})
	case "Coin":
		o.N, o.N2 = 60, 0x8000003c
		o.S, o.S2 = "ETH", from(t, "name", p.texts)
	case "AddrHex", "AddrP2SH":
		o.Key = from(t, "key", p.keys)
		o.S = from(t, "path", p.paths)
		o.N = uint32(from(t, "prefix", []byte{0, 5, 0x30, 0x6f, 0xff}))
	case "Walk":
		o.Key = from(t, "key", p.keys)
		if pick(t, "asroot", 2) == 0 {
			k := mustX(o.Key)
			k.Depth, k.Child, k.FP = 0, 0, [4]byte{}
			o.Key = keyHex(k)
		}
		o.S = from(t, "path", p.paths)
	case "Range":
		o.Key = from(t, "key", p.keys)
		o.S = from(t, "path", p.paths)
		o.N = from(t, "start", []uint32{0, 1, 5, 0x7ffffffe, 0x80000000})
		o.N2 = o.N + uint32(pick(t, "len", 5))
		if p.large {
			o.N2 = o.N + uint32(pick(t, "llen", 260))
		}
	}
}

// ------------------------------------------------------------------ X01

type x01op struct {
	Select int // when > 0, select word list Select-1 instead of calling
	Op     op
}

type x01 struct {
	Ops      []x01op
	Scribble bool
	Shared   bool // one key variable, one generator and one buffer for all calls
	Fresh    int  // when > 0, also compare call Fresh-1 with a fresh process
}

type freshReq struct {
	List int
	Op   op
}

// FreshOp runs one call in this new process.
func FreshOp(req string) {
	var r freshReq
	if err := json.Unmarshal([]byte(req), &r); err != nil {
		panic(err)
	}
	bip39.SetWordList(libList(r.List))
	out, _ := r.Op.prep().run(&state{})
	b, _ := json.Marshal(Hex(out))
	os.Stdout.Write(b)
}

var freshBudget = 400

// fresh is what the call returns in a process without any history.
func fresh(o op, list int) (string, bool) {
	if freshBudget <= 0 {
		return "", false
	}
	freshBudget--
	self, err := os.Executable()
	if err != nil {
		return "", false
	}
	req, err := json.Marshal(freshReq{list, o})
	if err != nil {
		return "", false
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VERIF_FRESH_OP="+string(req))
	if crc32.ChecksumIEEE(req)%3 > 0 { // in other surroundings, too
		cmd.Dir = "/"
		cmd.Env = append(otherEnv(string(req)), "VERIF_FRESH_OP="+string(req))
		cmd.Args = []string{"wallet", "--testnet"}
	}
	b, err := cmd.Output()
	if err != nil {
		return "", false
	}
	var out Hex
	if json.Unmarshal(b, &out) != nil {
		return "", false
	}
	return string(out), true
}

// otherEnv is an environment with little in common with this one, in which
// every name that the code mentions is set.
func otherEnv(salt string) []string {
	env := []string{"HOME=/nonexistent", "PATH=", "TZ=Asia/Kathmandu", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "USER=nobody", "GOMAXPROCS=1",
		"GOGC=20", "DEBUG=1", "TESTNET=1", "CI=1", "VERIF_REPO=" + repoDir()}
	vals := []string{"1", "true", "0", "testnet", "english", "/", ""}
	for i, n := range dict.texts {
		if len(n) > 2 && strings.Trim(n, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") == "" {
			env = append(env, n+"="+vals[crc32.ChecksumIEEE([]byte(salt+strconv.Itoa(i)))%uint32(len(vals))])
		}
	}
	return env
}

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

var specX01 = core.Spec[x01]{
	Name: "histories", Quick: 35000, Thorough: 600000,
	Gen: func(t *T) x01 {
		c := x01{Scribble: pick(t, "scribble", 2) == 1, Shared: pick(t, "shared", 2) == 1}
		lists := []int{0, pick(t, "l1", len(listNames)), pick(t, "l2", len(listNames))}
		p := genPool(t, lists)
		kinds := allKinds
		if pick(t, "focus", 2) == 1 { // few kinds, many repetitions
			kinds = nil
			for i := 0; i < 4; i++ {
				kinds = append(kinds, from(t, "kind", allKinds))
			}
		}
		for i, n := 0, 1+pick(t, "n", 16); i < n; i++ {
			if oneIn(t, "select", 12) {
				c.Ops = append(c.Ops, x01op{Select: 1 + from(t, "list", lists)})
				continue
			}
			c.Ops = append(c.Ops, x01op{Op: p.genOp(t, kinds)})
		}
		if oneIn(t, "fresh", dictRate(60)) {
			c.Fresh = 1 + pick(t, "fi", len(c.Ops))
		}
		return c
	},
	Check: checkX01,
	Class: func(c x01) []string {
		var out []string
		seen := map[string]bool{}
		for _, o := range c.Ops {
			l := "+op-" + o.Op.K
			if o.Select > 0 {
				l = "+select"
			}
			if !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		}
		if c.Scribble {
			out = append(out, "+scribble")
		} else {
			out = append(out, "+hold")
		}
		if c.Shared {
			out = append(out, "+one-variable")
		}
		if c.Fresh > 0 {
			out = append(out, "+fresh-process")
		}
		if len(c.Ops) < 2 {
			return []string{"single-call"}
		}
		return out
	},
}

func checkX01(c x01) *Fail {
	bip39.SetWordList(libList(0))
	defer bip39.SetWordList(libList(0))
	type rec struct {
		list int
		out  string
		in   *input
		hs   []held
		snap []string
	}
	st := &state{shared: c.Shared}
	recs := make([]*rec, len(c.Ops))
	cur := 0
	do := func(i int, list int) (*rec, *Fail) {
		o := c.Ops[i].Op
		r := &rec{list: list, in: o.prep()}
		r.out, r.hs = r.in.run(st)
		if w := r.in.intact(); w != "" {
			return r, failf("call %d: %s changed %s", i, o.K, w)
		}
		for _, h := range r.hs {
			r.snap = append(r.snap, h.snap())
		}
		if c.Scribble {
			for _, h := range r.hs {
				h.scribble()
			}
			if w := r.in.intact(); w != "" {
				return r, failf("call %d: writing to what %s returned changed %s", i, o.K, w)
			}
		}
		return r, nil
	}
	for i, o := range c.Ops {
		if o.Select > 0 {
			cur = o.Select - 1
			bip39.SetWordList(libList(cur))
			continue
		}
		r, f := do(i, cur)
		if f != nil {
			return f
		}
		recs[i] = r
		if w, ok := o.Op.expect(cur); (ok && w != r.out) || (c.Fresh == i+1) {
			if fr, ok := fresh(o.Op, cur); ok && fr != r.out {
				return failf("call %d: %s returned %s after this history, but %s in a new process", i, o.Op.K, short(r.out), short(fr))
			}
		}
	}
	// repeat every call, last first
	again := make([]*rec, len(c.Ops))
	for i := len(c.Ops) - 1; i >= 0; i-- {
		r := recs[i]
		if r == nil {
			continue
		}
		if r.list != cur {
			cur = r.list
			bip39.SetWordList(libList(cur))
		}
		r2, f := do(i, cur)
		if f != nil {
			return f
		}
		again[i] = r2
		if r2.out != r.out {
			return failf("call %d: %s returned %s, and when repeated after the other calls %s", i, c.Ops[i].Op.K, short(r.out), short(r2.out))
		}
	}
	if !c.Scribble {
		for i, r := range append(recs, again...) {
			if r == nil {
				continue
			}
			for j, h := range r.hs {
				if h.snap() != r.snap[j] {
					return failf("what call %d (%s) returned was changed by a later call", i%len(c.Ops), r.in.K)
				}
			}
		}
	}
	for i, r := range append(recs, again...) {
		if r == nil {
			continue
		}
		if w := r.in.intact(); w != "" {
			return failf("call %d: %s, or a later call, changed %s", i%len(c.Ops), r.in.K, w)
		}
	}
	return nil
}

// ------------------------------------------------------------------ X02

type x02 struct {
	Ops []op
	G   int // goroutines
	Rot int

	Rate uint32 // one of so many statements of the library is delayed
}

var specX02 = core.Spec[x02]{
	Name: "concurrent", Quick: 1000, Thorough: 50000,
	Gen: func(t *T) x02 {
		c := x02{G: 2 + pick(t, "g", 5), Rot: pick(t, "rot", 3), Rate: from(t, "rate", []uint32{0, 2, 20, 200})}
		p := genPool(t, []int{0})
		kinds := allKinds
		if pick(t, "focus", 2) == 1 {
			kinds = nil
			for i := 0; i < 3; i++ {
				kinds = append(kinds, from(t, "kind", allKinds))
			}
		}
		for i, n := 0, 1+pick(t, "n", 12); i < n; i++ {
			c.Ops = append(c.Ops, p.genOp(t, kinds))
		}
		return c
	},
	// every kind at once, as the first use in a new process
	Fixed: func() []x02 {
		var out []x02
		for i := 0; i < 14; i++ {
			k, _ := ref.Master(expand([]byte{9, byte(i)}, 32))
			n := k.Neuter()
			e := expand([]byte{8, byte(i)}, 16)
			s, _ := ref.Mnemonic(e, refLists[0])
			c := x02{G: 4, Rot: i % 3, Rate: uint32(i % 2 * 10)}
			for j, kd := range allKinds {
				o := op{K: kd, Key: keyHex(k), B: e, S: Text(s), N: uint32(j), Spar: 100}
				switch kd {
				case "ExpandPublicKey":
					x := ref.Compress(k.Pub)
					o.B = x[:]
				case "Deserialize":
					o.B = append(keyHex(n), ref.Checksum(keyHex(n))...)
				case "B58Deserialize":
					o.S = Text(n.Text())
				case "RootKeyFromSeed":
					o.S = Text(hex.EncodeToString(e))
				case "PathString", "PathIsValid", "ValuesAtDepth", "ValueAtDepth", "ReplaceValueAtDepth", "VersionBytes", "Walk", "Range", "AddrHex", "AddrP2SH":
					o.S = "m/44'/0'/0'/0/1"
					o.N, o.N2 = 4, 7
				case "VersionLookup":
					o.N, o.S = 0x0488ade4, "m/44'/0'"
				case "CoinLookup":
					o.N, o.S = 60, "Bitcoin"
				case "NewEntropy":
					o.N = 128
				case "GenerateMnemonic":
					o.N = 12
				}
				c.Ops = append(c.Ops, o)
				if o.Key != nil && (kd == "NewChildKey" || kd == "PublicKeyExtended" || kd == "AddrHex" || kd == "Serialize") {
					o.Key = keyHex(n)
					o.N = 1
					c.Ops = append(c.Ops, o)
				}
			}
			out = append(out, c)
		}
		return out
	},
	Check: func(c x02) *Fail {
		ins := make([]*input, len(c.Ops))
		for i, o := range c.Ops {
			ins[i] = o.prep()
		}
		outs := make([][]string, c.G)
		pan := make([]any, c.G)
		var wg sync.WaitGroup
		start := make(chan struct{})
		yield.Rate = c.Rate
		for g := 0; g < c.G; g++ {
			wg.Add(1)
			outs[g] = make([]string, len(ins))
			go func() {
				defer wg.Done()
				defer func() { pan[g] = recover() }()
				<-start
				st := &state{own: true}
				for j := range ins {
					i := (j + g*c.Rot) % len(ins)
					outs[g][i], _ = ins[i].run(st)
				}
			}()
		}
		close(start)
		wg.Wait()
		yield.Rate = 0
		for _, p := range pan {
			if p != nil {
				return failf("panic in a concurrent call: %v", p)
			}
		}
		for i, o := range c.Ops {
			want, _ := o.prep().run(&state{own: true})
			for g := range outs {
				if outs[g][i] != want {
					return failf("call %d (%s) returned %s when run concurrently, %s alone", i, o.K, short(outs[g][i]), short(want))
				}
			}
			if w := ins[i].intact(); w != "" {
				return failf("call %d (%s) changed %s", i, o.K, w)
			}
		}
		return nil
	},
	Class: func(c x02) []string {
		out := []string{fmt.Sprintf("+goroutines-%d", c.G)}
		for _, o := range c.Ops {
			out = append(out, "+op-"+o.K)
		}
		return out
	},
}

// x02hot is a few requests that goroutines make again and again.
type x02hot struct {
	Ops    []op
	G      int
	Rounds int
	Rate   uint32 // one of so many statements of the library is delayed
}

func hotRounds(k string) int {
	if slowKinds[k] {
		return 4
	}
	switch k {
	case "Walk", "Range", "NewChildKey", "PublicKeyExtended", "AddrHex", "AddrP2SH":
		return 40
	}
	return 200
}

var specX02hot = core.Spec[x02hot]{
	Name: "hot", Quick: 2400, Thorough: 100000,
	Gen: func(t *T) x02hot {
		c := x02hot{G: 2 + pick(t, "g", 4), Rate: from(t, "rate", []uint32{0, 2, 8, 40, 200})}
		kind := from(t, "kind", allKinds)
		for slowKinds[kind] && !oneIn(t, "slow", 4) {
			kind = from(t, "kind", allKinds)
		}
		kinds := []string{kind}
		if oneIn(t, "two", 4) {
			kinds = append(kinds, from(t, "kind2", allKinds))
		}
		pools := []pool{genPool(t, []int{0}), genPool(t, []int{0})}
		c.Rounds = 200
		for i, n := 0, 2+pick(t, "n", 3); i < n; i++ {
			o := op{K: kinds[i%len(kinds)]}
			o.fill(t, pools[i%2])
			if o.K == "Range" {
				o.N2 = o.N + (o.N2-o.N)%6
			}
			c.Ops = append(c.Ops, o)
			c.Rounds = min(c.Rounds, hotRounds(o.K))
		}
		if oneIn(t, "crowd", 12) {
			c.G = from(t, "g", []int{9, 17, 33, 64})
			c.Rounds = max(2, c.Rounds/c.G*4)
		}
		return c
	},
	// each kind once
	Fixed: func() []x02hot {
		var out []x02hot
		for _, f := range specX02.Fixed()[:2] {
			for i, o := range f.Ops {
				g := specX02.Fixed()[2].Ops[i]
				out = append(out, x02hot{Ops: []op{o, g}, G: 3, Rounds: hotRounds(o.K) / 2, Rate: 8})
			}
		}
		return out
	},
	Check: func(c x02hot) *Fail {
		ins := make([]*input, len(c.Ops))
		for i, o := range c.Ops {
			ins[i] = o.prep()
		}
		end := time.Now().Add(250 * time.Millisecond)
		first := make([][]string, c.G)
		fails := make([]*Fail, c.G)
		var wg sync.WaitGroup
		start := make(chan struct{})
		yield.Rate = c.Rate
		for g := 0; g < c.G; g++ {
			first[g] = make([]string, len(ins))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						fails[g] = failf("panic in a concurrent call: %v", p)
					}
				}()
				<-start
				st := &state{own: true}
				for n := 0; n < c.Rounds; n++ {
					for j := range ins {
						i := (j + g) % len(ins)
						out, _ := ins[i].run(st)
						if n == 0 {
							first[g][i] = out
						} else if out != first[g][i] {
							fails[g] = failf("call %d (%s) returned %s and, once more, %s, while %d goroutines made the same calls", i, c.Ops[i].K, short(first[g][i]), short(out), c.G)
							return
						}
					}
					if n > 0 && time.Now().After(end) {
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		yield.Rate = 0
		for _, f := range fails {
			if f != nil {
				return f
			}
		}
		for i, o := range c.Ops {
			want, _ := o.prep().run(&state{own: true})
			if e, ok := o.expect(0); ok && e != want {
				if fr, ok := fresh(o, 0); ok && fr != want {
					return failf("call %d (%s) returns %s after being made by %d goroutines, %s in a new process", i, o.K, short(want), c.G, short(fr))
				}
			}
			for g := range first {
				if first[g][i] != want {
					return failf("call %d (%s) returned %s when run concurrently, %s alone", i, o.K, short(first[g][i]), short(want))
				}
			}
			if w := ins[i].intact(); w != "" {
				return failf("call %d (%s) changed %s", i, o.K, w)
			}
		}
		return nil
	},
	Class: func(c x02hot) []string {
		out := []string{fmt.Sprintf("goroutines:%d", c.G)}
		if c.Rate > 0 && yield.Built != "" {
			out = append(out, "+delays")
		}
		seen := map[string]bool{}
		for _, o := range c.Ops {
			if !seen[o.K] {
				out = append(out, "+op-"+o.K)
				seen[o.K] = true
			}
		}
		return out
	},
}

// ------------------------------------------------------------------ X05

type x05 struct {
	List int
	Ops  []op
}

var weirdTexts = []Text{"", " ", "\x00", "m", "M", "/", "m/", "m//", "'", "m/'", "m/0''", "m/-1", "m/+1", "m/9223372036854775808", "m/99999999999999999999'",
	"0x", "0", "1", "11111", "xprv", "xpub", "%s%d%n", "\xff\xfe\xfd", "m/0'/0'/0'/0/0/", "\u2028", "\xc3\x28", "m/\u0661"}

// genNear is a text some function accepts, or one a step or two away from it.
func genNear(t *T, l string) string {
	var s string
	switch weighted(t, l+"-nk", 4, 2, 2, 1, 1) {
	case 0: // a sentence, by any of the lists
		li := pick(t, l+"-li", len(listNames))
		if oneIn(t, l+"-eng", 2) {
			li = 0
		}
		if pick(t, l+"-mut", 3) == 0 {
			s = genSentence(t, l, li)
		} else {
			s, _ = ref.Mnemonic(genEntropy(t, l+"-ent"), refLists[li])
		}
	case 1:
		s = spell(t, l, genComps(t, l+"-c", 8))
	case 2: // a serialised key
		b := genRawKey(t, l)
		s = ref.B58Encode(append(append(Hex{}, b...), ref.Checksum(b)...))
	case 3:
		s = hex.EncodeToString(genEntropy(t, l))
	case 4:
		s = ref.FormatPath(genComps(t, l+"-c", 300))
	}
	for i, n := 0, weighted(t, l+"-odd", 1, 4, 2, 1); i < n; i++ {
		at := pick(t, l+"-at", len(s)+1)
		var in string
		switch weighted(t, l+"-ok", 4, 2, 1, 1, 2) {
		case 0:
			in = string([]byte{byte(pick(t, l+"-byte", 256))})
		case 1:
			in = from(t, l+"-rune", []string{"\x00", "\ufeff", "\u200b", "\u2028", "\u0301", "\U0001f600", "\ud7ff", "\ufffd", "%", "%s", "\\", "\"", "-", "+", "_"})
		case 2:
			s = twinText(t, l+"-tw", s)
			continue
		case 3: // a piece of it once more
			b := at + pick(t, l+"-len", len(s)-at+1)
			in = s[at:b]
		case 4: // instead of a byte
			if at < len(s) {
				s = s[:at] + s[at+1:]
			}
			in = string([]byte{byte(pick(t, l+"-byte", 256))})
		}
		s = s[:at] + in + s[at:]
	}
	return s
}

func genWeird(t *T, l string) Text {
	switch weighted(t, l+"-wk", 3, 3, 2, 1, 1, 1, 8) {
	case 6:
		return Text(genNear(t, l))
	case 0:
		return from(t, l, weirdTexts)
	case 1:
		return Text(genText(t, l, 4096))
	case 2:
		return Text(genPathText(t, l, 12))
	case 3:
		return Text(strings.Repeat(string(from(t, l+"-rep", []Text{"m", "/0", "/0'", "'", "1", "z", "abandon ", " ", "0", "\xff", "f"})), 1+pick(t, l+"-nrep", 600)))
	case 4: // words of any list, any number
		li := pick(t, l+"-li", len(listNames))
		var w []string
		for i, n := 0, from(t, l+"-nw", []int{1, 3, 11, 12, 13, 15, 18, 21, 24, 25, 48, 300}); i < n; i++ {
			w = append(w, refLists[li][pick(t, l+"-w", 2048)])
		}
		return Text(strings.Join(w, from(t, l+"-sep", []string{" ", "  ", "\u3000", "\n"})))
	default: // base58 alphabet
		const a = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
		b := rnd(t, l, from(t, l+"-nb", []int{1, 50, 110, 111, 112, 113, 200, 3000}))
		for i := range b {
			b[i] = a[int(b[i])%58]
		}
		return Text(b)
	}
}

// genRawKey is 78 bytes of any content.
func genRawKey(t *T, l string) Hex {
	switch weighted(t, l+"-rk", 3, 2, 4, 1) {
	case 0:
		return genBytes(t, l, 78)
	case 1:
		return keyHex(genX(t, l, keyOpts{priv: true, pub: true}))
	case 2: // a good key with bad material
		b := keyHex(genX(t, l, keyOpts{priv: true, pub: true}))
		m := new(big.Int)
		switch pick(t, l+"-mat", 10) {
		case 0:
			copy(b[45:], make([]byte, 33))
		case 1:
			b[45] = 0
			ref.N.FillBytes(b[46:78])
		case 2:
			b[45] = 0
			m.Add(ref.N, big.NewInt(1)).FillBytes(b[46:78])
		case 3:
			b[45] = 0
			for i := 46; i < 78; i++ {
				b[i] = 0xff
			}
		case 4:
			b[45] = from(t, l+"-pre", []byte{1, 4, 5, 6, 7, 0x80, 0xff})
		case 5:
			b[45] = 2 + byte(pick(t, l+"-odd", 2))
			copy(b[46:], genBytes(t, l+"-x", 32))
		case 6:
			b[45] = 2
			ref.P.FillBytes(b[46:78])
		case 7:
			b[45] = 3
			m.Sub(ref.P, big.NewInt(1)).FillBytes(b[46:78])
		case 8:
			b[45] = 2 + byte(pick(t, l+"-odd", 2))
			copy(b[46:], make([]byte, 32))
		case 9:
			copy(b[:4], genBytes(t, l+"-v", 4))
		}
		return b
	}
	return make(Hex, 78)
}

// genWeirdOp draws one call with arguments of any content.
func genWeirdOp(t *T) op {
	o := op{K: from(t, "op", allKinds)}
	o.Key = genRawKey(t, "key")
	o.S, o.S2 = genWeird(t, "s"), genWeird(t, "s2")
	switch pick(t, "bk", 4) {
	case 0:
		o.B = genBytes(t, "b", pick(t, "bl", 200))
	case 1:
		o.B = genBytes(t, "b", from(t, "bl", []int{0, 1, 3, 4, 15, 16, 20, 32, 33, 64, 77, 78, 79, 81, 82, 83, 128, 1000}))
	case 2:
		o.B = append(append(Hex{}, o.Key...), ref.Checksum(o.Key)...)
	case 3:
		o.B = genBytes(t, "b", 82)
	}
	if o.K == "ExpandPublicKey" {
		o.B = genRawKey(t, "epk")[45:]
	}
	o.N, o.N2 = genIdx(t, "n", 0), genIdx(t, "n2", 0)
	if pick(t, "nk", 4) == 0 {
		o.N = from(t, "nn", []uint32{12, 15, 24, 128, 256, 1 << 31, 0xffffffff, 0xffffff80})
	}
	if o.K == "Range" && o.N2-o.N > 600 && o.N2 >= o.N {
		o.N2 = o.N + o.N2%600
	}
	if o.K == "RootKeyFromSeed" && pick(t, "hexs", 2) == 0 {
		o.S = Text(hex.EncodeToString(o.B))
	}
	if o.K == "B58Deserialize" && pick(t, "b58s", 2) == 0 {
		o.S = Text(ref.B58Encode(o.B))
	}
	return o
}

var specX05 = core.Spec[x05]{
	Name: "arbitrary-input", Quick: 30000, Thorough: 1500000,
	Gen: func(t *T) x05 {
		c := x05{}
		if oneIn(t, "list", 4) {
			c.List = pick(t, "li", len(listNames))
		}
		for i, n := 0, 1+pick(t, "n", 4); i < n; i++ {
			c.Ops = append(c.Ops, genWeirdOp(t))
		}
		return c
	},
	Fixed: func() []x05 {
		var out []x05
		// every byte within a word, a path, a serialised key, an entropy
		sent, _ := ref.Mnemonic(expand([]byte{3}, 16), refLists[0])
		kk, _ := ref.Master(expand([]byte{1}, 16))
		b58 := ref.B58Encode(append(keyHex(kk), ref.Checksum(keyHex(kk))...))
		for b := 0; b < 256; b++ {
			var ops []op
			for _, k := range allKinds {
				if k == "ExpandPublicKey" {
					continue
				}
				for _, s := range []string{sent, "m/44'/0'/7/1", b58, "00112233445566778899aabbccddeeff"} {
					s = s[:len(s)-2] + string([]byte{byte(b)}) + s[len(s)-1:]
					ops = append(ops, op{K: k, Key: keyHex(kk), S: Text(s), S2: Text(s), N: 1, N2: 3})
				}
			}
			out = append(out, x05{Ops: ops})
		}
		// much of anything
		for _, k := range allKinds {
			for i, n := range []int{5001, 70001, 1<<20 + 5} {
				for _, unit := range []string{"00", "abandon ", "/1", "/1'", " ", "z", "\u00e9", "\xff"} {
					if k == "ExpandPublicKey" || k == "B58Deserialize" && i > 1 { // decoding takes quadratic time
						continue
					}
					s := Text(strings.Repeat(unit, n/len(unit)))
					if unit[0] == '/' {
						s = "m" + s[:min(len(s), 30000)] // a derivation each
					}
					o := op{K: k, Key: keyHex(kk), S: s, S2: s, N: 1, N2: 3}
					if k == "NewMasterKey" || strings.Contains(k, "Sha256") || k == "Deserialize" || k == "NewMnemonic" {
						o.B = expand([]byte{8}, n)
					}
					out = append(out, x05{Ops: []op{o}})
				}
			}
		}
		for _, k := range allKinds {
			for _, s := range weirdTexts {
				o := op{K: k, Key: make(Hex, 78), S: s, S2: s}
				if k == "ExpandPublicKey" {
					o.B = make(Hex, 33)
				}
				out = append(out, x05{Ops: []op{o}})
			}
			for _, d := range []string{"m" + strings.Repeat("/1", 300), "m" + strings.Repeat("/1'", 300)} {
				if k == "ExpandPublicKey" {
					continue
				}
				kk, _ := ref.Master(expand([]byte{1}, 16))
				for _, n := range []uint32{0, 255, 256, 0xffffffff} {
					out = append(out, x05{Ops: []op{{K: k, Key: keyHex(kk), S: Text(d), S2: Text(d), N: n, N2: n + 1}}})
				}
			}
		}
		return out
	},
	Check: func(c x05) *Fail {
		if c.List > 0 {
			bip39.SetWordList(libList(c.List))
			defer bip39.SetWordList(libList(0))
		}
		for _, o := range c.Ops {
			in := o.prep()
			if len(in.B) == 0 && in.Spar == 0 {
				in.buf = nil
			}
			in.run(&state{})
			// the methods of whatever an importer gave back
			if o.K == "Deserialize" || o.K == "B58Deserialize" {
				k, _ := bip32.Deserialize(in.buf)
				if o.K == "B58Deserialize" {
					k, _ = bip32.B58Deserialize(string(o.S))
				}
				for _, m := range []string{"NewChildKey", "PublicKeyExtended", "PublicKeyHex", "B58Serialize", "AddrHex", "AddrP2SH", "KeyIsValid"} {
					op{K: m, Key: k[:], N: o.N}.prep().run(&state{})
				}
			}
		}
		return nil
	},
	Class: func(c x05) []string {
		var out []string
		for _, o := range c.Ops {
			out = append(out, "+op-"+o.K)
		}
		return out
	},
}
