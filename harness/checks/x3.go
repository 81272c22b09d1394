package checks

import (
	"encoding/hex"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"golang.org/x/text/unicode/norm"
)

// ------------------------------------------------------------------ X03

type x03 struct {
	List   int
	Ent    Hex
	Pass   Text // in NFKD
	Path   Text
	Prefix byte
	Cut    int    // level at which the extended key is exported and imported
	Upper  bool   // seed hex in upper case
	Extra  uint32 // last index of a short range at the end
}

var specX03 = core.Spec[x03]{
	Name: "pipeline", Quick: 7000, Thorough: 300000,
	Gen: func(t *T) x03 {
		c := x03{Ent: genBytes(t, "ent", from(t, "el", []int{16, 20, 24, 28, 32})), Prefix: rnd(t, "prefix", 1)[0], Cut: pick(t, "cut", 20), Upper: oneIn(t, "upper", 3)}
		if oneIn(t, "list", 3) {
			c.List = pick(t, "li", len(listNames))
		}
		c.Pass = Text(norm.NFKD.String(strings.ToValidUTF8(genText(t, "pass", 300), "?")))
		switch pick(t, "pk", 4) {
		case 0: // wallet layouts
			c.Path = Text("m/" + from(t, "purpose", []string{"44", "49", "84"}) + "'/" + from(t, "coin", []string{"0", "1", "2", "17", "60", "145", "1997", "29223"}) + "'/" +
				utoa(genIdx(t, "acct", 1)) + "'/" + from(t, "change", []string{"0", "1"}) + "/" + utoa(genIdx(t, "index", 1)))
		default:
			c.Path = Text(spell(t, "path", genComps(t, "pc", 30)))
		}
		c.Extra = genIdx(t, "extra", 0)
		return c
	},
	Fixed: func() []x03 {
		var out []x03
		for li := range listNames {
			for _, n := range []int{16, 20, 24, 28, 32} {
				out = append(out, x03{List: li, Ent: make([]byte, n), Path: "m/44'/60'/0'/0/0"}, x03{List: li, Ent: expand([]byte{3, byte(li)}, n), Pass: "TREZOR", Path: "m/0'/1/2'", Cut: 1, Upper: true})
			}
		}
		for _, m := range mined.Passes {
			out = append(out, x03{Ent: make([]byte, 16), Pass: m, Path: "m/44'/60'/0'/0/0"})
		}
		out = append(out, x03{Ent: make([]byte, 16), Path: Text("m" + strings.Repeat("/7", 255)), Cut: 200})
		return out
	},
	Check: checkX03,
	Class: func(c x03) []string {
		v, ok := ref.ParsePath(string(c.Path))
		if !ok {
			return []string{"refused-path"}
		}
		out := []string{"+words-" + utoa(uint32(len(c.Ent)*3/4))}
		if c.List > 0 {
			out = append(out, "+other-language")
		}
		if c.Pass != "" {
			out = append(out, "+passphrase")
		}
		switch {
		case len(v) > 10:
			out = append(out, "+deep-path")
		case len(v) > 1:
			out = append(out, "+path")
		}
		return out
	},
}

func checkX03(c x03) *Fail {
	bip39.SetWordList(libList(c.List))
	defer bip39.SetWordList(libList(0))
	sentence, ok := ref.Mnemonic(c.Ent, refLists[c.List])
	if !ok {
		panic("harness: entropy length")
	}
	m, err := bip39.NewMnemonic(inBuf(0, c.Ent, 0))
	if err != nil || m != sentence {
		return failf("mnemonic of %x (%s) = %q, %v; want %q", []byte(c.Ent), listNames[c.List], m, err, sentence)
	}
	seed := ref.Pbkdf2Seed(norm.NFKD.String(sentence), "mnemonic"+norm.NFKD.String(string(c.Pass)))
	sh, err := util.DeriveSeedFromMnemonic(m, string(c.Pass))
	if err != nil || sh != hex.EncodeToString(seed) {
		return failf("seed of %q with passphrase %q = %s, %v; want %x", m, string(c.Pass), sh, err, seed)
	}
	if c.Upper {
		sh = strings.ToUpper(sh)
	}
	want, ok := ref.Master(seed)
	if !ok {
		return nil
	}
	root, err := util.RootKeyFromSeed(sh)
	if err != nil || root == nil || !sameKey(*root, want) {
		return failf("root key of seed %s = %v, %v; want %s", sh, root, err, want.Text())
	}
	vals, ok := ref.ParsePath(string(c.Path))
	if !ok {
		return nil
	}
	comps := vals[1:]
	levels := []ref.XKey{want}
	for _, x := range comps {
		n, ok := levels[len(levels)-1].Derive(x)
		if !ok {
			return nil
		}
		levels = append(levels, n)
	}
	if len(levels) > 256 {
		return nil
	}
	level := func(how string, i int, k bip32.Key) *Fail {
		w := levels[i]
		if !sameKey(k, w) {
			return failf("%s: level %d of %q: %s", how, i, string(c.Path), diffKey(k, w))
		}
		pub := k.PublicKeyExtended()
		if !sameKey(pub, w.Neuter()) {
			return failf("%s: public key at level %d of %q: %s", how, i, string(c.Path), diffKey(pub, w.Neuter()))
		}
		for _, x := range []bip32.Key{k, pub} {
			kp := util.KeyPath{Key: x}
			if g, w := kp.AddrHex(), ref.EthAddr(w.Pub); g != w {
				return failf("%s: hex address at level %d of %q = %s, want %s", how, i, string(c.Path), g, w)
			}
			if g, w := kp.AddrP2SH(c.Prefix), ref.P2PKHLike(c.Prefix, w.Pub); g != w {
				return failf("%s: base58 address at level %d of %q = %s, want %s", how, i, string(c.Path), g, w)
			}
		}
		return nil
	}
	walk := func(how string, root bip32.Key) ([]util.KeyPath, *Fail) {
		g := &util.Generator{}
		g.SetRootKey(root)
		l, err := g.DeriveBIP32Result(bip32.Path(c.Path))
		if err != nil || len(l) != len(levels) {
			return nil, failf("%s: walk along %q: %d entries, %v; want %d", how, string(c.Path), len(l), err, len(levels))
		}
		for i := range l {
			if f := level(how, i, l[i].Key); f != nil {
				return nil, f
			}
		}
		return l, nil
	}
	l, f := walk("from the seed", *root)
	if f != nil {
		return f
	}
	// re-enter at the root key text
	text := root.B58Serialize()
	if text != want.Text() {
		return failf("text of the root key = %s, want %s", text, want.Text())
	}
	again, err := bip32.B58Deserialize(text)
	if err != nil {
		return failf("import of the root key text %s: %v", text, err)
	}
	if _, f := walk("from the root key text", again); f != nil {
		return f
	}
	// re-enter at an extended child key text, private and (where possible) public
	cut := c.Cut % len(levels)
	k := l[cut].Key
	k, err = bip32.B58Deserialize(k.String())
	if err != nil {
		return failf("import of the level %d key of %q: %v", cut, string(c.Path), err)
	}
	pub := k.PublicKeyExtended()
	pub, err = bip32.B58Deserialize(pub.String())
	if err != nil {
		return failf("import of the public level %d key of %q: %v", cut, string(c.Path), err)
	}
	watch := true
	for i := cut; ; i++ {
		if f := level("from the child key text", i, k); f != nil {
			return f
		}
		if watch && !sameKey(pub, levels[i].Neuter()) {
			return failf("from the public child key text: level %d of %q: %s", i, string(c.Path), diffKey(pub, levels[i].Neuter()))
		}
		if i == len(comps) {
			break
		}
		if k, err = k.NewChildKey(comps[i]); err != nil {
			return failf("child %d of the level %d key: %v", comps[i], i, err)
		}
		if watch = watch && comps[i] < ref.Hardened; watch {
			if pub, err = pub.NewChildKey(comps[i]); err != nil {
				return failf("public child %d of the level %d key: %v", comps[i], i, err)
			}
		}
	}
	// a one-element range at the end is one more level
	last := levels[len(levels)-1]
	if last.Depth == 255 || c.Extra == 1<<32-1 {
		return nil
	}
	next, ok := last.Derive(c.Extra)
	if !ok {
		return nil
	}
	r := util.KeyPathRange{StartIndex: c.Extra, EndIndex: c.Extra + 1, KeyPath: l[len(l)-1]}
	ok = r.Path.IsValid() // the path text of a mixed path need not be an accepted one
	if err := r.GenerateRange(); ok && (err != nil || len(r.KeyPaths) != 1 || !sameKey(r.KeyPaths[0].Key, next)) {
		return failf("range [%d,%d) at the end of %q: %v, %v; want %s", c.Extra, c.Extra+1, string(c.Path), r.KeyPaths, err, next.Text())
	}
	return nil
}
