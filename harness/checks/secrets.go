package checks

import (
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"regexp"
	"slices"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ X10

// x10 is a request made with secrets that is to be refused.
type x10 struct {
	K     string
	Key   Hex  // a key, its scalar and chain code arbitrary bytes
	Ent   Hex  // entropy of a sentence, or a seed
	Other Hex  // as Ent, for an unrelated sentence
	Pass  Text // passphrase
	At    int  // which word, character or byte is wrong
	Way   int  // how
	N     uint32
	Path  Text
	List  int
	After bool // similar requests, served and refused ones, are made before
}

// runs are the texts in which n bytes of b in a row may appear.
func runs(b []byte, n int) map[string]string {
	out := map[string]string{}
	for i := 0; i+n <= len(b); i++ {
		w := b[i : i+n]
		out[hex.EncodeToString(w)] = "hex"
		out[string(w)] = "raw bytes"
		out[strings.Trim(fmt.Sprint(w), "[]")] = "a list of numbers"
		out[strings.TrimSuffix(strings.TrimPrefix(fmt.Sprintf("%#v", w), "[]byte{"), "}")] = "a list of numbers"
		if e := base64.RawStdEncoding.EncodeToString(w[:n/3*3]); i%3 == 0 {
			out[strings.ToLower(e)] = "base64"
		}
	}
	return out
}

// windows are the parts of s of n characters.
func windows(s string, n int) []string {
	var out []string
	for i := 0; i+n <= len(s); i++ {
		out = append(out, s[i:i+n])
	}
	return out
}

// renderings of an error and of those it wraps.
func renderings(err error) string {
	var sb strings.Builder
	for n := 0; err != nil && n < 8; n++ {
		fmt.Fprintf(&sb, "%s\n%+v\n%#v\n", err.Error(), err, err)
		if m, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range m.Unwrap() {
				fmt.Fprintf(&sb, "%s\n%#v\n", e.Error(), e)
			}
		}
		err = errors.Unwrap(err)
	}
	return sb.String()
}

var x10kinds = []string{"unknown-word", "unknown-word", "wrong-checksum", "word-count", "seed-text", "short-seed", "entropy-size", "import-bytes", "import-text", "child", "walk", "range"}

func genX10(t *T) x10 {
	c := x10{After: pick(t, "after", 2) == 1, K: from(t, "k", x10kinds), At: pick(t, "at", 1000), Way: pick(t, "way", 6), N: genIdx(t, "n", 0)}
	c.Key = keyHex(genX(t, "key", keyOpts{priv: true, pub: true}))
	// material that can't be met by accident
	copy(c.Key[13:45], rnd(t, "cc", 32))
	if c.Key[45] == 0 && pick(t, "valid", 3) > 0 {
		copy(c.Key[46:], rnd(t, "scalar", 32))
		if c.Way == 4 {
			for i := 46; i < 56; i++ { // above the order
				c.Key[i] = 0xff
			}
			for i := 56; i < 62; i++ {
				c.Key[i] = 0xff
			}
		}
	}
	n := 16 + 4*pick(t, "size", 5)
	c.Ent, c.Other = rnd(t, "ent", n), rnd(t, "other", n)
	c.Pass = Text(hex.EncodeToString(rnd(t, "pass", 9))) + Text(genText(t, "pp", 10))
	if oneIn(t, "list", 4) {
		c.List = pick(t, "li", len(listNames))
	}
	switch {
	case c.K == "walk" || c.K == "range":
		c.Path = Text(genPathText(t, "path", 20))
	}
	return c
}

// sentence of the case's kind of damage: the same for every entropy.
func (c x10) sentence(ent []byte, words []string) string {
	m, _ := ref.Mnemonic(ent, words)
	ws := strings.Fields(m)
	switch c.K {
	case "unknown-word":
		ws[c.At%len(ws)] = []string{"zzzz", "abandom", "\u00e9", "W", "%s", "\xff"}[c.Way%6]
	case "word-count":
		if c.Way%2 == 0 {
			ws = ws[:len(ws)-1-c.At%3]
		} else {
			ws = append(ws, ws[:1+c.At%3]...)
		}
	case "wrong-checksum":
		index := map[string]int{}
		for i, w := range words {
			index[w] = i
		}
		for i := 1; i < 2048; i++ {
			ws[len(ws)-1] = words[(index[ws[len(ws)-1]]+1)%2048]
			if _, v := ref.DecodeMnemonic(strings.Join(ws, " "), index); v == ref.BadChecksum {
				break
			}
		}
	}
	return strings.Join(ws, " ")
}

// another is the same request with other secrets.
func (c x10) another() x10 {
	d := c
	d.Ent, d.Other = expand(append([]byte("ent"), c.Ent...), len(c.Ent)), expand(append([]byte("other"), c.Other...), len(c.Other))
	d.Pass = Text(hex.EncodeToString(expand([]byte("pass"+c.Pass), len(c.Pass)/2)))
	d.Key = append(Hex{}, c.Key...)
	if len(d.Key) == 78 {
		copy(d.Key[13:45], expand(c.Key[13:45], 32))
		if d.Key[45] == 0 && string(c.Key[46:]) != string(make([]byte, 32)) && c.Key[46] != 0xff {
			copy(d.Key[47:], expand(c.Key[46:], 31))
		}
	}
	return d
}

// x10secrets of a request, by how they can show.
type x10secrets struct {
	long  map[string]string // must not be in the message
	short map[string]string // nor these, unless they are in all such messages
	words []string          // nor most of each of these, or the numbers of three
}

func (s *x10secrets) bytes(name string, b []byte) {
	for p, how := range runs(b, 6) {
		s.long[p] = name + " as " + how
	}
	for i := 0; i+4 <= len(b); i++ {
		if !telling(string(b[i : i+4])) {
			continue
		}
		s.short[string(b[i:i+4])] = name + " as raw bytes"
		s.short[strings.Trim(fmt.Sprint(b[i:i+4]), "[]")] = name + " as a list of numbers"
		s.short[strings.Trim(strings.ReplaceAll(fmt.Sprint(b[i:i+4]), " ", ", "), "[]")] = name + " as a list of numbers"
	}
	for i := 0; i+6 <= len(b); i += 3 {
		s.short[base64.RawStdEncoding.EncodeToString(b[i:i+6])] = name + " as base64"
	}
	for _, w := range windows(hex.EncodeToString(b), 6) {
		if telling(w) {
			s.short[w] = name + " as hex"
		}
	}
}

func (s *x10secrets) text(name, v string, long int) {
	for _, w := range windows(v, long) {
		s.long[w] = name + " as text"
	}
	for _, w := range windows(v, min(long, 6)) {
		if telling(w) {
			s.short[w] = name + " as text"
		}
	}
}

// telling texts have more than two different bytes.
func telling(s string) bool {
	for n := 0; s != ""; n++ {
		if n == 2 {
			return true
		}
		s = strings.ReplaceAll(s, s[:1], "")
	}
	return false
}

var addressText = regexp.MustCompile("0x[0-9a-f]+")

// plainMessages of an error and of those it wraps, without addresses.
func plainMessages(err error) string {
	var sb strings.Builder
	for n := 0; err != nil && n < 8; n++ {
		fmt.Fprintf(&sb, "%s\n%v\n", err.Error(), err)
		err = errors.Unwrap(err)
	}
	return addressText.ReplaceAllString(sb.String(), "0x")
}

func messageWords(text string) map[string]bool {
	out := map[string]bool{}
	for _, w := range strings.FieldsFunc(text, func(r rune) bool { return strings.ContainsRune(" \t\n`'\"[](){},.:;!?<>=", r) }) {
		out[w] = true
	}
	return out
}

// make does the refused request and gives the errors and what they must not
// show.
func (c x10) make() (x10secrets, map[string]error) {
	sec := x10secrets{long: map[string]string{}, short: map[string]string{}}
	errs := map[string]error{}
	switch c.K {
	case "unknown-word", "wrong-checksum", "word-count":
		s := c.sentence(c.Ent, refLists[c.List])
		sec.bytes("entropy", c.Ent)
		sec.text("passphrase", string(c.Pass), 12)
		sec.words = strings.Fields(s)
		if c.K == "unknown-word" {
			i := c.At % len(sec.words)
			sec.words = append(sec.words[:i:i], sec.words[i+1:]...)
		}
		_, errs["EntropyFromMnemonic"] = bip39.EntropyFromMnemonic(s)
		_, errs["MnemonicToByteArray"] = bip39.MnemonicToByteArray(s)
		_, errs["MnemonicToByteArray raw"] = bip39.MnemonicToByteArray(s, true)
		_, errs["NewSeedWithErrorChecking"] = bip39.NewSeedWithErrorChecking(s, string(c.Pass))
		_, errs["DeriveSeedFromMnemonic"] = util.DeriveSeedFromMnemonic(s, string(c.Pass))
		return sec, errs
	case "seed-text", "short-seed":
		s := hex.EncodeToString(c.Ent)
		if c.K == "short-seed" {
			s = s[:16+c.At%8*2]
		} else {
			i := c.At % len(s)
			bad := []string{"x", " ", "G", "\xff", "-", ""}[c.Way%6]
			s = s[:i] + bad + s[i+1:]
		}
		sec.text("seed", s, 8)
		_, errs["RootKeyFromSeed"] = util.RootKeyFromSeed(s)
		return sec, errs
	case "entropy-size":
		b := append(Hex{}, c.Ent...)
		if c.Way%2 == 0 {
			b = append(b, c.Other[:1+c.At%3]...)
		} else {
			b = b[:len(b)-1-c.At%3]
		}
		sec.bytes("entropy", b)
		_, errs["NewMnemonic"] = bip39.NewMnemonic(b)
		return sec, errs
	}
	if len(c.Key) != 78 {
		return sec, errs
	}
	key := libHex(c.Key)
	damaged := func() []byte {
		b := append(append([]byte{}, c.Key...), ref.Checksum(c.Key)...)
		switch c.Way {
		case 0:
			b[78+c.At%4] ^= 1
		case 1:
			b = b[:81-c.At%10]
		case 2:
			b = append(b, 7)
		case 3: // of the other kind
			if c.Key[45] == 0 {
				copy(b, []byte{0x04, 0x88, 0xb2, 0x1e})
			} else {
				copy(b, []byte{0x04, 0x88, 0xad, 0xe4})
			}
			copy(b[78:], ref.Checksum(b[:78]))
		case 5: // a parent at depth zero
			b[4], b[7] = 0, 9
			copy(b[78:], ref.Checksum(b[:78]))
		}
		return b
	}
	sec.bytes("chain code", c.Key[13:45])
	if c.Key[45] == 0 {
		sec.bytes("private key", c.Key[46:])
	}
	shown := key.String()
	shown = shown[min(20, len(shown)):]
	switch c.K {
	case "import-bytes":
		_, errs["Deserialize"] = bip32.Deserialize(damaged())
	case "import-text":
		s := ref.B58Encode(damaged())
		if c.At%3 == 0 {
			i := c.At / 3 % len(s)
			s = s[:i] + []string{"0", "l", " ", "", "\xff", "\u00e9"}[c.Way] + s[i+1:]
		}
		if c.Key[45] == 0 {
			sec.text("extended key", s[20:], 10)
		}
		_, errs["B58Deserialize"] = bip32.B58Deserialize(s)
	case "child":
		if c.Way == 0 {
			key[4] = 255
		}
		_, errs["NewChildKey"] = key.NewChildKey(c.N)
	case "walk":
		var g util.Generator
		if c.Way < 3 {
			copy(key[4:13], make([]byte, 9))
		}
		g.SetRootKey(key)
		if c.Key[45] == 0 {
			sec.text("root key", shown, 10)
		}
		_, errs["DeriveBIP32Result"] = g.DeriveBIP32Result(bip32.Path(c.Path))
	case "range":
		r := util.KeyPathRange{StartIndex: c.N, EndIndex: c.N + uint32(c.At%6), KeyPath: util.KeyPath{Path: bip32.Path(c.Path), Key: key}}
		if c.Way == 0 {
			r.Key[4] = 255
		}
		if c.Key[45] == 0 {
			sec.text("base key", shown, 10)
		}
		errs["GenerateRange"] = r.GenerateRange()
	}
	return sec, errs
}

// before makes requests with the same secrets that are served, and others that
// are refused.
func (c x10) before() x10secrets {
	d := c.another()
	sec, _ := d.make()
	seed := hex.EncodeToString(c.Ent)
	m, _ := ref.Mnemonic(c.Ent, refLists[c.List])
	switch c.K {
	case "unknown-word", "wrong-checksum", "word-count":
		bip39.NewMnemonic(c.Ent)
		bip39.EntropyFromMnemonic(m)
		util.DeriveSeedFromMnemonic(m, string(c.Pass))
		sec.bytes("entropy", c.Ent)
	case "seed-text", "short-seed":
		util.RootKeyFromSeed(seed)
		sec.text("seed", seed, 8)
	case "entropy-size":
		bip39.NewMnemonic(c.Ent)
		sec.bytes("entropy", c.Ent)
	default:
		if len(c.Key) != 78 {
			break
		}
		key := libHex(c.Key)
		b := append(append([]byte{}, c.Key...), ref.Checksum(c.Key)...)
		bip32.Deserialize(b)
		bip32.B58Deserialize(ref.B58Encode(b))
		key.NewChildKey(1)
		var g util.Generator
		g.SetRootKey(key)
		g.DeriveBIP32Result("m/0'/1")
		r := util.KeyPathRange{StartIndex: 0, EndIndex: 2, KeyPath: util.KeyPath{Path: "m/0", Key: key}}
		r.GenerateRange()
	}
	return sec
}

func checkX10(c x10) *Fail {
	if c.List > 0 {
		bip39.SetWordList(libList(c.List))
		defer bip39.SetWordList(libList(0))
	}
	var before x10secrets
	if c.After {
		before = c.before()
	}
	sec, errs := c.make()
	for p, how := range before.long {
		sec.long[p] = how + " of an earlier request"
	}
	_, others := c.another().make()
	for _, call := range namesOf(errs) {
		err, other := errs[call], others[call]
		if err == nil {
			continue
		}
		text := renderings(err)
		low := strings.ToLower(text)
		for p, how := range sec.long {
			if strings.Contains(text, p) || strings.Contains(low, p) {
				return failf("the error of %s shows a part of the %s: %q", call, how, text)
			}
		}
		if other == nil {
			continue
		}
		// What is in the message whatever the secret is isn't the secret.
		plain, usual := plainMessages(err), plainMessages(other)
		if plain == usual {
			continue
		}
		low = strings.ToLower(plain)
		lowUsual := strings.ToLower(usual)
		for p, how := range sec.short {
			if (strings.Contains(plain, p) || strings.Contains(low, p)) && !strings.Contains(usual, p) && !strings.Contains(lowUsual, p) {
				return failf("the error of %s shows a part of the %s: %q, with another secret %q", call, how, err.Error(), other.Error())
			}
		}
		common := messageWords(usual)
		numbers := map[string]bool{}
		index := indexOf(refLists[c.List])
		have := messageWords(plain)
		for _, w := range sec.words {
			if have[w] && !common[w] {
				return failf("the error of %s tells the word %q of the sentence: %q", call, w, err)
			}
			for h := range have {
				if n := len([]rune(h)); n >= 3 && n < len([]rune(w)) && strings.HasPrefix(w, h) && !common[h] {
					return failf("the error of %s tells most of the word %q of the sentence: %q", call, w, err)
				}
			}
			if i, ok := index[w]; ok && have[fmt.Sprint(i)] && !common[fmt.Sprint(i)] {
				numbers[w] = true
			}
		}
		if len(numbers) >= 3 {
			return failf("the error of %s tells the numbers of the words %v: %q", call, namesOf(numbers), err)
		}
	}
	return nil
}

func namesOf[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

var specX10 = core.Spec[x10]{
	Name: "errors", Quick: 20000, Thorough: 600000,
	Gen: genX10, Check: checkX10,
	Class: func(c x10) []string { return []string{"+" + c.K} },
}

// ------------------------------------------------------------------ D05

// d05 is a path text and another spelling of it.
type d05 struct {
	A, B Text
	Key  Hex
	D    byte
	V    uint32
	N    uint32
}

const pathSpace = " \t\n\f\r"

// respace puts white space in and takes white space out.
func respace(t *T, s string) string {
	var sb strings.Builder
	rate := 1 + pick(t, "rate", 12)
	keep := pick(t, "keep", 2) == 0
	for i := 0; i <= len(s); i++ {
		if oneIn(t, "in", rate) && (i == len(s) || s[i] < 0x80 || s[i] >= 0xc0) {
			sb.WriteString(strings.Repeat(string(pathSpace[pick(t, "w", 5)]), 1+pick(t, "nw", 3)))
		}
		if i < len(s) && (keep || !strings.ContainsRune(pathSpace, rune(s[i]))) {
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

var specD05 = core.Spec[d05]{
	Name: "spellings", Quick: 20000, Thorough: 600000,
	Gen: func(t *T) d05 {
		a := strings.ToValidUTF8(genPathText(t, "p", 20), "?")
		c := d05{A: Text(a), B: Text(respace(t, a)), D: byte(pick(t, "d", 12)), V: genIdx(t, "v", 0), N: genIdx(t, "n", 0)}
		c.Key = keyHex(rootX(t, "root", true))
		return c
	},
	Fixed: func() (cs []d05) {
		k, _ := ref.Master(expand([]byte{77}, 32))
		for _, s := range append([]string{"m/44'/0'", "m/84'/0'/0'/0/0", "m/44'/2147483647'/1/4294967295", "m", "M/1"}, nearPaths...) {
			s = strings.ToValidUTF8(s, "?")
			for i := 0; i <= len(s); i++ {
				if i < len(s) && s[i] >= 0x80 && s[i] < 0xc0 {
					continue
				}
				for _, w := range pathSpace {
					cs = append(cs, d05{A: Text(s), B: Text(s[:i] + string(w) + s[i:]), Key: keyHex(k), D: byte(i % 6), V: uint32(i), N: 5})
				}
			}
		}
		return cs
	},
	Check: func(c d05) *Fail {
		a, b := bip32.Path(c.A), bip32.Path(c.B)
		for _, p := range []bip32.Path{a, b} {
			want := ref.StripWS(string(p))
			if s := p.String(); s != want {
				return failf("String of %q = %q, want %q", string(p), s, want)
			}
			if f := p.Formatted(); string(f) != want || f.Formatted() != f || f.String() != want {
				return failf("Formatted of %q = %q, want %q, and again %q", string(p), string(f), want, string(f.Formatted()))
			}
		}
		all := []bip32.Path{a, b, b.Formatted()}
		key := libHex(c.Key)
		var g util.Generator
		g.SetRootKey(key)
		what := func(p bip32.Path) []string {
			var out []string
			add := func(name string, v any, err error) {
				if err != nil {
					v = "refused"
				}
				out = append(out, fmt.Sprintf("%s: %v", name, v))
			}
			add("IsValid", p.IsValid(), nil)
			v, err := p.ValuesAtDepth()
			add("ValuesAtDepth", v, err)
			x, err := p.ValueAtDepth(c.D)
			add("ValueAtDepth", x, err)
			r, err := p.ReplaceValueAtDepth(c.D, c.V)
			add("ReplaceValueAtDepth", fmt.Sprintf("%q", string(r)), err)
			vb := bip32.VersionBytes{Path: p}
			add("entry valid", vb.IsValid(), nil)
			add("entry registered", vb.IsRegistered(), nil)
			x, err = vb.PurposeVal()
			add("PurposeVal", x, err)
			x, err = vb.CoinVal()
			add("CoinVal", x, err)
			x, err = vb.PurposeValFull()
			add("PurposeValFull", x, err)
			x, err = vb.CoinValFull()
			add("CoinValFull", x, err)
			kps, err := g.DeriveBIP32Result(p)
			add("walk", showPaths(kps), err)
			kr := util.KeyPathRange{StartIndex: c.N, EndIndex: c.N + 2, KeyPath: util.KeyPath{Path: p, Key: key}}
			err = kr.GenerateRange()
			add("range", showPaths(kr.KeyPaths), err)
			for _, kp := range append(kps, kr.KeyPaths...) {
				if strings.ContainsAny(string(kp.Path), pathSpace) {
					add("white space in a result's path", fmt.Sprintf("%q", string(kp.Path)), nil)
				}
			}
			return out
		}
		first := what(all[0])
		for _, p := range all[1:] {
			for i, s := range what(p) {
				if i >= len(first) || s != first[i] {
					return failf("%q and %q differ only in white space, but %s", string(a), string(p), short(s)+" instead of "+short(first[min(i, len(first)-1)]))
				}
			}
		}
		for _, s := range first {
			if strings.HasPrefix(s, "white space") {
				return failf("derivation along %q: %s", string(a), s)
			}
		}
		return nil
	},
	Class: func(c d05) []string {
		out := []string{"refused"}
		if _, ok := ref.ParsePath(string(c.A)); ok {
			out[0] = "accepted"
		}
		if c.A != c.B {
			out = append(out, "+spaced")
		}
		return out
	},
}

// ------------------------------------------------------------------ K10

// k10step registers a network, takes one out, or makes a call.
type k10step struct {
	Do  string // "add", "remove", "child", "neuter", "import", "walk", "registered"
	Net int    // one of the networks of the user's own
	Key Hex
	Own int // version of the key: 1, 2: private or public one of network Net
	Idx uint32
	Up  bool // walk to the root only
	Old bool // walk with the generator, and the root, of the walk before

	Path Text // of a walk, "m/1'/2" if empty
	N    uint32
}

type k10 struct {
	Nets  []k10net
	Steps []k10step
}

type k10net struct {
	Prv, Pub uint32
	Path     Text
}

var specK10 = core.Spec[k10]{
	Name: "own-networks", Quick: 15000, Thorough: 500000,
	Gen: func(t *T) k10 {
		var c k10
		used := map[uint32]bool{}
		fresh := func(l string) uint32 {
			for {
				v := genVersion(t, l, true, false)
				_, a := ref.PubVersion[v]
				_, b := ref.PrvVersion[v]
				if !a && !b && !used[v] {
					used[v] = true
					return v
				}
				if v = rapid.Uint32().Draw(t, l+"-r"); !used[v] {
					_, a = ref.PubVersion[v]
					_, b = ref.PrvVersion[v]
					if !a && !b {
						used[v] = true
						return v
					}
				}
			}
		}
		for i, n := 0, 1+pick(t, "nets", 3); i < n; i++ {
			c.Nets = append(c.Nets, k10net{fresh("prv"), fresh("pub"), Text(fmt.Sprintf("m/%d'/%d'", 44+pick(t, "purpose", 3)*5, 900000+pick(t, "coin", 3)))})
		}
		for i, n := 0, 3+pick(t, "n", 8); i < n; i++ {
			s := k10step{Do: from(t, "do", []string{"add", "add", "remove", "child", "child", "neuter", "neuter", "import", "walk", "walk", "range", "registered"}), Net: pick(t, "net", len(c.Nets)), Idx: genIdx(t, "idx", 0)}
			if i == 0 && pick(t, "first", 3) > 0 {
				s.Do = "add"
			}
			k := genX(t, "key", keyOpts{priv: true, pub: true})
			if s.Do == "walk" {
				k = rootX(t, "root", true)
				if pick(t, "longer", 2) == 0 {
					s.Path = Text(spell(t, "s", genComps(t, "c", from(t, "clen", []int{1, 3, 6, 20}))))
				}
			}
			if s.Do == "range" {
				s.N = 1 + uint32(pick(t, "rn", 6))
				s.Path = Text(spell(t, "rs", genComps(t, "rc", 5)))
				if k.Priv == nil {
					s.Idx &^= ref.Hardened
				}
			}
			s.Old, s.Up = pick(t, "old", 2) == 1, pick(t, "up", 2) == 1
			s.Own = weighted(t, "own", 1, 3, 3)
			if s.Own > 0 && pick(t, "kind", 4) > 0 { // of the key's kind
				s.Own = 1
				if k.Priv == nil {
					s.Own = 2
				}
			}
			s.Key = keyHex(k)
			c.Steps = append(c.Steps, s)
		}
		if oneIn(t, "around", 3) { // the same walk, or check, before and after a change
			s := c.Steps[pick(t, "which", len(c.Steps))]
			s.Do, s.Old = from(t, "what", []string{"walk", "walk", "import", "child", "neuter", "registered"}), false
			if s.Do == "walk" {
				s.Key = keyHex(rootX(t, "around", true))
			}
			again := s
			again.Old = true
			for i, n := 0, 1+pick(t, "changes", 3); i < n; i++ {
				c.Steps = append(c.Steps, s, k10step{Do: from(t, "change", []string{"add", "remove"}), Net: s.Net, Key: s.Key})
				s = again
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	},
	Check: func(c k10) *Fail {
		in := make([]bool, len(c.Nets))
		entry := func(n int) bip32.VersionBytes {
			return bip32.VersionBytes{Coin: fmt.Sprint("Own ", n), PvtKeyFlag: c.Nets[n].Prv, PvKeyPrefix: "oprv", PubKeyFlag: c.Nets[n].Pub, PubKeyPrefix: "opub", AddrEncodings: []bip32.AddrEncoding{bip32.P2PKH}, Path: bip32.Path(c.Nets[n].Path)}
		}
		set := func(n int, on bool) {
			e := entry(n)
			in[n] = on
			paths := 0
			for i := range in {
				if in[i] && c.Nets[i].Path == c.Nets[n].Path {
					paths++
				}
			}
			if on {
				bip32.PvtFlagToHDBytesSlice[e.PvtKeyFlag] = []bip32.VersionBytes{e}
				bip32.PubFlagToHDBytesSlice[e.PubKeyFlag] = []bip32.VersionBytes{e}
				bip32.PathToHDBytesSlice[string(e.Path)] = []bip32.VersionBytes{e}
				ref.PubVersion[e.PvtKeyFlag], ref.PrvVersion[e.PubKeyFlag] = e.PubKeyFlag, e.PvtKeyFlag
				return
			}
			delete(bip32.PvtFlagToHDBytesSlice, e.PvtKeyFlag)
			delete(bip32.PubFlagToHDBytesSlice, e.PubKeyFlag)
			if paths == 0 {
				delete(bip32.PathToHDBytesSlice, string(e.Path))
			}
			delete(ref.PubVersion, e.PvtKeyFlag)
			delete(ref.PrvVersion, e.PubKeyFlag)
		}
		defer func() {
			for n := range c.Nets {
				if in[n] {
					set(n, false)
				}
			}
		}()
		var g util.Generator
		var root *k10step
		for n, s := range c.Steps {
			if s.Do == "walk" {
				if s.Old = s.Old && root != nil; s.Old {
					s.Key, s.Own, s.Net = root.Key, root.Own, root.Net
				}
				was := s
				root = &was
			}
			net := s.Net % len(c.Nets)
			k := mustX(s.Key)
			switch s.Own {
			case 1:
				k.Version = c.Nets[net].Prv
			case 2:
				k.Version = c.Nets[net].Pub
			}
			raw := keyHex(k)
			l := libHex(raw)
			about := fmt.Sprintf("step %d: own network %08x/%08x (registered: %v), key %x", n, c.Nets[net].Prv, c.Nets[net].Pub, in[net], []byte(raw))
			switch s.Do {
			case "add", "remove":
				if on := s.Do == "add"; on != in[net] {
					set(net, on)
				}
			case "child":
				got, err := l.NewChildKey(s.Idx)
				if !k.CanDerive(s.Idx) {
					if err == nil {
						return failf("%s: child %d is derived: %s", about, s.Idx, got.String())
					}
					continue
				}
				if want, ok := k.Derive(s.Idx); ok && (err != nil || !sameKey(got, want)) {
					return failf("%s: child %d: %v %s", about, s.Idx, err, diffKey(got, want))
				}
			case "neuter":
				want := k.Neuter()
				_, a := ref.PubVersion[k.Version]
				if _, b := ref.PrvVersion[k.Version]; (k.Priv != nil && !a) || (k.Priv == nil && !b) {
					want.Version = originalMain.PubKeyFlag
				}
				if got := l.PublicKeyExtended(); !sameKey(got, want) {
					return failf("%s: public version: %s", about, diffKey(got, want))
				}
			case "import":
				want := ref.Importable(raw)
				if got := l.IsValid(); got != want {
					return failf("%s: IsValid = %v", about, got)
				}
				_, err := bip32.B58Deserialize(k.Text())
				if (err == nil) != want {
					return failf("%s: import of the text: %v, want success: %v", about, err, want)
				}
			case "walk":
				if !s.Old {
					g.SetRootKey(l)
				}
				path := "m/1'/2"
				if s.Path != "" {
					path = string(s.Path)
				}
				if s.Up {
					path = "m"
				}
				got, err := g.DeriveBIP32Result(bip32.Path(path))
				if f := checkWalk(got, err, raw, path); f != nil {
					f.Msg = about + ": " + f.Msg
					return f
				}
			case "range":
				st := d04step{Key: raw, Path: s.Path, Start: s.Idx, End: s.Idx + s.N}
				r := util.KeyPathRange{StartIndex: st.Start, EndIndex: st.End}
				r.Key, r.Path = l, bip32.Path(s.Path)
				err := r.GenerateRange()
				if f := checkRange(n, st, err, r.KeyPaths); f != nil {
					f.Msg = about + ": " + f.Msg
					return f
				}
			case "registered":
				want := false
				for i := range in {
					want = want || in[i] && c.Nets[i].Path == c.Nets[net].Path
				}
				if got := entry(net).IsRegistered(); got != want {
					return failf("%s: IsRegistered of an entry with path %q = %v", about, string(c.Nets[net].Path), got)
				}
			}
		}
		return nil
	},
	Class: func(c k10) []string {
		var out []string
		on := map[int]bool{}
		ever := map[int]bool{}
		for _, s := range c.Steps {
			n := s.Net % len(c.Nets)
			switch s.Do {
			case "add":
				on[n], ever[n] = true, true
			case "remove":
				on[n] = false
			default:
				if on[n] {
					out = append(out, "+"+s.Do+"-registered")
				} else if ever[n] {
					out = append(out, "+"+s.Do+"-removed")
				}
			}
		}
		return uniq(out)
	},
}
