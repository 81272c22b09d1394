package checks

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"golang.org/x/text/unicode/norm"
)

var entSizes = []int{16, 20, 24, 28, 32}

// ------------------------------------------------------------------ M01

type m01 struct {
	List int
	Ent  Hex
	Cap  int // spare capacity behind the entropy slice
}

func checkM01(c m01) *Fail {
	bip39.SetWordList(libList(c.List))
	in := inBuf(0, c.Ent, c.Cap)
	got, err := bip39.NewMnemonic(in)
	want, ok := ref.Mnemonic(c.Ent, refLists[c.List])
	if !ok {
		if err == nil {
			return failf("entropy of %d bytes accepted: %q", len(c.Ent), got)
		}
		return nil
	}
	if err != nil {
		return failf("entropy %x refused: %v", []byte(c.Ent), err)
	}
	if got != want {
		return failf("NewMnemonic(%x) = %q, BIP-39 says %q", []byte(c.Ent), got, want)
	}
	back, err := bip39.EntropyFromMnemonic(got)
	if err != nil || !bytes.Equal(back, c.Ent) {
		return failf("EntropyFromMnemonic(%q) = %x, %v; encoded entropy was %x", got, back, err, []byte(c.Ent))
	}
	return nil
}

func genEntropy(t *T, l string) []byte {
	e := genBytes(t, l, from(t, l+"-size", entSizes))
	if i, ok := dictWord(t, l); ok { // with one word the code may single out
		at := 11 * pick(t, l+"-wpos", len(e)*8/11)
		for b := 0; b < 11; b++ {
			m := byte(0x80) >> ((at + b) % 8)
			e[(at+b)/8] &^= m
			if i>>(10-b)&1 == 1 {
				e[(at+b)/8] |= m
			}
		}
	}
	if oneIn(t, l+"-runs", 6) { // some words again and again
		n := len(e) * 8 / 11
		run := 1 + pick(t, l+"-run", 4)
		for at := run + pick(t, l+"-from", n); at < n; at++ {
			if pick(t, l+"-again", 5) == 0 {
				continue
			}
			for b := 0; b < 11; b++ {
				i, j := 11*at+b, 11*(at-run)+b
				m := byte(0x80) >> (i % 8)
				e[i/8] &^= m
				if e[j/8]&(byte(0x80)>>(j%8)) != 0 {
					e[i/8] |= m
				}
			}
		}
	}
	return e
}

var specM01 = core.Spec[m01]{
	Name: "roundtrip", Quick: 40000, Thorough: 1500000,
	Gen: func(t *T) m01 {
		c := m01{List: weighted(t, "list", 4, 1, 1, 1, 1, 1, 1, 1, 1, 1)}
		if oneIn(t, "badsize", 12) {
			c.Ent = genBytes(t, "ent", pick(t, "size", 80))
		} else {
			c.Ent = genEntropy(t, "ent")
		}
		c.Cap = from(t, "cap", []int{0, 0, 1, 8, 40})
		return c
	},
	Fixed: func() []m01 {
		var out []m01
		for l := range listNames {
			for _, n := range entSizes {
				for _, v := range []byte{0, 0x7f, 0x80, 0xff, 1} {
					out = append(out, m01{List: l, Ent: bytes.Repeat([]byte{v}, n)})
				}
			}
		}
		for n := 0; n <= 260; n++ {
			out = append(out, m01{Ent: expand([]byte{1}, n)})
		}
		for _, n := range []int{512, 1024, 4096, 8192, 16384, 1 << 16} { // x8 or x11 overflow bait
			out = append(out, m01{Ent: expand([]byte{2}, n)}, m01{Ent: expand([]byte{2}, n+16)})
		}
		return out
	},
	Check: checkM01,
	Class: func(c m01) []string {
		switch {
		case len(c.Ent) < 16 || len(c.Ent) > 32 || len(c.Ent)%4 != 0:
			return []string{"+refused-size"}
		case c.Ent[0] == 0:
			return []string{"+leading-zero", "list:" + listNames[c.List]}
		}
		return []string{"+encoded", "list:" + listNames[c.List]}
	},
}

// ------------------------------------------------------------------ M02

type m02 struct {
	List int
	S    Text
	Pass Text
}

var seps = []string{" ", "  ", "\t", "\n", "\r\n", "\u3000", "\u00a0", "\u2003", "\v", "\f", "\u0085", " \t "}

// genWords draws a list of words that is a valid sentence (mutated by kind).
func genSentence(t *T, l string, list int) string {
	words := refLists[list]
	ent := genEntropy(t, l+"-ent")
	s, _ := ref.Mnemonic(ent, words)
	ws := strings.Fields(s)
	switch weighted(t, l+"-mut", 12, 3, 2, 2, 2, 2, 3, 2, 1, 1, 1) {
	case 1: // another last word
		ws[len(ws)-1] = from(t, l+"-w", words)
	case 2: // replace a word
		ws[pick(t, l+"-i", len(ws))] = from(t, l+"-w", words)
	case 3: // swap
		i, j := pick(t, l+"-i", len(ws)), pick(t, l+"-j", len(ws))
		ws[i], ws[j] = ws[j], ws[i]
	case 4: // drop
		k := 1 + pick(t, l+"-k", 3)
		ws = ws[:len(ws)-k]
	case 5: // add
		for i, k := 0, 1+pick(t, l+"-k", 4); i < k; i++ {
			ws = append(ws, from(t, l+"-w", words))
		}
	case 6: // spoil one word
		i := pick(t, l+"-i", len(ws))
		w := ws[i]
		switch pick(t, l+"-sp", 5) {
		case 0:
			w += from(t, l+"-suf", []string{"s", "x", "\u0301", "\u200b", ".", "\x00", "\ufeff", "\xff"})
		case 1:
			o := pick(t, l+"-ol", len(listNames))
			w = from(t, l+"-w", refLists[o])
		case 2:
			w = from(t, l+"-j", []string{"0", "1", "2047", "2048", "%d", "zzz", "word", "\u200b", "-"})
		default:
			f := from(t, l+"-spoil", spoils)
			k := pick(t, l+"-at", 10)
			if oneIn(t, l+"-all", 4) {
				for j := range ws {
					if x := f(ws[j], k); x != "" {
						ws[j] = x
					}
				}
			}
			w = f(w, k)
		}
		if w == "" {
			w = "q"
		}
		ws[i] = w
	case 7: // any count of list words
		n := pick(t, l+"-n", 30)
		if oneIn(t, l+"-big", 10) {
			n = from(t, l+"-bn", []int{33, 36, 48, 60, 96, 268, 280, 768, 780})
		}
		ws = nil
		for i := 0; i < n; i++ {
			ws = append(ws, from(t, l+"-w", words))
		}
	case 8: // repeat one word
		w := from(t, l+"-w", words)
		for i := range ws {
			ws[i] = w
		}
	case 9: // reverse
		for i, j := 0, len(ws)-1; i < j; i, j = i+1, j-1 {
			ws[i], ws[j] = ws[j], ws[i]
		}
	case 10: // arbitrary text
		return genText(t, l+"-txt", 5000)
	}
	switch weighted(t, l+"-sep", 6, 2, 2, 1) {
	case 3: // some way to write it down
		if len(ws) > 0 {
			return from(t, l+"-form", forms)(ws)
		}
	case 1: // one odd separator
		return strings.Join(ws, from(t, l+"-s", seps))
	case 2: // mixed separators and surrounding space
		var sb strings.Builder
		for i, w := range ws {
			if i > 0 || pick(t, l+"-lead", 2) == 0 {
				sb.WriteString(from(t, l+"-s", seps))
			}
			sb.WriteString(w)
		}
		if pick(t, l+"-trail", 2) == 0 {
			sb.WriteString(from(t, l+"-s", seps))
		}
		return sb.String()
	}
	return strings.Join(ws, " ")
}

// forms are ways a whole sentence is written down, none of which BIP-39 knows.
var forms = []func(ws []string) string{
	numbered("%[1]d. %[2]s "), numbered("%[1]d) %[2]s "), numbered("%[1]d.%[2]s "), numbered("%[1]d %[2]s\n"), numbered("%[1]d: %[2]s "), numbered("#%[1]d %[2]s\n"),
	numbered("%02[1]d %[2]s "), numbered("%02[1]d. %[2]s\n"), numbered("(%[1]d) %[2]s "), numbered("[%[1]d] %[2]s "), numbered("%[2]s %[1]d "), numbered("%[1]d.\t%[2]s\r\n"),
	numbered("- %[2]s\n"), numbered("* %[2]s\n"), numbered("\u2022 %[2]s\n"), numbered("\"%[2]s\" "), numbered("'%[2]s' "), numbered("%[2]s %[2]s "), numbered("%[2]s, "), numbered("<%[2]s> "),
	joined("", ", ", ""), joined("", ",", ""), joined("", ";", ""), joined("", "; ", ""), joined("", "-", ""), joined("", " - ", ""), joined("", "_", ""), joined("", "/", ""), joined("", " / ", ""),
	joined("", "|", ""), joined("", " | ", ""), joined("", ".", ""), joined("", ". ", ""), joined("", "+", ""), joined("", "%20", ""), joined("", "&nbsp;", ""), joined("", "", ""), joined("", "\\n", ""),
	joined("", "\u200b", ""), joined("", "\u00ad", ""), joined("", "\u180e", ""), joined("", "\u2060", ""), joined("", "\x00", ""), joined("", "\x1f", ""), joined("", "\u30fb", ""), joined("", "\u3001", ""),
	joined("\"", " ", "\""), joined("'", " ", "'"), joined("(", " ", ")"), joined("[", " ", "]"), joined("[ ", " ", " ]"), joined("[\"", "\",\"", "\"]"), joined("[\"", "\", \"", "\"]"), joined("{ ", " ", " }"),
	joined("`", " ", "`"), joined("\u201c", " ", "\u201d"), joined("\u00ab", " ", "\u00bb"), joined("mnemonic: ", " ", ""), joined("seed ", " ", ""), joined("bip39:", " ", ""), joined("", " ", "."),
	joined("", " ", " ."), joined("", " ", " #1"), joined("# ", " ", ""), joined("", " ", " passphrase"), joined("", " ", "\x00"), joined("", " ", " \x00"), joined("12 ", " ", ""), joined("", " ", ";"),
	func(ws []string) string { // the second half first
		return strings.Join(append(append([]string{}, ws[len(ws)/2:]...), ws[:len(ws)/2]...), " ")
	},
	func(ws []string) string { // in columns, read by rows
		var out []string
		for i := 0; i < 3; i++ {
			for j := i; j < len(ws); j += 3 {
				out = append(out, ws[j])
			}
		}
		return strings.Join(out, " ")
	},
	func(ws []string) string { s := strings.Join(ws, " "); return s + " " + s },
	func(ws []string) string { s := strings.Join(ws, " "); return s + "\n\n" + ws[0] },
	func(ws []string) string { return strings.ToUpper(strings.Join(ws, " ")) },
	func(ws []string) string { return strings.Title(strings.Join(ws, " ")) },
	func(ws []string) string { return strings.Title(strings.Join(ws, "")) }, // CamelCase
}

func numbered(format string) func([]string) string {
	return func(ws []string) string {
		var b strings.Builder
		for i, w := range ws {
			if strings.Contains(format, "[1]") {
				fmt.Fprintf(&b, format, i+1, w)
			} else {
				b.WriteString(strings.ReplaceAll(format, "%[2]s", w))
			}
		}
		return strings.TrimSpace(b.String())
	}
}

func joined(before, between, after string) func([]string) string {
	return func(ws []string) string { return before + strings.Join(ws, between) + after }
}

// spoils are ways a word is mistyped, or changed by the tools a sentence
// passes through on its way into the program.
var spoils = []func(w string, k int) string{
	func(w string, _ int) string { return strings.ToUpper(w) },
	func(w string, _ int) string { return strings.ToLower(w) },
	func(w string, _ int) string { // capitalised
		r := []rune(w)
		r[0] = unicode.ToUpper(r[0])
		return string(r)
	},
	func(w string, k int) string { // one capital somewhere
		r := []rune(w)
		r[k%len(r)] = unicode.ToUpper(r[k%len(r)])
		return string(r)
	},
	func(w string, _ int) string { return w[:len(w)-1] },
	func(w string, k int) string { // a letter missing
		r := []rune(w)
		return string(r[:k%len(r)]) + string(r[k%len(r)+1:])
	},
	func(w string, k int) string { // a letter twice
		r := []rune(w)
		return string(r[:k%len(r)+1]) + string(r[k%len(r):])
	},
	func(w string, k int) string { // two letters swapped
		r := []rune(w)
		if i := k % len(r); i > 0 {
			r[i-1], r[i] = r[i], r[i-1]
		}
		return string(r)
	},
	func(w string, k int) string { // another letter
		r := []rune(w)
		r[k%len(r)] = rune('a' + k*2)
		return string(r)
	},
	func(w string, k int) string { return firstRunes(w, 4) },
	func(w string, k int) string { return firstRunes(w, 3) },
	func(w string, k int) string { return firstRunes(w, 1+k) },
	func(w string, _ int) string { return norm.NFC.String(w) },
	func(w string, _ int) string { return norm.NFKC.String(w) },
	func(w string, _ int) string { return norm.NFD.String(w) },
	func(w string, _ int) string { // accents dropped
		return strings.Map(func(r rune) rune {
			if unicode.Is(unicode.Mn, r) {
				return -1
			}
			return r
		}, norm.NFD.String(w))
	},
	func(w string, k int) string { // decoration
		return []string{"\"" + w + "\"", "'" + w + "'", "(" + w + ")", w + ",", w + ".", w + ";", "-" + w, "1." + w, "#" + w, "\ufeff" + w}[k]
	},
	func(w string, k int) string { // an invisible character
		x := []string{"\u200b", "\u200c", "\u200d", "\u00ad", "\u2060", "\ufe0f", "\x00", "\u180e", "\x7f", "\u0300"}[k]
		return w[:len(firstRunes(w, 1))] + x + w[len(firstRunes(w, 1)):]
	},
	func(w string, _ int) string { return strings.ReplaceAll(w, "e", "\u0435") }, // Cyrillic e
	func(w string, _ int) string { // full-width letters
		return strings.Map(func(r rune) rune {
			if r > ' ' && r < 0x7f {
				return r + 0xfee0
			}
			return r
		}, w)
	},
	func(w string, _ int) string { // hiragana to katakana
		return strings.Map(func(r rune) rune {
			if r >= 0x3041 && r <= 0x3096 {
				return r + 0x60
			}
			return r
		}, w)
	},
	func(w string, _ int) string { return w + "s" },
	func(w string, _ int) string { return w + w },
}

func firstRunes(w string, n int) string {
	r := []rune(w)
	if len(r) > n {
		r = r[:n]
	}
	return string(r)
}

func checkM02(c m02) *Fail {
	bip39.SetWordList(libList(c.List))
	s := string(c.S)
	ent, v := ref.DecodeMnemonic(s, refIndex[c.List])
	ok := v == ref.OK
	if got := bip39.IsMnemonicValid(s); got != ok {
		return failf("IsMnemonicValid(%q) = %v, want %v (verdict %d)", s, got, ok, v)
	}
	got, err := bip39.EntropyFromMnemonic(s)
	if (err == nil) != ok {
		return failf("EntropyFromMnemonic(%q) error %v, verdict %d", s, err, v)
	}
	if ok && !bytes.Equal(got, ent) {
		return failf("EntropyFromMnemonic(%q) = %x, want %x", s, got, ent)
	}
	if v == ref.BadChecksum && !errors.Is(err, bip39.ErrChecksumIncorrect) {
		return failf("EntropyFromMnemonic(%q): wrong checksum reported as %v", s, err)
	}
	if _, err := bip39.MnemonicToByteArray(s); (err == nil) != ok {
		return failf("MnemonicToByteArray(%q) error %v, verdict %d", s, err, v)
	} else if v == ref.BadChecksum && !errors.Is(err, bip39.ErrChecksumIncorrect) {
		return failf("MnemonicToByteArray(%q): wrong checksum reported as %v", s, err)
	}
	if _, err := bip39.MnemonicToByteArray(s, true); (err == nil) != ok {
		return failf("MnemonicToByteArray(%q, raw) error %v, verdict %d", s, err, v)
	}
	seed, err := bip39.NewSeedWithErrorChecking(s, string(c.Pass))
	if (err == nil) != ok {
		return failf("NewSeedWithErrorChecking(%q) error %v, verdict %d", s, err, v)
	}
	if !ok && len(seed) != 0 {
		return failf("NewSeedWithErrorChecking(%q) returned a seed with its error", s)
	}
	if v == ref.BadChecksum && !errors.Is(err, bip39.ErrChecksumIncorrect) {
		return failf("NewSeedWithErrorChecking(%q): wrong checksum reported as %v", s, err)
	}
	hs, err := util.DeriveSeedFromMnemonic(s, string(c.Pass))
	if (err == nil) != ok {
		return failf("DeriveSeedFromMnemonic(%q) error %v, verdict %d", s, err, v)
	}
	if !ok && hs != "" {
		return failf("DeriveSeedFromMnemonic(%q) returned %q with its error", s, hs)
	}
	if v == ref.BadChecksum && !errors.Is(err, bip39.ErrChecksumIncorrect) {
		return failf("DeriveSeedFromMnemonic(%q): wrong checksum reported as %v", s, err)
	}
	return nil
}

func genList(t *T) int { return weighted(t, "list", 4, 1, 1, 1, 1, 1, 1, 1, 1, 1) }

func classM02(c m02) []string {
	_, v := ref.DecodeMnemonic(string(c.S), refIndex[c.List])
	out := []string{[]string{"+valid", "wrong-count", "+unknown-word", "+bad-checksum"}[v], "list:" + listNames[c.List]}
	if v == ref.OK && strings.Join(strings.Fields(string(c.S)), " ") != string(c.S) {
		out = append(out, "+odd-spacing")
	}
	return out
}

var specM02 = core.Spec[m02]{
	Name: "verdict", Quick: 25000, Thorough: 600000,
	Gen: func(t *T) m02 {
		c := m02{List: genList(t)}
		c.S = Text(genSentence(t, "s", c.List))
		if oneIn(t, "haspass", 4) {
			c.Pass = Text(genText(t, "pass", 200))
		}
		return c
	},
	Fixed: func() []m02 {
		var out []m02
		w := refLists[0]
		for n := 0; n <= 60; n++ { // every count, both "all zero" and a last word that fits
			out = append(out, m02{S: Text(strings.TrimSpace(strings.Repeat("abandon ", n)))})
		}
		for _, n := range append(hugeSizes[:4:4], bigSizes...) { // much white space, many words, long words
			s, _ := ref.Mnemonic(expand([]byte{13}, 20), w)
			out = append(out, m02{S: Text(strings.Replace(s, " ", strings.Repeat(" ", n), 1))}, m02{S: Text(strings.Repeat("\n", n) + s + strings.Repeat("\t", n))},
				m02{S: Text(s + " " + strings.Repeat("a", n))}, m02{S: Text(s + strings.Repeat(" abandon", n/8))})
		}
		for _, n := range entSizes { // every possible last word
			s, _ := ref.Mnemonic(expand([]byte{9, byte(n)}, n), w)
			ws := strings.Fields(s)
			for i := 0; i < 2048; i += 5 {
				ws[len(ws)-1] = w[(i+n)%2048]
				out = append(out, m02{S: Text(strings.Join(ws, " "))})
			}
		}
		for l := range listNames {
			for o := range listNames {
				s, _ := ref.Mnemonic(expand([]byte{7, byte(l)}, 16), refLists[l])
				out = append(out, m02{List: o, S: Text(s)})
			}
			for _, n := range entSizes {
				s, _ := ref.Mnemonic(expand([]byte{12, byte(l), byte(n)}, n), refLists[l])
				for _, f := range forms {
					out = append(out, m02{List: l, S: Text(f(strings.Fields(s)))})
				}
			}
			s, _ := ref.Mnemonic(expand([]byte{11, byte(l)}, 32), refLists[l])
			for _, f := range spoils {
				for k := 0; k < 10; k++ {
					ws := strings.Fields(s)
					all := strings.Fields(s)
					i := k * (len(ws) - 1) / 9
					if x := f(ws[i], k); x != "" {
						ws[i] = x
					}
					for j := range all {
						if x := f(all[j], k); x != "" {
							all[j] = x
						}
					}
					out = append(out, m02{List: l, S: Text(strings.Join(ws, " "))}, m02{List: l, S: Text(strings.Join(all, " "))})
				}
			}
		}
		return out
	},
	Check: checkM02,
	Class: classM02,
}

// exhaustive over the last word of random prefixes: exactly 2^(11-cs) of the
// 2048 completions are valid.
type m02b struct {
	List int
	Ent  Hex
}

var specM02b = core.Spec[m02b]{
	Name: "completions", Quick: 150, Thorough: 6000,
	Gen: func(t *T) m02b { return m02b{List: genList(t), Ent: genEntropy(t, "ent")} },
	Check: func(c m02b) *Fail {
		bip39.SetWordList(libList(c.List))
		s, _ := ref.Mnemonic(c.Ent, refLists[c.List])
		ws := strings.Fields(s)
		n := 0
		for _, w := range refLists[c.List] {
			ws[len(ws)-1] = w
			x := strings.Join(ws, " ")
			_, v := ref.DecodeMnemonic(x, refIndex[c.List])
			if got := bip39.IsMnemonicValid(x); got != (v == ref.OK) {
				return failf("IsMnemonicValid(%q) = %v, verdict %d", x, got, v)
			}
			if v == ref.OK {
				n++
			}
		}
		if want := 1 << (11 - len(c.Ent)/4); n != want {
			return failf("%d of 2048 completions valid, want %d", n, want)
		}
		return nil
	},
	Class: func(c m02b) []string { return []string{"+all-2048-last-words"} },
}

// ------------------------------------------------------------------ M03

type m03 struct {
	List int
	Ent  Hex
	Sep  []int // separator before each word (-1: none for the first), cycled
	Tail int
}

func (c m03) text() string {
	s, _ := ref.Mnemonic(c.Ent, refLists[c.List])
	if len(c.Sep) == 0 {
		return s
	}
	var sb strings.Builder
	for i, w := range strings.Fields(s) {
		k := c.Sep[i%len(c.Sep)]
		if k >= 0 {
			sb.WriteString(seps[k])
		} else if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(w)
	}
	if c.Tail > 0 {
		sb.WriteString(seps[c.Tail])
	}
	return sb.String()
}

var specM03 = core.Spec[m03]{
	Name: "bytearray", Quick: 40000, Thorough: 1500000,
	Gen: func(t *T) m03 {
		c := m03{List: genList(t), Ent: genEntropy(t, "ent")}
		if pick(t, "odd", 2) == 1 {
			for i, n := 0, 1+pick(t, "nsep", 5); i < n; i++ {
				c.Sep = append(c.Sep, pick(t, "sep", len(seps)+1)-1)
			}
			c.Tail = pick(t, "tail", len(seps))
		}
		return c
	},
	Fixed: func() []m03 {
		var out []m03
		for _, n := range entSizes {
			for z := 0; z <= n; z++ {
				e := expand([]byte{3, byte(n)}, n)
				for i := 0; i < z; i++ {
					e[i] = 0
				}
				out = append(out, m03{Ent: e}, m03{Ent: e, Sep: []int{1}}, m03{Ent: e, Sep: []int{2}, Tail: 1})
			}
		}
		return out
	},
	Check: func(c m03) *Fail {
		bip39.SetWordList(libList(c.List))
		s := c.text()
		want := ref.ByteArray(c.Ent)
		for _, raw := range [][]bool{nil, {false}, {false, true}} {
			got, err := bip39.MnemonicToByteArray(s, raw...)
			if err != nil || !bytes.Equal(got, want) {
				return failf("MnemonicToByteArray(%q, %v) = %x, %v; want %x", s, raw, got, err, want)
			}
		}
		got, err := bip39.MnemonicToByteArray(s, true)
		if err != nil || !bytes.Equal(got, c.Ent) {
			return failf("MnemonicToByteArray(%q, true) = %x, %v; want %x", s, got, err, []byte(c.Ent))
		}
		back, err := bip39.NewMnemonic(got)
		canon, _ := ref.Mnemonic(c.Ent, refLists[c.List])
		if err != nil || back != canon {
			return failf("re-encoding %x gives %q, %v; want %q", got, back, err, canon)
		}
		return nil
	},
	Class: func(c m03) []string {
		out := []string{"+valid"}
		if c.Ent[0] == 0 {
			out = append(out, "+leading-zero")
		}
		if len(c.Sep) > 0 {
			out = append(out, "+odd-spacing")
		}
		return out
	},
}

// ------------------------------------------------------------------ M04

type m04 struct {
	List int
	S    Text
	Pass Text
}

func nfkd(s string) string { return norm.NFKD.String(s) }

func checkM04(c m04) *Fail {
	bip39.SetWordList(libList(c.List))
	s, p := string(c.S), string(c.Pass)
	want := ref.Pbkdf2Seed(nfkd(s), "mnemonic"+nfkd(p))
	got := bip39.NewSeed(s, p)
	if !bytes.Equal(got, want) {
		if nfkd(s) != s || nfkd(p) != p {
			if raw := ref.Pbkdf2Seed(s, "mnemonic"+p); bytes.Equal(got, raw) {
				want = raw // go on and hold the other entry points to the same raw seed
				if f := checkM04rest(c, s, p, raw); f != nil {
					return f
				}
				return &Fail{Known: "nfkd-raw", Msg: "NewSeed and the functions built on it use sentence and passphrase without NFKD normalisation"}
			}
		}
		return failf("NewSeed(%q, %q) = %x, want %x", s, p, got, want)
	}
	return checkM04rest(c, s, p, want)
}

func checkM04rest(c m04, s, p string, want []byte) *Fail {
	_, v := ref.DecodeMnemonic(s, refIndex[c.List])
	chk, err := bip39.NewSeedWithErrorChecking(s, p)
	hx, herr := util.DeriveSeedFromMnemonic(s, p)
	if v != ref.OK {
		if err == nil || len(chk) != 0 {
			return failf("NewSeedWithErrorChecking(%q) = %x, %v for an invalid sentence", s, chk, err)
		}
		if herr == nil || hx != "" {
			return failf("DeriveSeedFromMnemonic(%q) = %q, %v for an invalid sentence", s, hx, herr)
		}
		return nil
	}
	if err != nil || !bytes.Equal(chk, want) {
		return failf("NewSeedWithErrorChecking(%q, %q) = %x, %v; NewSeed gives %x", s, p, chk, err, want)
	}
	if herr != nil || hx != hex.EncodeToString(want) {
		return failf("DeriveSeedFromMnemonic(%q, %q) = %q, %v; want %x", s, p, hx, herr, want)
	}
	return nil
}

func asciiOnly(s string) bool {
	for _, r := range s {
		if r > unicode.MaxASCII {
			return false
		}
	}
	return true
}

var specM04 = core.Spec[m04]{
	Name: "pbkdf2", Quick: 6000, Thorough: 200000,
	Gen: func(t *T) m04 {
		c := m04{List: genList(t)}
		switch weighted(t, "sk", 4, 4, 2) {
		case 0:
			s, _ := ref.Mnemonic(genEntropy(t, "ent"), refLists[c.List])
			c.S = Text(s)
		case 1:
			c.S = Text(genSentence(t, "s", c.List))
		case 2:
			c.S = Text(genText(t, "st", 3000))
		}
		c.Pass = Text(genText(t, "pass", 3000))
		return c
	},
	Fixed: func() []m04 {
		s, _ := ref.Mnemonic(make([]byte, 16), refLists[0])
		out := []m04{{S: Text(s), Pass: "caf\u00e9"}, {S: Text(s), Pass: "TREZOR"}, {S: Text(s), Pass: " "}, {S: Text(s), Pass: "a "}, {S: Text(s), Pass: "a"}, {}, {Pass: "mnemonic"}, {S: "mnemonic"}}
		var l []int
		for i := 100; i < 140; i++ {
			l = append(l, i)
		}
		for _, m := range mined.Passes {
			out = append(out, m04{S: abandonAbout, Pass: m})
		}
		for _, w := range allWritten("pass 1/2'") {
			out = append(out, m04{S: Text(s), Pass: Text(w)})
		}
		for i, w := range allWritten(s) {
			if i%2 == 0 {
				out = append(out, m04{S: Text(w), Pass: "p"})
			}
		}
		for _, n := range append(append(append(l, 200, 255, 256, 257, 1000, 5000), bigSizes...), hugeSizes...) {
			out = append(out, m04{S: Text(strings.Repeat("k", n))}, m04{S: Text(s), Pass: Text(strings.Repeat("p", n))}, m04{S: Text(s + strings.Repeat(" ", n))})
		}
		return out
	},
	Check: checkM04,
	Class: func(c m04) []string {
		out := []string{}
		if _, v := ref.DecodeMnemonic(string(c.S), refIndex[c.List]); v == ref.OK {
			out = append(out, "+valid-sentence")
		} else {
			out = append(out, "invalid-sentence")
		}
		if len(c.S) > 128 {
			out = append(out, "+sentence-over-128-bytes")
		}
		if c.Pass != "" {
			out = append(out, "+passphrase")
		}
		if nfkd(string(c.S)) != string(c.S) || nfkd(string(c.Pass)) != string(c.Pass) {
			out = append(out, "+not-nfkd")
		}
		if !asciiOnly(string(c.S) + string(c.Pass)) {
			out = append(out, "+non-ascii")
		}
		return out
	},
}

// related passphrases and sentences must give different seeds
type m04b struct {
	Ent  Hex
	P, Q Text
}

var specM04b = core.Spec[m04b]{
	Name: "distinct", Quick: 3000, Thorough: 60000,
	Gen: func(t *T) m04b {
		c := m04b{Ent: genEntropy(t, "ent"), P: Text(genText(t, "p", 300))}
		q := string(c.P)
		switch pick(t, "rel", 7) {
		case 0:
			q += " "
		case 1:
			q = " " + q
		case 2:
			q += "\x00"
		case 3:
			q = strings.ToUpper(q) + "a"
		case 4:
			if len(q) > 0 {
				b := []byte(q)
				b[pick(t, "i", len(b))] ^= 0x20
				q = string(b)
			} else {
				q = "x"
			}
		case 5:
			q = q + q + "q"
		case 6:
			if len(q) > 1 {
				q = q[:len(q)-1]
			} else {
				q += "z"
			}
		}
		c.Q = Text(q)
		return c
	},
	Check: func(c m04b) *Fail {
		bip39.SetWordList(libList(0))
		s, _ := ref.Mnemonic(c.Ent, refLists[0])
		a, b := bip39.NewSeed(s, string(c.P)), bip39.NewSeed(s, string(c.Q))
		if len(a) != 64 || len(b) != 64 {
			return failf("seed lengths %d, %d", len(a), len(b))
		}
		same := nfkd(string(c.P)) == nfkd(string(c.Q))
		if !same && bytes.Equal(a, b) {
			return failf("passphrases %q and %q give the same seed", string(c.P), string(c.Q))
		}
		return nil
	},
	Class: func(c m04b) []string { return []string{"+related-passphrases"} },
}

// ------------------------------------------------------------------ M05

type m05step struct {
	List  int  // >= len(listNames): a rearranged list, variant List-len
	Ent   Hex  // encode and decode this
	Word  Text // looked up
	Other int  // a sentence of this list is decoded
	Reuse bool // the list is written over an earlier reused one and selected there
}

type m05 struct{ Steps []m05step }

const variants = 7

// variantList is a custom list: words of a shipped list in another order,
// optionally mixed with another list's words, or other words.
func variantList(v int) []string {
	base := refLists[v%len(refLists)]
	out := make([]string, 2048)
	switch v / len(refLists) % variants {
	case 3: // words that differ in case alone
		for i := range out {
			out[i] = []string{"a", "A"}[i%2] + base[i/2]
		}
	case 4: // composed characters
		for i := range out {
			out[i] = norm.NFC.String(base[i]) + []string{"\u00e9", "\ufb01", "", "\u212b"}[i%4]
		}
	case 5: // long, and different at the end only
		for i := range out {
			out[i] = strings.Repeat("word-", 9) + base[i]
		}
	case 6: // signs and digits
		for i := range out {
			out[i] = []string{"%d", "#", "0", "-", "_%s", "'"}[i%6] + fmt.Sprint(2047-i)
		}
	case 0: // reversed
		for i := range out {
			out[i] = base[2047-i]
		}
	case 1: // rotated
		for i := range out {
			out[i] = base[(i+1)%2048]
		}
	case 2: // half replaced by made-up words
		for i := range out {
			if i%2 == 0 {
				out[i] = base[i]
			} else {
				out[i] = "zz" + base[i]
			}
		}
	}
	return out
}

func m05list(i int) (lib, want []string) {
	if i < len(listNames) {
		return libList(i), refLists[i]
	}
	v := variantList(i - len(listNames))
	return append([]string{}, v...), v
}

// decorate gives texts near a word: each is a word only if the list has it.
func decorate(w string, i int) []string {
	_, n := utf8.DecodeRuneInString(w)
	_, e := utf8.DecodeLastRuneInString(w)
	all := []string{" " + w, w + " ", w + "\n", "\t" + w, w + "\u3000", "\ufeff" + w, w + "\u200b", "\u00a0" + w, w + "\x00", w + "\r",
		strings.ToUpper(w), strings.ToLower(w), strings.ToUpper(w[:n]) + w[n:], norm.NFC.String(w), norm.NFD.String(w), norm.NFKC.String(w),
		w[n:], w[:len(w)-e], w[:min(4, len(w))], w + w[len(w)-e:], w + w, w + ".", "'" + w + "'", fmt.Sprint(i), w + "s"}
	return []string{all[i%len(all)], all[(i*7+3)%len(all)], all[(i/2048+i*11+5)%len(all)]}
}

func checkM05(c m05) *Fail {
	mem := make([]string, 2048)
	for n, st := range c.Steps {
		lib, want := m05list(st.List)
		if st.Reuse {
			copy(mem, lib)
			lib = mem
		}
		bip39.SetWordList(lib)
		idx := indexOf(want)
		got := bip39.GetWordList()
		if len(got) != len(want) {
			return failf("step %d: active list has %d words", n, len(got))
		}
		for i := range want {
			if got[i] != want[i] {
				return failf("step %d: word %d of the active list is %q, want %q", n, i, got[i], want[i])
			}
			if j, ok := bip39.GetWordIndex(want[i]); !ok || j != i {
				return failf("step %d: GetWordIndex(%q) = %d, %v; want %d", n, want[i], j, ok, i)
			}
		}
		probe := []string{string(st.Word)}
		for i := 0; i < 2048; i += 1 + 97*(i%2) + len(st.Ent) { // words of the list, otherwise written
			probe = append(probe, decorate(want[i], i+n)...)
		}
		for _, p := range c.Steps[:n] { // words of earlier lists
			_, w := m05list(p.List)
			probe = append(probe, w[0], w[1], w[777], w[2047], w[len(st.Word)%2048])
		}
		for _, p := range probe {
			j, ok := bip39.GetWordIndex(p)
			wj, wok := idx[p]
			if ok != wok || (ok && j != wj) {
				return failf("step %d: GetWordIndex(%q) = %d, %v; want %d, %v", n, p, j, ok, wj, wok)
			}
		}
		s, err := bip39.NewMnemonic(inBuf(0, st.Ent, 0))
		ws, _ := ref.Mnemonic(st.Ent, want)
		if err != nil || s != ws {
			return failf("step %d: NewMnemonic(%x) = %q, %v; want %q", n, []byte(st.Ent), s, err, ws)
		}
		back, err := bip39.EntropyFromMnemonic(s)
		if err != nil || !bytes.Equal(back, st.Ent) {
			return failf("step %d: decoding %q gives %x, %v", n, s, back, err)
		}
		_, ow := m05list(st.Other)
		os, _ := ref.Mnemonic(st.Ent, ow)
		we, v := ref.DecodeMnemonic(os, idx)
		oe, err := bip39.EntropyFromMnemonic(os)
		if (err == nil) != (v == ref.OK) || (err == nil && !bytes.Equal(oe, we)) {
			return failf("step %d: sentence of another list %q decodes to %x, %v; verdict %d", n, os, oe, err, v)
		}
		if bip39.IsMnemonicValid(os) != (v == ref.OK) {
			return failf("step %d: IsMnemonicValid(%q) disagrees with verdict %d", n, os, v)
		}
		if _, err := bip39.MnemonicToByteArray(os); (err == nil) != (v == ref.OK) {
			return failf("step %d: MnemonicToByteArray(%q) error %v disagrees with verdict %d", n, os, err, v)
		}
		g, err := util.GenerateMnemonic(byte(12 + 3*(len(st.Ent)/4-4)))
		if err != nil {
			return failf("step %d: GenerateMnemonic: %v", n, err)
		}
		if _, v := ref.DecodeMnemonic(g, idx); v != ref.OK {
			return failf("step %d: the generated %q is not a sentence of the selected list", n, g)
		}
		if n != len(c.Steps)-1 {
			continue
		}
		for s, ok := range map[string]bool{ws: true, os: v == ref.OK} {
			if _, err := bip39.NewSeedWithErrorChecking(s, ""); (err == nil) != ok {
				return failf("step %d: NewSeedWithErrorChecking(%q) error %v, valid %v", n, s, err, ok)
			}
			if _, err := util.DeriveSeedFromMnemonic(s, ""); (err == nil) != ok {
				return failf("step %d: DeriveSeedFromMnemonic(%q) error %v, valid %v", n, s, err, ok)
			}
		}
		if got := bip39.GetWordList(); len(got) != len(want) || got[0] != want[0] || got[2047] != want[2047] {
			return failf("step %d: another list than the selected one is active after the calls", n)
		}
	}
	return nil
}

var specM05 = core.Spec[m05]{
	Name: "switch", Quick: 3000, Thorough: 60000,
	Gen: func(t *T) m05 {
		var c m05
		for i, n := 0, 1+pick(t, "n", 7); i < n; i++ {
			var st m05step
			st.List = pick(t, "list", len(listNames))
			if oneIn(t, "custom", 4) {
				st.List = len(listNames) + pick(t, "variant", variants*len(listNames))
			}
			st.Other = pick(t, "other", len(listNames))
			if oneIn(t, "other-custom", 4) {
				st.Other = len(listNames) + pick(t, "variant", variants*len(listNames))
			}
			if len(c.Steps) > 0 && pick(t, "prev", 2) == 0 {
				st.Other = c.Steps[len(c.Steps)-1].List
			}
			st.Reuse = pick(t, "reuse", 3) == 0
			st.Ent = genEntropy(t, "ent")
			switch pick(t, "wk", 3) {
			case 0:
				_, l := m05list(st.Other)
				st.Word = Text(from(t, "w", l))
			case 1:
				st.Word = Text(genText(t, "wt", 20))
			default:
				_, l := m05list(st.List)
				st.Word = Text(strings.ToUpper(from(t, "w", l)))
			}
			c.Steps = append(c.Steps, st)
		}
		return c
	},
	Check: checkM05,
	Class: func(c m05) []string {
		out := []string{"steps:" + utoa(uint32(len(c.Steps)))}
		if len(c.Steps) > 1 {
			out = append(out, "+switches")
		}
		for _, s := range c.Steps {
			if s.List >= len(listNames) {
				return append(out, "custom-list")
			}
		}
		return out
	},
}

type m05d struct {
	List  int // -1: the default list
	Index int
}

var specM05d = core.Spec[m05d]{
	Name: "published-lists",
	Fixed: func() []m05d {
		var out []m05d
		for l := -1; l < len(listNames); l++ {
			for i := 0; i < 2048; i++ {
				out = append(out, m05d{l, i})
			}
		}
		return out
	},
	Check: func(c m05d) *Fail {
		got, want := defaultList, refLists[0]
		if c.List >= 0 {
			got, want = libList(c.List), refLists[c.List]
		}
		if len(got) != 2048 {
			return failf("list %d has %d words", c.List, len(got))
		}
		if got[c.Index] != want[c.Index] {
			return failf("list %d word %d is %q, published word is %q", c.List, c.Index, got[c.Index], want[c.Index])
		}
		return nil
	},
	Class: func(c m05d) []string { return []string{"+word"} },
}

// ------------------------------------------------------------------ M06

// reader is a stand-in random source.
type reader struct {
	seed  []byte
	pos   int
	limit int // fails after this many bytes when >= 0
	chunk int // most bytes per call when > 0
	eof   bool
	flip  int // byte inverted, -1 none
}

var errSource = errors.New("random source failed")

func (r *reader) Read(b []byte) (int, error) {
	n := len(b)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if r.limit >= 0 && n > r.limit-r.pos {
		n = r.limit - r.pos
	}
	if n == 0 && len(b) > 0 {
		if r.eof {
			return 0, io.EOF
		}
		return 0, errSource
	}
	copy(b, expand(r.seed, r.pos+n)[r.pos:])
	if r.flip >= r.pos && r.flip < r.pos+n {
		b[r.flip-r.pos] ^= 0xff
	}
	r.pos += n
	return n, nil
}

type m06 struct {
	Fn    string // entropy, seed, mnemonic
	Arg   int    // bits or words
	Limit int
	Chunk int
	EOF   bool
	Seed  Hex
	List  int
}

// size is the number of secret bytes, 0 when the request is to be refused.
func (c m06) size() int {
	switch c.Fn {
	case "seed":
		return 256
	case "entropy":
		switch c.Arg {
		case 128, 160, 192, 224, 256:
			return c.Arg / 8
		}
	case "mnemonic":
		switch c.Arg {
		case 12, 15, 18, 21, 24:
			return c.Arg / 3 * 4
		}
	}
	return 0
}

// draw calls the function with r as the random source; secret is nil on error.
func (c m06) draw(r io.Reader) (secret []byte, got bool, err error) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	switch c.Fn {
	case "seed":
		secret, err = bip32.NewSeed()
		return secret, len(secret) > 0, err
	case "entropy":
		secret, err = bip39.NewEntropy(c.Arg)
		return secret, len(secret) > 0, err
	}
	s, err := util.GenerateMnemonic(byte(c.Arg))
	if err != nil {
		return nil, s != "", err
	}
	e, v := ref.DecodeMnemonic(s, refIndex[c.List])
	if v != ref.OK {
		return nil, true, nil
	}
	return e, true, nil
}

func checkM06(c m06) *Fail {
	bip39.SetWordList(libList(c.List))
	size := c.size()
	mk := func() *reader {
		return &reader{seed: c.Seed, limit: c.Limit, chunk: c.Chunk, eof: c.EOF, flip: -1}
	}
	r := mk()
	a, gave, err := c.draw(r)
	if size == 0 {
		if err == nil {
			return failf("%s(%d) accepted", c.Fn, c.Arg)
		}
		return nil
	}
	if c.Limit >= 0 && c.Limit < size {
		if err == nil {
			return failf("%s(%d): random source failed after %d of %d bytes but a result was returned without error (%x)", c.Fn, c.Arg, c.Limit, size, a)
		}
		if c.Fn == "mnemonic" && gave {
			return failf("mnemonic(%d) returned with its error", c.Arg)
		}
		return nil
	}
	if err != nil {
		return failf("%s(%d) failed with a working source: %v", c.Fn, c.Arg, err)
	}
	if len(a) != size {
		return failf("%s(%d) gave a secret of %d bytes, want %d", c.Fn, c.Arg, len(a), size)
	}
	if r.pos < size {
		return failf("%s(%d) took only %d random bytes for %d secret bytes", c.Fn, c.Arg, r.pos, size)
	}
	return nil
}

var specM06 = core.Spec[m06]{
	Name: "source-faults", Quick: 20000, Thorough: 400000,
	Gen: func(t *T) m06 {
		c := m06{Fn: from(t, "fn", []string{"entropy", "mnemonic", "seed"}), Limit: -1, Seed: rnd(t, "seed", 16), List: genList(t)}
		switch c.Fn {
		case "entropy":
			c.Arg = from(t, "bits", []int{128, 160, 192, 224, 256})
			if oneIn(t, "bad", 6) {
				c.Arg = from(t, "badbits", []int{0, -32, 32, 64, 96, 127, 129, 136, 144, 152, 255, 257, 264, 288, 320, 512, 1024, 1 << 20, -128, -256, math.MaxInt, math.MinInt})
			}
		case "mnemonic":
			c.Arg = from(t, "words", []int{12, 15, 18, 21, 24})
			if oneIn(t, "bad", 6) {
				c.Arg = pick(t, "badwords", 256)
			}
		}
		switch pick(t, "fault", 3) {
		case 1:
			n := c.size()
			c.Limit = pick(t, "limit", n+2)
			c.EOF = pick(t, "eof", 2) == 1
		}
		c.Chunk = from(t, "chunk", []int{0, 1, 2, 7, 15, 16, 31, 64})
		return c
	},
	Fixed: func() []m06 {
		var out []m06
		for n := 0; n < 256; n++ {
			out = append(out, m06{Fn: "mnemonic", Arg: n, Limit: -1})
		}
		for n := -70; n < 600; n++ {
			out = append(out, m06{Fn: "entropy", Arg: n, Limit: -1})
		}
		for _, b := range []int{128, 160, 192, 224, 256} { // every fault point
			for k := 0; k <= b/8; k++ {
				for _, e := range []bool{false, true} {
					out = append(out, m06{Fn: "entropy", Arg: b, Limit: k, EOF: e}, m06{Fn: "mnemonic", Arg: b * 3 / 32, Limit: k, EOF: e},
						m06{Fn: "entropy", Arg: b, Limit: k, EOF: e, Chunk: 1}, m06{Fn: "mnemonic", Arg: b * 3 / 32, Limit: k, EOF: e, Chunk: 3})
				}
			}
		}
		for k := 0; k <= 256; k++ {
			out = append(out, m06{Fn: "seed", Limit: k}, m06{Fn: "seed", Limit: k, Chunk: 5, EOF: true})
		}
		return out
	},
	Check: checkM06,
	Class: func(c m06) []string {
		switch {
		case c.size() == 0:
			return []string{"+refused-size"}
		case c.Limit >= 0 && c.Limit < c.size():
			return []string{"+source-fails"}
		case c.Chunk > 0:
			return []string{"+short-reads"}
		}
		return []string{"working-source"}
	},
}

type m06b struct {
	Fn    string
	Arg   int
	Seed  Hex
	Chunk int
}

// specM06b: over 48 draws every secret bit takes both values and no two
// secrets are equal; within one process the draws share one source stream.
var specM06b = core.Spec[m06b]{
	Name: "coverage", Quick: 400, Thorough: 8000,
	Gen: func(t *T) m06b {
		c := m06b{Fn: from(t, "fn", []string{"entropy", "mnemonic", "seed"}), Seed: rnd(t, "seed", 16), Chunk: from(t, "chunk", []int{0, 1, 13})}
		switch c.Fn {
		case "entropy":
			c.Arg = from(t, "bits", []int{128, 160, 192, 224, 256})
		case "mnemonic":
			c.Arg = from(t, "words", []int{12, 15, 18, 21, 24})
		}
		return c
	},
	Check: func(c m06b) *Fail {
		bip39.SetWordList(libList(0))
		d := m06{Fn: c.Fn, Arg: c.Arg, Limit: -1}
		size := d.size()
		or, and := make([]byte, size), bytes.Repeat([]byte{0xff}, size)
		seen := map[string]int{}
		r := &reader{seed: c.Seed, limit: -1, chunk: c.Chunk, flip: -1}
		for i := 0; i < 48; i++ {
			s, _, err := d.draw(r)
			if err != nil || len(s) != size {
				return failf("draw %d of %s(%d): %d bytes, %v", i, c.Fn, c.Arg, len(s), err)
			}
			if j, dup := seen[string(s)]; dup {
				return failf("draws %d and %d of %s(%d) are equal: %x", j, i, c.Fn, c.Arg, s)
			}
			seen[string(s)] = i
			for k := range s {
				or[k] |= s[k]
				and[k] &= s[k]
			}
		}
		for k := range or {
			if or[k] != 0xff || and[k] != 0 {
				return failf("byte %d of %s(%d) has constant bits over 48 draws (or %02x, and %02x)", k, c.Fn, c.Arg, or[k], and[k])
			}
		}
		return nil
	},
	Class: func(c m06b) []string { return []string{"+48-draws-" + c.Fn} },
}

// specM06c: every secret byte depends on the source (flipping source bytes
// changes it), with everything else equal.
type m06c struct {
	Fn   string
	Arg  int
	Seed Hex
}

var specM06c = core.Spec[m06c]{
	Name: "influence", Quick: 300, Thorough: 3000,
	Gen: func(t *T) m06c {
		c := m06c{Fn: from(t, "fn", []string{"entropy", "mnemonic", "seed"}), Seed: rnd(t, "seed", 16)}
		switch c.Fn {
		case "entropy":
			c.Arg = from(t, "bits", []int{128, 160, 192, 224, 256})
		case "mnemonic":
			c.Arg = from(t, "words", []int{12, 15, 18, 21, 24})
		}
		return c
	},
	Check: func(c m06c) *Fail {
		bip39.SetWordList(libList(0))
		d := m06{Fn: c.Fn, Arg: c.Arg, Limit: -1}
		r := &reader{seed: c.Seed, limit: -1, flip: -1}
		a, _, err := d.draw(r)
		if err != nil || len(a) != d.size() {
			return failf("%s(%d): %d bytes, %v", c.Fn, c.Arg, len(a), err)
		}
		moved := make([]bool, len(a))
		for i := 0; i < r.pos && i < 4096; i++ {
			b, _, err := d.draw(&reader{seed: c.Seed, limit: -1, flip: i})
			if err != nil || len(b) != len(a) {
				return failf("%s(%d): %d bytes, %v", c.Fn, c.Arg, len(b), err)
			}
			for k := range a {
				if a[k] != b[k] {
					moved[k] = true
				}
			}
		}
		for k := range moved {
			if !moved[k] {
				return failf("byte %d of %s(%d) does not depend on the random source", k, c.Fn, c.Arg)
			}
		}
		return nil
	},
	Class: func(c m06c) []string { return []string{"+" + c.Fn} },
}

// ------------------------------------------------------------------ M06, many at once

// m06d: goroutines that draw at the same time. No eight bytes of what the
// source gives occur twice, so none may be part of two secrets.
type m06d struct {
	Draws []m06 // one goroutine each, by turns
	Each  int
	Seed  Hex
	Yield bool // the source lets others run before it answers
}

// stream is a source that many may read; it never repeats itself.
type stream struct {
	mu    sync.Mutex
	key   [32]byte
	n     uint64
	yield bool
}

func (s *stream) Read(b []byte) (int, error) {
	s.mu.Lock()
	for at := 0; at < len(b); at += 32 {
		var in [40]byte
		copy(in[:], s.key[:])
		binary.BigEndian.PutUint64(in[32:], s.n)
		s.n++
		sum := sha256.Sum256(in[:])
		copy(b[at:], sum[:])
	}
	s.mu.Unlock()
	if s.yield {
		runtime.Gosched()
	}
	return len(b), nil
}

var specM06d = core.Spec[m06d]{
	Name: "at-once", Quick: 24, Thorough: 600,
	Gen: func(t *T) m06d {
		c := m06d{Each: from(t, "each", []int{200, 1000, 3000}), Seed: rnd(t, "seed", 16), Yield: pick(t, "yield", 2) == 1}
		n := from(t, "n", []int{2, 4, 8, 16, 32})
		all := []m06{{Fn: "seed"}, {Fn: "entropy", Arg: 128}, {Fn: "entropy", Arg: 160}, {Fn: "entropy", Arg: 256}, {Fn: "mnemonic", Arg: 12}, {Fn: "mnemonic", Arg: 15}, {Fn: "mnemonic", Arg: 24}}
		one := from(t, "one", all)
		same := pick(t, "same", 3) > 0
		for i := 0; i < n; i++ {
			if !same {
				one = from(t, "one", all)
			}
			c.Draws = append(c.Draws, one)
		}
		return c
	},
	Fixed: func() []m06d {
		var out []m06d
		for _, d := range []m06{{Fn: "seed"}, {Fn: "entropy", Arg: 128}, {Fn: "mnemonic", Arg: 12}} {
			for _, y := range []bool{false, true} {
				c := m06d{Each: 3000, Yield: y}
				for i := 0; i < 16; i++ {
					c.Draws = append(c.Draws, d)
				}
				out = append(out, c)
			}
		}
		return out
	},
	Check: func(c m06d) *Fail {
		bip39.SetWordList(libList(0))
		src := &stream{yield: c.Yield, key: sha256.Sum256(c.Seed)}
		old := rand.Reader
		rand.Reader = src
		defer func() { rand.Reader = old }()
		got := make([][]string, len(c.Draws))
		errs := make([]error, len(c.Draws))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g, d := range c.Draws {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < c.Each; i++ {
					var s []byte
					var text string
					var err error
					switch d.Fn {
					case "seed":
						s, err = bip32.NewSeed()
						text = string(s)
					case "entropy":
						s, err = bip39.NewEntropy(d.Arg)
						text = string(s)
					default:
						text, err = util.GenerateMnemonic(byte(d.Arg))
					}
					if err != nil {
						errs[g] = err
						return
					}
					got[g] = append(got[g], text)
				}
			}()
		}
		close(start)
		wg.Wait()
		seen := make(map[[8]byte][2]int)
		for g, d := range c.Draws {
			if errs[g] != nil {
				return failf("%s(%d) among %d goroutines failed: %v", d.Fn, d.Arg, len(c.Draws), errs[g])
			}
			for i, s := range got[g] {
				b := []byte(s)
				if d.Fn == "mnemonic" {
					e, v := ref.DecodeMnemonic(s, refIndex[0])
					if v != ref.OK {
						return failf("mnemonic(%d) among %d goroutines gave %q", d.Arg, len(c.Draws), s)
					}
					b = e
				}
				d.Limit = -1
				if len(b) != d.size() {
					return failf("%s(%d) among %d goroutines gave a secret of %d bytes", d.Fn, d.Arg, len(c.Draws), len(b))
				}
				for at := 0; at+8 <= len(b); at += 8 {
					w := [8]byte(b[at:])
					if o, dup := seen[w]; dup {
						return failf("draw %d of goroutine %d (%s) shares the bytes %x with draw %d of goroutine %d", i, g, d.Fn, w, o[1], o[0])
					}
					seen[w] = [2]int{g, i}
				}
			}
		}
		return nil
	},
	Class: func(c m06d) []string { return []string{"+at-once"} },
}
