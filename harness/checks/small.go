package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
)

// Small scopes, enumerated: every input up to a size over a small alphabet
// whose symbols are the ones that matter. They settle what sampling leaves to
// chance, and random cases continue them from random starting points.

// endings is every text that is Pre and at most N symbols of an alphabet.
type endings struct {
	Pre   Text
	Alpha int
	N     int
}

var pathAlphabets = [][]string{
	strings.Split("m,M,/,',0,1,2,9, ,\t,+,-,h,.,\v", ","),
	{"m", "/", "'", "0", "7", "00", "2147483647", "2147483648", "4294967295", "4294967296", " "},
	{"/0", "/1", "/7'", "/2147483647'", "/2147483647", "/2147483648", "/2147483648'", "/4294967295", "/4294967296", "/4294967295'", "/", "'"},
}

func (c endings) each(alpha []string, f func(string) *Fail) *Fail {
	var rec func(s string, n int) *Fail
	rec = func(s string, n int) *Fail {
		if fail := f(s); fail != nil || n == 0 {
			return fail
		}
		for _, a := range alpha {
			if fail := rec(s+a, n-1); fail != nil {
				return fail
			}
		}
		return nil
	}
	return rec(string(c.Pre), c.N)
}

var specD01s = core.Spec[endings]{
	Name: "all-endings", Quick: 500, Thorough: 20000,
	Gen: func(t *T) endings {
		return endings{Pre: Text(genPathText(t, "p", 40)), Alpha: pick(t, "alpha", len(pathAlphabets)), N: 2}
	},
	Fixed: func() []endings {
		var out []endings
		// all texts of up to 5 characters, and of up to 4 behind "m/1"; all
		// sequences of up to 6 (5) symbols of the other alphabets behind "m"
		for _, f := range []struct {
			pre      string
			alpha, n int
		}{{"", 0, 5}, {"m/1", 0, 4}, {"m", 1, 6}, {"m", 2, 5}} {
			al := pathAlphabets[f.alpha]
			out = append(out, endings{Text(f.pre), f.alpha, 1})
			for _, a := range al {
				for _, b := range al {
					out = append(out, endings{Text(f.pre + a + b), f.alpha, f.n - 2})
				}
			}
		}
		return out
	},
	Check: func(c endings) *Fail {
		return c.each(pathAlphabets[c.Alpha], func(s string) *Fail { return checkD01(pathCase{Text(s)}) })
	},
	Class: func(c endings) []string { return []string{"+all-endings"} },
}

// d02s: one path, every pair of replacements over small sets.
type d02s struct {
	P     Text
	Depth int
	Vals  []uint32
}

var smallVals = []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1}

var specD02s = core.Spec[d02s]{
	Name: "all-edit-pairs", Quick: 300, Thorough: 20000,
	Gen: func(t *T) d02s {
		c := d02s{P: Text(genPathText(t, "p", 6)), Depth: 5}
		for i := 0; i < 3; i++ {
			c.Vals = append(c.Vals, genIdx(t, "v", 0))
		}
		return c
	},
	Fixed: func() []d02s {
		var out []d02s
		comps := []string{"/0'", "/1'", "/2147483647'", "/0", "/1", "/2147483647", "/2147483648", "/4294967295"}
		endings{"m", 0, 3}.each(comps, func(s string) *Fail {
			out = append(out, d02s{Text(s), 4, smallVals})
			return nil
		})
		return out
	},
	Check: func(c d02s) *Fail {
		if f := checkRead(string(c.P)); f != nil {
			return f
		}
		for d := 0; d <= c.Depth; d++ {
			for _, v := range c.Vals {
				for e := 0; e <= c.Depth; e++ {
					for _, w := range c.Vals {
						if f := checkEdits(d02{P: c.P, Edits: []d02edit{{byte(d), v}, {byte(e), w}}}); f != nil {
							return f
						}
					}
				}
			}
		}
		return nil
	},
	Class: func(c d02s) []string { return append(classPath(string(c.P)), "+edited") },
}

// latin is the entropy whose sentence has word (i + 89 p) mod 2048 at each
// position p but the last: over all i every word stands at every position.
func latin(size, i int) []byte {
	e := make([]byte, size)
	for b := range size * 8 {
		if w := (i + 89*(b/11)) % 2048; w>>(10-b%11)&1 == 1 {
			e[b/8] |= 0x80 >> (b % 8)
		}
	}
	return e
}

// m01s: for one size and list, every word at every position.
type m01s struct{ List, Size, From, To int }

var specM01s = core.Spec[m01s]{
	Name: "every-word-everywhere",
	Fixed: func() []m01s {
		var out []m01s
		for l := range listNames {
			for _, n := range entSizes {
				if l > 0 && n != 20 && n != 32 {
					continue // English in all sizes
				}
				for f := 0; f < 2048; f += 256 {
					out = append(out, m01s{l, n, f, f + 256})
				}
			}
		}
		return out
	},
	Check: func(c m01s) *Fail {
		bip39.SetWordList(libList(c.List))
		for i := c.From; i < c.To; i++ {
			e := latin(c.Size, i)
			want, _ := ref.Mnemonic(e, refLists[c.List])
			got, err := bip39.NewMnemonic(e)
			if err != nil || got != want {
				return failf("NewMnemonic(%x) = %q, %v; BIP-39 says %q", e, got, err, want)
			}
			back, err := bip39.EntropyFromMnemonic(want)
			if err != nil || !bytes.Equal(back, e) {
				return failf("EntropyFromMnemonic(%q) = %x, %v; want %x", want, back, err, e)
			}
		}
		return nil
	},
	Class: func(c m01s) []string { return []string{"+every-word-everywhere"} },
}

// m02s: one sentence, every word of the list at one position (or two words
// exchanged, at any two positions).
type m02s struct {
	List int
	Ent  Hex
	Pos  int // -1: all exchanges
}

var specM02s = core.Spec[m02s]{
	Name: "neighbours", Quick: 60, Thorough: 6000,
	Gen: func(t *T) m02s {
		c := m02s{List: genList(t), Ent: genEntropy(t, "ent")}
		c.Pos = pick(t, "pos", len(c.Ent)*3/4+1) - 1
		return c
	},
	Fixed: func() []m02s {
		var out []m02s
		for _, n := range entSizes {
			for p := -1; p < n*3/4; p++ {
				out = append(out, m02s{0, expand([]byte{21, byte(n)}, n), p})
			}
		}
		return out
	},
	Check: func(c m02s) *Fail {
		bip39.SetWordList(libList(c.List))
		words, index := refLists[c.List], refIndex[c.List]
		s, _ := ref.Mnemonic(c.Ent, words)
		ws := strings.Fields(s)
		one := func() *Fail {
			x := strings.Join(ws, " ")
			want, v := ref.DecodeMnemonic(x, index)
			if got := bip39.IsMnemonicValid(x); got != (v == ref.OK) {
				return failf("IsMnemonicValid(%q) = %v, verdict %d", x, got, v)
			}
			ent, err := bip39.EntropyFromMnemonic(x)
			if (err == nil) != (v == ref.OK) || err == nil && !bytes.Equal(ent, want) {
				return failf("EntropyFromMnemonic(%q) = %x, %v; want %x (verdict %d)", x, ent, err, want, v)
			}
			if v != ref.OK && !errors.Is(err, bip39.ErrChecksumIncorrect) {
				return failf("EntropyFromMnemonic(%q): %v, want the checksum error", x, err)
			}
			raw, err := bip39.MnemonicToByteArray(x, true)
			if (err == nil) != (v == ref.OK) || err == nil && !bytes.Equal(raw, want) {
				return failf("MnemonicToByteArray(%q, true) = %x, %v; want %x (verdict %d)", x, raw, err, want, v)
			}
			return nil
		}
		if c.Pos < 0 {
			for i := range ws {
				for j := range i {
					ws[i], ws[j] = ws[j], ws[i]
					if f := one(); f != nil {
						return f
					}
					ws[i], ws[j] = ws[j], ws[i]
				}
			}
			return nil
		}
		for _, w := range words {
			ws[c.Pos] = w
			if f := one(); f != nil {
				return f
			}
		}
		return nil
	},
	Class: func(c m02s) []string {
		if c.Pos < 0 {
			return []string{"+all-exchanges"}
		}
		return []string{"+all-2048-words-here"}
	},
}

// k06s: one valid key, every byte value at one place (stale and fresh
// checksum), or every base58 character at one place of its text.
type k06s struct {
	Key  Hex
	Text bool
	At   int
}

var specK06s = core.Spec[k06s]{
	Name: "neighbours", Quick: 250, Thorough: 12000,
	Gen: func(t *T) k06s {
		c := k06s{Key: keyHex(genX(t, "k", keyOpts{priv: true, pub: true})), Text: pick(t, "text", 2) == 1}
		c.At = pick(t, "at", 82)
		if c.Text {
			c.At = pick(t, "at2", 111)
		}
		return c
	},
	Fixed: func() []k06s {
		var out []k06s
		for _, k := range []Hex{allVersionDerives(true)[50].Key, allVersionDerives(false)[50].Key} {
			for i := range 112 {
				out = append(out, k06s{k, true, i})
				if i < 82 {
					out = append(out, k06s{k, false, i})
				}
			}
		}
		return out
	},
	Check: func(c k06s) *Fail {
		good := withSum(c.Key)
		if !c.Text {
			for v := range 256 {
				d := append(Hex{}, good...)
				d[c.At] = byte(v)
				if f := checkK06(k06{Data: d}); f != nil {
					return f
				}
				if c.At < 78 {
					if f := checkK06(k06{Data: withSum(d[:78])}); f != nil {
						return f
					}
				}
			}
			return nil
		}
		s := ref.B58Encode(good)
		at := min(c.At, len(s))
		for v := range 256 {
			for _, x := range []string{s[:at] + string([]byte{byte(v)}) + s[at:], s[:at] + string([]byte{byte(v)}) + s[min(at+1, len(s)):]} {
				if f := checkK06b(k06b{Text(x)}); f != nil {
					return f
				}
			}
		}
		return nil
	},
	Class: func(c k06s) []string { return []string{fmt.Sprintf("+neighbours-text-%v", c.Text)} },
}
