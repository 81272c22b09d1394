package checks

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"unicode"

	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"golang.org/x/text/unicode/norm"
)

// History checks: a case is a sequence of related requests made in one
// process, each judged by the check of a single request. Twins are requests
// that agree with an earlier one in most of their parts, so an answer kept
// under too small a key, or left behind by an earlier call, is given to the
// wrong request.

type hist[C any] []C

func history[C any](s core.Spec[C], quick, thorough int, twin func(*T, C) C) core.Sub {
	return core.New(core.Spec[hist[C]]{
		Name: s.Name + "-twins", Quick: quick, Thorough: thorough,
		Gen: func(t *T) hist[C] {
			h := hist[C]{s.Gen(t)}
			for i, n := 1, 2+pick(t, "len", 4); i < n; i++ {
				switch weighted(t, "next", 8, 1, 1) {
				case 0:
					h = append(h, twin(t, h[pick(t, "of", len(h))]))
				case 1: // ask again
					h = append(h, h[pick(t, "again", len(h))])
				case 2:
					h = append(h, s.Gen(t))
				}
			}
			return h
		},
		Check: func(h hist[C]) *Fail {
			var known *Fail
			for i, c := range h {
				f := s.Check(c)
				if f != nil && f.Known == "" {
					f.Msg = fmt.Sprintf("request %d of %d: %s", i+1, len(h), f.Msg)
					return f
				}
				if f != nil {
					known = f
				}
			}
			return known
		},
		Class: func(h hist[C]) []string {
			if len(h) < 2 {
				return []string{"single"}
			}
			return []string{fmt.Sprintf("+requests:%d", len(h))}
		},
	})
}

// twinBytes changes b a little; the length is kept when fixed is set.
func twinBytes(t *T, l string, b []byte, fixed bool) []byte {
	o := append([]byte{}, b...)
	n := len(o)
	if n == 0 {
		if fixed {
			return o
		}
		return rnd(t, l, 1+pick(t, l+"-n", 3))
	}
	k := weighted(t, l+"-tw", 8, 4, 4, 2, 4, 4, 4, 2, 2, 2, 2, 1)
	if fixed && k >= 5 && k <= 7 {
		k = 0
	}
	switch k {
	case 0: // one bit
		i := pick(t, l+"-bit", n*8)
		o[i/8] ^= 1 << (i % 8)
	case 1: // the same beginning
		m := pick(t, l+"-keep", n)
		copy(o[m:], rnd(t, l, n-m))
	case 2: // the same end
		m := 1 + pick(t, l+"-keep", n)
		copy(o[:m], rnd(t, l, m))
	case 3: // the same bytes in another order
		i, j := pick(t, l+"-i", n), pick(t, l+"-j", n)
		o[i], o[j] = o[j], o[i]
	case 4: // the same sum, the same exclusive or of neighbours
		i, j := pick(t, l+"-i", n), pick(t, l+"-j", n)
		if i != j {
			o[i]++
			o[j]--
		}
	case 5: // zeros in front
		o = append(make([]byte, 1+pick(t, l+"-z", 4)), o...)
	case 6: // zeros behind
		o = append(o, make([]byte, 1+pick(t, l+"-z", 4))...)
	case 7:
		o = o[:n-1]
	case 8: // the same CRC-32
		if n >= 5 {
			const poly uint64 = 0x1db710641 // IEEE, as bits come out of the bytes
			at := pick(t, l+"-bit", n*8-32)
			for i := 0; i < 33; i++ {
				if poly>>i&1 == 1 {
					o[(at+i)/8] ^= 1 << ((at + i) % 8)
				}
			}
		}
	case 9: // the same sum and weighted sum (Adler, Fletcher)
		if n >= 3 {
			i := pick(t, l+"-i", n-2)
			o[i]++
			o[i+1] -= 2
			o[i+2]++
		}
	case 10: // the same polynomial hash
		collidePoly(t, l, o)
	case 11: // the same FNV hash
		collideFNV(o, pick(t, l+"-at", n), pick(t, l+"-1a", 2) == 1, byte(pick(t, l+"-z", 256)))
	}
	return o
}

// collidePoly changes two bytes so that a hash h = h*31 + b (or 33, 37) stays.
func collidePoly(t *T, l string, o []byte) {
	m := from(t, l+"-m", []byte{31, 33, 37})
	for i := range o[:max(0, len(o)-1)] {
		i = (i + pick(t, l+"-at", len(o))) % (len(o) - 1)
		if o[i] < 255 && o[i+1] >= m {
			o[i]++
			o[i+1] -= m
			return
		}
	}
}

// collideFNV changes up to five bytes from about i so that the 32-bit FNV-1 or
// FNV-1a hash of o stays.
func collideFNV(o []byte, i int, a bool, z byte) {
	const prime uint32 = 16777619
	const inverse uint32 = 899433627 // of the prime, modulo 2^32
	if len(o) < 5 {
		return
	}
	i = min(i, len(o)-5)
	step := func(h uint32, b byte) uint32 {
		if a {
			return (h ^ uint32(b)) * prime
		}
		return h*prime ^ uint32(b)
	}
	back := func(h uint32, b byte) uint32 {
		if a {
			return h*inverse ^ uint32(b)
		}
		return (h ^ uint32(b)) * inverse
	}
	h := uint32(2166136261)
	for _, b := range o[:i] {
		h = step(h, b)
	}
	end := h
	for _, b := range o[i : i+5] {
		end = step(end, b)
	}
	mid := make(map[uint32]uint16, 1<<16)
	for v := 0; v < 1<<16; v++ {
		mid[step(step(h, byte(v>>8)), byte(v))] = uint16(v)
	}
	for w := 0; w < 1<<18; w++ {
		x, y, u := byte(w>>16)+z, byte(w>>8), byte(w)
		if v, ok := mid[back(back(back(end, u), y), x)]; ok {
			n := []byte{byte(v >> 8), byte(v), x, y, u}
			if string(n) != string(o[i:i+5]) {
				copy(o[i:], n)
				return
			}
		}
	}
}

// twinText changes s a little.
func twinText(t *T, l, s string) string {
	b := []byte(s)
	var sp []int
	for i, c := range b {
		if c == ' ' {
			sp = append(sp, i)
		}
	}
	switch weighted(t, l+"-tt", 3, 3, 2, 2, 2, 2, 2, 2, 2, 1, 1) {
	case 0: // a space less
		if len(sp) > 0 {
			i := from(t, l+"-sp", sp)
			return s[:i] + s[i+1:]
		}
	case 1: // a space elsewhere
		if len(sp) > 0 {
			i := from(t, l+"-sp", sp)
			s = s[:i] + s[i+1:]
			j := pick(t, l+"-at", len(s)+1)
			return s[:j] + " " + s[j:]
		}
	case 2: // white space more
		j := from(t, l+"-at", []int{0, len(s), pick(t, l+"-pos", len(s)+1)})
		return s[:j] + from(t, l+"-ws", seps) + s[j:]
	case 3: // another case
		if pick(t, l+"-all", 2) == 0 {
			return strings.ToUpper(s)
		}
		if len(b) > 0 {
			i := pick(t, l+"-i", len(b))
			if b[i] < 0x80 && unicode.IsLetter(rune(b[i])) {
				b[i] ^= 0x20
				return string(b)
			}
		}
		return strings.ToLower(s)
	case 4: // another normal form
		return from(t, l+"-nf", []norm.Form{norm.NFC, norm.NFD, norm.NFKC, norm.NFKD}).String(s)
	case 5: // another letter
		if len(b) > 0 {
			i := pick(t, l+"-i", len(b))
			b[i] ^= byte(1 << pick(t, l+"-bit", 7))
			return string(b)
		}
	case 6: // two letters swapped
		if len(b) > 1 {
			i := pick(t, l+"-i", len(b)-1)
			b[i], b[i+1] = b[i+1], b[i]
			return string(b)
		}
	case 7: // cut
		if len(b) > 0 {
			if pick(t, l+"-front", 2) == 0 {
				return s[1+pick(t, l+"-n", min(3, len(s))):]
			}
			return s[:len(s)-1-pick(t, l+"-n", min(3, len(s)))]
		}
	case 8: // grown
		return s + from(t, l+"-suf", []string{"\x00", "0", "a", "'", "/0", ".", "\xff"})
	case 9: // twice
		if len(s) < 500 {
			return s + s
		}
	case 10: // the same polynomial hash
		if c := append([]byte{}, b...); len(c) > 1 {
			collidePoly(t, l, c)
			if string(c) != s {
				return string(c)
			}
		}
	}
	return s + "x"
}

// twinSentence changes words or white space of a sentence.
func twinSentence(t *T, l, s string, list int) string {
	ws := strings.Fields(s)
	if len(ws) < 2 || pick(t, l+"-raw", 2) == 0 {
		return twinText(t, l, s)
	}
	i, j := pick(t, l+"-wi", len(ws)), pick(t, l+"-wj", len(ws))
	switch pick(t, l+"-tk", 5) {
	case 0:
		ws[i], ws[j] = ws[j], ws[i]
	case 1:
		ws[i] = from(t, l+"-w", refLists[list])
	case 2:
		ws[len(ws)-1] = from(t, l+"-w", refLists[list])
	case 3:
		for a, b := 0, len(ws)-1; a < b; a, b = a+1, b-1 {
			ws[a], ws[b] = ws[b], ws[a]
		}
	case 4:
		return strings.Join(ws, from(t, l+"-s", seps))
	}
	return strings.Join(ws, " ")
}

// twinKey is a valid key that agrees with b in all but one part.
func twinKey(t *T, l string, b Hex) Hex {
	k, ok := ref.ParseX(b)
	if !ok {
		return Hex(twinBytes(t, l, b, true))
	}
	switch weighted(t, l+"-tk", 8, 4, 2, 2, 2, 4, 2, 1) {
	case 7: // the whole has the same FNV hash
		o := append(Hex{}, b...)
		collideFNV(o, 13+pick(t, l+"-at", 28), pick(t, l+"-1a", 2) == 1, byte(pick(t, l+"-z", 256)))
		return o
	case 0: // another key pair
		if k.Priv != nil {
			switch pick(t, l+"-pk", 5) {
			case 4:
				var b [32]byte
				k.Priv.FillBytes(b[:])
				k.Priv = new(big.Int).SetBytes(twinBytes(t, l+"-sc", b[:], true))
			case 0: // the point mirrored: the same x
				k.Priv = new(big.Int).Sub(ref.N, k.Priv)
			case 1:
				k.Priv = new(big.Int).Xor(k.Priv, new(big.Int).Lsh(big.NewInt(1), uint(pick(t, l+"-bit", 256))))
			case 2:
				k.Priv = new(big.Int).Add(k.Priv, big.NewInt(1))
			case 3:
				p := k.Pub.X // the same 32 bytes as private key
				k.Priv = new(big.Int).Set(p)
			}
			k.Priv.Mod(k.Priv, ref.N)
			if k.Priv.Sign() == 0 {
				k.Priv = big.NewInt(1)
			}
			k.Pub = ref.BaseMul(k.Priv)
		} else {
			if pick(t, l+"-pk", 2) == 0 {
				k.Pub.Y = new(big.Int).Sub(ref.P, k.Pub.Y)
			} else {
				k.Pub = genPoint(t, l+"-pt")
			}
		}
	case 1: // another version
		k.Version = genVersion(t, l+"-v", k.Priv != nil, false)
	case 2:
		if k.Depth > 0 {
			k.Depth = byte(1 + pick(t, l+"-d", 255))
		} else {
			k.Chain[pick(t, l+"-c", 32)] ^= 1
		}
	case 3:
		if k.Depth > 0 {
			k.FP[pick(t, l+"-f", 4)] ^= byte(1 + pick(t, l+"-x", 255))
		} else {
			k.Chain[pick(t, l+"-c", 32)] ^= 0x80
		}
	case 4:
		if k.Depth > 0 {
			k.Child ^= 1 << pick(t, l+"-cb", 32)
		} else {
			copy(k.Chain[:], rnd(t, l+"-cc", 32))
		}
	case 5:
		copy(k.Chain[:], twinBytes(t, l+"-cc", k.Chain[:], true))
	case 6: // a child of it, or the master of the same key
		if k.CanDerive(0) && pick(t, l+"-up", 2) == 0 {
			if c, ok := k.Derive(uint32(pick(t, l+"-ci", 3))); ok {
				return keyHex(c)
			}
		}
		k.Depth, k.Child, k.FP = 0, 0, [4]byte{}
	}
	return keyHex(k)
}

// twinKeyOr also crosses between the private and the public key.
func twinKeyOr(t *T, l string, b Hex) Hex {
	if k, ok := ref.ParseX(b); ok && k.Priv != nil && oneIn(t, l+"-neuter", 4) {
		return keyHex(k.Neuter())
	}
	return twinKey(t, l, b)
}

func twinIdx(t *T, l string, v uint32) uint32 {
	switch pick(t, l+"-ti", 5) {
	case 0:
		return v ^ ref.Hardened
	case 1:
		return v + 1
	case 2:
		return v ^ 1<<pick(t, l+"-b", 32)
	case 3:
		return v<<24 | v>>8
	}
	return v<<16 | v>>16
}

// twinPath respells or changes a path.
func twinPath(t *T, l, p string) string {
	vals, ok := ref.ParsePath(p)
	if !ok || len(vals) < 2 || len(vals) > 40 || pick(t, l+"-txt", 3) == 0 {
		return twinText(t, l, p)
	}
	c := append([]uint32{}, vals[1:]...)
	i := pick(t, l+"-i", len(c))
	switch pick(t, l+"-tp", 5) {
	case 0: // the same in another spelling
		return spell(t, l+"-s", c)
	case 1:
		c[i] = twinIdx(t, l, c[i])
	case 2:
		c = c[:i]
	case 3:
		c = append(c, twinIdx(t, l, c[i]))
	case 4:
		j := pick(t, l+"-j", len(c))
		c[i], c[j] = c[j], c[i]
	}
	if pick(t, l+"-plain", 2) == 0 { // hardened indices as plain numbers
		s := "m"
		for _, v := range c {
			s += fmt.Sprintf("/%d", v)
		}
		return s
	}
	return ref.FormatPath(c)
}

func twinM01(t *T, c m01) m01 {
	if oneIn(t, "tlist", 3) {
		c.List = genList(t)
		return c
	}
	c.Ent = twinBytes(t, "tent", c.Ent, false)
	return c
}

func twinM02(t *T, c m02) m02 {
	switch pick(t, "twhat", 6) {
	case 0:
		c.List = genList(t)
	case 1:
		c.Pass = Text(twinText(t, "tpass", string(c.Pass)))
	default:
		c.S = Text(twinSentence(t, "ts", string(c.S), c.List))
	}
	return c
}

func twinM03(t *T, c m03) m03 {
	switch pick(t, "twhat", 4) {
	case 0:
		c.List = genList(t)
	case 1:
		c.Tail = pick(t, "ttail", len(seps))
		c.Sep = []int{pick(t, "tsep", len(seps)), 0}
	default:
		c.Ent = twinBytes(t, "tent", c.Ent, true)
	}
	return c
}

func twinM04(t *T, c m04) m04 {
	s, p := string(c.S), string(c.Pass)
	switch weighted(t, "twhat", 3, 3, 3, 1, 1) {
	case 0:
		s = twinSentence(t, "ts", s, c.List)
	case 1:
		p = twinText(t, "tp", p)
	case 2: // the boundary moved
		x := s + p
		i := pick(t, "cut", len(x)+1)
		if w := strings.Fields(s); len(w) > 0 && pick(t, "word", 2) == 0 {
			i = len(s) - len(w[len(w)-1])
		}
		s, p = x[:i], x[i:]
	case 3:
		s, p = p, s
	case 4:
		p = "mnemonic" + p
	}
	if len(s) > 5000 || len(p) > 5000 {
		return m04{List: c.List, S: c.S}
	}
	return m04{List: c.List, S: Text(s), Pass: Text(p)}
}

func twinK01(t *T, c k01) k01 {
	if oneIn(t, "tcase", 4) {
		c.Case = rnd(t, "tc", 8)
		return c
	}
	c.Seed = twinBytes(t, "tseed", c.Seed, false)
	return c
}

func twinK01b(t *T, c k01b) k01b {
	if b, err := hex.DecodeString(string(c.S)); err == nil && pick(t, "bytes", 2) == 0 {
		return k01b{Text(hex.EncodeToString(twinBytes(t, "tb", b, false)))}
	}
	return k01b{Text(twinText(t, "ts", string(c.S)))}
}

func twinDerive(t *T, c derive) derive {
	if len(c.Idx) > 0 && pick(t, "twhat", 2) == 0 {
		c.Idx = append([]uint32{}, c.Idx...)
		i := pick(t, "ti", len(c.Idx))
		c.Idx[i] = twinIdx(t, "tix", c.Idx[i])
		return c
	}
	c.Key = twinKey(t, "tkey", c.Key)
	return c
}

// twinDeriveAny also asks the public key for what the private one was asked.
func twinDeriveAny(t *T, c derive) derive {
	if oneIn(t, "neuter", 4) {
		c.Key = twinKeyOr(t, "tkey", c.Key)
		return c
	}
	return twinDerive(t, c)
}

// twinCommute stays within private keys of registered versions, shallow enough.
func twinCommute(t *T, c derive) derive {
	d := twinDerive(t, c)
	k := mustX(d.Key)
	if _, ok := ref.PubVersion[k.Version]; !ok || k.Depth > 249 {
		d.Key = c.Key
	}
	return d
}

func twinKeyCase(t *T, c keyCase) keyCase { return keyCase{twinKeyOr(t, "tkey", c.Key)} }

func twinK05(t *T, c k05) k05 {
	if oneIn(t, "ver", 4) {
		c.Ver ^= 1 << pick(t, "vb", 32)
		return c
	}
	c.Key = twinKeyOr(t, "tkey", c.Key)
	return c
}

func twinK05b(t *T, c k05b) k05b {
	if oneIn(t, "pos", 4) {
		c.Pos = pick(t, "tpos", 78)
		return c
	}
	c.Raw = twinBytes(t, "traw", c.Raw, true)
	return c
}

func twinK06(t *T, c k06) k06 {
	d := append(Hex{}, c.Data...)
	if len(d) == 82 {
		switch weighted(t, "twhat", 4, 3, 2, 2, 2) {
		case 0: // the same key, another checksum
			copy(d[78:], twinBytes(t, "tcs", d[78:], true))
		case 1:
			d = withSum(twinKeyOr(t, "tkey", d[:78]))
		case 2: // another key, the same checksum
			copy(d, twinKeyOr(t, "tkey", d[:78]))
		case 3:
			d = withSum(twinBytes(t, "traw", d[:78], true))
		case 4:
			k, ok := ref.ParseX(d[:78])
			if ok {
				k = wrongKind(k)
			}
			if ok {
				d = withSum(keyHex(k))
			}
		}
	} else {
		d = twinBytes(t, "tany", d, false)
	}
	return k06{d, c.Cap}
}

func twinK06b(t *T, c k06b) k06b {
	if b, ok := ref.B58Decode(string(c.S)); ok && len(b) == 82 && pick(t, "key", 2) == 0 {
		return k06b{Text(ref.B58Encode(twinK06(t, k06{Data: b}).Data))}
	}
	return k06b{Text(twinText(t, "ts", string(c.S)))}
}

func twinK07(t *T, c k07) k07 {
	switch pick(t, "twhat", 3) {
	case 0:
		c.Scalar = twinBytes(t, "tsc", c.Scalar, true)
	case 1:
		if p, ok := ref.Decompress(c.Point); ok && pick(t, "mirror", 2) == 0 {
			p.Y = new(big.Int).Sub(ref.P, p.Y)
			b := ref.Compress(p)
			c.Point = b[:]
		} else {
			b := ref.Compress(genPoint(t, "tp"))
			c.Point = b[:]
		}
	case 2:
		c.Data = twinBytes(t, "td", c.Data, false)
	}
	return c
}

func twinD01(t *T, c pathCase) pathCase { return pathCase{Text(twinPath(t, "tp", string(c.P)))} }

func twinD02(t *T, c d02) d02 {
	if oneIn(t, "edits", 4) {
		c.Edits = nil
		return c
	}
	c.P = Text(twinPath(t, "tp", string(c.P)))
	return c
}

func twinD03(t *T, c d03) d03 {
	d := d03{Roots: append([]Hex{}, c.Roots...), Steps: append([]d03step{}, c.Steps...), Hold: c.Hold}
	if pick(t, "root", 2) == 0 {
		i := pick(t, "ri", len(d.Roots))
		d.Roots[i] = twinKeyOr(t, "tr", d.Roots[i])
	} else {
		i := pick(t, "si", len(d.Steps))
		d.Steps[i].Path = Text(twinPath(t, "tp", string(d.Steps[i].Path)))
	}
	return d
}

func twinD04(t *T, c d04) d04 {
	d := d04{Steps: append([]d04step{}, c.Steps...)}
	st := &d.Steps[pick(t, "si", len(d.Steps))]
	switch pick(t, "twhat", 4) {
	case 0:
		st.Key = twinKeyOr(t, "tk", st.Key)
	case 1:
		st.Path = Text(twinPath(t, "tp", string(st.Path)))
	case 2: // shifted
		n := st.End - st.Start
		st.Start = twinIdx(t, "tst", st.Start)
		st.End = st.Start + n
	case 3: // longer or shorter
		st.End = st.Start + uint32(pick(t, "n", 6))
	}
	if st.End > st.Start && st.End-st.Start > 400 {
		st.End = st.Start + 3
	}
	return d
}

func twinA02(t *T, c a02) a02 {
	if pick(t, "prefix", 2) == 0 {
		c.P, c.Q = byte(pick(t, "tpp", 256)), c.P
		return c
	}
	c.Key = twinKeyOr(t, "tkey", c.Key)
	return c
}

func twinA03(t *T, c a03) a03 {
	c.Account = append([]uint32{}, c.Account...)
	c.Suffix = append([]uint32{}, c.Suffix...)
	switch pick(t, "twhat", 6) {
	case 0:
		c.Ent = twinBytes(t, "te", c.Ent, true)
	case 1:
		c.Pass = Text(twinText(t, "tpw", string(c.Pass)))
	case 2:
		c.Ver = pick(t, "tv", len(ref.PrvVersions))
	case 3:
		if len(c.Account) > 0 {
			i := pick(t, "ai", len(c.Account))
			c.Account[i] = twinIdx(t, "ta", c.Account[i])
		}
	case 4:
		i := pick(t, "fi", len(c.Suffix))
		c.Suffix[i] = twinIdx(t, "tsu", c.Suffix[i]) &^ ref.Hardened
	case 5:
		c.Prefix++
	}
	return c
}

func twinR01b(t *T, c r01b) r01b { return r01b{Text(twinPath(t, "tp", string(c.Path)))} }

func twinR02(t *T, c r02) r02 {
	switch pick(t, "twhat", 4) {
	case 0:
		c.Prv ^= 1 << pick(t, "pb", 32)
	case 1:
		c.Prv, c.Pub = c.Pub, c.Prv
	default:
		c.Path = Text(twinPath(t, "tp", string(c.Path)))
	}
	return c
}

func twinR04(t *T, c r04) r04 {
	switch pick(t, "twhat", 4) {
	case 0:
		c.Type = twinIdx(t, "tt", c.Type)
		c.Comp = c.Type + ref.Hardened
	case 1:
		c.Comp = twinIdx(t, "tc", c.Comp)
	case 2:
		c.Symbol = Text(twinText(t, "tsy", string(c.Symbol)))
	case 3:
		c.Name = Text(twinText(t, "tn", string(c.Name)))
	}
	return c
}

func twinX03(t *T, c x03) x03 {
	switch pick(t, "twhat", 4) {
	case 0:
		c.Ent = twinBytes(t, "te", c.Ent, true)
	case 1:
		c.Pass = Text(norm.NFKD.String(strings.ToValidUTF8(twinText(t, "tpw", string(c.Pass)), "?")))
	case 2:
		c.Path = Text(twinPath(t, "tp", string(c.Path)))
	case 3:
		c.List = genList(t)
	}
	return c
}
