package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
)

func eqU32(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------ D01

type pathCase struct{ P Text }

var nearPaths = []string{"", "m", "M", "m/", "/", "m//", "m/0/", "m/0'", "m/0''", "m/'0", "m/'", "m/0'/", "n/0", "mm/0", "m/m", "m0", "m/0/1'", "m/0'/1/2'", "m/-1", "m/+1", "m/1h", "m/1H", "m/0x1",
	"m/2147483647", "m/2147483648", "m/2147483647'", "m/2147483648'", "m/4294967295", "m/4294967296", "m/4294967297", "m/4294967295'", "m/4294967296'", "m/6442450944", "m/6442450944'", "m/9223372036854775807", "m/9223372036854775808", "m/18446744073709551616",
	"m/18446744073709551615'", "m/99999999999999999999999999", "m/1.0", "m/1e3", "m/ 1", " m / 4 4 ' / 0 ", "m/1\n", "m\n/1", "m/1\x00", "m/\u0661", "m/1\u00a0", "m/1\u2003", "m/1\v", "m/1\u0085", "м/0", "m\\0", "m/0\u2019", "m/0`", "m/1,2", "m/1/\xff", "\xffm/1", "m/0000000000", "m/00000000004294967295", "m/00000000000000000000000000000001'", "m/4294967296/0", "m/0'/4294967296", "m/1/99999999999", "m/0/2147483648/4294967295", "m/2147483648/0'"}

// genPathText draws accepted paths, near misses and junk.
func genPathText(t *T, l string, maxLen int) string {
	switch weighted(t, l+"-pk", 10, 5, 4, 1, 2) {
	case 0:
		return spell(t, l, genComps(t, l+"-c", maxLen))
	case 1: // one component out of order or range
		s := spell(t, l, genComps(t, l+"-c", min(8, maxLen)))
		v := from(t, l+"-big", []string{"2147483648'", "4294967295'", "4294967296", "4294967297", "4294967296'", "4294967340'", "8589934592", "6442450944'", "9223372036854775808", "18446744073709551616", "18446744073709551617'", "36893488147419103232", "340282366920938463463374607431768211456", "5'", "5", "2147483647'", "2147483648", "4294967295", "000", "0x10", "-1", "+5", "-0", "1_0", ""})
		if pick(t, l+"-at", 2) == 0 {
			return s + "/" + v
		}
		parts := strings.Split(s, "/")
		i := pick(t, l+"-i", len(parts))
		parts[i] += "/" + v
		return strings.Join(parts, "/")
	case 2: // character edits
		b := []byte(spell(t, l, genComps(t, l+"-c", min(8, maxLen))))
		for k, n := 0, 1+pick(t, l+"-ne", 2); k < n; k++ {
			ch := from(t, l+"-ch", []byte("0123456789/''mM hH-+.\t\v\x00\xffx"))
			i := pick(t, l+"-i", len(b)+1)
			switch pick(t, l+"-ed", 3) {
			case 0:
				b = append(b[:i:i], append([]byte{ch}, b[i:]...)...)
			case 1:
				if i < len(b) {
					b[i] = ch
				}
			case 2:
				if i < len(b) {
					b = append(b[:i:i], b[i+1:]...)
				}
			}
		}
		return string(b)
	case 4: // written in some other way
		return genWritten(t, l, spell(t, l, genComps(t, l+"-c", min(8, maxLen))))
	}
	if pick(t, l+"-near", 2) == 0 {
		return from(t, l+"-np", nearPaths)
	}
	return genText(t, l+"-txt", 3000)
}

func classPath(p string) []string {
	v, ok := ref.ParsePath(p)
	switch {
	case !ok:
		return []string{"+refused-path"}
	case len(v) > 256:
		return []string{"+path-over-255"}
	case ref.StripWS(p) != p:
		return []string{"+path-with-space"}
	case len(v) > 1:
		return []string{"+path"}
	}
	return []string{"root-path"}
}

var specD01 = core.Spec[pathCase]{
	Name: "parse", Quick: 120000, Thorough: 4000000,
	Gen: func(t *T) pathCase { return pathCase{Text(genPathText(t, "p", 300))} },
	Fixed: func() []pathCase {
		var out []pathCase
		for _, p := range nearPaths {
			out = append(out, pathCase{Text(p)})
		}
		for _, p := range allWritten("m", "m/0", "m/1'", "M/44'/60'", "m/44'/0'/0'/0/0", "m/84'/1'/5'/1/2147483647", "44'/0'/0'/0/0", "m/2147483647'/7") {
			out = append(out, pathCase{Text(p)})
		}
		// numeric boundaries, plain and hardened, alone, behind and before others
		for _, e := range []uint{0, 7, 8, 15, 16, 24, 30, 31, 32, 33, 62, 63, 64, 65, 96, 127, 128, 256} {
			for d := int64(-2); d <= 2; d++ {
				s := pow2(e, d)
				if strings.HasPrefix(s, "-") {
					continue
				}
				for _, f := range []string{"m/%s", "m/%s'", "m/1'/%s'", "m/44'/0'/%s", "m/%s'/3'/0", "m/%s/9", "M/000%s'", "m/0/%s/1"} {
					out = append(out, pathCase{Text(fmt.Sprintf(f, s))})
				}
			}
		}
		for _, n := range []int{254, 255, 256, 257, 300, 1000} {
			out = append(out, pathCase{Text("m" + strings.Repeat("/1", n))}, pathCase{Text("m" + strings.Repeat("/1'", n))})
		}
		for _, n := range append(hugeSizes[:4:4], bigSizes...) {
			out = append(out,
				pathCase{Text("m/44'/" + strings.Repeat("0", n) + "7")},
				pathCase{Text("m/44'" + strings.Repeat(" ", n) + "/7")},
				pathCase{Text("m/" + strings.Repeat("9", n) + "'")},
				pathCase{Text("m/1'" + strings.Repeat("/7", n/2))})
		}
		for b := 0; b < 256; b++ {
			out = append(out, pathCase{Text("m/4" + string([]byte{byte(b)}) + "4")}, pathCase{Text(string([]byte{byte(b)}) + "/1")}, pathCase{Text("m/44" + string([]byte{byte(b)}))})
		}
		return out
	},
	Check: checkD01,
	Class: func(c pathCase) []string { return classPath(string(c.P)) },
}

func checkD01(c pathCase) *Fail {
	s := string(c.P)
	want, ok := ref.ParsePath(s)
	p := bip32.Path(s)
	got, err := p.ValuesAtDepth()
	if (err == nil) != ok {
		return failf("ValuesAtDepth(%q) = %v, %v; acceptable=%v (%v)", s, got, err, ok, want)
	}
	if p.IsValid() != ok {
		return failf("IsValid(%q) = %v, want %v", s, p.IsValid(), ok)
	}
	if !ok {
		return nil
	}
	if !eqU32(got, want) {
		return failf("ValuesAtDepth(%q) = %v, want %v", s, got, want)
	}
	if g := p.String(); g != ref.StripWS(s) {
		return failf("String of %q = %q", s, g)
	}
	if g := p.Formatted(); string(g) != ref.StripWS(s) || !g.IsValid() {
		return failf("Formatted of %q = %q, valid %v", s, g, g.IsValid())
	}
	return nil
}

// ------------------------------------------------------------------ D02

type d02edit struct {
	D byte
	V uint32
}
type d02 struct {
	P     Text
	Edits []d02edit
}

// canonical: every component of 2^31 or more is spelt with an apostrophe.
func canonicalHard(p string, vals []uint32) bool {
	n := 0
	for _, v := range vals {
		if v >= ref.Hardened {
			n++
		}
	}
	return strings.Count(p, "'") == n
}

func hardenedFirst(v []uint32) bool {
	plain := false
	for _, x := range v {
		if x < ref.Hardened {
			plain = true
		} else if plain {
			return false
		}
	}
	return true
}

func checkRead(p string) *Fail {
	vals, ok := ref.ParsePath(p)
	n := len(vals)
	ds := []int{0, 1, 2, 3, 4, 5, 127, 128, 254, 255, n - 2, n - 1, n, n + 1, n / 2, n * 3 / 4, n % 256, (n + 255) % 256}
	if ok && n < 14 {
		for d := 6; d < 20; d++ {
			ds = append(ds, d)
		}
		for d := 20; d < 256; d += 17 {
			ds = append(ds, d)
		}
	}
	for _, d := range ds {
		if d < 0 || d > 255 {
			continue
		}
		v, err := bip32.Path(p).ValueAtDepth(byte(d))
		if !ok || d >= n {
			if err == nil {
				return failf("ValueAtDepth(%d) of %q = %d, want an error", d, p, v)
			}
		} else if err != nil || v != vals[d] {
			return failf("ValueAtDepth(%d) of %q (%d components) = %d, %v; want %d", d, p, n-1, v, err, vals[d])
		}
	}
	return nil
}

func checkD02(c d02) *Fail {
	if f := checkRead(string(c.P)); f != nil {
		return f
	}
	return checkEdits(c)
}

func checkEdits(c d02) *Fail {
	p := string(c.P)
	for n, e := range c.Edits {
		vals, ok := ref.ParsePath(p)
		got, err := bip32.Path(p).ReplaceValueAtDepth(e.D, e.V)
		if !ok || int(e.D) >= len(vals) {
			if err == nil {
				return failf("edit %d: ReplaceValueAtDepth(%d, %d) of %q = %q, want an error", n, e.D, e.V, p, got)
			}
			continue
		}
		target := append([]uint32{}, vals...)
		target[e.D] = e.V
		must := e.D >= 1 && canonicalHard(p, vals) && hardenedFirst(target[1:])
		if err != nil {
			if must {
				return failf("edit %d: ReplaceValueAtDepth(%d, %d) of %q failed: %v", n, e.D, e.V, p, err)
			}
			continue
		}
		have, ok := ref.ParsePath(string(got))
		if !ok || !eqU32(have, target) {
			return failf("edit %d: ReplaceValueAtDepth(%d, %d) of %q = %q without error; it denotes %v (valid %v), want %v", n, e.D, e.V, p, got, have, ok, target)
		}
		if v, err := got.ValueAtDepth(e.D); err != nil || v != e.V {
			return failf("edit %d: value read back at depth %d of %q = %d, %v; want %d", n, e.D, got, v, err, e.V)
		}
		p = string(got)
	}
	return nil
}

var specD02 = core.Spec[d02]{
	Name: "edit", Quick: 30000, Thorough: 600000,
	Gen: func(t *T) d02 {
		var c d02
		if oneIn(t, "any", 6) {
			c.P = Text(genPathText(t, "p", 300))
		} else {
			c.P = Text(spell(t, "p", genComps(t, "c", 600)))
		}
		vals, _ := ref.ParsePath(string(c.P))
		for i, n := 0, pick(t, "n", 5); i < n; i++ {
			var e d02edit
			if len(vals) > 1 && pick(t, "inrange", 4) > 0 {
				e.D = byte(1 + pick(t, "d", len(vals)-1))
				if pick(t, "samekind", 3) > 0 {
					e.V = genIdx(t, "v", 1) | vals[min(int(e.D), len(vals)-1)]&ref.Hardened
				} else {
					e.V = genIdx(t, "v", 0)
				}
			} else {
				e.D = byte(from(t, "de", []int{0, 1, 2, 5, 127, 128, 254, 255, len(vals), len(vals) + 1, len(vals) - 1}))
				e.V = genIdx(t, "v", 0)
			}
			c.Edits = append(c.Edits, e)
		}
		return c
	},
	Fixed: func() []d02 {
		var out []d02
		for _, n := range []int{0, 1, 2, 5, 127, 128, 250, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600} {
			for _, f := range []string{"/%d", "/%d'"} {
				var sb strings.Builder
				sb.WriteString("m")
				for i := 0; i < n; i++ {
					fmt.Fprintf(&sb, f, i+7)
				}
				c := d02{P: Text(sb.String())}
				for _, d := range []byte{0, 1, 2, 127, 128, 254, 255} {
					c.Edits = append(c.Edits, d02edit{d, 5}, d02edit{d, ref.Hardened + 9})
				}
				out = append(out, c)
			}
		}
		for _, p := range nearPaths {
			out = append(out, d02{P: Text(p), Edits: []d02edit{{0, 0}, {0, 1}, {1, 0}, {1, ref.Hardened}, {2, 3}, {3, 3}}})
		}
		for _, p := range []string{"m/44'/0'/0'/0/0", "m/1'/2", "m/0/0/0", "m/1'/2'/3'"} {
			for d := byte(0); d < 8; d++ {
				for _, v := range edgeIdx {
					out = append(out, d02{P: Text(p), Edits: []d02edit{{d, v}}})
				}
			}
		}
		return out
	},
	Check: checkD02,
	Class: func(c d02) []string {
		out := classPath(string(c.P))
		if len(c.Edits) > 0 {
			out = append(out, "+edited")
		}
		return out
	},
}

// ------------------------------------------------------------------ D03

type d03step struct {
	Root int  // index of the root to set, -1 keeps the current one
	Ptr  bool // set through the pointer RootKey gives
	Path Text
}
type d03 struct {
	Roots []Hex
	Steps []d03step
	Hold  bool // keep all results to the end, else overwrite each
}

// genRoot draws the key given to a generator: mostly a usable root.
func genRoot(t *T, l string) Hex {
	switch weighted(t, l+"-rk", 8, 1, 1, 1, 1, 1) {
	case 1:
		return keyHex(rootX(t, l, false))
	case 2: // public root
		return keyHex(rootX(t, l, true).Neuter())
	case 3: // not a root
		return keyHex(genX(t, l, keyOpts{priv: true, reg: true}))
	case 4: // empty
		return make([]byte, 78)
	case 5: // bad material
		return badMaterial(t)
	}
	return keyHex(rootX(t, l, true))
}

// usableRoot says whether a walk from this key may succeed at m.
func usableRoot(b Hex) bool {
	return !bytes.Equal(b, make([]byte, 78)) && ref.Importable(b) && b[45] == 0 && b[4] == 0
}

// expectWalk is the reference walk.
func expectWalk(root Hex, path string) ([]ref.XKey, []uint32, bool) {
	if !usableRoot(root) {
		return nil, nil, false
	}
	vals, ok := ref.ParsePath(path)
	if !ok {
		return nil, nil, false
	}
	k := mustX(root)
	out := []ref.XKey{k}
	for _, v := range vals[1:] {
		if !k.CanDerive(v) {
			return nil, nil, false
		}
		k, ok = k.Derive(v)
		if !ok {
			return nil, nil, false
		}
		out = append(out, k)
	}
	return out, vals[1:], true
}

func checkWalk(got []util.KeyPath, err error, root Hex, path string) *Fail {
	want, comps, ok := expectWalk(root, path)
	if !ok {
		if err == nil || len(got) != 0 {
			return failf("walk of %x along %q: %d entries, error %v; want an error and no entries", []byte(root), path, len(got), err)
		}
		return nil
	}
	if err != nil {
		return failf("walk of %x along %q failed: %v", []byte(root), path, err)
	}
	if len(got) != len(want) {
		return failf("walk of %x along %q has %d entries, want %d", []byte(root), path, len(got), len(want))
	}
	for i := range want {
		if p := ref.FormatPath(comps[:i]); string(got[i].Path) != p {
			return failf("walk along %q entry %d has path %q, want %q", path, i, got[i].Path, p)
		}
		if !sameKey(got[i].Key, want[i]) {
			return failf("walk of %x along %q entry %d: %s", []byte(root), path, i, diffKey(got[i].Key, want[i]))
		}
	}
	return nil
}

var specD03 = core.Spec[d03]{
	Name: "walk", Quick: 8000, Thorough: 250000,
	Gen: func(t *T) d03 {
		c := d03{Hold: pick(t, "hold", 2) == 1}
		for i, n := 0, 1+pick(t, "nr", 3); i < n; i++ {
			c.Roots = append(c.Roots, genRoot(t, "r"))
		}
		if len(c.Roots) > 1 && oneIn(t, "related", 4) { // same key, another chain code or version
			r := append(Hex{}, c.Roots[0]...)
			r[from(t, "at", []int{0, 3, 13, 20, 44, 77})] ^= 1
			c.Roots[1] = r
		}
		maxLen := 8
		if oneIn(t, "long", 40) {
			maxLen = 260
		}
		for i, n := 0, 1+pick(t, "ns", 4); i < n; i++ {
			st := d03step{Root: pick(t, "root", len(c.Roots)), Ptr: oneIn(t, "ptr", 3)}
			if i > 0 && pick(t, "keep", 2) == 1 {
				st.Root = -1
			}
			switch {
			case i > 0 && oneIn(t, "again", 3):
				st.Path = c.Steps[pick(t, "which", i)].Path
			case oneIn(t, "any", 5):
				st.Path = Text(genPathText(t, "p", maxLen))
			default:
				st.Path = Text(spell(t, "p", genComps(t, "c", maxLen)))
			}
			c.Steps = append(c.Steps, st)
		}
		return c
	},
	Fixed: func() []d03 {
		r := allVersionDerives(true)[0].Key
		mk := func(h Hex, p ...string) d03 {
			c := d03{Roots: []Hex{h}}
			for _, x := range p {
				c.Steps = append(c.Steps, d03step{0, false, Text(x)})
			}
			return c
		}
		out := []d03{mk(r, nearPaths...), mk(make([]byte, 78), "m", "m/0", "")}
		for _, n := range []int{254, 255, 256, 257} {
			out = append(out, mk(r, "m"+strings.Repeat("/0", n)), mk(r, "m"+strings.Repeat("/0'", n)))
		}
		for _, v := range unregVersions {
			k := mustX(r)
			k.Version = v
			out = append(out, mk(keyHex(k), "m", "m/0", "m/44'/0'"))
		}
		for i := range ref.PrvVersions {
			k := mustX(r)
			k.Version = ref.PrvVersions[i]
			out = append(out, mk(keyHex(k), "m", "m/0", "m/44'/0'/0'/0/7"), mk(keyHex(k.Neuter()), "m", "m/0"), mk(keyHex(wrongKind(k)), "m", "m/0"))
		}
		for _, m := range mined.Parents {
			k := ref.XKey{Version: 0x0488ade4}
			k.Priv = bigOf(m.Priv)
			copy(k.Chain[:], m.Chain)
			out = append(out, mk(keyHex(k), ref.FormatPath([]uint32{m.Index}), ref.FormatPath([]uint32{m.Index, ref.Hardened - 1})))
		}
		return out
	},
	Check: func(c d03) *Fail {
		var g util.Generator
		cur := Hex(make([]byte, 78))
		var results [][]util.KeyPath
		var snaps []string
		for n, st := range c.Steps {
			if st.Root >= 0 {
				cur = c.Roots[st.Root]
				setRoot(&g, libHex(cur), st.Ptr)
			}
			got, err := g.DeriveBIP32Result(bip32.Path(st.Path))
			if f := checkWalk(got, err, cur, string(st.Path)); f != nil {
				f.Msg = fmt.Sprintf("step %d: %s", n, f.Msg)
				return f
			}
			if rk := g.RootKey(); rk == nil || !bytes.Equal(rk[:], cur) {
				return failf("step %d: the walk changed the generator's root", n)
			}
			if c.Hold {
				results = append(results, got)
				snaps = append(snaps, showPaths(got))
				continue
			}
			for i := range got { // writing to the result must not reach the root
				for j := range got[i].Key {
					got[i].Key[j] = 0xee
				}
			}
			if rk := g.RootKey(); rk == nil || !bytes.Equal(rk[:], cur) {
				return failf("step %d: the result shares storage with the generator's root", n)
			}
		}
		for n := range results {
			if showPaths(results[n]) != snaps[n] {
				return failf("a later walk changed the result of walk %d", n)
			}
		}
		return nil
	},
	Class: func(c d03) []string {
		out := []string{"steps:" + utoa(uint32(len(c.Steps)))}
		ok, bad := false, false
		cur := -1
		for _, s := range c.Steps {
			if s.Root >= 0 {
				cur = s.Root
			}
			v, good := ref.ParsePath(string(s.Path))
			if good && usableRoot(c.Roots[cur]) {
				if len(v) > 1 {
					ok = true
				}
				if len(v) > 256 {
					out = append(out, "+path-over-255")
				}
				if _, reg := ref.PubVersion[mustX(c.Roots[cur]).Version]; !reg {
					out = append(out, "+unregistered-root")
				}
			} else {
				bad = true
			}
		}
		if ok {
			out = append(out, "+walk")
		}
		if bad {
			out = append(out, "+refused-walk")
		}
		return out
	},
}

// ------------------------------------------------------------------ D04

type d04step struct {
	Key        Hex
	Path       Text
	Start, End uint32
}
type d04 struct{ Steps []d04step }

func checkRange(n int, st d04step, err error, got []util.KeyPath) *Fail {
	where := fmt.Sprintf("step %d: range [%d,%d) of %x at %q", n, st.Start, st.End, []byte(st.Key), string(st.Path))
	base, pathOK := ref.ParsePath(string(st.Path))
	keyOK := !bytes.Equal(st.Key, make([]byte, 78)) && ref.Importable(st.Key)
	if st.Start >= st.End || !pathOK || !keyOK {
		if err == nil {
			return failf("%s succeeded with %d entries (path ok %v, key ok %v)", where, len(got), pathOK, keyOK)
		}
		return nil
	}
	k := mustX(st.Key)
	if !k.CanDerive(st.Start) || !k.CanDerive(st.End-1) {
		if err == nil {
			return failf("%s succeeded with %d entries, but a derivation step is impossible", where, len(got))
		}
		return nil
	}
	count := int(st.End - st.Start)
	if err != nil {
		if int(k.Depth)+count <= 255 {
			return failf("%s failed: %v", where, err)
		}
		return nil // depth exhausted
	}
	if len(got) != count {
		return failf("%s has %d entries, want %d", where, len(got), count)
	}
	memo := map[string]ref.XKey{"": k}
	for j, e := range got {
		idx := st.Start + uint32(j)
		p := string(e.Path)
		if p == "" || (p[0] != 'm' && p[0] != 'M') {
			return failf("%s entry %d has path %q", where, j, p)
		}
		comps, ok := ref.ParseComponents(p[1:])
		if !ok || len(comps) < len(base) || !eqU32(comps[:len(base)-1], base[1:]) {
			return failf("%s entry %d: path %q does not extend the base path", where, j, p)
		}
		if last := p[strings.LastIndex(p, "/")+1:]; last != ref.FormatIdx(idx) {
			return failf("%s entry %d: last component of %q, want %s", where, j, p, ref.FormatIdx(idx))
		}
		added := comps[len(base)-1:]
		cur := k
		for i := range added {
			id := fmt.Sprint(added[:i+1])
			nx, ok := memo[id]
			if !ok {
				if !cur.CanDerive(added[i]) {
					return failf("%s entry %d: path %q is not derivable from the base key", where, j, p)
				}
				nx, ok = cur.Derive(added[i])
				if !ok {
					return failf("%s entry %d: invalid child", where, j)
				}
				memo[id] = nx
			}
			cur = nx
		}
		if !sameKey(e.Key, cur) {
			return failf("%s entry %d (%s): %s", where, j, p, diffKey(e.Key, cur))
		}
	}
	return nil
}

var specD04 = core.Spec[d04]{
	Name: "range", Quick: 12000, Thorough: 300000,
	Gen: func(t *T) d04 {
		var c d04
		for i, n := 0, 1+pick(t, "n", 3)+2*(1-min(1, pick(t, "more", 4))); i < n; i++ {
			var st d04step
			if i > 0 && oneIn(t, "again", 3) { // an earlier request once more, but for one field at most
				st = c.Steps[len(c.Steps)-1-pick(t, "which", min(2, len(c.Steps)))]
				switch weighted(t, "field", 2, 3, 2, 2, 2, 1) {
				case 1:
					st.End += uint32(1 + pick(t, "longer", 8))
				case 2:
					st.End -= uint32(1 + pick(t, "shorter", 4))
				case 3:
					st.Start += uint32(pick(t, "shift", 9)) - 4
				case 4:
					if oneIn(t, "twin", 2) {
						st.Path = Text(twinText(t, "tw", string(st.Path)))
					} else {
						st.Path = Text(spell(t, "p", genComps(t, "c", 10)))
					}
				case 5:
					st.Key = keyHex(genX(t, "k", keyOpts{priv: true, pub: true}))
				}
				if st.End > st.Start && st.End-st.Start > 1000 && ref.Importable(st.Key) {
					st.End = st.Start + 3
				}
				c.Steps = append(c.Steps, st)
				continue
			}
			switch weighted(t, "key", 10, 1, 1) {
			case 0:
				st.Key = keyHex(genX(t, "k", keyOpts{priv: true, pub: true}))
			case 1:
				st.Key = badMaterial(t)
			case 2:
				st.Key = make([]byte, 78)
			}
			if oneIn(t, "any", 8) {
				st.Path = Text(genPathText(t, "p", 10))
			} else {
				st.Path = Text(spell(t, "p", genComps(t, "c", 10)))
			}
			count := uint32(1 + pick(t, "count", 8))
			if oneIn(t, "many", 20) {
				count = uint32(1 + pick(t, "count2", 260))
			}
			switch weighted(t, "rk", 10, 6, 6, 2, 4, 4, 1) {
			case 0:
				st.Start = genIdx(t, "start", 1)
				st.End = st.Start + count
			case 1: // across the hardened boundary
				st.Start = ref.Hardened - uint32(pick(t, "before", int(count)+1))
				st.End = st.Start + count
			case 2:
				st.Start = genIdx(t, "start", 2)
				st.End = st.Start + count
				if st.End < st.Start {
					st.End = 1<<32 - 1
				}
			case 3:
				st.Start = genIdx(t, "start", 0)
				st.End = st.Start
			case 4: // reversed
				st.End = genIdx(t, "end", 0)
				st.Start = st.End + 1 + genIdx(t, "gap", 0)%1000
				if st.Start < st.End {
					st.Start = st.End
				}
			case 5: // up to the top
				st.End = 1<<32 - 1
				st.Start = st.End - count
			case 6: // more than can be derived, however large
				st.Start, st.End = genIdx(t, "start", 0), genIdx(t, "end", 0)
				if st.Start > st.End {
					st.Start, st.End = st.End, st.Start
				}
			}
			c.Steps = append(c.Steps, st)
		}
		return c
	},
	Fixed: func() []d04 {
		var out []d04
		prv, pub := allVersionDerives(true), allVersionDerives(false)
		for i := 0; i < len(prv); i += 9 {
			for _, k := range []Hex{prv[i].Key, pub[i].Key} {
				for _, r := range [][2]uint32{{0, 1}, {0, 3}, {0, 0}, {1, 0}, {5, 2}, {ref.Hardened - 1, ref.Hardened + 1}, {ref.Hardened, ref.Hardened + 1}, {1<<32 - 3, 1<<32 - 1}, {1<<32 - 1, 0}, {1<<32 - 1, 1<<32 - 1}} {
					out = append(out, d04{[]d04step{{prv[0].Key, "m/1", 3, 5}, {k, "m/44'/0'", r[0], r[1]}}})
				}
			}
		}
		k := mustX(prv[0].Key)
		for _, d := range []int{0, 250, 254} {
			k.Depth = byte(d)
			if d > 0 {
				k.Child = 1
			}
			for _, n := range []int{1, 2, 5, 6, 254, 255, 256, 257} {
				out = append(out, d04{[]d04step{{keyHex(k), "m", 7, 7 + uint32(n)}}})
			}
		}
		return out
	},
	Check: func(c d04) *Fail {
		var r util.KeyPathRange
		var prev []util.KeyPath // deep copy of the results so far
		for n, st := range c.Steps {
			r.StartIndex, r.EndIndex = st.Start, st.End
			r.Path = bip32.Path(st.Path)
			r.Key = libHex(st.Key)
			err := r.GenerateRange()
			if f := checkRange(n, st, err, r.KeyPaths); f != nil {
				return f
			}
			if r.StartIndex != st.Start || r.EndIndex != st.End || string(r.Path) != string(st.Path) || !bytes.Equal(r.Key[:], st.Key) {
				return failf("step %d: GenerateRange changed its own input fields", n)
			}
			if err != nil {
				if len(r.KeyPaths) != len(prev) {
					return failf("step %d: a failing GenerateRange replaced %d earlier results by %d", n, len(prev), len(r.KeyPaths))
				}
				for i := range prev {
					if r.KeyPaths[i] != prev[i] {
						return failf("step %d: a failing GenerateRange changed earlier result %d", n, i)
					}
				}
			}
			prev = append([]util.KeyPath{}, r.KeyPaths...)
		}
		return nil
	},
	Class: func(c d04) []string {
		out := []string{"steps:" + utoa(uint32(len(c.Steps)))}
		for _, s := range c.Steps {
			k, ok := ref.ParseX(s.Key)
			_, pok := ref.ParsePath(string(s.Path))
			switch {
			case s.Start > s.End:
				out = append(out, "+reversed")
			case s.Start == s.End:
				out = append(out, "+empty")
			case !ok || !pok:
				out = append(out, "+bad-key-or-path")
			case !k.CanDerive(s.Start) || !k.CanDerive(s.End-1):
				out = append(out, "+underivable")
			case s.Start < ref.Hardened && s.End > ref.Hardened:
				out = append(out, "+crosses-hardened")
			default:
				out = append(out, "+range")
			}
		}
		return out
	},
}
