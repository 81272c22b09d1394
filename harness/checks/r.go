package checks

import (
	"cmp"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
)

// ------------------------------------------------------------------ R01

func encStrings(a []bip32.AddrEncoding) []string {
	var out []string
	for _, e := range a {
		out = append(out, string(e))
	}
	return out
}

// matches says whether v is the documented row e, ignoring the path the
// document does not give.
func matches(v bip32.VersionBytes, e ref.RegEntry) bool {
	return v.Coin == e.Coin && v.PvtKeyFlag == e.Prv && v.PubKeyFlag == e.Pub && v.PvKeyPrefix == e.PrvPrefix &&
		v.PubKeyPrefix == e.PubPrefix && reflect.DeepEqual(encStrings(v.AddrEncodings), e.Enc) && (e.Path == "-" || string(v.Path) == e.Path)
}

type r01 struct {
	Row int    // documented row, or -1
	Raw Hex    // 78 bytes of key material for the prefix check
	Key uint32 // arbitrary lookup key
}

// lookups gives the lists in which an entry must be found, by the path of the
// entry as registered.
func lookups(v bip32.VersionBytes) map[string][]bip32.VersionBytes {
	out := map[string][]bip32.VersionBytes{
		"PvtFlagToHDBytesSlice": bip32.PvtFlagToHDBytesSlice[v.PvtKeyFlag],
		"PubFlagToHDBytesSlice": bip32.PubFlagToHDBytesSlice[v.PubKeyFlag],
		"PathToHDBytesSlice":    bip32.PathToHDBytesSlice[string(v.Path)],
		"HDVersionBytesSlice":   bip32.HDVersionBytesSlice,
	}
	if c, ok := ref.ParsePath(string(v.Path)); ok && len(c) == 3 {
		out["PurposeToHDBytesSlice"] = bip32.PurposeToHDBytesSlice[c[1]&^ref.Hardened]
		out["PurposeFullToHDBytesSlice"] = bip32.PurposeFullToHDBytesSlice[c[1]]
		out["CoinTypeToHDBytesSlice"] = bip32.CoinTypeToHDBytesSlice[c[2]&^ref.Hardened]
	}
	return out
}

func count(l []bip32.VersionBytes, e bip32.VersionBytes) int {
	n := 0
	for _, v := range l {
		if reflect.DeepEqual(v, e) {
			n++
		}
	}
	return n
}

func checkRow(e ref.RegEntry, raw Hex) *Fail {
	var found []bip32.VersionBytes
	for _, v := range bip32.HDVersionBytesSlice {
		if matches(v, e) {
			found = append(found, v)
		}
	}
	if len(found) != 1 {
		return failf("%d registered entries equal the SLIP-0132 row %+v", len(found), e)
	}
	v := found[0]
	for n, l := range lookups(v) {
		if c := count(l, v); c != 1 {
			return failf("entry %s %s is found %d times in %s", v.Coin, v.PubKeyPrefix, c, n)
		}
	}
	if e.Path != "-" && !v.IsRegistered() {
		return failf("entry %s %s is not registered", v.Coin, v.PubKeyPrefix)
	}
	// flag pairing
	for _, o := range bip32.PvtFlagToHDBytesSlice[v.PvtKeyFlag] {
		if o.PubKeyFlag != v.PubKeyFlag {
			return failf("private flag %08x pairs with %08x and %08x", v.PvtKeyFlag, v.PubKeyFlag, o.PubKeyFlag)
		}
	}
	for _, o := range bip32.PubFlagToHDBytesSlice[v.PubKeyFlag] {
		if o.PvtKeyFlag != v.PvtKeyFlag {
			return failf("public flag %08x pairs with %08x and %08x", v.PubKeyFlag, v.PvtKeyFlag, o.PvtKeyFlag)
		}
	}
	if len(bip32.PubFlagToHDBytesSlice[v.PvtKeyFlag]) != 0 || len(bip32.PvtFlagToHDBytesSlice[v.PubKeyFlag]) != 0 {
		return failf("a flag of %s %s is registered both as private and as public", v.Coin, v.PubKeyPrefix)
	}
	// human-readable prefixes
	prv, pub := libHex(raw), libHex(raw)
	prv.SetVersion(v.PvtKeyFlagBytes())
	pub.SetVersion(v.PubKeyFlagBytes())
	for _, p := range []struct {
		key    bip32.Key
		prefix string
		flag   uint32
		role   string
	}{{prv, v.PvKeyPrefix, v.PvtKeyFlag, "private"}, {pub, v.PubKeyPrefix, v.PubKeyFlag, "public"}} {
		if s := p.key.String(); !strings.HasPrefix(s, p.prefix) {
			return &Fail{Msg: fmt.Sprintf("%s %s keys (flag %08x) serialise as %s…, declared prefix %s", v.Coin, p.role, p.flag, s[:4], p.prefix),
				Known: "prefix:" + strings.ReplaceAll(v.Coin, " ", "-") + ":" + v.PubKeyPrefix}
		}
	}
	return nil
}

var specR01 = core.Spec[r01]{
	Name: "registry", Quick: 20000, Thorough: 300000,
	Gen: func(t *T) r01 {
		c := r01{Row: pick(t, "row", len(ref.Registry)), Raw: genBytes(t, "raw", 78)}
		c.Key = binary.BigEndian.Uint32(rnd(t, "key", 4))
		if pick(t, "near", 2) == 0 {
			e := from(t, "e", ref.Registry)
			c.Key = from(t, "base", []uint32{e.Prv, e.Pub, 44, 49, 84, ref.Hardened + 44, 0, 1, 2, 17, 57, 1997, 29223})
			c.Key ^= from(t, "x", []uint32{0, 1, 2, 3, 0x80, 0x80000000, 0xff})
		}
		return c
	},
	Fixed: func() []r01 {
		var out []r01
		for i, e := range ref.Registry {
			raw := expand([]byte{8, byte(i)}, 78)
			out = append(out, r01{i, raw, e.Prv}, r01{i, make([]byte, 78), e.Pub}, r01{i, bytesFF(78), uint32(i)}, r01{i, raw, ref.Hardened + uint32(i)})
		}
		for i := uint32(0); i < 2100; i++ {
			out = append(out, r01{-1, nil, i}, r01{-1, nil, i + ref.Hardened})
		}
		out = append(out, r01{-1, nil, 29223}, r01{-1, nil, 29223 + ref.Hardened})
		return out
	},
	Check: func(c r01) *Fail {
		// whatever is found under a key belongs there
		for name, m := range map[string]map[uint32][]bip32.VersionBytes{"PvtFlag": bip32.PvtFlagToHDBytesSlice, "PubFlag": bip32.PubFlagToHDBytesSlice,
			"Purpose": bip32.PurposeToHDBytesSlice, "PurposeFull": bip32.PurposeFullToHDBytesSlice, "CoinType": bip32.CoinTypeToHDBytesSlice} {
			for _, v := range m[c.Key] {
				comps, ok := ref.ParsePath(string(v.Path))
				good := false
				switch name {
				case "PvtFlag":
					good = v.PvtKeyFlag == c.Key
				case "PubFlag":
					good = v.PubKeyFlag == c.Key
				case "Purpose":
					good = ok && len(comps) == 3 && comps[1] == c.Key|ref.Hardened && c.Key < ref.Hardened
				case "PurposeFull":
					good = ok && len(comps) == 3 && comps[1] == c.Key
				case "CoinType":
					good = ok && len(comps) == 3 && comps[2] == c.Key|ref.Hardened && c.Key < ref.Hardened
				}
				if !good {
					return failf("entry %+v is found under %s key %d (%08x)", v, name, c.Key, c.Key)
				}
				if count(bip32.HDVersionBytesSlice, v) != 1 {
					return failf("entry %+v found under %s key %d is %d times in the list of all entries", v, name, c.Key, count(bip32.HDVersionBytesSlice, v))
				}
			}
		}
		if c.Row >= 0 {
			return checkRow(ref.Registry[c.Row], c.Raw)
		}
		return nil
	},
	Class: func(c r01) []string {
		if c.Row >= 0 {
			return []string{"+row"}
		}
		return []string{"+lookup-key"}
	},
}

func bytesFF(n int) Hex {
	b := make([]byte, n)
	for i := range b {
		b[i] = 0xff
	}
	return b
}

type r01b struct{ Path Text }

// r01used is a registry that calls have been made on; what they are given
// can't get into it or change it.
type r01used struct {
	Ops []op
}

func registryText() string {
	registryMaps := map[string]map[uint32][]bip32.VersionBytes{"PvtFlag": bip32.PvtFlagToHDBytesSlice, "PubFlag": bip32.PubFlagToHDBytesSlice,
		"Purpose": bip32.PurposeToHDBytesSlice, "PurposeFull": bip32.PurposeFullToHDBytesSlice, "CoinType": bip32.CoinTypeToHDBytesSlice}
	var b strings.Builder
	for _, n := range sortedKeys(registryMaps) {
		m := registryMaps[n]
		for _, k := range sortedKeys(m) {
			fmt.Fprintf(&b, "%s %08x: %+v\n", n, k, m[k])
		}
	}
	for _, k := range sortedKeys(bip32.PathToHDBytesSlice) {
		fmt.Fprintf(&b, "Path %q: %+v\n", k, bip32.PathToHDBytesSlice[k])
	}
	fmt.Fprintf(&b, "all: %+v\n", bip32.HDVersionBytesSlice)
	return b.String()
}

func sortedKeys[K cmp.Ordered, V any](m map[K]V) []K {
	var out []K
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

var registryAtFirst string

var specR01used = core.Spec[r01used]{
	Name: "registry-in-use", Quick: 3000, Thorough: 60000,
	Gen: func(t *T) r01used {
		c := r01used{}
		p := genPool(t, []int{0})
		kinds := slices.DeleteFunc(slices.Clone(allKinds), func(k string) bool { return slowKinds[k] })
		for i, n := 0, 1+pick(t, "n", 8); i < n; i++ {
			o := p.genOp(t, kinds)
			if len(o.Key) == 78 && pick(t, "own", 2) == 0 {
				o.Key = append(Hex{}, o.Key...)
				binary.BigEndian.PutUint32(o.Key, genVersion(t, "v", o.Key[45] == 0, false))
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	},
	Check: func(c r01used) *Fail {
		if registryAtFirst == "" {
			registryAtFirst = registryText()
		}
		for _, o := range c.Ops {
			o.prep().run(&state{})
		}
		if now := registryText(); now != registryAtFirst {
			was := registryAtFirst
			registryAtFirst = now
			i := 0
			for i < min(len(now), len(was)) && now[i] == was[i] {
				i++
			}
			i = strings.LastIndexByte(now[:i], '\n') + 1
			a, _, _ := strings.Cut(was[i:], "\n")
			b, _, _ := strings.Cut(now[i:], "\n")
			return failf("after %s the registry has %s where it had %s", strings.Join(kindsIn(c.Ops), ", "), short(b), short(a))
		}
		return nil
	},
	Class: func(c r01used) []string {
		out := []string{}
		for _, o := range c.Ops {
			out = append(out, "+op-"+o.K)
		}
		return out
	},
}

func kindsIn(ops []op) []string {
	var out []string
	for _, o := range ops {
		out = append(out, o.K)
	}
	return out
}

// the path lookup, including every path registered and the whole key sets of
// the maps
var specR01b = core.Spec[r01b]{
	Name: "registry-paths", Quick: 5000, Thorough: 50000,
	Gen: func(t *T) r01b {
		e := from(t, "e", ref.Registry)
		switch pick(t, "k", 4) {
		case 0:
			return r01b{Text(e.Path)}
		case 1:
			return r01b{Text(fmt.Sprintf("m/%d'/%d'", from(t, "p", []int{44, 49, 84, 45, 86}), from(t, "c", []int{0, 1, 2, 17, 28, 57, 1997, 29223, 3, 60})))}
		case 2:
			return r01b{Text(genPathText(t, "p", 4))}
		}
		return r01b{Text(strings.Replace(e.Path, "'", "", 1))}
	},
	Fixed: func() []r01b {
		var out []r01b
		for p := range map[string]int{"m/44'/0'": 0} {
			out = append(out, r01b{Text(p)})
		}
		for _, e := range ref.Registry {
			out = append(out, r01b{Text(e.Path)})
		}
		return out
	},
	Check: func(c r01b) *Fail {
		p := string(c.Path)
		for _, v := range bip32.PathToHDBytesSlice[p] {
			if string(v.Path) != p {
				return failf("entry %+v is found under path %q", v, p)
			}
		}
		v := bip32.VersionBytes{Path: bip32.Path(p)}
		if got, want := v.IsRegistered(), len(bip32.PathToHDBytesSlice[ref.StripWS(p)]) > 0; got != want {
			return failf("IsRegistered with path %q = %v, want %v", p, got, want)
		}
		total := 0
		for k, l := range bip32.PathToHDBytesSlice {
			total += len(l)
			for _, v := range l {
				if string(v.Path) != k {
					return failf("entry %+v is registered under path %q", v, k)
				}
			}
		}
		for name, m := range map[string]map[uint32][]bip32.VersionBytes{"PvtFlag": bip32.PvtFlagToHDBytesSlice, "PubFlag": bip32.PubFlagToHDBytesSlice,
			"Purpose": bip32.PurposeToHDBytesSlice, "PurposeFull": bip32.PurposeFullToHDBytesSlice, "CoinType": bip32.CoinTypeToHDBytesSlice} {
			n := 0
			for _, l := range m {
				n += len(l)
			}
			if n != total {
				return failf("%s lookup holds %d entries, %d are registered", name, n, total)
			}
		}
		if len(bip32.HDVersionBytesSlice) != total {
			return failf("the list of all entries has %d, %d are registered", len(bip32.HDVersionBytesSlice), total)
		}
		return nil
	},
	Class: func(c r01b) []string { return []string{"+path"} },
}

// ------------------------------------------------------------------ R02

type r02 struct {
	Path     Text
	Prv, Pub uint32
	Coin     Text // the other fields, or
	Like     int  // those of a shipped entry
}

// purposeCoin gives P and C when the path has exactly the form m/P'/C'.
func purposeCoin(p string) (a, b uint32, form, short bool) {
	s := ref.StripWS(p)
	if !strings.HasPrefix(s, "m/") {
		return
	}
	parts := strings.Split(s[2:], "/")
	if len(parts) != 2 {
		return
	}
	var v [2]uint32
	short = true
	for i, x := range parts {
		if !strings.HasSuffix(x, "'") {
			return 0, 0, false, false
		}
		x = x[:len(x)-1]
		if len(x) == 0 || len(x) > 8 {
			short = false
		}
		n, err := strconv.ParseUint(x, 10, 31)
		if err != nil || strings.ContainsAny(x, "+-_") {
			return 0, 0, false, false
		}
		v[i] = uint32(n)
	}
	return v[0], v[1], true, short
}

// spelt is the number below 2^31 that component i of any path spells.
func spelt(p string, i int) (uint32, bool) {
	parts := strings.Split(ref.StripWS(p), "/")
	if i >= len(parts) {
		return 0, false
	}
	n, err := strconv.ParseUint(strings.TrimSuffix(parts[i], "'"), 10, 32)
	if err != nil || (n >= 1<<31 && strings.HasSuffix(parts[i], "'")) {
		return 0, false
	}
	return uint32(n) &^ ref.Hardened, true
}

var specR02 = core.Spec[r02]{
	Name: "purpose-coin", Quick: 80000, Thorough: 1500000,
	Gen: func(t *T) r02 {
		c := r02{Prv: binary.BigEndian.Uint32(genBytes(t, "prv", 4)), Pub: binary.BigEndian.Uint32(genBytes(t, "pub", 4))}
		num := func(l string) string {
			switch pick(t, l+"k", 5) {
			case 0:
				return from(t, l, []string{"44", "49", "84", "0", "1", "60", "29223"})
			case 1:
				return strconv.Itoa(pick(t, l, 100000000))
			case 2:
				return from(t, l, []string{"99999999", "100000000", "00000000", "000000000", "00000044", "2147483647", "2147483648", "4294967340", "", "99999999999999999999", "+1", "-1", "1_0", "0x1", "٤٤"})
			case 3:
				return fmt.Sprintf("%0*d", 1+pick(t, l+"w", 9), pick(t, l, 10000))
			}
			return strconv.FormatUint(uint64(genIdx(t, l, 1)), 10)
		}
		s := "m/" + num("p") + "'/" + num("c") + "'"
		switch weighted(t, "mut", 8, 1, 1, 1, 2, 1) {
		case 1:
			s += from(t, "suf", []string{"/0'", "/0", "/", "'", "0", "\n", " "})
		case 2:
			s = strings.Replace(s, "m", from(t, "m", []string{"M", "", "mm", "x"}), 1)
		case 3:
			s = strings.Replace(s, "'", "", 1+pick(t, "nq", 2))
		case 4:
			b := []byte(s)
			i := pick(t, "i", len(b)+1)
			s = string(b[:i]) + from(t, "ws", []string{" ", "\t", "\n", "\f", "\r", "\v", "\u00a0"}) + string(b[i:])
		case 5:
			s = genPathText(t, "any", 5)
		}
		c.Path = Text(s)
		c.Like = pick(t, "like", 2*len(ref.Registry))
		c.Coin = Text(from(t, "coin", []string{"", "Bitcoin", "Bitcoin Testnet", "X", genText(t, "own", 10)}))
		return c
	},
	Fixed: func() []r02 {
		var out []r02
		for _, p := range nearPaths {
			out = append(out, r02{Path: Text(p)})
		}
		for _, e := range ref.Registry {
			out = append(out, r02{Path: Text(e.Path), Prv: e.Prv, Pub: e.Pub}, r02{Path: Text(" " + e.Path + "\n"), Prv: e.Pub, Pub: e.Prv})
		}
		for n := 1; n <= 12; n++ {
			for _, d := range "0149" {
				x := strings.Repeat(string(d), n)
				out = append(out, r02{Path: Text("m/" + x + "'/7'")}, r02{Path: Text("m/7'/" + x + "'")}, r02{Path: Text("m/" + x + "'/" + x + "'")})
			}
		}
		return out
	},
	Check: func(c r02) *Fail {
		v := bip32.VersionBytes{Coin: string(c.Coin)}
		if n := len(bip32.HDVersionBytesSlice); c.Like > 0 && c.Like <= n { // like a shipped one
			v = bip32.HDVersionBytesSlice[c.Like-1]
		}
		v.Path, v.PvtKeyFlag, v.PubKeyFlag = bip32.Path(c.Path), c.Prv, c.Pub
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], c.Prv)
		if g := v.PvtKeyFlagBytes(); g != b {
			return failf("PvtKeyFlagBytes of %08x = %x", c.Prv, g)
		}
		binary.BigEndian.PutUint32(b[:], c.Pub)
		if g := v.PubKeyFlagBytes(); g != b {
			return failf("PubKeyFlagBytes of %08x = %x", c.Pub, g)
		}
		p, q, form, short := purposeCoin(string(c.Path))
		for _, a := range []struct {
			name string
			f    func() (uint32, error)
			want uint32
			comp int
			full uint32
		}{{"PurposeVal", v.PurposeVal, p, 1, 0}, {"CoinVal", v.CoinVal, q, 2, 0},
			{"PurposeValFull", v.PurposeValFull, p + ref.Hardened, 1, ref.Hardened}, {"CoinValFull", v.CoinValFull, q + ref.Hardened, 2, ref.Hardened}} {
			g, err := a.f()
			switch {
			case err != nil && form && short:
				return failf("%s of %q failed: %v", a.name, string(c.Path), err)
			case err == nil && !form:
				if n, ok := spelt(string(c.Path), a.comp); !ok || g != n|a.full {
					return failf("%s of %q = %d, which the path does not spell", a.name, string(c.Path), g)
				}
			case err == nil && g != a.want:
				return failf("%s of %q = %d, want %d", a.name, string(c.Path), g, a.want)
			}
		}
		if form && short && !v.IsValid() {
			return failf("IsValid is false for %q", string(c.Path))
		}
		return nil
	},
	Class: func(c r02) []string {
		_, _, form, short := purposeCoin(string(c.Path))
		switch {
		case form && short:
			return []string{"+two-level-path"}
		case form:
			return []string{"+long-number"}
		}
		return []string{"+other-path"}
	},
}

// ------------------------------------------------------------------ R03

var md struct {
	once  sync.Once
	coins []bip44.Coin
	byT   map[uint32]bip44.Coin
	names map[string]int
}

// mdCoins reads the registered rows of SLIP-0044; the path component column
// is the identifying one.
func mdCoins() []bip44.Coin {
	md.once.Do(func() {
		b, err := os.ReadFile(filepath.Join(core.DataDir, "slip-0044.md"))
		if err != nil {
			panic(err)
		}
		md.byT, md.names = map[uint32]bip44.Coin{}, map[string]int{}
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "|") {
				continue
			}
			f := strings.Split(strings.Trim(strings.TrimSpace(l), "|"), "|")
			for i := range f {
				f[i] = strings.TrimSpace(f[i])
			}
			if len(f) < 4 || strings.Contains(f[3], "reserved") {
				continue
			}
			pc, err := strconv.ParseUint(f[1], 0, 32)
			if err != nil || pc < 1<<31 {
				continue
			}
			if f[2] == "" && f[3] == "" {
				continue
			}
			c := bip44.Coin{Type: uint32(pc - 1<<31), PathComponent: uint32(pc), Symbol: f[2], Name: strings.Join(f[3:], "|")}
			md.coins = append(md.coins, c)
			md.byT[c.Type] = c
			md.names[c.Name]++
		}
	})
	return md.coins
}

type r03 struct {
	Row  int // documented row, -1 none
	Key  uint32
	Name Text
}

// clean compares names up to markdown link syntax and spacing.
func clean(s string) string {
	return strings.Join(strings.Fields(s), " ")
}

var specR03 = core.Spec[r03]{
	Name: "coins", Quick: 40000, Thorough: 500000,
	Gen: func(t *T) r03 {
		c := r03{Row: -1, Key: binary.BigEndian.Uint32(rnd(t, "k", 4))}
		rows := mdCoins()
		r := rows[pick(t, "r", len(rows))]
		switch pick(t, "kind", 4) {
		case 0:
			c.Row = pick(t, "row", len(rows))
		case 1:
			c.Key = from(t, "b", []uint32{r.Type, r.PathComponent}) ^ (1 << pick(t, "bit", 32))
		case 2:
			c.Key = uint32(pick(t, "small", 20000))
		}
		switch pick(t, "nk", 4) {
		case 0:
			c.Name = Text(strings.ToUpper(r.Name))
		case 1:
			c.Name = Text(genText(t, "n", 30))
		case 2:
			c.Name = Text(r.Symbol)
		case 3:
			c.Name = Text(r.Name + from(t, "s", []string{" ", "x", ""}))
		}
		return c
	},
	Fixed: func() []r03 {
		var out []r03
		for i, r := range mdCoins() {
			out = append(out, r03{Row: i, Key: r.Type + 1, Name: Text(r.Name)})
		}
		for i := uint32(0); i < 70000; i += 7 {
			out = append(out, r03{Row: -1, Key: i}, r03{Row: -1, Key: i + ref.Hardened + 1})
		}
		return out
	},
	Check: checkR03,
	Class: func(c r03) []string {
		if c.Row >= 0 {
			return []string{"+registered"}
		}
		if _, ok := md.byT[c.Key]; ok {
			return []string{"+registered-type"}
		}
		return []string{"+other-key"}
	},
}

func checkR03(c r03) *Fail {
	rows := mdCoins()
	if c.Row >= 0 {
		w := rows[c.Row]
		for _, l := range []struct {
			n  string
			m  map[uint32]bip44.Coin
			id uint32
		}{{"type", bip44.RegBip44CoinsTypeToValMap, w.Type}, {"path component", bip44.RegBip44CoinsPathCompToValMap, w.PathComponent}} {
			g, ok := l.m[l.id]
			if !ok {
				return failf("coin %+v not found by %s", w, l.n)
			}
			if g.Type != w.Type || g.PathComponent != w.PathComponent || clean(g.Symbol) != clean(w.Symbol) || clean(g.Name) != clean(w.Name) {
				return failf("by %s %d: got %+v, SLIP-0044 has %+v", l.n, l.id, g, w)
			}
			if !g.IsValid() {
				return failf("registered coin %+v is not valid", g)
			}
			if by, ok := bip44.RegBip44CoinsNameToValMap[g.Name]; !ok || by.Name != g.Name {
				return failf("coin %q not found by name (got %+v)", g.Name, by)
			} else if o, ok := bip44.RegBip44CoinsTypeToValMap[by.Type]; !ok || o != by {
				return failf("by name %q: %+v is not the registered coin %+v", g.Name, by, o)
			} else if md.names[w.Name] == 1 && by != g {
				return failf("by name %q: got %+v, want %+v", g.Name, by, g)
			}
			n := 0
			for _, x := range bip44.RegCoins {
				if x == g {
					n++
				}
			}
			if n != 1 {
				return failf("coin %+v is listed %d times", g, n)
			}
		}
	}
	if g, ok := bip44.RegBip44CoinsTypeToValMap[c.Key]; ok != hasType(c.Key) || (ok && g.Type != c.Key) {
		return failf("type %d: found=%v %+v, registered=%v", c.Key, ok, g, hasType(c.Key))
	}
	reg := c.Key >= ref.Hardened && hasType(c.Key-ref.Hardened)
	if g, ok := bip44.RegBip44CoinsPathCompToValMap[c.Key]; ok != reg || (ok && g.PathComponent != c.Key) {
		return failf("path component %#x: found=%v %+v, registered=%v", c.Key, ok, g, reg)
	}
	if g, ok := bip44.RegBip44CoinsNameToValMap[string(c.Name)]; ok && (g.Name != string(c.Name) || bip44.RegBip44CoinsTypeToValMap[g.Type] != g) {
		return failf("by name %q: %+v", string(c.Name), g)
	} else if !ok && md.names[string(c.Name)] > 0 {
		return failf("registered name %q finds nothing", string(c.Name))
	}
	return nil
}

func hasType(k uint32) bool { mdCoins(); _, ok := md.byT[k]; return ok }

type r03b struct{ I int }

var specR03b = core.Spec[r03b]{
	Name: "coin-list",
	Fixed: func() []r03b {
		var out []r03b
		for i := 0; i < len(mdCoins()); i++ {
			out = append(out, r03b{i})
		}
		return out
	},
	Check: func(c r03b) *Fail {
		if len(bip44.RegCoins) != len(mdCoins()) {
			return failf("%d coins listed, SLIP-0044 registers %d", len(bip44.RegCoins), len(mdCoins()))
		}
		if c.I == 0 {
			if !sort.SliceIsSorted(bip44.RegCoins, func(i, j int) bool { return bip44.RegCoins[i].Name < bip44.RegCoins[j].Name }) {
				return failf("the coin list is not ordered by name")
			}
			if len(bip44.RegBip44CoinsTypeToValMap) != len(mdCoins()) || len(bip44.RegBip44CoinsPathCompToValMap) != len(mdCoins()) {
				return failf("lookup sizes %d, %d; %d coins registered", len(bip44.RegBip44CoinsTypeToValMap), len(bip44.RegBip44CoinsPathCompToValMap), len(mdCoins()))
			}
			for _, k := range namesOf(bip44.RegBip44CoinsNameToValMap) {
				if v := bip44.RegBip44CoinsNameToValMap[k]; v.Name != k || bip44.RegBip44CoinsTypeToValMap[v.Type] != v {
					return failf("by name %q: found %+v", k, v)
				}
			}
			if len(bip44.RegBip44CoinsNameToValMap) != len(md.names) {
				return failf("%d names are found, %d are registered", len(bip44.RegBip44CoinsNameToValMap), len(md.names))
			}
			return nil
		}
		a, b := bip44.RegCoins[c.I-1], bip44.RegCoins[c.I]
		if a.Name > b.Name {
			return failf("coins %d and %d out of order: %q, %q", c.I-1, c.I, a.Name, b.Name)
		}
		if a == b || a.Type == b.Type {
			return failf("coins %d and %d duplicate: %+v, %+v", c.I-1, c.I, a, b)
		}
		for _, x := range []bip44.Coin{a, b} {
			if bip44.RegBip44CoinsTypeToValMap[x.Type] != x || bip44.RegBip44CoinsPathCompToValMap[x.PathComponent] != x {
				return failf("listed coin %+v is not what the lookups return", x)
			}
		}
		return nil
	},
	Class: func(c r03b) []string { return []string{"+neighbours"} },
}

// ------------------------------------------------------------------ R04

type r04 struct {
	Type, Comp   uint32
	Symbol, Name Text
}

func (c r04) coin() bip44.Coin {
	return bip44.Coin{Type: c.Type, PathComponent: c.Comp, Symbol: string(c.Symbol), Name: string(c.Name)}
}

func blank(s string) bool {
	for _, r := range s {
		if !unicode.IsSpace(r) {
			return false
		}
	}
	return true
}

// parseLiteral reads a composite literal {Type: …, PathComponent: …, …}.
func parseLiteral(s string) (c bip44.Coin, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	e, err := parser.ParseExprFrom(token.NewFileSet(), "", "T"+s, 0)
	if err != nil {
		return c, err
	}
	lit, ok := e.(*ast.CompositeLit)
	if !ok {
		return c, fmt.Errorf("not a literal")
	}
	for _, el := range lit.Elts {
		kv := el.(*ast.KeyValueExpr)
		val := kv.Value.(*ast.BasicLit).Value
		switch kv.Key.(*ast.Ident).Name {
		case "Type", "PathComponent":
			n, err := strconv.ParseUint(val, 0, 32)
			if err != nil {
				return c, err
			}
			if kv.Key.(*ast.Ident).Name == "Type" {
				c.Type = uint32(n)
			} else {
				c.PathComponent = uint32(n)
			}
		case "Symbol", "Name":
			v, err := strconv.Unquote(val)
			if err != nil {
				return c, err
			}
			if kv.Key.(*ast.Ident).Name == "Symbol" {
				c.Symbol = v
			} else {
				c.Name = v
			}
		default:
			return c, fmt.Errorf("unknown field")
		}
	}
	return c, nil
}

var specR04 = core.Spec[r04]{
	Name: "coin-value", Quick: 80000, Thorough: 1500000,
	Gen: func(t *T) r04 {
		c := r04{Type: binary.BigEndian.Uint32(genBytes(t, "type", 4))}
		if pick(t, "small", 2) == 0 {
			c.Type = genIdx(t, "st", 0)
		}
		c.Comp = c.Type + ref.Hardened
		switch weighted(t, "ck", 6, 1, 1, 1, 1) {
		case 1:
			c.Comp ^= 1 << pick(t, "bit", 32)
		case 2:
			c.Comp = c.Type
		case 3:
			c.Comp = binary.BigEndian.Uint32(rnd(t, "comp", 4))
		case 4:
			c.Type |= ref.Hardened
		}
		txt := func(l string) Text {
			switch weighted(t, l+"k", 4, 3, 2, 1) {
			case 0:
				return Text(from(t, l, []string{"BTC", "Bitcoin", "x", "0", "Testnet (all coins)"}))
			case 1:
				return Text(genText(t, l, 60))
			case 2:
				return Text(from(t, l, []string{"", " ", "\t", "\n", "\u3000", "\u00a0", "\u200b", "\x00", "\"", "\\", "a\"b", "c:\\d", "`", "%d", "%!s", "'", "<b>&", "\u2028", "{}", "nul\x00l", "\u0085"}))
			}
			return Text(rapidString(t, l))
		}
		c.Symbol, c.Name = txt("sym"), txt("name")
		return c
	},
	Fixed: func() []r04 {
		var out []r04
		for _, r := range mdCoins() {
			out = append(out, r04{r.Type, r.PathComponent, Text(r.Symbol), Text(r.Name)})
		}
		for _, ty := range edgeIdx {
			for _, co := range edgeIdx {
				out = append(out, r04{ty, co, "S", "N"})
			}
		}
		return out
	},
	Check: func(c r04) *Fail {
		k := c.coin()
		want := !(blank(k.Symbol) && blank(k.Name)) && k.Type < 1<<31 && uint64(k.PathComponent) == uint64(k.Type)+1<<31
		if g := k.IsValid(); g != want {
			return failf("IsValid of %+q = %v, want %v", fmt.Sprintf("%+v", k), g, want)
		}
		if utf8.ValidString(k.Symbol) && utf8.ValidString(k.Name) {
			b, err := json.Marshal(k)
			if err != nil {
				return failf("marshal %+v: %v", k, err)
			}
			var back bip44.Coin
			if err := json.Unmarshal(b, &back); err != nil || back != k {
				return failf("JSON %s of %+v decodes to %+v, %v", b, k, back, err)
			}
		}
		s := k.StringForMD()
		if back, err := parseLiteral(s); err != nil || back != k {
			return failf("StringForMD %q is not a literal of %+v (got %+v, %v)", s, k, back, err)
		}
		disp := k.String()
		for _, part := range []string{k.Symbol, k.Name, strconv.FormatUint(uint64(k.Type), 10)} {
			if !strings.Contains(disp, part) {
				return failf("String %q of %+v does not show %q", disp, k, part)
			}
		}
		return nil
	},
	Class: func(c r04) []string {
		if c.coin().IsValid() {
			return []string{"+valid"}
		}
		return []string{"+invalid"}
	},
}
