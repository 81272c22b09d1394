package checks

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"runtime"
	"strings"
	"time"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
)

// ------------------------------------------------------------------ X09

// x09cost is one call whose memory is measured.
type x09cost struct{ Op op }

// spent is what the calls of this process have allocated so far.
func spent() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// kept is what is in use once everything unreachable is gone.
func kept() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ { // pools are emptied by the second collection
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// sizeOf is the size of a request: its arguments, and the steps it asks for.
func sizeOf(o op) (size, steps uint64) {
	size = uint64(len(o.B) + len(o.S) + len(o.S2) + len(o.Key))
	switch o.K {
	case "Walk":
		steps = min(255, uint64(strings.Count(string(o.S), "/")))
	case "Range":
		if o.N2 > o.N {
			steps = min(255, uint64(o.N2-o.N))
		}
	}
	return size, steps
}

var specX09cost = core.Spec[x09cost]{
	Name: "cost", Quick: 12000, Thorough: 400000,
	Gen: func(t *T) x09cost {
		if pick(t, "weird", 3) == 0 {
			o := genWeirdOp(t)
			if o.K == "Range" && pick(t, "wide", 3) == 0 { // more than can be derived
				o.N, o.N2 = genIdx(t, "n", 0), genIdx(t, "n2", 0)
			}
			return x09cost{o}
		}
		p := genPool(t, []int{0})
		o := op{K: from(t, "op", allKinds)}
		o.fill(t, p)
		if o.K == "Range" && oneIn(t, "wide", 3) {
			o.N2 = genIdx(t, "n2", 0)
		}
		return x09cost{o}
	},
	// every kind, large
	Fixed: func() []x09cost {
		var out []x09cost
		k, _ := ref.Master(expand([]byte{5}, 32))
		for _, n := range []int{1000, 30000, 200000} {
			for _, s := range []string{"m" + strings.Repeat("/1", n), "m" + strings.Repeat("/2147483647'", n/8), strings.Repeat("abandon ", n/8),
				strings.Repeat(" ", n), hex.EncodeToString(expand([]byte{6}, n)), strings.Repeat("\u3000", n/3), "m/44'/" + strings.Repeat("9", n) + "'"} {
				for _, kd := range allKinds {
					o := op{K: kd, Key: keyHex(k), B: expand([]byte{7}, n), S: Text(s), S2: Text(s), N: 0, N2: 250, Spar: n}
					switch kd {
					case "ExpandPublicKey":
						x := ref.Compress(k.Pub)
						o.B = x[:]
					case "B58Deserialize":
						o.S = o.S[:min(len(o.S), 5000)]
					case "Range":
						o.S = o.S[:min(len(o.S), 20000)]
					}
					out = append(out, x09cost{o})
				}
			}
		}
		for _, r := range [][2]uint32{{0, 1<<32 - 1}, {0, 1 << 31}, {1 << 31, 1<<32 - 1}, {0, 1 << 20}, {0, 1 << 16}, {5, 300}} {
			out = append(out, x09cost{op{K: "Range", Key: keyHex(k), S: "m/0", N: r[0], N2: r[1]}}, x09cost{op{K: "Range", Key: keyHex(k.Neuter()), S: "m/0", N: r[0], N2: r[1]}})
		}
		return out
	},
	Check: func(c x09cost) *Fail {
		in := c.Op.prep()
		size, steps := sizeOf(c.Op)
		var used, allowed uint64
		for i := 0; i < 3; i++ { // what is set up once is not counted
			was := spent()
			out, _ := in.run(&state{})
			used = spent() - was
			// the code stays below an eighth of this
			allowed = 4<<20 + 400*size + 400*uint64(len(out)) + steps*(1<<18+100*size)
			if used <= allowed {
				return nil
			}
		}
		return failf("%s with arguments of %d bytes and %d steps allocates %d bytes", c.Op.K, size, steps, used)
	},
	Class: func(c x09cost) []string {
		size, _ := sizeOf(c.Op)
		out := []string{"+op-" + c.Op.K}
		if size > 4096 {
			out = append(out, "+large")
		}
		return out
	},
}

// x09kept is a series of different requests of one kind.
type x09kept struct {
	K    string
	Seed uint32
	N    int
	Bad  bool // requests that are refused
	Way  int  // and why, of four reasons
}

var somePub = func() []Hex {
	var out []Hex
	for i := 0; len(out) < 64; i++ {
		if p, ok := ref.LiftX(new(big.Int).SetBytes(expand([]byte{11, byte(i)}, 32)), i%2 == 0); ok {
			x := ref.Compress(p)
			out = append(out, x[:])
		}
	}
	return out
}

// request is the i-th of the series.
func (c x09kept) request(i int, pubs []Hex) op {
	s := fmt.Sprint(c.Seed, " ", i)
	r := expand([]byte(s), 96)
	o := op{K: c.K, N: uint32(i), N2: uint32(i) + 3}
	o.Key = make(Hex, 78)
	copy(o.Key, []byte{0x04, 0x88, 0xad, 0xe4})
	copy(o.Key[13:45], r)
	copy(o.Key[46:], r[32:64])
	o.Key[46] &= 0x7f
	if i%3 == 1 && c.K != "Walk" { // a public key
		copy(o.Key, []byte{0x04, 0x88, 0xb2, 0x1e})
		copy(o.Key[45:], pubs[i%len(pubs)])
	}
	bad := func(way int) bool { return c.Bad && c.Way == way }
	if bad(0) {
		copy(o.Key[:4], r[64:])
	}
	if bad(1) {
		copy(o.Key[45:], make([]byte, 33))
	}
	if bad(2) {
		o.Key[45] = byte(4 + i%200)
	}
	switch c.K {
	case "NewMnemonic", "NewMasterKey", "HashRipeMD160onSha256", "ChecksumDblSha256", "AddChecksumDblSha256ToBytes":
		o.B = r[:16+4*(i%5)]
		if c.Bad {
			o.B = r[:33+i%60]
		}
	case "Deserialize", "B58Deserialize":
		o.B = append(append(Hex{}, o.Key...), ref.Checksum(o.Key)...)
		if bad(0) {
			o.B[81] ^= byte(1 + i%255)
		}
		if bad(2) {
			o.B = o.B[:60+i%20]
		}
		if bad(3) {
			o.B = append(o.B, r[64:65+i%4]...)
		}
		o.S = Text(ref.B58Encode(o.B))
		if bad(1) {
			o.S += "0"
		}
	case "ExpandPublicKey":
		o.B = pubs[i%len(pubs)]
	case "ValidatePrivateKey":
		o.B = r[:32]
	case "EntropyFromMnemonic", "IsMnemonicValid", "MnemonicToByteArray", "NewSeed", "NewSeedWithErrorChecking", "DeriveSeedFromMnemonic":
		m, _ := ref.Mnemonic(r[:16], refLists[0])
		o.S, o.S2 = Text(m), Text(s)
		words := strings.Fields(m)
		if bad(0) {
			o.S += " zoo"
		}
		if bad(1) {
			words[i%len(words)] = fmt.Sprintf("x%dx%d", c.Seed, i)
			o.S = Text(strings.Join(words, " "))
		}
		if bad(2) {
			words[11] = refLists[0][i%2048] // most often
			o.S = Text(strings.Join(words, " "))
		}
		if bad(3) {
			o.S = Text(strings.ToUpper(m))
		}
	case "GetWordIndex":
		o.S = Text(refLists[0][i%2048])
		if c.Bad {
			o.S += Text(s)
		}
	case "RootKeyFromSeed":
		o.S = Text(hex.EncodeToString(r[:32]))
		if c.Bad {
			o.S += "x"
		}
	case "NewEntropy":
		o.N = 128
	case "GenerateMnemonic":
		o.N = 12
	case "SetVersion", "NewChildKey":
		o.N &= 0x7fffffff
	case "AddrHex", "AddrP2SH":
		o.S = "m"
	case "CoinLookup":
		if c.Bad {
			o.S = Text(s)
		}
	default:
		o.S = Text(fmt.Sprintf("m/44'/%d'/%d/1", i, c.Seed))
		if bad(0) {
			o.S += "//"
		}
		if bad(1) {
			o.S += Text(fmt.Sprint("/", uint64(1)<<32+uint64(i)))
		}
		if bad(2) {
			o.S = Text(s) + o.S
		}
		if bad(3) {
			o.S += "'"
		}
		o.N2 = o.N + 2
		if c.K == "ValueAtDepth" || c.K == "ReplaceValueAtDepth" {
			o.N = 3
		}
	}
	return o
}

// total is the number of requests after which a growing memory must have
// stopped growing.
func (c x09kept) total() int {
	if slowKinds[c.K] {
		return 30000
	}
	return 200000
}

var specX09kept = core.Spec[x09kept]{
	Name: "kept", Quick: 140, Thorough: 4000,
	Gen: func(t *T) x09kept {
		c := x09kept{K: from(t, "kind", allKinds), Seed: uint32(pick(t, "seed", 1<<30)), Bad: pick(t, "bad", 3) > 0, Way: pick(t, "way", 4)}
		c.N = 500 + pick(t, "n", 3000)
		if slowKinds[c.K] {
			c.N = 300
		}
		return c
	},
	Fixed: func() []x09kept {
		var out []x09kept
		for i, k := range allKinds {
			n := 2000
			if slowKinds[k] {
				n = 500
			}
			out = append(out, x09kept{k, uint32(i), n, false, 0})
			for way := 0; way < 4; way++ {
				out = append(out, x09kept{k, uint32(i), n, true, way})
			}
		}
		return out
	},
	Check: func(c x09kept) *Fail {
		pubs := somePub()
		next := 0
		serve := func(n int) int64 {
			was := kept()
			for end := next + n; next < end; next++ {
				c.request(next, pubs).prep().run(&state{own: true})
			}
			return kept() - was
		}
		if grown, rest, bad := accumulates(serve, c.N, c.total()); bad {
			return failf("%d different requests of the kind %s (refused: %v) leave %d bytes in use, and the last %d of %d another %d",
				c.N, c.K, c.Bad, grown, c.total()/2, c.total(), rest)
		}
		return nil
	},
	Class: func(c x09kept) []string {
		if c.Bad {
			return []string{"+refused", "op-" + c.K}
		}
		return []string{"+served", "op-" + c.K}
	},
}

// accumulates tells whether serving requests keeps using more memory.
func accumulates(serve func(int) int64, n, total int) (grown, rest int64, bad bool) {
	serve(60)
	for i := 0; i < 3; i++ {
		if grown = serve(n); grown <= 8<<10+12*int64(n) {
			return 0, 0, false
		}
	}
	// A cache may fill up, but not for ever.
	for i := 0; i < 20; i++ {
		serve(total / 40)
	}
	growing := 0
	for i := 0; i < 10; i++ {
		d := serve(total / 20)
		rest += d
		if d > 4*int64(total/20) {
			growing++
		}
	}
	return grown, rest, growing >= 8 && rest >= 16*int64(total/2)
}

// x09object is a long series of different requests to one and the same object.
type x09object struct {
	K    string // "generator", "roots", "range", "list"
	Seed uint32
	N    int
	Bad  int // one in how many requests is refused, 0 none
}

var x09objects = []string{"generator", "roots", "range", "list"}

var specX09object = core.Spec[x09object]{
	Name: "objects", Quick: 40, Thorough: 1500,
	Gen: func(t *T) x09object {
		return x09object{from(t, "kind", x09objects), uint32(pick(t, "seed", 1<<30)), 300 + pick(t, "n", 2000), pick(t, "bad", 4)}
	},
	Fixed: func() (out []x09object) {
		for i, k := range x09objects {
			for bad := 0; bad < 3; bad++ {
				out = append(out, x09object{k, uint32(i), 500, bad})
			}
		}
		return out
	},
	Check: func(c x09object) *Fail {
		defer bip39.SetWordList(libList(0))
		var g util.Generator
		var r util.KeyPathRange
		root, _ := ref.Master(expand([]byte(fmt.Sprint("object ", c.Seed)), 32))
		g.SetRootKey(libHex(keyHex(root)))
		next := 0
		serve := func(n int) int64 {
			was := kept()
			for end := next + n; next < end; next++ {
				path := fmt.Sprintf("m/44'/%d'/%d", next, c.Seed)
				bad := c.Bad > 0 && next%c.Bad == 0
				if bad {
					path += []string{"//", "/4294967296", "x", " /'"}[next/c.Bad%4]
				}
				key := libHex(keyHex(root))
				copy(key[13:45], expand([]byte(fmt.Sprint(c.Seed, " ", next)), 32))
				switch c.K {
				case "roots":
					g.SetRootKey(key)
					fallthrough
				case "generator":
					g.DeriveBIP32Result(bip32.Path(path))
				case "range":
					r.StartIndex, r.EndIndex = uint32(next), uint32(next+next%3)
					r.Path, r.Key = bip32.Path(path), key
					if bad && next%2 == 0 {
						r.StartIndex += 5
					}
					r.GenerateRange()
				case "list":
					l := append([]string{}, libList(next%len(listNames))...)
					l[next%2048] = fmt.Sprintf("w%dw%d", c.Seed, next)
					bip39.SetWordList(l)
					if bad {
						bip39.GetWordIndex(l[next%2048] + "x")
						bip39.EntropyFromMnemonic(l[next%2048])
					}
				}
			}
			return kept() - was
		}
		total := 60000
		if c.K == "list" {
			total = 4000
		}
		if grown, rest, bad := accumulates(serve, min(c.N, total/40), total); bad {
			return failf("%d different requests to one object (%s) leave %d bytes in use, and the last %d of %d another %d", c.N, c.K, grown, total/2, total, rest)
		}
		return nil
	},
	Class: func(c x09object) []string { return []string{"+object-" + c.K} },
}

// x09time is a kind of request and a kind of text that can be of any length.
type x09time struct {
	K    string
	Text string // repeated
	Head string
	Tail string
}

func (c x09time) request(n int) op {
	k, _ := ref.Master(expand([]byte{5}, 32))
	s := c.Head + strings.Repeat(c.Text, max(1, n/len(c.Text))) + c.Tail
	o := op{K: c.K, Key: keyHex(k), B: expand([]byte{7}, n), S: Text(s), S2: Text(s), N: 1, N2: 3}
	if c.K == "ExpandPublicKey" {
		x := ref.Compress(k.Pub)
		o.B = x[:]
	}
	return o
}

var x09texts = [][3]string{{"/1", "m", ""}, {"/2147483647'", "m", ""}, {"abandon ", "", ""}, {" ", "", ""}, {"\t", "m/1", "/2"}, {"ab", "", ""}, {"\u3000", "", ""},
	{"9", "m/44'/", "'"}, {"0", "m/", ""}, {"'", "m/1", ""}, {"/", "m", ""}, {"1", "", ""}, {"z", "", ""}, {"xprv9s21ZrQH143K", "", ""}, {"e\u0301", "", ""}, {"\u0301", "e", ""}, {"\xff", "", ""}, {"m/", "", "0"}, {"zoo\n", "", "x"}}

var specX09time = core.Spec[x09time]{
	Name: "time", Quick: 300, Thorough: 8000,
	Gen: func(t *T) x09time {
		c := x09time{K: from(t, "kind", allKinds)}
		if pick(t, "own", 3) == 0 {
			c.Text, c.Head, c.Tail = genText(t, "text", 30), genText(t, "head", 10), genText(t, "tail", 10)
			if c.Text == "" {
				c.Text = "a"
			}
			return c
		}
		x := from(t, "texts", x09texts)
		c.Text, c.Head, c.Tail = x[0], x[1], x[2]
		return c
	},
	Fixed: func() (cs []x09time) {
		for _, k := range allKinds {
			for _, x := range x09texts {
				cs = append(cs, x09time{k, x[0], x[1], x[2]})
			}
		}
		return cs
	},
	Check: func(c x09time) *Fail {
		took := func(n int) time.Duration {
			in := c.request(n).prep()
			was := core.CPUTime()
			in.run(&state{own: true})
			return core.CPUTime() - was
		}
		const n = 40000
		var small, large time.Duration
		for i := 0; i < 3; i++ {
			if large = took(8 * n); large < 400*time.Millisecond {
				return nil
			}
			// In proportion it is eight times as much.
			if small = took(n); large < 24*max(small, 4*time.Millisecond) {
				return nil
			}
		}
		return failf("%s with texts of %d bytes takes %v, of %d bytes %v", c.K, n, small, 8*n, large)
	},
	Class: func(c x09time) []string { return []string{"+time-" + c.K} },
}
