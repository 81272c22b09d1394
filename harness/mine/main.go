// Command mine searches for inputs whose results have several leading zero
// bytes (rarer than the checks can hit at random) with the reference code
// only. Its output is committed as data/mined.json; no check runs it.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"

	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
)

type parent struct {
	Priv  core.Hex `json:"priv"`
	Chain core.Hex `json:"chain"`
	Index uint32   `json:"index"`
	What  string   `json:"what"`
}

type output struct {
	Parents []parent   `json:"parents"`
	Seeds   []core.Hex `json:"seeds"`
	Hashes  []core.Hex `json:"hashes"`
	Passes  []string   `json:"passes"`
}

func zeros(b []byte) int {
	n := 0
	for n < len(b) && b[n] == 0 {
		n++
	}
	return n
}

func h(parts ...any) []byte { return ref.Sha256([]byte(fmt.Sprint(parts...))) }

// search runs try(i) for increasing i on all cores until want hits.
func search[R any](want int, try func(i int) (R, bool)) []R {
	type hit struct {
		i int
		r R
	}
	var mu sync.Mutex
	var hits []hit
	next := 0
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if len(hits) >= want {
					mu.Unlock()
					return
				}
				base := next
				next += 256
				mu.Unlock()
				for i := base; i < base+256; i++ {
					if r, ok := try(i); ok {
						mu.Lock()
						hits = append(hits, hit{i, r})
						mu.Unlock()
					}
				}
			}
		}()
	}
	wg.Wait()
	sort.Slice(hits, func(a, b int) bool { return hits[a].i < hits[b].i })
	var out []R
	for _, x := range hits[:want] {
		out = append(out, x.r)
	}
	return out
}

func main() {
	flag.String("vprop", "", "")
	flag.String("vtier", "", "")
	flag.String("vseed", "", "")
	dir := flag.String("verif", "/verif", "")
	flag.Parse()
	var out output
	for p := 0; p < 6; p++ {
		for _, hard := range []bool{false, true} {
			k := ref.XKey{Version: 0x0488ade4, Priv: new(big.Int).SetBytes(h("priv", p, hard))}
			k.Priv.Mod(k.Priv, ref.N)
			if p == 1 { // nearly always wraps
				k.Priv.Sub(ref.N, new(big.Int).Rsh(k.Priv, 100))
			}
			k.Pub = ref.BaseMul(k.Priv)
			copy(k.Chain[:], h("chain", p, hard))
			data := make([]byte, 37)
			if hard {
				k.Priv.FillBytes(data[1:33])
			} else {
				c := ref.Compress(k.Pub)
				copy(data, c[:])
			}
			idx := func(i int) uint32 {
				v := uint32(i)
				if hard {
					v |= ref.Hardened
				}
				return v
			}
			mac := func(i int) []byte {
				d := append([]byte{}, data...)
				binary.BigEndian.PutUint32(d[33:], idx(i))
				return ref.HmacSha512(k.Chain[:], d)
			}
			whats := map[string]func(i int) bool{
				"key": func(i int) bool {
					v := new(big.Int).SetBytes(mac(i)[:32])
					v.Add(v, k.Priv).Mod(v, ref.N)
					return v.BitLen() <= 240
				},
				"il":    func(i int) bool { return zeros(mac(i)[:32]) >= 2 },
				"chain": func(i int) bool { return zeros(mac(i)[32:]) >= 2 },
			}
			point := func(f func(p ref.Point, c ref.XKey) bool) func(i int) bool {
				return func(i int) bool {
					c, ok := k.Derive(idx(i))
					return ok && f(c.Pub, c)
				}
			}
			if p < 2 {
				whats["x"] = point(func(p ref.Point, _ ref.XKey) bool { return p.X.BitLen() <= 240 })
				whats["y"] = point(func(p ref.Point, _ ref.XKey) bool { return p.Y.BitLen() <= 240 })
				whats["hash"] = point(func(p ref.Point, _ ref.XKey) bool { c := ref.Compress(p); return zeros(ref.Hash160(c[:])) >= 2 })
			}
			if p == 2 {
				whats["key3"] = func(i int) bool {
					v := new(big.Int).SetBytes(mac(i)[:32])
					v.Add(v, k.Priv).Mod(v, ref.N)
					return v.BitLen() <= 232
				}
			}
			var names []string
			for n := range whats {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				for _, i := range search(1, func(i int) (int, bool) { return i, whats[n](i) }) {
					b := make([]byte, 32)
					k.Priv.FillBytes(b)
					out.Parents = append(out.Parents, parent{b, append([]byte{}, k.Chain[:]...), idx(i), n})
					fmt.Println("parent", p, hard, n, idx(i))
				}
			}
		}
	}
	for _, n := range []int{16, 32, 64} {
		for part := 0; part < 2; part++ {
			out.Seeds = append(out.Seeds, search(2, func(i int) (core.Hex, bool) {
				s := append(append(h("seed", i), h("seed2", i)...)[:0:0], append(h("seed", i), h("seed2", i)...)[:n]...)
				m := ref.HmacSha512([]byte("Bitcoin seed"), s)
				return s, zeros(m[32*part:]) >= 2
			})...)
		}
	}
	fmt.Println("seeds", len(out.Seeds))
	for what := 0; what < 4; what++ {
		out.Hashes = append(out.Hashes, search(2, func(i int) (core.Hex, bool) {
			s := core.Hex(h("scalar", i))
			p := ref.BaseMul(new(big.Int).SetBytes(s))
			ok := false
			switch what {
			case 0:
				c := ref.Compress(p)
				ok = zeros(ref.Hash160(c[:])) >= 2
			case 1:
				ok = p.X.BitLen() <= 240
			case 2:
				ok = p.Y.BitLen() <= 240
			case 3:
				ok = ref.EthAddr(p)[:4] == "0000"
			}
			return s, ok
		})...)
		fmt.Println("scalars", what)
	}
	words := "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"
	out.Passes = search(3, func(i int) (string, bool) {
		p := "pass" + strconv.Itoa(i)
		return p, zeros(ref.Pbkdf2Seed(words, "mnemonic"+p)) >= 2
	})
	fmt.Println("passes", out.Passes)
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(*dir+"/harness/data/mined.json", append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
}
