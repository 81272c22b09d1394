package checks

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"pgregory.net/rapid"
)

// Long histories: many different requests in one process, each made again when
// Back further ones have been made. They reach what keeps answers for a while:
// memos that fill up, are cleared or overwrite their oldest entries, rings,
// pools and counters.

type longRun struct {
	Seed uint32
	Back int
	N    int
}

var backs = []int{2, 7, 11, 17, 21, 33, 51, 65, 101, 129, 201, 257, 301, 501, 513, 1001, 1025, 2049, 4097}

func upTo(most int) (bs []int) {
	for _, b := range backs {
		if b <= most {
			bs = append(bs, b)
		}
	}
	return bs
}

func genLong(most int) func(*T) longRun {
	bs := upTo(most)
	return func(t *T) longRun {
		b := from(t, "back", bs)
		return longRun{rapid.Uint32().Draw(t, "seed"), b, b + 10 + pick(t, "n", 30)}
	}
}

// fixedLong has the largest distances, one for each worker.
func fixedLong(most int) func() []longRun {
	return func() (ls []longRun) {
		bs := upTo(most)
		for i := 0; i < 7; i++ {
			b := bs[len(bs)-1-i%len(bs)]
			ls = append(ls, longRun{uint32(1000003 * (i + 1)), b, b + 20})
		}
		return ls
	}
}

func (l longRun) class() []string { return []string{fmt.Sprintf("+back:%d", l.Back)} }

// example is the i-th request of the run.
func example[C any](g *rapid.Generator[C], l longRun, i int) C {
	return g.Example(int(l.Seed)*8192 + i)
}

// walk calls do for every request in turn.
func (l longRun) walk(do func(i int, again bool) *Fail) *Fail {
	var known *Fail
	step := func(i int, again bool) *Fail {
		f := do(i, again)
		if f != nil && f.Known != "" {
			known, f = f, nil
		}
		if f != nil {
			f.Msg = fmt.Sprintf("request %d (made again after %d others: %v): %s", i+1, l.Back, again, f.Msg)
		}
		return f
	}
	for i := 0; i < l.N+l.Back; i++ {
		if i < l.N {
			if f := step(i, false); f != nil {
				return f
			}
		}
		if i >= l.Back && i-l.Back < l.N {
			if f := step(i-l.Back, true); f != nil {
				return f
			}
		}
	}
	return known
}

// long makes a long history of the requests of s, each judged by itself.
// The latest, and so the longest, distance is most.
func long[C any](s core.Spec[C], quick, thorough, most int) core.Sub {
	g := rapid.Custom(s.Gen)
	return core.New(core.Spec[longRun]{
		Name: s.Name + "-long", Quick: quick, Thorough: thorough,
		Gen: genLong(most), Fixed: fixedLong(most),
		Check: func(l longRun) *Fail {
			var cs []C
			for i := 0; i < l.N; i++ {
				cs = append(cs, example(g, l, i))
			}
			return l.walk(func(i int, _ bool) *Fail {
				f := s.Check(cs[i])
				if f != nil && f.Known == "" {
					f.Msg += fmt.Sprintf("\n  request: %s", jsonText(cs[i]))
				}
				return f
			})
		},
		Class: longRun.class,
	})
}

// Long histories of calls of all kinds, compared with their first results.
var specX01long = core.Spec[longRun]{
	Name: "long-histories", Quick: 70, Thorough: 2500,
	Gen: genLong(4097), Fixed: fixedLong(4097),
	Check: func(l longRun) *Fail {
		kinds := []string{}
		for _, k := range allKinds {
			if !slowKinds[k] {
				kinds = append(kinds, k)
			}
		}
		if l.Seed%2 == 0 { // few kinds
			n := len(kinds)
			kinds = []string{kinds[int(l.Seed/2)%n], kinds[int(l.Seed/128)%n], kinds[int(l.Seed/8192)%n]}
		}
		g := rapid.Custom(func(t *T) op { p := genPool(t, []int{0}); return p.genOp(t, kinds) })
		ops := make([]op, l.N)
		outs := make([]string, l.N)
		for i := range ops {
			ops[i] = example(g, l, i)
		}
		st := &state{shared: l.Seed%3 == 0}
		held := make([][]held, l.N)
		snaps := make([][]string, l.N)
		ins := make([]*input, l.N)
		if f := l.walk(func(i int, again bool) *Fail {
			in := ops[i].prep()
			out, hs := in.run(st)
			if !again {
				outs[i], ins[i] = out, in
				for _, h := range hs {
					held[i] = append(held[i], h)
					snaps[i] = append(snaps[i], h.snap())
				}
				if want, ok := ops[i].expect(0); ok && want != out {
					if fr, ok := fresh(ops[i], 0); ok && fr != out {
						return failf("%s gives %s after this history, but %s in a new process\n  call: %s", ops[i].K, short(out), short(fr), jsonText(ops[i]))
					}
				}
			} else if out != outs[i] {
				return failf("%s gave %s and now gives %s\n  call: %s", ops[i].K, short(outs[i]), short(out), jsonText(ops[i]))
			}
			return nil
		}); f != nil {
			return f
		}
		for i := range ops {
			for j, h := range held[i] {
				if h.snap() != snaps[i][j] {
					return failf("what call %d (%s) returned was changed by a later call", i, ops[i].K)
				}
			}
			if w := ins[i].intact(); w != "" {
				return failf("call %d: %s, or a later call, changed %s", i, ops[i].K, w)
			}
		}
		return nil
	},
	Class: longRun.class,
}

// marathon is one kind of call made more often than a 16-bit counter counts.
type marathon struct {
	K    string
	Seed uint32
	N    int
	Bad  int // all requests are refused, for one of four reasons
}

var specX01marathon = core.Spec[marathon]{
	Name: "marathon", Quick: 1, Thorough: 900,
	Gen: func(t *T) marathon {
		c := marathon{K: from(t, "kind", allKinds), Seed: rapid.Uint32().Draw(t, "seed"), N: 70000, Bad: pick(t, "bad", 5)}
		if core.Thorough() {
			c.N = from(t, "n", []int{70000, 140000, 300000})
		}
		return c
	},
	Fixed: func() (cs []marathon) {
		for i, k := range allKinds {
			for bad := 0; bad < 5; bad++ {
				cs = append(cs, marathon{k, uint32(7 + i), 70000, bad})
			}
		}
		return cs
	},
	Check: func(c marathon) *Fail {
		const distinct = 150
		g := rapid.Custom(func(t *T) op { p := genPool(t, []int{0}); p.large = false; return p.genOp(t, []string{c.K}) })
		l := longRun{Seed: c.Seed}
		ops := make([]op, distinct)
		outs := make([]string, distinct)
		st := &state{own: true}
		limit := 5 * time.Second
		if core.Thorough() {
			limit = time.Minute
		}
		ins := make([]*input, distinct)
		if c.Bad > 0 && !core.Thorough() {
			limit = time.Second
		}
		pubs := somePub()
		for i := range ops {
			if c.Bad == 0 {
				ops[i] = example(g, l, i)
			} else {
				ops[i] = x09kept{K: c.K, Seed: c.Seed, Bad: true, Way: c.Bad - 1}.request(i, pubs)
			}
			ins[i] = ops[i].prep()
			outs[i], _ = ins[i].run(st)
		}
		began := time.Now()
		for i := 0; i < c.N; i++ {
			if i%64 == 0 && time.Since(began) > limit {
				break
			}
			j := i % distinct
			if i%3 == 0 { // some more often than others
				j = i / distinct % 7
			}
			if out, _ := ins[j].run(st); out != outs[j] {
				if w := ins[j].intact(); w != "" {
					return failf("a call of %s changed %s", c.K, w)
				}
				return failf("call %d of %s gives %s, the first time %s\n  call: %s", distinct+i+1, c.K, short(out), short(outs[j]), jsonText(ops[j]))
			}
		}
		return nil
	},
	Class: func(c marathon) []string { return []string{"+op-" + c.K} },
}

func jsonText(v any) string {
	b, _ := json.Marshal(v)
	return short(string(b))
}

// Many walks with one generator, all results kept to the end.
type manyWalks struct {
	Root  Hex
	Paths []Text
	N     int
}

var specD03b = core.Spec[manyWalks]{
	Name: "many-walks", Quick: 100, Thorough: 3000,
	Gen: func(t *T) manyWalks {
		c := manyWalks{Root: genRoot(t, "r"), N: from(t, "n", []int{5, 17, 33, 70, 130, 260, 600})}
		for i, n := 0, 1+pick(t, "np", 4); i < n; i++ {
			c.Paths = append(c.Paths, Text(spell(t, "p", genComps(t, "c", 6))))
		}
		return c
	},
	Check: func(c manyWalks) *Fail {
		var g util.Generator
		g.SetRootKey(libHex(c.Root))
		results := make([][]util.KeyPath, c.N)
		snaps := make([]string, c.N)
		for i := range results {
			p := string(c.Paths[i%len(c.Paths)])
			got, err := g.DeriveBIP32Result(bip32.Path(p))
			results[i], snaps[i] = got, showPaths(got)
			if i < len(c.Paths) {
				if f := checkWalk(got, err, c.Root, p); f != nil {
					return f
				}
			} else if snaps[i] != snaps[i%len(c.Paths)] {
				return failf("walk %d along %q gives %s, before %s", i, p, short(snaps[i]), short(snaps[i%len(c.Paths)]))
			}
		}
		for i := range results {
			if showPaths(results[i]) != snaps[i] {
				return failf("a later walk changed the result of walk %d of %d", i, c.N)
			}
		}
		return nil
	},
	Class: func(c manyWalks) []string { return []string{fmt.Sprintf("+walks:%d", c.N)} },
}
