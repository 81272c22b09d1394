package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
)

// ------------------------------------------------------------------ X07

type x07 struct {
	List int
	Ops  []op
}

// answers runs the calls and returns what each returned.
func (c x07) answers() []Hex {
	bip39.SetWordList(libList(c.List))
	defer bip39.SetWordList(libList(0))
	out := make([]Hex, len(c.Ops))
	for i, o := range c.Ops {
		out[i] = Hex(o.answer())
	}
	return out
}

func (o op) answer() (s string) {
	defer func() {
		if recover() != nil {
			s = "panic"
		}
	}()
	s, _ = o.prep().run(&state{own: true})
	return s
}

// Serve answers cases read from standard input; it runs in the builds for
// other platforms.
func Serve() {
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	enc := json.NewEncoder(os.Stdout)
	for {
		var c x07
		if dec.Decode(&c) != nil {
			return
		}
		enc.Encode(c.answers())
	}
}

// platform is a running build for another platform.
type platform struct {
	name string
	cmd  *exec.Cmd
	enc  *json.Encoder
	dec  *json.Decoder
}

var platforms []*platform

// startPlatforms starts the builds named in VERIF_PLATFORMS
// ("name=command argument ...;...").
func startPlatforms() error {
	if platforms != nil {
		return nil
	}
	spec := os.Getenv("VERIF_PLATFORMS")
	if spec == "" {
		return fmt.Errorf("no other platform's build at hand")
	}
	var all []*platform
	for _, s := range strings.Split(spec, ";") {
		name, line, _ := strings.Cut(s, "=")
		f := strings.Fields(line)
		p := &platform{name: name, cmd: exec.Command(f[0], f[1:]...)}
		p.cmd.Env = []string{"VERIF_SERVE=1", "PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME")}
		p.cmd.Stderr = os.Stderr
		in, err := p.cmd.StdinPipe()
		if err != nil {
			return err
		}
		out, err := p.cmd.StdoutPipe()
		if err != nil {
			return err
		}
		if err := p.cmd.Start(); err != nil {
			return err
		}
		p.enc, p.dec = json.NewEncoder(in), json.NewDecoder(bufio.NewReader(out))
		all = append(all, p)
	}
	platforms = all
	return nil
}

// stopPlatforms ends them, to be started anew.
func stopPlatforms() {
	for _, p := range platforms {
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	platforms = nil
}

// ask has the platform answer the case.
func (p *platform) ask(c x07) ([]Hex, error) {
	if err := p.enc.Encode(c); err != nil {
		return nil, err
	}
	type ans struct {
		out []Hex
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		var a ans
		a.err = p.dec.Decode(&a.out)
		ch <- a
	}()
	select {
	case a := <-ch:
		return a.out, a.err
	case <-time.After(180 * time.Second):
		return nil, fmt.Errorf("no answer in 180 s")
	}
}

func checkX07(c x07) *Fail {
	if err := startPlatforms(); err != nil {
		panic(core.Harness(err.Error()))
	}
	want := c.answers()
	for _, p := range platforms {
		got, err := p.ask(c)
		if err != nil {
			// not the call's doing unless it happens again, alone
			stopPlatforms()
			if err := startPlatforms(); err != nil {
				panic(core.Harness(err.Error()))
			}
			for _, q := range platforms {
				if q.name == p.name {
					if _, err := q.ask(x07{Ops: []op{{K: "GetWordIndex", S: "zoo"}}}); err != nil {
						panic(core.Harness(p.name + ": " + err.Error()))
					}
					if _, err = q.ask(c); err != nil {
						stopPlatforms()
						return failf("the %s build died answering: %v", p.name, err)
					}
				}
			}
			continue
		}
		if len(got) != len(want) {
			panic(core.Harness("short answer"))
		}
		for i, o := range c.Ops {
			if string(got[i]) != string(want[i]) {
				return failf("call %d: %s returns %s on this platform and %s on %s", i, o.K, short(string(want[i])), short(string(got[i])), p.name)
			}
		}
	}
	return nil
}

var specX07 = core.Spec[x07]{
	Name: "platforms", Quick: 6000, Thorough: 300000,
	Gen: func(t *T) x07 {
		c := x07{}
		lists := []int{0}
		if oneIn(t, "list", 4) {
			c.List = pick(t, "li", len(listNames))
			lists = []int{c.List, 0}
		}
		var p *pool
		for i, n := 0, 1+pick(t, "n", 8); i < n; i++ {
			switch pick(t, "ok", 4) {
			case 0, 1:
				if p == nil {
					q := genPool(t, lists)
					p = &q
				}
				c.Ops = append(c.Ops, p.genOp(t, allKinds))
			case 2:
				c.Ops = append(c.Ops, genWeirdOp(t))
			case 3: // numbers around the limits of machine words
				o := op{K: from(t, "nop", []string{"VersionBytes", "ValuesAtDepth", "ValueAtDepth", "ReplaceValueAtDepth", "PathIsValid", "Coin", "CoinLookup",
					"VersionLookup", "NewChildKey", "Range", "Walk", "NewEntropy", "GenerateMnemonic", "SetVersion"})}
				o.Key = keyHex(rootX(t, "key", true))
				mark := from(t, "mark", []string{"'", "'", ""})
				o.S = Text("m")
				for i, n := 0, from(t, "np", []int{2, 2, 2, 1, 3, 5}); i < n; i++ {
					o.S += Text(fmt.Sprintf("/%d%s", wordLimit(t, "c"), mark))
				}
				o.S2 = "x"
				o.N, o.N2 = uint32(wordLimit(t, "n")), uint32(wordLimit(t, "n2"))
				switch o.K {
				case "ValueAtDepth", "ReplaceValueAtDepth":
					o.N %= 6
				case "Range":
					o.N2 = o.N + uint32(pick(t, "rl", 5))
				}
				c.Ops = append(c.Ops, o)
			}
		}
		return c
	},
	Fixed: func() []x07 {
		var out []x07
		k, _ := ref.Master(expand([]byte{7}, 32))
		ks := []Hex{keyHex(k), keyHex(k.Neuter())}
		for _, kd := range allKinds {
			for _, n := range []uint32{0, 1, 4, 12, 24, 44, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0x8000002c, 0xfffffffe, 0xffffffff} {
				o := op{K: kd, Key: ks[n&1], B: expand([]byte{3, byte(n)}, 33), S: Text(fmt.Sprintf("m/%d/%d", n, n^1)), S2: "p", N: n, N2: n + 2}
				if n >= 0x80000000 {
					o.S = Text(fmt.Sprintf("m/%d'/%d'", n&0x7fffffff, n>>1))
				}
				if kd == "ExpandPublicKey" {
					x := ref.Compress(k.Pub)
					o.B = x[:]
				}
				out = append(out, x07{Ops: []op{o}})
			}
		}
		for _, a := range []string{"2147483647", "2147483648", "4294967295", "4294967296", "4294967340", "9999999999", "9223372036854775807", "18446744073709551660"} {
			for _, f := range []string{"m/%s'/0'", "m/44'/%s'", "m/%s/0", "m/44'/0'/%s"} {
				for _, kd := range []string{"VersionBytes", "ValuesAtDepth", "PathIsValid"} {
					out = append(out, x07{Ops: []op{{K: kd, S: Text(fmt.Sprintf(f, a))}}})
				}
			}
		}
		return out
	},
	Check: checkX07,
	Class: func(c x07) []string {
		var out []string
		for _, o := range c.Ops {
			out = append(out, "+op-"+o.K)
		}
		return out
	},
}

// wordLimit is a number of at most 32 bits, often next to a power of two.
func wordLimit(t *T, l string) uint64 {
	if oneIn(t, l+"-any", 4) {
		return uint64(genIdx(t, l, 0))
	}
	v := uint64(1)<<from(t, l+"-bit", []uint{0, 7, 8, 15, 16, 24, 30, 31, 31, 31, 32}) + uint64(pick(t, l+"-off", 5)) - 2
	return v & 0xffffffff
}
