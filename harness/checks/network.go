package checks

import (
	"bytes"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"unicode/utf8"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
)

// ------------------------------------------------------------------ K08

// k08step assigns a default network or makes a call.
type k08step struct {
	Do   string // "main", "test": assign; "master", "hex", "neuter", "child", "import": call
	Prv  uint32
	Pub  uint32
	Key  Hex
	Seed Hex
	Idx  uint32
}

type k08 struct{ Steps []k08step }

var originalMain, originalTest = bip32.DefaultMainnetVersion, bip32.DefaultTestnetVersion

// genNetwork is a registered network, or one that isn't.
func genNetwork(t *T, l string) (prv, pub uint32) {
	if !oneIn(t, l+"-own", 3) {
		i := pick(t, l, len(ref.PrvVersions))
		return ref.PrvVersions[i], ref.PubVersions[i]
	}
	unreg := func(l string) uint32 {
		for {
			v := genVersion(t, l, true, false)
			_, a := ref.PubVersion[v]
			_, b := ref.PrvVersion[v]
			if !a && !b {
				return v
			}
		}
	}
	return unreg(l + "-prv"), unreg(l + "-pub")
}

var specK08 = core.Spec[k08]{
	Name: "default-network", Quick: 20000, Thorough: 600000,
	Gen: func(t *T) k08 {
		var c k08
		for i, n := 0, 2+pick(t, "n", 7); i < n; i++ {
			s := k08step{Do: from(t, "do", []string{"main", "main", "test", "master", "hex", "neuter", "neuter", "child", "import"})}
			if i == 0 && pick(t, "assign", 4) > 0 {
				s.Do = "main"
			}
			switch s.Do {
			case "main", "test":
				s.Prv, s.Pub = genNetwork(t, "net")
			case "master", "hex":
				s.Seed = genBytes(t, "seed", 16+pick(t, "len", 60))
			default:
				s.Key = keyHex(genX(t, "key", keyOpts{priv: true, pub: true}))
				s.Idx = genIdx(t, "idx", 0)
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	},
	// every registered network as the default, asked by keys of every one
	Fixed: func() []k08 {
		var out []k08
		k, _ := ref.Master(expand([]byte{21}, 32))
		for i := range ref.PrvVersions {
			c := k08{Steps: []k08step{{Do: "main", Prv: ref.PrvVersions[i], Pub: ref.PubVersions[i]}, {Do: "master", Seed: expand([]byte{byte(i)}, 32)}, {Do: "hex", Seed: expand([]byte{byte(i)}, 16)}}}
			for _, v := range append(append([]uint32{}, unregVersions...), ref.PrvVersions...) {
				x := k
				x.Version = v
				c.Steps = append(c.Steps, k08step{Do: "neuter", Key: keyHex(x)}, k08step{Do: "child", Key: keyHex(x), Idx: 7})
				x = x.Neuter()
				c.Steps = append(c.Steps, k08step{Do: "neuter", Key: keyHex(x)})
				x.Version = v
				if _, ok := ref.PubVersion[v]; !ok {
					c.Steps = append(c.Steps, k08step{Do: "neuter", Key: keyHex(x)})
				}
			}
			out = append(out, c)
		}
		return out
	},
	Check: func(c k08) *Fail {
		defer func() { bip32.DefaultMainnetVersion, bip32.DefaultTestnetVersion = originalMain, originalTest }()
		prv, pub := originalMain.PvtKeyFlag, originalMain.PubKeyFlag
		for n, s := range c.Steps {
			switch s.Do {
			case "main":
				prv, pub = s.Prv, s.Pub
				bip32.DefaultMainnetVersion = bip32.VersionBytes{Coin: "chosen", PvtKeyFlag: prv, PubKeyFlag: pub}
			case "test":
				bip32.DefaultTestnetVersion = bip32.VersionBytes{Coin: "chosen", PvtKeyFlag: s.Prv, PubKeyFlag: s.Pub}
			case "master", "hex":
				want, ok := ref.Master(s.Seed)
				want.Version = prv
				var got *bip32.Key
				var err error
				if s.Do == "master" {
					got, err = bip32.NewMasterKey(s.Seed)
				} else {
					got, err = util.RootKeyFromSeed(hex.EncodeToString(s.Seed))
				}
				if !ok {
					continue
				}
				if err != nil {
					return failf("step %d: the master key of %x is refused (%v) with the default network %08x/%08x", n, []byte(s.Seed), err, prv, pub)
				}
				if !sameKey(*got, want) {
					return failf("step %d: master key of %x with the default network %08x/%08x: %s", n, []byte(s.Seed), prv, pub, diffKey(*got, want))
				}
			case "neuter":
				k := mustX(s.Key)
				want := k.Neuter()
				_, a := ref.PubVersion[k.Version]
				if _, b := ref.PrvVersion[k.Version]; (k.Priv != nil && !a) || (k.Priv == nil && !b) {
					want.Version = pub
				}
				l := libHex(s.Key)
				if got := l.PublicKeyExtended(); !sameKey(got, want) {
					return failf("step %d: public version of %s with the default network %08x/%08x: %s", n, k.Text(), prv, pub, diffKey(got, want))
				}
			case "child":
				k := mustX(s.Key)
				l := libHex(s.Key)
				got, err := l.NewChildKey(s.Idx)
				if !k.CanDerive(s.Idx) {
					if err == nil {
						return failf("step %d: child %d of %s is derived with the default network %08x/%08x", n, s.Idx, k.Text(), prv, pub)
					}
					continue
				}
				want, ok := k.Derive(s.Idx)
				if !ok {
					continue
				}
				if err != nil || !sameKey(got, want) {
					return failf("step %d: child %d of %s with the default network %08x/%08x: %v %s", n, s.Idx, k.Text(), prv, pub, err, diffKey(got, want))
				}
			case "import":
				l := libHex(s.Key)
				if got, want := l.IsValid(), ref.Importable(s.Key); got != want {
					return failf("step %d: IsValid of %x with the default network %08x/%08x = %v", n, []byte(s.Key), prv, pub, got)
				}
			}
			if m := bip32.DefaultMainnetVersion; m.PvtKeyFlag != prv || m.PubKeyFlag != pub {
				return failf("step %d (%s): the default network changed to %08x/%08x", n, s.Do, m.PvtKeyFlag, m.PubKeyFlag)
			}
		}
		return nil
	},
	Class: func(c k08) []string {
		var out []string
		set := false
		for _, s := range c.Steps {
			switch s.Do {
			case "main":
				set = true
				if _, ok := ref.PubVersion[s.Prv]; !ok {
					out = append(out, "own-network")
				}
			case "test":
			default:
				if set {
					out = append(out, "+"+s.Do+"-after-assignment")
				}
			}
		}
		return uniq(out)
	},
}

func uniq(l []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// ------------------------------------------------------------------ K09

// k09 is a wallet's state that is stored and read again.
type k09 struct {
	Root       Hex
	Path       Text
	Key        Hex
	Start, End uint32
	Entry      int  // of the version registry
	Gob        bool // or JSON
	Times      int  // how often the results are repeated
	Next       uint32
}

// stored writes what a points to and reads it into what b points to.
func stored(asGob bool, a, b any) error {
	if asGob {
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(a); err != nil {
			return err
		}
		return gob.NewDecoder(&buf).Decode(b)
	}
	j, err := json.Marshal(a)
	if err != nil {
		return err
	}
	return json.Unmarshal(j, b)
}

var specK09 = core.Spec[k09]{
	Name: "stored", Quick: 12000, Thorough: 300000,
	Gen: func(t *T) k09 {
		c := k09{Gob: pick(t, "gob", 2) == 1, Entry: pick(t, "entry", len(bip32.HDVersionBytesSlice)), Next: genIdx(t, "next", 0)}
		c.Root = keyHex(rootX(t, "root", true))
		c.Path = Text(spell(t, "path", genComps(t, "comps", 12)))
		c.Key = keyHex(genX(t, "key", keyOpts{priv: true, pub: true}))
		c.Start = genIdx(t, "start", 0)
		c.End = c.Start + uint32(pick(t, "count", 6))
		if oneIn(t, "large", 40) {
			c.End = c.Start + uint32(pick(t, "many", 254))
			c.Path = Text(spell(t, "deep", genComps(t, "deep-comps", 254)))
			c.Times = pick(t, "times", 30)
		}
		return c
	},
	Check: func(c k09) *Fail {
		if !utf8.ValidString(string(c.Path)) {
			return nil
		}
		how := "JSON"
		if c.Gob {
			how = "gob"
		}
		same := func(name string, a, b any) *Fail {
			if err := stored(c.Gob, a, b); err != nil {
				return failf("%s can't be stored as %s: %v", name, how, err)
			}
			if !reflect.DeepEqual(a, b) {
				return failf("%s stored as %s and read again: %s, was %s", name, how, short(fmt.Sprintf("%+v", reflect.ValueOf(b).Elem())), short(fmt.Sprintf("%+v", reflect.ValueOf(a).Elem())))
			}
			// the value itself, and as a part of others
			v := reflect.ValueOf(a).Elem()
			two := reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 2)
			two = reflect.Append(two, v, v)
			named := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), v.Type()))
			named.SetMapIndex(reflect.ValueOf("mine"), v)
			for _, x := range []reflect.Value{v, two, named} {
				y := reflect.New(x.Type())
				if err := stored(c.Gob, x.Interface(), y.Interface()); err != nil {
					return failf("%s (as %s) can't be stored as %s: %v", name, x.Type(), how, err)
				}
				if !reflect.DeepEqual(x.Interface(), y.Elem().Interface()) {
					return failf("%s (as %s) stored as %s and read again: %s, was %s", name, x.Type(), how, short(fmt.Sprintf("%+v", y.Elem())), short(fmt.Sprintf("%+v", x)))
				}
			}
			return nil
		}
		key := libHex(c.Key)
		var key2 bip32.Key
		if f := same("a key", &key, &key2); f != nil {
			return f
		}
		a, aerr := key.NewChildKey(c.Next)
		b, berr := key2.NewChildKey(c.Next)
		if a != b || (aerr == nil) != (berr == nil) || key.String() != key2.String() {
			return failf("a key read again from %s derives %x %v, %x %v before", how, b[:], berr, a[:], aerr)
		}
		var g util.Generator
		g.SetRootKey(libHex(c.Root))
		walk, _ := g.DeriveBIP32Result(bip32.Path(c.Path))
		if len(walk) == 0 {
			walk = []util.KeyPath{{Path: bip32.Path(c.Path), Key: key}}
		}
		for i, n := 0, len(walk); i < c.Times; i++ {
			walk = append(walk, walk[:n]...)
		}
		var walk2 []util.KeyPath
		if f := same("a walk", &walk, &walk2); f != nil {
			return f
		}
		for i := range walk[:min(len(walk), 300)] {
			if x, y := walk[i].AddrHex(), walk2[i].AddrHex(); x != y {
				return failf("an entry read again from %s has the address %s, was %s", how, y, x)
			}
		}
		r := util.KeyPathRange{StartIndex: c.Start, EndIndex: c.End, KeyPath: util.KeyPath{Path: bip32.Path(c.Path), Key: key}}
		r.GenerateRange()
		for i, n := 0, len(r.KeyPaths); i < c.Times; i++ {
			r.KeyPaths = append(r.KeyPaths, r.KeyPaths[:n]...)
		}
		var r2 util.KeyPathRange
		if f := same("a range", &r, &r2); f != nil {
			return f
		}
		v := bip32.HDVersionBytesSlice[c.Entry%len(bip32.HDVersionBytesSlice)]
		var v2 bip32.VersionBytes
		if f := same("a version entry", &v, &v2); f != nil {
			return f
		}
		p := bip32.Path(c.Path)
		var p2 bip32.Path
		if f := same("a path", &p, &p2); f != nil {
			return f
		}
		return nil
	},
	Class: func(c k09) []string {
		if c.Gob {
			return []string{"+gob"}
		}
		return []string{"+json"}
	},
}
