package checks

import (
	"encoding/binary"
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/mearaj/bips/zzverif/core"
)

// dict holds the literals of the code under test (a fuzzer's dictionary):
// values its conditions may single out. Literals that occur more often than
// in the tree the checks were written against are drawn with preference, so
// that a change's own constants, and combinations of them, are reached. It
// only biases the generators; with no source at hand it stays empty.
var dict struct {
	ints, newInts   []uint64
	texts, newTexts []string
	newPairs        [][2]uint64 // new numbers that follow each other in the source
}

// litCount counts the occurrences of every literal ("i"+number, "t"+text).
type litCount map[string]int

// countLiterals counts them and lists the numbers in order of appearance.
func countLiterals(repo string) (litCount, []uint64) {
	lits := litCount{}
	var order []uint64
	add := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int:
			if u, ok := constant.Uint64Val(v); ok {
				lits["i"+strconv.FormatUint(u, 10)]++
				order = append(order, u)
			}
		case constant.String:
			if s := constant.StringVal(v); len(s) > 0 && len(s) <= 80 {
				lits["t"+s]++
			}
		}
	}
	addBytes := func(e *ast.CompositeLit) { // {1, 2, 3, 4} is also a number, or a text
		var b []byte
		for _, x := range e.Elts {
			l, ok := x.(*ast.BasicLit)
			if !ok || len(b) >= 80 {
				return
			}
			v, ok := constant.Uint64Val(constant.ToInt(constant.MakeFromLiteral(l.Value, l.Kind, 0)))
			if !ok || v > 255 {
				return
			}
			b = append(b, byte(v))
		}
		switch {
		case len(b) < 2:
		case len(b) <= 8:
			var w [8]byte
			copy(w[8-len(b):], b)
			add(constant.MakeUint64(binary.BigEndian.Uint64(w[:])))
		}
		if len(b) > 2 {
			add(constant.MakeString(string(b)))
		}
	}
	for _, d := range []string{"bip32", "bip39", "bip44", "util"} {
		fs, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(af, func(n ast.Node) bool {
				switch e := n.(type) {
				case *ast.CompositeLit: // tables of data are covered by their own checks
					addBytes(e)
					return len(e.Elts) <= 64
				case *ast.BasicLit:
					add(constant.MakeFromLiteral(e.Value, e.Kind, 0))
					if e.Kind == token.CHAR {
						if r, ok := constant.Int64Val(constant.ToInt(constant.MakeFromLiteral(e.Value, e.Kind, 0))); ok {
							lits["t"+string(rune(r))]++
						}
					}
				case *ast.BinaryExpr:
					if tv, err := types.Eval(fset, nil, token.NoPos, types.ExprString(e)); err == nil && tv.Value != nil {
						add(tv.Value)
					}
				}
				return true
			})
		}
	}
	return lits, order
}

const dictBase = "dict_base.json"

// WriteDictBase records the literals of the tree as it is
// (VERIF_DICT_BASE=harness/data/dict_base.json ./run.sh X03).
func WriteDictBase(file string) error {
	lits, _ := countLiterals(repoDir())
	b, err := json.MarshalIndent(lits, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0o644)
}

func loadDict(repo string) {
	base := litCount{}
	if b, err := os.ReadFile(filepath.Join(core.DataDir, dictBase)); err == nil {
		if err := json.Unmarshal(b, &base); err != nil {
			panic(err)
		}
	}
	lits, order := countLiterals(repo)
	var all []string
	for l := range lits {
		all = append(all, l)
	}
	sort.Strings(all)
	for _, l := range all {
		fresh := len(base) > 0 && lits[l] > base[l]
		if l[0] == 't' {
			dict.texts = append(dict.texts, l[1:])
			if fresh {
				dict.newTexts = append(dict.newTexts, l[1:])
			}
			continue
		}
		v, err := strconv.ParseUint(l[1:], 10, 64)
		if err != nil {
			panic(err)
		}
		dict.ints = append(dict.ints, v)
		if fresh {
			dict.newInts = append(dict.newInts, v)
		}
	}
	isNew := map[uint64]bool{}
	for _, v := range dict.newInts {
		isNew[v] = true
	}
	for i := 0; i+1 < len(order); i++ {
		if isNew[order[i]] && isNew[order[i+1]] {
			dict.newPairs = append(dict.newPairs, [2]uint64{order[i], order[i+1]})
		}
	}
	sort.Slice(dict.ints, func(i, j int) bool { return dict.ints[i] < dict.ints[j] })
	sort.Slice(dict.newInts, func(i, j int) bool { return dict.newInts[i] < dict.newInts[j] })
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// dictRate scales how rarely literals are drawn: more often while the code
// has new ones.
func dictRate(n int) int {
	if len(dict.newInts)+len(dict.newTexts) > 0 {
		return (n + 2) / 3
	}
	return n
}

// dictInt draws a literal of the code or a neighbour of one.
func dictInt(t *T, l string) (uint64, bool) {
	if len(dict.ints) == 0 || !oneIn(t, l+"-dict", dictRate(10)) {
		return 0, false
	}
	return someInt(t, l), true
}

func someInt(t *T, l string) uint64 {
	lits := dict.ints
	if len(dict.newInts) > 0 && !oneIn(t, l+"-old", 4) {
		lits = dict.newInts
	}
	v := from(t, l+"-lit", lits)
	switch weighted(t, l+"-how", 16, 2, 2, 3, 3) {
	case 1:
		v++
	case 2:
		v--
	case 3: // the other literal modulo this one
		r := from(t, l+"-rest", lits)
		if len(dict.newPairs) > 0 && oneIn(t, l+"-paired", 2) {
			p := from(t, l+"-pair", dict.newPairs)
			v, r = p[0], p[1]
		}
		if v > 0 && oneIn(t, l+"-zero", 3) {
			r = 0
		}
		v = v*uint64(pick(t, l+"-times", 1<<24)>>pick(t, l+"-small", 24)) + r
	case 4: // the literal in the low bits
		n := from(t, l+"-bits", []int{8, 12, 16, 20, 24, 28})
		if n < bits.Len64(v) {
			n = bits.Len64(v)
		}
		v |= binary.BigEndian.Uint64(rnd(t, l, 8)) >> n << n
		if oneIn(t, l+"-word", 2) {
			v = uint64(uint32(v))
		}
	}
	return v
}

// dictLen is n, or now and then a literal of the code up to max.
func dictLen(t *T, l string, n, max int) int {
	if v, ok := dictInt(t, l+"-len"); ok && v <= uint64(max) {
		return int(v)
	}
	return n
}

// dictText draws a literal of the code.
func dictText(t *T, l string) (string, bool) {
	if len(dict.texts) == 0 {
		return "", false
	}
	if len(dict.newTexts) > 0 && !oneIn(t, l+"-old", 4) {
		return from(t, l+"-lit", dict.newTexts), true
	}
	return from(t, l+"-lit", dict.texts), true
}

// dictWord draws the index of a word that the code names or numbers.
func dictWord(t *T, l string) (int, bool) {
	if len(dict.ints) == 0 || !oneIn(t, l+"-word", dictRate(10)) {
		return 0, false
	}
	if len(dict.newTexts) > 0 && oneIn(t, l+"-named", 2) {
		s := from(t, l+"-name", dict.newTexts)
		for _, ix := range refIndex {
			if i, ok := ix[s]; ok {
				return i, true
			}
		}
	}
	v := someInt(t, l)
	return int(v), v < 2048
}
