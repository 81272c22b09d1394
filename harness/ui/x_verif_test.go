package main

import (
	"encoding/hex"
	"fmt"
	"image"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"gioui.org/app"
	"gioui.org/io/event"
	"gioui.org/io/input"
	"gioui.org/io/semantic"
	"gioui.org/layout"
	"gioui.org/op"
	"gioui.org/unit"
	"gioui.org/widget"
	"gioui.org/x/component"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"pgregory.net/rapid"
)

// The app's own loop is driven by a fake window: each frame applies edits to
// the fields (and clicks), lets the loop process and draw it, and compares what
// the app then shows with the model.

type edit struct {
	What string // mnemonic, pass, seed, root, path, generate, words, tab, left, right, restyle
	Text string `json:",omitempty"`
	N    int    `json:",omitempty"`
}

type frameCase struct{ Edits []edit }

type x04 struct{ Frames []frameCase }

type fakeWindow struct {
	next func() event.Event
}

func (w *fakeWindow) NextEvent() event.Event { return w.next() }

func resetApp() {
	keyPathTabs = KeyPathTabs{}
	bps = util.Generator{}
	btnGenerateMnemonic = widget.Clickable{}
	radioGroupMnemonicWords = widget.Enum{}
	mnemonicField = component.TextField{}
	mnemonicPassphraseField = component.TextField{}
	bip39SeedField = component.TextField{}
	bip32RootKeyField = component.TextField{}
	derivationStr, derivationPath = "", ""
	derivationField = component.TextField{}
	rootKeyStr, mnemonic, mnemonicPassPhrase, seed = "", "", "", ""
	outputLeftBtn, outputRightBtn = widget.Clickable{}, widget.Clickable{}
	viewLayout = layout.List{Axis: layout.Vertical}
	tabsSlider = Slider{}
}

func (e edit) apply() {
	switch e.What {
	case "mnemonic":
		mnemonicField.SetText(e.Text)
	case "pass":
		mnemonicPassphraseField.SetText(e.Text)
	case "seed":
		bip39SeedField.SetText(e.Text)
	case "root":
		bip32RootKeyField.SetText(e.Text)
	case "path":
		derivationField.SetText(e.Text)
	case "reroot": // type the shown root key with one change
		t := bip32RootKeyField.Text()
		if len(t) > 0 {
			i := e.N % len(t)
			bip32RootKeyField.SetText(t[:i] + e.Text + t[i+1:])
		}
	case "append": // extend the path
		derivationField.SetText(derivationField.Text() + e.Text)
	case "generate":
		btnGenerateMnemonic.Click()
	case "words":
		radioGroupMnemonicWords.Value = e.Text
	case "tab":
		if n := len(keyPathTabs.tabs); n > 0 {
			keyPathTabs.tabs[e.N%n].Click()
		}
	case "left":
		outputLeftBtn.Click()
	case "right":
		outputRightBtn.Click()
	}
}

func at[V any](t *rapid.T, l string, vs []V) V {
	return vs[int(rapid.Uint32().Draw(t, l)%uint32(len(vs)))]
}

func num(t *rapid.T, l string, n int) int { return int(rapid.Uint32().Draw(t, l) % uint32(n)) }

func genSentence(t *rapid.T) string {
	e := make([]byte, at(t, "el", []int{16, 20, 24, 28, 32}))
	for i := range e {
		if i < 4 {
			e[i] = byte(num(t, "eb", 256))
		}
	}
	s, _ := ref.Mnemonic(e, bip39.GetWordList())
	return s
}

func genXKey(t *rapid.T) ref.XKey {
	k, _ := ref.Master([]byte{byte(num(t, "k1", 256)), byte(num(t, "k2", 256))})
	return k
}

func genPath(t *rapid.T) string {
	if num(t, "fixedpath", 2) == 0 {
		return at(t, "path", []string{"m", "M", "m/", "m/0", "m/0'", "m/44'/60'/0'/0/0", " m / 1 ", "m/0/1'", "m/2147483648", "m/2147483648'", "m/4294967295", "m/4294967296", "x", "", "m/1/2/3/4/5/6/7/8/9/10/11/12", "m//1", "m/44'/60'/0'/0/0\n"})
	}
	s := "m"
	h := num(t, "nh", 4)
	for i := 0; i < h; i++ {
		s += "/" + strconv.Itoa(num(t, "c", 100)) + "'"
	}
	for i, n := 0, num(t, "np", 4); i < n; i++ {
		s += "/" + strconv.Itoa(num(t, "c", 100))
	}
	return s
}

func genEdit(t *rapid.T) edit {
	switch num(t, "what", 20) {
	case 0, 1, 2:
		s := genSentence(t)
		switch num(t, "mk", 8) {
		case 0:
			s = ""
		case 1:
			s = strings.Replace(s, " ", "  ", 1)
		case 2:
			w := strings.Fields(s)
			w[num(t, "wi", len(w))] = at(t, "w", bip39.GetWordList())
			s = strings.Join(w, " ")
		case 3:
			s = s[:num(t, "cut", len(s))]
		case 4:
			s = at(t, "junk", []string{"hello", " ", "\n", "abandon", "é", "0"})
		}
		return edit{What: "mnemonic", Text: s}
	case 3, 4:
		return edit{What: "pass", Text: at(t, "p", []string{"", "TREZOR", " ", "x", "pass phrase\n", "\"'%s", strings.Repeat("long", 40)})}
	case 5, 6, 7:
		b := make([]byte, at(t, "sl", []int{0, 1, 15, 16, 17, 32, 64, 65}))
		for i := range b {
			b[i] = byte(num(t, "sb", 256))
			if i > 2 {
				break
			}
		}
		s := hex.EncodeToString(b)
		switch num(t, "sk", 6) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s += at(t, "sjunk", []string{"0", "g", " ", "\n"})
		case 2:
			s = at(t, "sj", []string{"", "zz", "0x00", "00000000000000000000000000000000"})
		}
		return edit{What: "seed", Text: s}
	case 8, 9, 10:
		k := genXKey(t)
		switch num(t, "rk", 9) {
		case 0:
			k = k.Neuter()
		case 1:
			k, _ = k.Derive(uint32(num(t, "ci", 3)))
		case 2:
			k.Version = at(t, "v", ref.PrvVersions)
		case 3:
			k.Version = uint32(num(t, "uv", 1<<30))
		case 4:
			k.Version = at(t, "pv", ref.PubVersions)
		case 5:
			b := k.Bytes()
			for i := 46; i < 78; i++ {
				b[i] = byte(num(t, "zero", 2)) * 0xff
				if i > 46 {
					b[i] = b[46]
				}
			}
			return edit{What: "root", Text: ref.B58Check(b[:])}
		case 6:
			return edit{What: "root", Text: at(t, "rj", []string{"", "xprv", "0OIl", " ", "1"})}
		}
		return edit{What: "root", Text: k.Text()}
	case 11:
		return edit{What: "reroot", N: num(t, "ri", 111), Text: at(t, "rc", []string{"", "1", "z", "A", "0", "11", " "})}
	case 12, 13, 14:
		return edit{What: "path", Text: genPath(t)}
	case 15:
		return edit{What: "append", Text: at(t, "ap", []string{"/0", "/1'", "/", " ", "x", "/0/0/0/0/0"})}
	case 16:
		return edit{What: "generate"}
	case 17:
		return edit{What: "words", Text: at(t, "wc", []string{"12", "15", "18", "21", "24", "", "13", "x", "268"})}
	case 18:
		return edit{What: "tab", N: num(t, "ti", 20)}
	default:
		return edit{What: at(t, "lr", []string{"left", "right"})}
	}
}

var spec = core.Spec[x04]{
	Name: "app", Quick: 2000, Thorough: 60000,
	Gen: func(t *rapid.T) x04 {
		var c x04
		for i, n := 0, 1+num(t, "frames", 12); i < n; i++ {
			var f frameCase
			for j, m := 0, at(t, "edits", []int{1, 1, 1, 1, 2, 2, 3, 0}); j < m; j++ {
				f.Edits = append(f.Edits, genEdit(t))
			}
			c.Frames = append(c.Frames, f)
		}
		return c
	},
	Fixed: func() []x04 {
		good := "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"
		one := func(w, t string) frameCase { return frameCase{[]edit{{What: w, Text: t}}} }
		return []x04{
			{[]frameCase{one("mnemonic", good), one("root", "xprv")}},
			{[]frameCase{one("mnemonic", good), one("mnemonic", "bad"), one("mnemonic", good)}},
			{[]frameCase{one("path", "m/44'/60'/0'/0/0"), one("mnemonic", good)}},
		}
	},
	Check: check,
	Class: func(c x04) []string {
		seen := map[string]bool{}
		var out []string
		for _, f := range c.Frames {
			for _, e := range f.Edits {
				if !seen[e.What] {
					seen[e.What] = true
					out = append(out, "+"+e.What)
				}
			}
		}
		if len(c.Frames) > 5 {
			out = append(out, "+long-session")
		}
		return out
	},
}

func check(c x04) *core.Fail {
	resetApp()
	var fail, known *core.Fail
	var h history
	router := new(input.Router)
	i := -1
	now := time.Unix(1700000000, 0)
	w := &fakeWindow{next: func() event.Event {
		i++
		if i >= len(c.Frames) || fail != nil {
			return app.DestroyEvent{}
		}
		for _, e := range c.Frames[i].Edits {
			e.apply()
		}
		now = now.Add(300 * time.Millisecond)
		return app.FrameEvent{Now: now, Metric: unit.Metric{PxPerDp: 1, PxPerSp: 1}, Size: image.Pt(1000, 1400), Source: router.Source(),
			Frame: func(ops *op.Ops) {
				router.Frame(ops)
				f := h.judge(c.Frames[i].Edits)
				if f != nil && f.Known != "" {
					if known == nil {
						known = f
					}
					f = nil
				}
				if f == nil {
					f = judgeDrawn(router.AppendSemantics(nil))
				}
				if f != nil && fail == nil {
					fail = core.Failf("after frame %d: %s", i, f.Msg)
				}
			}}
	}}
	if err := loop(w); err != nil {
		return core.Failf("the app ended with %v", err)
	}
	if fail == nil {
		fail = known
	}
	return fail
}

// history is what earlier frames showed; the known findings are about it.
type history struct {
	tabs     []util.KeyPath // tabs after the previous frame
	root     *ref.XKey      // usable root key shown by the last frame that had one
	selected int            // selected tab after the previous frame
	known    *core.Fail
}

const (
	staleTabs   = "tabs-kept-after-unreadable-root"
	minusOneTab = "tab-minus-one-after-no-tabs"
)

// walk is the reference walk, nil when it cannot be done.
func walk(k ref.XKey, comps []uint32) []ref.XKey {
	out := []ref.XKey{k}
	for _, x := range comps {
		if !k.CanDerive(x) {
			return nil
		}
		k, _ = k.Derive(x)
		out = append(out, k)
	}
	return out
}

func same(tabs []util.KeyPath, want []ref.XKey, comps []uint32) *core.Fail {
	if len(tabs) != len(want) {
		return core.Failf("shows %d tabs, want %d", len(tabs), len(want))
	}
	for i, k := range want {
		if [78]byte(tabs[i].Key) != k.Bytes() {
			return core.Failf("tab %d shows %s, want %s", i, tabs[i].Key.String(), k.Text())
		}
		p := string(tabs[i].Path)
		got, ok := ref.ParseComponents(strings.TrimPrefix(p, "m"))
		if !ok || !strings.HasPrefix(p, "m") || fmt.Sprint(got) != fmt.Sprint(append([]uint32{}, comps[:i]...)) {
			return core.Failf("tab %d is labelled %q", i, p)
		}
	}
	return nil
}

func (h *history) judge(edits []edit) *core.Fail {
	// a generated mnemonic has the chosen number of words
	if n := len(edits); n > 0 && edits[n-1].What == "generate" {
		typed := false
		for _, e := range edits {
			typed = typed || e.What == "mnemonic" || e.What == "seed" || e.What == "root" || e.What == "reroot"
		}
		words := strings.Fields(mnemonicField.Text())
		if w, _ := strconv.Atoi(radioGroupMnemonicWords.Value); !typed && w >= 12 && w <= 24 && w%3 == 0 && len(words) != w {
			return core.Failf("%d words were asked for, generated: %q", w, mnemonicField.Text())
		}
	}
	var tabs []util.KeyPath
	for _, t := range keyPathTabs.tabs {
		tabs = append(tabs, t.KeyPath)
	}
	h.known = nil
	f := h.compare(tabs, edits)
	h.tabs, h.selected = tabs, keyPathTabs.selected
	if f == nil {
		f = h.known
	}
	return f
}

// judgeDrawn compares the texts drawn (which the app hands to screen readers)
// with the tabs: labels that are their paths, and the details of the selected.
func judgeDrawn(nodes []input.SemanticNode) *core.Fail {
	var tabs, rest []string
	var visit func(n input.SemanticNode, button bool)
	visit = func(n input.SemanticNode, button bool) {
		button = button || n.Desc.Class == semantic.Button
		switch {
		case n.Desc.Label == "" || n.Desc.Class == semantic.RadioButton:
		case button:
			tabs = append(tabs, n.Desc.Label)
		default:
			rest = append(rest, n.Desc.Label)
		}
		for _, c := range n.Children {
			visit(c, button)
		}
	}
	visit(nodes[0], false)
	// the tabs in sight are a run of all tabs
	var all []string
	for _, t := range keyPathTabs.tabs {
		all = append(all, t.KeyPath.Path.String())
	}
	if len(tabs) > 0 && len(all) > 0 {
		tabs = tabs[1:] // the generate button
	}
	if !strings.Contains("\n"+strings.Join(all, "\n")+"\n", "\n"+strings.Join(tabs, "\n")+"\n") && len(all) > 0 {
		return core.Failf("draws the tabs %q, want %q", tabs, all)
	}
	sel := keyPathTabs.selected
	if sel < 0 || sel >= len(keyPathTabs.tabs) {
		return nil
	}
	t := keyPathTabs.tabs[sel]
	k, ok := ref.ParseX(t.KeyPath.Key[:])
	if !ok || k.Priv == nil {
		return nil // judged before
	}
	pub := ref.Compress(k.Pub)
	want := []string{all[sel], k.Text(), k.Neuter().Text(), hex.EncodeToString(k.Priv.FillBytes(make([]byte, 32))), hex.EncodeToString(pub[:]), ref.EthAddr(k.Pub)}
	if len(rest) < 6 || strings.Join(rest[len(rest)-6:], "\n") != strings.Join(want, "\n") {
		return core.Failf("draws %q for tab %d, want %q", rest, sel, want)
	}
	return nil
}

// compare compares what the app shows with its fields.
func (h *history) compare(tabs []util.KeyPath, edits []edit) *core.Fail {
	mn, pass, sd, root, path := mnemonicField.Text(), mnemonicPassphraseField.Text(), bip39SeedField.Text(), bip32RootKeyField.Text(), derivationField.Text()
	index := map[string]int{}
	for i, w := range bip39.GetWordList() {
		index[w] = i
	}
	if mn != "" {
		want := ""
		if _, v := ref.DecodeMnemonic(mn, index); v == ref.OK {
			want = hex.EncodeToString(ref.Pbkdf2Seed(mn, "mnemonic"+pass))
		}
		if sd != want {
			return core.Failf("mnemonic %q and passphrase %q are shown with seed %q, want %q", mn, pass, sd, want)
		}
	}
	if sd != "" {
		want := ""
		if b, err := hex.DecodeString(sd); err == nil && len(b) >= 16 {
			if k, ok := ref.Master(b); ok {
				want = k.Text()
			}
		}
		if root != want {
			return core.Failf("seed %q is shown with root key %q, want %q", sd, root, want)
		}
	}
	// the walk of the root key shown
	var want []ref.XKey
	comps := []uint32{}
	if v, ok := ref.ParsePath(path); ok {
		comps = v[1:]
	}
	readable := false
	if b, ok := ref.B58Decode(root); ok && len(b) == 82 && string(ref.Checksum(b[:78])) == string(b[78:]) && ref.Importable(b[:78]) {
		readable = true
		if k, ok := ref.ParseX(b[:78]); ok && k.Priv != nil && k.Depth == 0 {
			want = walk(k, comps)
			defer func() { h.root = &k }()
		}
	}
	if f := same(tabs, want, comps); f != nil {
		// known: an unreadable root key leaves the tabs as they were (or as
		// the new path made them just before) instead of removing them
		stale := !readable && fmt.Sprint(tabs) == fmt.Sprint(h.tabs)
		if !readable && !stale && h.root != nil {
			stale = same(tabs, walk(*h.root, comps), comps) == nil
		}
		if !stale {
			return core.Failf("root key %q with path %q: %s", root, path, f.Msg)
		}
		h.known = &core.Fail{Known: staleTabs, Msg: "keys of the previous root are still shown after an unreadable root key was entered"}
	}
	if len(tabs) > 0 && (keyPathTabs.selected < 0 || keyPathTabs.selected >= len(tabs)) {
		// known: a moment without tabs selects number -1, which stays
		left := false
		for _, e := range edits {
			left = left || e.What == "left"
		}
		if keyPathTabs.selected != -1 || !(h.selected == -1 || len(edits) > 1 && !left) {
			return core.Failf("%d tabs are shown but the selected one is number %d", len(tabs), keyPathTabs.selected)
		}
		if h.known == nil {
			h.known = &core.Fail{Known: minusOneTab, Msg: "no key is shown although there are tabs: a moment without tabs has selected tab -1"}
		}
	}
	return nil
}

func TestMain(m *testing.M) {
	core.RegisterFlags()
	os.Exit(core.Main([]*core.Prop{{ID: "X04", Rule: "sessions of 1-12 frames of edits and clicks in the real event loop; a session counts as non-trivial when it has at least one edit", Subs: []core.Sub{core.New(spec)}}}))
}
