package checks

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"net/url"
	"strings"
	"unicode"
)

// writings are ways a path, a seed or a key is written down in other tools,
// documents and transports. Whether what results is acceptable is for the
// reference to say.
var writings = func() []func(string) string {
	var out []func(string) string
	add := func(f ...func(string) string) { out = append(out, f...) }
	// something before and behind
	for _, w := range []string{
		"[|]", "(|)", "{|}", "<|>", "\"|\"", "'|'", "`|`", "\u201c|\u201d", "\u00ab|\u00bb", " |", "| ", "\t|\n", "\n|\n\n", "\r\n|\r\n", "\ufeff|", "|\x00", "\x00|", "|.", "|,", "|;", "|:", "|#", "|/", "/|", "//|", "./|", "~/|", "\\|",
		"#|", "$|", "@|", "=|", "+|", "-|", "*|", "&|", "%|", "^|", "!|", "?|", "_|", "|_", "|-", "|=", "|==", "|*", "|?", "|!", "|~", "|$", "0x|", "0X|", "\\x|", "x|", "x'|'", "X'|'", "h'|'", "b'|'", "b\"|\"", "u\"|\"", "r\"|\"", "hex:|", "0h|", "|h", "|H", "0|", "00|", "000|", "|0", "|00",
		"path=|", "path: |", "Path: |", "path |", "hd:|", "hdpath:|", "bip32:|", "bip32://|", "bip44:|", "bitcoin:|", "seed:|", "seed=|", "seed |", "xprv=|", "key=|", "key: |", "data:,|", "data:text/plain,|", "?|", "?path=|", "#/|", "http://|", "file:///|", "urn:|",
		"m|", "M|", "m/|", "M/|", "mm|", "m:|", "m.|", "m |", "root/|", "master/|", "xprv/|", "xpub/|", "0/|", "1/|", "44'/|", "|/0", "|/0'", "|/m", "|/1h", "|/1H", "|/*", "|/*'", "|/*h", "|/**", "|/?", "|/x", "|/i", "|/n", "|/a", "|/%d", "|/{i}", "|/{index}", "|/$", "|/[0]", "|/[0-9]", "|/{0,1}", "|/{0,1}/*", "|/<0;1>", "|/<0;1>/*",
		"|/0-5", "|/0..5", "|/0:5", "|/0,1", "|/0;1", "|/0 1", "|/0+1", "|/+", "|/-", "|/.", "|/..", "|/../0", "|/./0", "|//", "|///", "|//0", "|/#", "|/'", "|/''", "|'", "|''", "|h", "|\"", "|\u2019", "|\u2032", "|/ ", "|/-1", "|/-0", "|/+0", "|/0x0", "|/1e3", "|/1_000", "|/1,000", "|/0b1", "|/0o7", "|/1.0", "|/1.", "|/.5", "|/NaN", "|/inf",
		"[deadbeef]|", "[deadbeef/|]", "[deadbeef/44'/0'/0']|", "deadbeef/|", "pkh(|)", "wpkh(|)", "sh(wpkh(|))", "tr(|)", "wpkh(|)#abcdefgh", "|#abcdefgh", "@0/|", "|@deadbeef", "|:0", "|:main", "|?index=0", "|#0", "|// comment", "| # comment", "|/* comment */", "<!-- -->|", "|\n0", "|\n|", "|\u200b", "\u200b|", "|\u00a0", "\u2028|", "|\u0301",
	} {
		pre, post, _ := strings.Cut(w, "|")
		add(func(s string) string { return pre + s + post })
	}
	// in groups
	for _, n := range []int{1, 2, 3, 4, 5, 8, 10, 16, 32} {
		for _, sep := range []string{" ", "  ", ":", "-", ",", ", ", "_", ".", "\n", "\r\n", "\\\n", "|", ";", "\t", "\\x", "0x", " 0x", ", 0x", ",0x", "%", "\u00a0", "\u2009", "\u200b", "\x00", "'", "+", "\" \"", "=\n"} {
			add(func(s string) string {
				var b strings.Builder
				if strings.Contains(sep, "x") || sep == "%" { // one before each group
					b.WriteString(strings.TrimLeft(sep, ", "))
				}
				for i := 0; i < len(s); i += n {
					if i > 0 {
						b.WriteString(sep)
					}
					b.WriteString(s[i:min(i+n, len(s))])
				}
				return b.String()
			})
		}
	}
	// one character written otherwise, everywhere and at its last place
	for _, r := range []string{
		"'|\u2019", "'|\u2018", "'|\u2032", "'|\u00b4", "'|`", "'|h", "'|H", "'|\"", "'|''", "'|\\'", "'|%27", "'|&#39;", "'|&apos;", "'|*", "'|!", "'|^", "'|_", "'|-", "'|p", "'|hard", "'|\u02bc", "'|\uff07", "'|", "'/|/'", "'/|'", "'|;",
		"/|\\", "/||", "/|.", "/|:", "/|-", "/|,", "/|;", "/| ", "/|>", "/| > ", "/|->", "/|//", "/|/./", "/|/../", "/|%2F", "/|%2f", "/|&#47;", "/|\u2044", "/|\u2215", "/|\uff0f", "/|\u29f8", "/|/ ", "/| /", "/|/m/", "/|/0", "/|/00", "/|/+", "/|/-", "/|/0x", "/|", "/|_",
		"m/|", "m/|/", "m/|m", "m/|./", "m/|$/", "m/|xprv/", "m/|n/", "m/|\u043c/", "m/|\uff4d/", "m/|\u217f/", "m/|M'/", "m/|m'/", "m/|m0/", "m/|m/m/", "m|", "m|\U0001d426", "m|'m'",
		"0|O", "0|o", "1|l", "1|I", "l|1", "I|1", "o|0", "O|0", "5|S", "8|B", "0|\uff10", "4|\uff14", "0|\u0660", "4|\u0664", "1|\u0661", "0|\u0966", "4|\u2084", "1|\u00b9", "0|\u2070", "a|\u0430", "e|\u0435", "c|\u0441", "a|\uff41", "a|A", "A|a", "x|X", "x|y",
	} {
		from, to, _ := strings.Cut(r, "|")
		add(func(s string) string { return strings.ReplaceAll(s, from, to) },
			func(s string) string {
				if i := strings.LastIndex(s, from); i >= 0 {
					return s[:i] + to + s[i+len(from):]
				}
				return s
			})
	}
	shift := func(by rune, lo, hi rune) func(string) string {
		return func(s string) string {
			return strings.Map(func(r rune) rune {
				if r >= lo && r <= hi {
					return r + by
				}
				return r
			}, s)
		}
	}
	wide := func(n int) func(string) string { // wider characters: UTF-16, UTF-32
		return func(s string) string {
			var b strings.Builder
			for i := 0; i < len(s); i++ {
				b.WriteByte(s[i])
				b.WriteString(strings.Repeat("\x00", n-1))
			}
			return b.String()
		}
	}
	add(
		strings.ToUpper, strings.ToLower, strings.Title, url.QueryEscape, url.PathEscape, wide(2), wide(4),
		shift(0xff10-'0', '0', '9'), shift(0x660-'0', '0', '9'), shift(0x6f0-'0', '0', '9'), shift(0x966-'0', '0', '9'), shift(0x2080-'0', '0', '9'), shift(0x1d7ce-'0', '0', '9'), shift(0xfee0, '!', '~'),
		func(s string) string { b, _ := json.Marshal(s); return string(b) },
		func(s string) string { b, _ := json.Marshal([]string{s}); return string(b) },
		func(s string) string { return hex.EncodeToString([]byte(s)) },
		func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) },
		func(s string) string { return base64.RawURLEncoding.EncodeToString([]byte(s)) },
		func(s string) string { b, _ := hex.DecodeString(s); return string(b) },
		func(s string) string { b, _ := hex.DecodeString(s); return base64.StdEncoding.EncodeToString(b) },
		func(s string) string { return s + s }, func(s string) string { return s + " " + s }, func(s string) string { return s + "\n" + s }, func(s string) string { return s + "," + s }, func(s string) string { return s + "/" + s },
		func(s string) string { // swapped case
			return strings.Map(func(r rune) rune {
				if unicode.IsUpper(r) {
					return unicode.ToLower(r)
				}
				return unicode.ToUpper(r)
			}, s)
		},
		func(s string) string { // abbreviated
			if len(s) < 12 {
				return s[:len(s)/2] + "\u2026"
			}
			return s[:6] + "..." + s[len(s)-4:]
		},
		func(s string) string { // backwards
			b := []byte(s)
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
			return string(b)
		},
		func(s string) string { // components backwards
			p := strings.Split(s, "/")
			for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
				p[i], p[j] = p[j], p[i]
			}
			return strings.Join(p, "/")
		},
		func(s string) string { // pairs of digits backwards: another byte order
			b := []byte(s)
			for i, j := 0, len(b)-2; i < j; i, j = i+2, j-2 {
				b[i], b[i+1], b[j], b[j+1] = b[j], b[j+1], b[i], b[i+1]
			}
			return string(b)
		},
		func(s string) string { // digits exchanged in pairs
			b := []byte(s)
			for i := 0; i+1 < len(b); i += 2 {
				b[i], b[i+1] = b[i+1], b[i]
			}
			return string(b)
		},
		func(s string) string { // the first line only
			return s[:len(s)/2] + "\n" + s[len(s)/2:]
		},
	)
	return out
}()

// genWritten writes s down in one or two of these ways.
func genWritten(t *T, l, s string) string {
	s = from(t, l+"-w", writings)(s)
	if oneIn(t, l+"-two", 3) {
		s = from(t, l+"-w2", writings)(s)
	}
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

// allWritten are all of them for each of the texts.
func allWritten(texts ...string) []string {
	var out []string
	for _, s := range texts {
		for _, f := range writings {
			out = append(out, f(s))
		}
	}
	return out
}
