package ref

import (
	"strconv"
	"strings"
)

// StripWS removes ASCII white space (tab, LF, FF, CR, space).
func StripWS(s string) string {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\t', '\n', '\f', '\r', ' ':
		default:
			out = append(out, s[i])
		}
	}
	return string(out)
}

// ParsePath returns the index sequence (leading 0 for the root).
func ParsePath(s string) ([]uint32, bool) {
	s = StripWS(s)
	if s == "" || (s[0] != 'm' && s[0] != 'M') {
		return nil, false
	}
	vals := []uint32{0}
	plain := false
	rest := s[1:]
	for rest != "" {
		if rest[0] != '/' {
			return nil, false
		}
		rest = rest[1:]
		n := 0
		var v uint64
		for n < len(rest) && rest[n] >= '0' && rest[n] <= '9' {
			v = v*10 + uint64(rest[n]-'0')
			if v > 1<<33 {
				v = 1 << 33
			}
			n++
		}
		if n == 0 {
			return nil, false
		}
		rest = rest[n:]
		hard := false
		if rest != "" && rest[0] == '\'' {
			hard = true
			rest = rest[1:]
		}
		if hard {
			if plain || v >= 1<<31 {
				return nil, false
			}
			vals = append(vals, uint32(v)+Hardened)
		} else {
			plain = true
			if v >= 1<<32 {
				return nil, false
			}
			vals = append(vals, uint32(v))
		}
	}
	return vals, true
}

// FormatIdx is the canonical component text.
func FormatIdx(v uint32) string {
	if v >= Hardened {
		return strconv.FormatUint(uint64(v-Hardened), 10) + "'"
	}
	return strconv.FormatUint(uint64(v), 10)
}

// FormatPath renders m/… for indices without the leading root zero.
func FormatPath(idx []uint32) string {
	var sb strings.Builder
	sb.WriteString("m")
	for _, v := range idx {
		sb.WriteString("/")
		sb.WriteString(FormatIdx(v))
	}
	return sb.String()
}

// ParseComponents parses "/a/b'/c" loosely (any mix of hardened and plain),
// as output paths may mix them.
func ParseComponents(s string) ([]uint32, bool) {
	if s == "" {
		return nil, true
	}
	if s[0] != '/' {
		return nil, false
	}
	var out []uint32
	for _, c := range strings.Split(s[1:], "/") {
		hard := strings.HasSuffix(c, "'")
		c = strings.TrimSuffix(c, "'")
		v, err := strconv.ParseUint(c, 10, 32)
		if err != nil || (hard && v >= 1<<31) {
			return nil, false
		}
		if hard {
			v += 1 << 31
		}
		out = append(out, uint32(v))
	}
	return out, true
}
