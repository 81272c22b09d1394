package ref

import (
	"fmt"
	"strings"
)

// Mnemonic encodes entropy (16,20,24,28,32 bytes) by bit strings.
func Mnemonic(entropy []byte, list []string) (string, bool) {
	switch len(entropy) {
	case 16, 20, 24, 28, 32:
	default:
		return "", false
	}
	var sb strings.Builder
	for _, b := range entropy {
		fmt.Fprintf(&sb, "%08b", b)
	}
	cs := fmt.Sprintf("%08b", Sha256(entropy)[0])
	sb.WriteString(cs[:len(entropy)/4])
	bits := sb.String()
	var words []string
	for i := 0; i < len(bits); i += 11 {
		words = append(words, list[parseBits(bits[i:i+11])])
	}
	return strings.Join(words, " "), true
}

func parseBits(s string) int {
	v := 0
	for _, c := range s {
		v = v*2 + int(c-'0')
	}
	return v
}

// Verdict of decoding a sentence.
type Verdict int

const (
	OK Verdict = iota
	BadCount
	BadWord
	BadChecksum
)

// DecodeMnemonic returns entropy and verdict.
func DecodeMnemonic(s string, index map[string]int) ([]byte, Verdict) {
	words := strings.Fields(s)
	switch len(words) {
	case 12, 15, 18, 21, 24:
	default:
		return nil, BadCount
	}
	var sb strings.Builder
	for _, w := range words {
		i, ok := index[w]
		if !ok {
			return nil, BadWord
		}
		fmt.Fprintf(&sb, "%011b", i)
	}
	bits := sb.String()
	n := len(words) / 3 * 4
	ent := make([]byte, n)
	for i := range ent {
		ent[i] = byte(parseBits(bits[i*8 : i*8+8]))
	}
	cs := fmt.Sprintf("%08b", Sha256(ent)[0])[:n/4]
	if bits[n*8:] != cs {
		return nil, BadChecksum
	}
	return ent, OK
}

// ByteArray is the checksummed array form: (entropy||checksum bits) as a
// big-endian number left-padded to len(entropy)+1 bytes.
func ByteArray(ent []byte) []byte {
	var sb strings.Builder
	for _, b := range ent {
		fmt.Fprintf(&sb, "%08b", b)
	}
	sb.WriteString(fmt.Sprintf("%08b", Sha256(ent)[0])[:len(ent)/4])
	bits := strings.Repeat("0", (len(ent)+1)*8-sb.Len()) + sb.String()
	out := make([]byte, len(ent)+1)
	for i := range out {
		out[i] = byte(parseBits(bits[i*8 : i*8+8]))
	}
	return out
}
