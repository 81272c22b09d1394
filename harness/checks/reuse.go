package checks

import (
	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"
)

// The checks hand the library the same variables and the same memory again and
// again, as a caller with a buffer of its own does: what it kept from an earlier
// call under their address, or in them, is then wrong.

var keySlots [4]bip32.Key

// at is the key with these bytes, in a variable that has held other keys.
func at(slot int, b []byte) *bip32.Key {
	k := &keySlots[slot]
	*k = bip32.Key(b)
	return k
}

var bufSlots [4][1 << 14]byte

const guardByte = 0xa5

// inBuf is memory that holds b, with spare bytes behind it; it has held other bytes.
func inBuf(slot int, b []byte, spare int) []byte {
	m := bufSlots[slot][:]
	if n := len(b) + spare; n > len(m) {
		m = make([]byte, n)
	} else {
		m = m[:n:n]
	}
	copy(m, b)
	for i := len(b); i < len(m); i++ {
		m[i] = guardByte
	}
	return m[:len(b)]
}

// bufIntact tells whether the memory inBuf gave still is as it was.
func bufIntact(in, b []byte) bool {
	if string(in) != string(b) {
		return false
	}
	for _, c := range in[len(in):cap(in)] {
		if c != guardByte {
			return false
		}
	}
	return true
}

// setRoot sets a generator's root, if asked through the pointer it gives to it.
func setRoot(g *util.Generator, k bip32.Key, ptr bool) {
	if ptr {
		*g.RootKey() = k
		if *g.RootKey() == k {
			return
		}
	}
	g.SetRootKey(k)
}
