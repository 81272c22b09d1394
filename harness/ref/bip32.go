package ref

import (
	"encoding/binary"
	"math/big"
)

const Hardened = uint32(0x80000000)

// XKey is a decoded extended key.
type XKey struct {
	Version uint32
	Depth   byte
	FP      [4]byte
	Child   uint32
	Chain   [32]byte
	Priv    *big.Int // nil for public
	Pub     Point    // always set for valid keys
}

// Bytes is the 78-byte serialisation.
func (k XKey) Bytes() [78]byte {
	var b [78]byte
	binary.BigEndian.PutUint32(b[0:], k.Version)
	b[4] = k.Depth
	copy(b[5:9], k.FP[:])
	binary.BigEndian.PutUint32(b[9:], k.Child)
	copy(b[13:45], k.Chain[:])
	if k.Priv != nil {
		k.Priv.FillBytes(b[46:78])
	} else {
		c := Compress(k.Pub)
		copy(b[45:], c[:])
	}
	return b
}

// Text is the base58check form.
func (k XKey) Text() string { b := k.Bytes(); return B58Check(b[:]) }

// ParseX decodes 78 bytes; ok=false when the key material is invalid.
func ParseX(b []byte) (XKey, bool) {
	var k XKey
	if len(b) != 78 {
		return k, false
	}
	k.Version = binary.BigEndian.Uint32(b)
	k.Depth = b[4]
	copy(k.FP[:], b[5:9])
	k.Child = binary.BigEndian.Uint32(b[9:])
	copy(k.Chain[:], b[13:45])
	if b[45] == 0 {
		k.Priv = new(big.Int).SetBytes(b[46:])
		if k.Priv.Sign() == 0 || k.Priv.Cmp(N) >= 0 {
			return k, false
		}
		k.Pub = BaseMul(k.Priv)
		return k, true
	}
	p, ok := Decompress(b[45:])
	k.Pub = p
	return k, ok
}

// Master is BIP-32 master key generation (Bitcoin mainnet private version).
func Master(seed []byte) (XKey, bool) {
	i := HmacSha512([]byte("Bitcoin seed"), seed)
	k := XKey{Version: 0x0488ade4, Priv: new(big.Int).SetBytes(i[:32])}
	copy(k.Chain[:], i[32:])
	if k.Priv.Sign() == 0 || k.Priv.Cmp(N) >= 0 {
		return k, false
	}
	k.Pub = BaseMul(k.Priv)
	return k, true
}

// CanDerive says whether the library's contract allows deriving child idx.
func (k XKey) CanDerive(idx uint32) bool {
	if k.Depth == 255 {
		return false
	}
	if k.Priv != nil {
		_, ok := PubVersion[k.Version]
		return ok
	}
	_, ok := PrvVersion[k.Version]
	return ok && idx < Hardened
}

// Derive is CKDpriv or CKDpub by the kind of key. Preconditions: CanDerive.
func (k XKey) Derive(idx uint32) (XKey, bool) {
	var data [37]byte
	pub := Compress(k.Pub)
	if idx >= Hardened {
		if k.Priv == nil {
			return XKey{}, false
		}
		k.Priv.FillBytes(data[1:33])
	} else {
		copy(data[:], pub[:])
	}
	binary.BigEndian.PutUint32(data[33:], idx)
	i := HmacSha512(k.Chain[:], data[:])
	il := new(big.Int).SetBytes(i[:32])
	c := XKey{Version: k.Version, Depth: k.Depth + 1, Child: idx}
	copy(c.FP[:], Hash160(pub[:]))
	copy(c.Chain[:], i[32:])
	if il.Cmp(N) >= 0 {
		return c, false
	}
	if k.Priv != nil {
		c.Priv = new(big.Int).Add(il, k.Priv)
		c.Priv.Mod(c.Priv, N)
		if c.Priv.Sign() == 0 {
			return c, false
		}
		c.Pub = BaseMul(c.Priv)
	} else {
		c.Pub = Add(BaseMul(il), k.Pub)
		if c.Pub.Inf() {
			return c, false
		}
	}
	return c, true
}

// Neuter is the public version of the key.
func (k XKey) Neuter() XKey {
	n := k
	if k.Priv != nil {
		n.Priv = nil
		v, ok := PubVersion[k.Version]
		if !ok {
			v = 0x0488b21e
		}
		n.Version = v
		return n
	}
	if _, ok := PrvVersion[k.Version]; !ok {
		n.Version = 0x0488b21e
	}
	return n
}

// Importable is the acceptance predicate for the 78 payload bytes.
func Importable(b []byte) bool {
	k, ok := ParseX(b)
	if !ok {
		return false
	}
	if k.Depth == 0 && (k.FP != [4]byte{} || k.Child != 0) {
		return false
	}
	if k.Priv != nil {
		_, bad := PrvVersion[k.Version] // registered as public
		return !bad
	}
	_, bad := PubVersion[k.Version]
	return !bad
}
