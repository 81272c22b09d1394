package ref

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"math/big"

	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

const b58Alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// B58Encode is plain base58.
func B58Encode(b []byte) string {
	x := new(big.Int).SetBytes(b)
	var out []byte
	base, m := big.NewInt(58), new(big.Int)
	for x.Sign() > 0 {
		x.DivMod(x, base, m)
		out = append(out, b58Alpha[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

// B58Decode is the inverse of B58Encode; ok=false on a foreign character.
func B58Decode(s string) ([]byte, bool) {
	x := new(big.Int)
	base := big.NewInt(58)
	zeros, lead := 0, true
	for i := 0; i < len(s); i++ {
		d := -1
		for k := 0; k < 58; k++ {
			if b58Alpha[k] == s[i] {
				d = k
				break
			}
		}
		if d < 0 {
			return nil, false
		}
		if lead && d == 0 {
			zeros++
		} else {
			lead = false
		}
		x.Mul(x, base)
		x.Add(x, big.NewInt(int64(d)))
	}
	return append(make([]byte, zeros), x.Bytes()...), true
}

func Sha256(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

// Checksum is the first four bytes of double SHA-256.
func Checksum(b []byte) []byte { return Sha256(Sha256(b))[:4] }

// B58Check appends the checksum and encodes.
func B58Check(b []byte) string {
	return B58Encode(append(append([]byte{}, b...), Checksum(b)...))
}

// Hash160 is RIPEMD160(SHA256(b)).
func Hash160(b []byte) []byte {
	h := ripemd160.New()
	h.Write(Sha256(b))
	return h.Sum(nil)
}

func HmacSha512(key, data []byte) []byte {
	h := hmac.New(sha512.New, key)
	h.Write(data)
	return h.Sum(nil)
}

// Pbkdf2Seed is PBKDF2-HMAC-SHA512, 2048 rounds, 64 bytes (one block).
func Pbkdf2Seed(password, salt string) []byte {
	mac := hmac.New(sha512.New, []byte(password))
	mac.Write([]byte(salt))
	mac.Write([]byte{0, 0, 0, 1})
	u := mac.Sum(nil)
	out := append([]byte{}, u...)
	for i := 1; i < 2048; i++ {
		mac.Reset()
		mac.Write(u)
		u = mac.Sum(u[:0])
		for k := range out {
			out[k] ^= u[k]
		}
	}
	return out
}

// EthAddr is the lower-case hex of the last 20 bytes of keccak256(x||y).
func EthAddr(p Point) string {
	var b [64]byte
	p.X.FillBytes(b[:32])
	p.Y.FillBytes(b[32:])
	h := sha3.NewLegacyKeccak256()
	h.Write(b[:])
	return hex.EncodeToString(h.Sum(nil)[12:])
}

// P2PKHLike is base58check(prefix || hash160(compressed point)).
func P2PKHLike(prefix byte, p Point) string {
	c := Compress(p)
	return B58Check(append([]byte{prefix}, Hash160(c[:])...))
}
