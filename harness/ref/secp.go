// Package ref is an independent reference implementation (math/big and the
// standard hashes only) of the standards the library implements.
package ref

import "math/big"

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad hex " + s)
	}
	return v
}

var (
	P  = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N  = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	Gx = hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	Gy = hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")

	one, two, three, seven = big.NewInt(1), big.NewInt(2), big.NewInt(3), big.NewInt(7)
)

// Point is an affine point; nil X means infinity.
type Point struct{ X, Y *big.Int }

func (p Point) Inf() bool { return p.X == nil }

type jac struct{ x, y, z *big.Int } // z==0: infinity

func mod(v *big.Int) *big.Int { return v.Mod(v, P) }

func (p Point) jac() jac {
	if p.Inf() {
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	return jac{new(big.Int).Set(p.X), new(big.Int).Set(p.Y), big.NewInt(1)}
}

func (j jac) affine() Point {
	if j.z.Sign() == 0 {
		return Point{}
	}
	zi := new(big.Int).ModInverse(j.z, P)
	zi2 := mod(new(big.Int).Mul(zi, zi))
	x := mod(new(big.Int).Mul(j.x, zi2))
	y := mod(new(big.Int).Mul(j.y, mod(new(big.Int).Mul(zi2, zi))))
	return Point{x, y}
}

func dbl(j jac) jac {
	if j.z.Sign() == 0 || j.y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	a := mod(new(big.Int).Mul(j.x, j.x))
	b := mod(new(big.Int).Mul(j.y, j.y))
	c := mod(new(big.Int).Mul(b, b))
	d := new(big.Int).Add(j.x, b)
	d.Mul(d, d).Sub(d, a).Sub(d, c)
	d.Lsh(d, 1)
	mod(d)
	e := new(big.Int).Mul(a, three)
	f := mod(new(big.Int).Mul(e, e))
	x := new(big.Int).Sub(f, new(big.Int).Lsh(d, 1))
	mod(x)
	y := new(big.Int).Sub(d, x)
	y.Mul(y, e).Sub(y, new(big.Int).Lsh(c, 3))
	mod(y)
	z := new(big.Int).Mul(j.y, j.z)
	z.Lsh(z, 1)
	mod(z)
	return jac{x, y, z}
}

// addA adds an affine non-infinite point (mixed addition).
func addA(j jac, q Point) jac {
	if q.Inf() {
		return j
	}
	if j.z.Sign() == 0 {
		return q.jac()
	}
	z2 := mod(new(big.Int).Mul(j.z, j.z))
	u2 := mod(new(big.Int).Mul(q.X, z2))
	s2 := mod(new(big.Int).Mul(q.Y, mod(new(big.Int).Mul(z2, j.z))))
	h := mod(new(big.Int).Sub(u2, j.x))
	r := mod(new(big.Int).Sub(s2, j.y))
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return dbl(j)
		}
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	h2 := mod(new(big.Int).Mul(h, h))
	h3 := mod(new(big.Int).Mul(h2, h))
	v := mod(new(big.Int).Mul(j.x, h2))
	x := new(big.Int).Mul(r, r)
	x.Sub(x, h3).Sub(x, new(big.Int).Lsh(v, 1))
	mod(x)
	y := new(big.Int).Sub(v, x)
	y.Mul(y, r).Sub(y, new(big.Int).Mul(j.y, h3))
	mod(y)
	z := mod(new(big.Int).Mul(j.z, h))
	return jac{x, y, z}
}

// Add is affine addition.
func Add(a, b Point) Point { return addA(a.jac(), b).affine() }

var baseTable [64][15]Point // baseTable[i][d-1] = d * 16^i * G

func init() {
	cur := Point{Gx, Gy}
	for i := 0; i < 64; i++ {
		j := cur.jac()
		for d := 0; d < 15; d++ {
			baseTable[i][d] = j.affine()
			j = addA(j, cur)
		}
		cur = j.affine()
	}
}

// BaseMul returns k*G (k reduced mod N).
func BaseMul(k *big.Int) Point {
	k = new(big.Int).Mod(k, N)
	var buf [32]byte
	k.FillBytes(buf[:])
	j := Point{}.jac()
	for i := 0; i < 64; i++ {
		b := buf[31-i/2]
		d := b & 15
		if i&1 == 1 {
			d = b >> 4
		}
		if d != 0 {
			j = addA(j, baseTable[i][d-1])
		}
	}
	return j.affine()
}

// Compress gives the 33-byte SEC1 form.
func Compress(p Point) [33]byte {
	var out [33]byte
	out[0] = 2 + byte(p.Y.Bit(0))
	p.X.FillBytes(out[1:])
	return out
}

var sqrtExp = new(big.Int).Rsh(new(big.Int).Add(P, one), 2)

// LiftX returns the point with abscissa x and the parity of y, if any.
func LiftX(x *big.Int, odd bool) (Point, bool) {
	if x.Sign() < 0 || x.Cmp(P) >= 0 {
		return Point{}, false
	}
	c := new(big.Int).Exp(x, three, P)
	c.Add(c, seven)
	mod(c)
	y := new(big.Int).Exp(c, sqrtExp, P)
	if mod(new(big.Int).Mul(y, y)).Cmp(c) != 0 {
		return Point{}, false
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(P, y)
	}
	return Point{new(big.Int).Set(x), y}, true
}

// LiftY returns a point with ordinate y, if one exists.
func LiftY(y *big.Int) (Point, bool) {
	a := new(big.Int).Mul(y, y)
	a.Sub(a, seven)
	mod(a)
	// P = 7 mod 9: a cube root of a cubic residue is a^((P+2)/9)
	e := new(big.Int).Add(P, two)
	e.Div(e, big.NewInt(9))
	x := new(big.Int).Exp(a, e, P)
	if new(big.Int).Exp(x, three, P).Cmp(a) != 0 {
		return Point{}, false
	}
	return Point{x, new(big.Int).Set(y)}, true
}

// Decompress parses a 33-byte compressed point.
func Decompress(b []byte) (Point, bool) {
	if len(b) != 33 || (b[0] != 2 && b[0] != 3) {
		return Point{}, false
	}
	return LiftX(new(big.Int).SetBytes(b[1:]), b[0] == 3)
}
