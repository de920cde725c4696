// Package ref is the independent reference model: secp256k1, base58, WIF,
// SEC1, addresses and BIP-39, written from the published specifications and
// sharing no code with the library under test.
package ref

import (
	"math/big"
	"sync"
)

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant " + s)
	}
	return v
}

// Curve constants (SEC 2, secp256k1).
var (
	P  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	N  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	Gx = hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	Gy = hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")

	one   = big.NewInt(1)
	seven = big.NewInt(7)
)

// Point is an affine point; Inf marks the point at infinity.
type Point struct {
	X, Y *big.Int
	Inf  bool
}

// G returns the generator.
func G() Point { return Point{X: new(big.Int).Set(Gx), Y: new(big.Int).Set(Gy)} }

func mod(x *big.Int) *big.Int { return x.Mod(x, P) }

// OnCurve reports whether (x, y), both in [0, P), satisfies y^2 = x^3 + 7.
func OnCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(P) >= 0 || y.Cmp(P) >= 0 {
		return false
	}
	l := mod(new(big.Int).Mul(y, y))
	return l.Cmp(rhs(x)) == 0
}

func rhs(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	mod(r)
	r.Mul(r, x)
	r.Add(r, seven)
	return mod(r)
}

// Lift returns the y of the given parity for x, if x is on the curve.
func Lift(x *big.Int, odd uint) (*big.Int, bool) {
	if x.Sign() < 0 || x.Cmp(P) >= 0 {
		return nil, false
	}
	y := new(big.Int).ModSqrt(rhs(x), P)
	if y == nil {
		return nil, false
	}
	if y.Bit(0) != odd {
		y.Sub(P, y)
	}
	return y, true
}

// Neg returns -p.
func Neg(p Point) Point {
	if p.Inf {
		return p
	}
	return Point{X: new(big.Int).Set(p.X), Y: mod(new(big.Int).Neg(p.Y))}
}

// Add returns p+q by the textbook affine chord-and-tangent rule.
func Add(p, q Point) Point {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var num, den *big.Int
	if p.X.Cmp(q.X) == 0 {
		if mod(new(big.Int).Add(p.Y, q.Y)).Sign() == 0 {
			return Point{Inf: true}
		}
		num = new(big.Int).Mul(p.X, p.X)
		num.Mul(num, big.NewInt(3))
		den = new(big.Int).Lsh(p.Y, 1)
	} else {
		num = new(big.Int).Sub(q.Y, p.Y)
		den = new(big.Int).Sub(q.X, p.X)
	}
	l := mod(num)
	l.Mul(l, new(big.Int).ModInverse(mod(den), P))
	mod(l)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	mod(x)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	mod(y)
	return Point{X: x, Y: y}
}

// jacobian double-and-add, left to right
type jac struct{ x, y, z *big.Int }

func (a jac) inf() bool { return a.z.Sign() == 0 }

func (a jac) dbl() jac {
	if a.inf() || a.y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	xx := mod(new(big.Int).Mul(a.x, a.x))
	yy := mod(new(big.Int).Mul(a.y, a.y))
	yyyy := mod(new(big.Int).Mul(yy, yy))
	s := new(big.Int).Mul(a.x, yy)
	s.Lsh(s, 2)
	mod(s)
	m := new(big.Int).Mul(xx, big.NewInt(3))
	x := new(big.Int).Mul(m, m)
	x.Sub(x, new(big.Int).Lsh(s, 1))
	mod(x)
	y := new(big.Int).Sub(s, x)
	y.Mul(y, m)
	y.Sub(y, new(big.Int).Lsh(yyyy, 3))
	mod(y)
	z := new(big.Int).Mul(a.y, a.z)
	z.Lsh(z, 1)
	return jac{x, y, mod(z)}
}

func (a jac) addAff(q Point) jac {
	if a.inf() {
		return jac{new(big.Int).Set(q.X), new(big.Int).Set(q.Y), big.NewInt(1)}
	}
	zz := mod(new(big.Int).Mul(a.z, a.z))
	u2 := mod(new(big.Int).Mul(q.X, zz))
	s2 := new(big.Int).Mul(q.Y, zz)
	mod(s2)
	s2.Mul(s2, a.z)
	mod(s2)
	h := mod(new(big.Int).Sub(u2, a.x))
	r := mod(new(big.Int).Sub(s2, a.y))
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return a.dbl()
		}
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	hh := mod(new(big.Int).Mul(h, h))
	hhh := mod(new(big.Int).Mul(hh, h))
	v := mod(new(big.Int).Mul(a.x, hh))
	x := new(big.Int).Mul(r, r)
	x.Sub(x, hhh)
	x.Sub(x, new(big.Int).Lsh(v, 1))
	mod(x)
	y := new(big.Int).Sub(v, x)
	y.Mul(y, r)
	y.Sub(y, new(big.Int).Mul(a.y, hhh))
	mod(y)
	z := mod(new(big.Int).Mul(a.z, h))
	return jac{x, y, z}
}

// Mul returns k*p for 0 <= k.
func Mul(k *big.Int, p Point) Point {
	r := jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	if !p.Inf {
		for i := k.BitLen() - 1; i >= 0; i-- {
			r = r.dbl()
			if k.Bit(i) == 1 {
				r = r.addAff(p)
			}
		}
	}
	if r.inf() {
		return Point{Inf: true}
	}
	zi := new(big.Int).ModInverse(r.z, P)
	zi2 := mod(new(big.Int).Mul(zi, zi))
	x := mod(new(big.Int).Mul(r.x, zi2))
	zi2.Mul(zi2, zi)
	y := mod(new(big.Int).Mul(r.y, mod(zi2)))
	return Point{X: x, Y: y}
}

var (
	gMu    sync.Mutex
	gCache = map[string]Point{}
)

// MulG returns k*G (memoised; callers get their own copy).
func MulG(k *big.Int) Point {
	key := k.Text(62)
	gMu.Lock()
	p, ok := gCache[key]
	gMu.Unlock()
	if !ok {
		p = Mul(new(big.Int).Mod(k, N), G())
		gMu.Lock()
		gCache[key] = p
		gMu.Unlock()
	}
	if p.Inf {
		return p
	}
	return Point{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}

// ValidKey reports 1 <= k < N.
func ValidKey(k *big.Int) bool { return k != nil && k.Sign() > 0 && k.Cmp(N) < 0 }
