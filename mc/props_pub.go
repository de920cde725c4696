package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/aureleoules/btc"

	"verif/mc/ref"
)

func init() {
	register(&Prop{ID: "C08", Cheap: true, Gen: genC08,
		Bound: "every scalar of the structured alphabet (1..64 and n-64..n-1, all 2^i, 2^i+-1, n-2^i, bit/byte holes, runs, mined points; thorough: 1..2048 and mirror, all 2^i+-2^j on a grid) x networks, and out-of-range integers (0, n.., 2n.., 2^256.., negatives)"})
	register(&Prop{ID: "C09", Cheap: true, Gen: genC09,
		Bound: "every point k*G of the structured scalar alphabet incl. mined points with 1..5 leading zero nibbles in X or Y, both parities (P and -P), x=1..2000 small-x points, 3 letter cases, 2 forms, networks"})
	register(&Prop{ID: "C10", Cheap: true, Gen: genC10,
		Bound: "all lengths 0..200 x prefixes x fills, all 256 prefix bytes, all 256 byte values at every position (replace, insert, delete), all small x and x near p (incl. x>=p), off-curve y (all single-bit flips, negations, swaps), hybrid and infinity encodings"})
	register(&Prop{ID: "C11", Cheap: true, Gen: genC11,
		Bound: "structured and mined points (hash160/checksum with leading zero nibbles, small and large coordinates) x 2 forms x networks; all 256 one-byte prefixes; multi-byte, empty-case-variant and invalid-hex prefixes"})
	register(&Prop{ID: "C12", Cheap: true, Gen: genC12,
		Bound: "all ordered pairs of a point set closed under negation (multiples of G at range ends, small x, spread), both flags; off-curve operands in either or both positions; all network pairs"})
	register(&Prop{ID: "C13", Gen: genC13,
		Bound: "all pairs and all triples of a boundary-rich key alphabet, both groupings; products b<=65 by repeated public addition and by double-and-add for full-size b; through Format, import and Address on several networks"})
}

// ------------------------------------------------------------------- C08

func genC08(g *Gen) {
	nets := allNets()
	for i, k := range keySet(g.D(1, 2, 2), g.D(200, 3000, 60000)) {
		k := k
		ns := []Net{nets[i%len(nets)]}
		if i < 40 {
			ns = nets
		}
		for _, n := range ns {
			n := n
			g.Add("scalar/"+n.name+"/"+k.name, func(c *Ctx) {
				want := ref.MulG(k.v)
				key := c.mustPriv(k.v, n)
				p, ok := c.Pub(key)
				if !ok {
					c.Failf("GetPublicKey(%x) failed", k.v)
				}
				c.checkPub(fmt.Sprintf("GetPublicKey(%x)", k.v), p, want, n)
				if key.Key.Cmp(k.v) != 0 {
					c.Failf("GetPublicKey changed its key %x to %x", k.v, key.Key)
				}
				c.Outcome("derived")
			})
		}
	}
	// every byte of the scalar, over a zero and a mixed background
	mixed := hexBig("8613DFD6C099751DCC4020EF6F9BCD3C99F4565A15B26979B4B93C145D1A5CEB")
	for pos := uint(0); pos <= 248; pos += uint(g.D(8, 4, 1)) {
		for bg, base := range []*big.Int{bi(0), mixed} {
			for lo := int64(0); lo < 256; lo += 16 {
				pos, base, lo := pos, base, lo
				n := nets[int(pos/8)%len(nets)]
				g.Add(fmt.Sprintf("byte/%d/bg%d/%d", pos, bg, lo), func(c *Ctx) {
					for v := lo; v < lo+16; v++ {
						k := new(big.Int).AndNot(base, lsh(0xff, pos))
						k.Or(k, lsh(v, pos))
						if !ref.ValidKey(k) {
							continue
						}
						p, ok := c.Pub(rawPriv(k, n))
						if !ok {
							c.Failf("GetPublicKey(%x) failed", k)
						}
						c.checkPub(fmt.Sprintf("GetPublicKey(%x)", k), p, ref.MulG(k), n)
					}
					c.Outcome("derived")
				})
			}
		}
	}
	var bad []K
	add1 := func(name string, v *big.Int) { bad = append(bad, K{name, v}) }
	for i := int64(0); i <= int64(g.D(20, 200, 2000)); i++ {
		add1(fmt.Sprintf("n+%d", i), add(ref.N, bi(i)))
		add1(fmt.Sprintf("-%d", i), bi(-i))
		add1(fmt.Sprintf("2n+%d", i), add(new(big.Int).Lsh(ref.N, 1), bi(i)))
		add1(fmt.Sprintf("2n-%d", i), sub(new(big.Int).Lsh(ref.N, 1), bi(i)))
		add1(fmt.Sprintf("2^256+%d", i), add(lsh(1, 256), bi(i)))
		add1(fmt.Sprintf("2^256-1-%d", i), sub(lsh(1, 256), bi(i+1)))
		add1(fmt.Sprintf("n-n*%d", i), sub(ref.N, new(big.Int).Mul(ref.N, bi(i+1))))
	}
	for i := uint(256); i < 600; i += 13 {
		add1(fmt.Sprintf("2^%d+7", i), add(lsh(1, i), bi(7)))
		add1(fmt.Sprintf("-2^%d", i), new(big.Int).Neg(lsh(1, i)))
	}
	for i := uint(0); i < 256; i++ {
		if v := add(ref.N, lsh(1, i)); true {
			add1(fmt.Sprintf("n+2^%d", i), v)
		}
	}
	add1("-n", new(big.Int).Neg(ref.N))
	add1("-(n-1)", sub(bi(1), ref.N))
	add1("n^2", new(big.Int).Mul(ref.N, ref.N))
	add1("p", ref.P)
	for _, k := range bad {
		k := k
		if ref.ValidKey(k.v) {
			panic("C08: bad alphabet")
		}
		g.Add("out-of-range/"+k.name, func(c *Ctx) {
			p, ok := c.Pub(rawPriv(k.v, netMain()))
			if ok || p != nil {
				c.Failf("GetPublicKey of out-of-range %x gave %s, ok=%v", k.v, showPub(p), ok)
			}
			c.State("out-of-range", k.v.Text(62))
			c.Outcome("rejected")
		})
	}
}

// ---------------------------------------------------------------- points

// Pt is a named curve point.
type Pt struct {
	name string
	p    ref.Point
}

// points returns k*G for the alphabet plus points with tiny x, each with its
// negative.
func points(level, random, smallX int) []Pt {
	var out []Pt
	seen := map[string]bool{}
	put := func(name string, p ref.Point) {
		beat() // a long preparation is no hang
		t := p.X.Text(62) + fmt.Sprint(p.Y.Bit(0))
		if !seen[t] {
			seen[t] = true
			out = append(out, Pt{name, p})
		}
	}
	for _, k := range keySet(level, random) {
		p := ref.MulG(k.v)
		put(k.name, p)
		put("-"+k.name, ref.Neg(p))
	}
	if level == 0 {
		for _, m := range minedScalars {
			if strings.HasPrefix(m.class, "x-") || strings.HasPrefix(m.class, "y-") || strings.HasPrefix(m.class, "h160") || strings.HasPrefix(m.class, "addr") {
				put("mined:"+m.class, ref.MulG(bi(m.k)))
			}
		}
	}
	for x := int64(1); x <= int64(smallX); x++ {
		for _, v := range []*big.Int{bi(x), sub(ref.P, bi(x))} {
			if y, ok := ref.Lift(v, 0); ok {
				put(fmt.Sprintf("x=%d.%v", x, v.Sign() > 0 && v.BitLen() < 64), ref.Point{X: v, Y: y})
				y, _ = ref.Lift(v, 1)
				put(fmt.Sprintf("x=%d.%v'", x, v.BitLen() < 64), ref.Point{X: v, Y: y})
			}
		}
	}
	// points with tiny or huge y: x^3 = y^2-7
	for y := int64(1); y <= int64(smallX); y++ {
		if x, ok := cubeRoot(sub(bi(y*y), bi(7))); ok {
			put(fmt.Sprintf("y=%d", y), ref.Point{X: x, Y: bi(y)})
			put(fmt.Sprintf("y=-%d", y), ref.Point{X: x, Y: sub(ref.P, bi(y))})
		}
	}
	return out
}

// cubeRoot gives x with x^3 = v, if there is one (p = 7 mod 9).
func cubeRoot(v *big.Int) (*big.Int, bool) {
	v = new(big.Int).Mod(v, ref.P)
	x := new(big.Int).Exp(v, new(big.Int).Div(add(ref.P, bi(2)), bi(9)), ref.P)
	c := new(big.Int).Exp(x, bi(3), ref.P)
	return x, c.Cmp(v) == 0
}

// nearCurve returns points off the curve that miss its equation by little:
// y^2 = x^3+7+d for d = +-2^i, and points of the curves y^2 = x^3+b, of the
// curve with another a, and pairs with y^2 = -(x^3+7).
func nearCurve() []Pt {
	var out []Pt
	put := func(name string, x, y2 *big.Int) {
		y2 = new(big.Int).Mod(y2, ref.P)
		y := new(big.Int).ModSqrt(y2, ref.P)
		if y == nil || ref.OnCurve(x, y) {
			return
		}
		out = append(out, Pt{name, ref.Point{X: x, Y: y}})
		if y.Sign() != 0 {
			out = append(out, Pt{name + "'", ref.Point{X: x, Y: sub(ref.P, y)}})
		}
	}
	g3 := ref.MulG(bi(3)).X
	for xi, x := range []*big.Int{ref.G().X, g3, bi(1), bi(3), bi(5)} {
		f := add(new(big.Int).Exp(x, bi(3), ref.P), bi(7))
		for i := uint(0); i < 256; i++ {
			put(fmt.Sprintf("d=2^%d/x%d", i, xi), x, add(f, lsh(1, i)))
			put(fmt.Sprintf("d=-2^%d/x%d", i, xi), x, sub(f, lsh(1, i)))
		}
		for b := int64(-20); b <= 20; b++ {
			put(fmt.Sprintf("b=%d/x%d", b, xi), x, add(sub(f, bi(7)), bi(b)))
		}
		for a := int64(-4); a <= 4; a++ {
			put(fmt.Sprintf("a=%d/x%d", a, xi), x, add(f, new(big.Int).Mul(bi(a), x)))
		}
		put(fmt.Sprintf("twist/x%d", xi), x, new(big.Int).Neg(f))
	}
	return out
}

// agreeing returns curve points whose x (or y) agrees with that of p in all
// bits below, or above, each multiple of 16.
func agreeing(p ref.Point) []Pt {
	var out []Pt
	for b := uint(16); b < 256; b += 16 {
		for t := int64(1); t < 40; t++ {
			for _, hi := range []bool{false, true} {
				d := lsh(t, b) // changes bits b and up
				if hi {
					d = bi(t) // changes bits below b
					if b != 16 {
						d = lsh(t, b-16)
					}
				}
				x := new(big.Int).Xor(p.X, d)
				if x.Cmp(ref.P) < 0 {
					if y, ok := ref.Lift(x, uint(t)&1); ok {
						out = append(out, Pt{fmt.Sprintf("x/%d/%d/%v", b, t, hi), ref.Point{X: x, Y: y}})
					}
				}
				y := new(big.Int).Xor(p.Y, d)
				if y.Cmp(ref.P) < 0 {
					if x, ok := cubeRoot(sub(new(big.Int).Mul(y, y), bi(7))); ok {
						out = append(out, Pt{fmt.Sprintf("y/%d/%d/%v", b, t, hi), ref.Point{X: x, Y: y}})
					}
				}
			}
		}
	}
	return out
}

// ------------------------------------------------------------------- C09

func genC09(g *Gen) {
	nets := allNets()
	pts := points(1, g.D(200, 2000, 20000), g.D(150, 1000, 10000))
	for i, pt := range pts {
		pt := pt
		n := nets[i%len(nets)]
		g.Add("point/"+n.name+"/"+pt.name, func(c *Ctx) {
			pub := rawPub(pt.p, n)
			for _, comp := range []bool{false, true} {
				want := ref.Hex(ref.SEC1(pt.p, comp))
				if s := c.Format(pub, comp); s != want {
					c.Failf("Format(%v) of (%x,%x) is %q, want %q", comp, pt.p.X, pt.p.Y, s, want)
				}
				for _, f := range []string{want, strings.ToUpper(want), mixCase(want)} {
					q, err := c.PubHex(f, n)
					if err != nil {
						c.Failf("PublicFromHex(%q): %v", f, err)
					}
					c.checkPub(fmt.Sprintf("PublicFromHex(%q)", f), q, pt.p, n)
					for _, comp2 := range []bool{false, true} {
						if s := c.Format(q, comp2); s != ref.Hex(ref.SEC1(pt.p, comp2)) {
							c.Failf("Format(PublicFromHex(%q), %v) is %q", f, comp2, s)
						}
					}
				}
			}
			if pub.X.Cmp(pt.p.X) != 0 || pub.Y.Cmp(pt.p.Y) != 0 {
				c.Failf("formatting changed the key")
			}
			c.Outcome("round trip")
		})
	}
	total := int64(g.D(8192, 32768, 1<<22))
	for lo := int64(1); lo < total; lo += 128 {
		lo := lo
		n := nets[int(lo/128)%len(nets)]
		g.Add(fmt.Sprintf("multiples/%d", lo), func(c *Ctx) {
			consecutive(lo, lo+128, func(k int64, p ref.Point) {
				if k%2 == 0 {
					p = ref.Neg(p)
				}
				for _, comp := range []bool{false, true} {
					want := ref.Hex(ref.SEC1(p, comp))
					if s := c.Format(rawPub(p, n), comp); s != want {
						c.Failf("Format(%v) of (%x,%x) is %q, want %q", comp, p.X, p.Y, s, want)
					}
					q, err := c.PubHex(want, n)
					if err != nil {
						c.Failf("PublicFromHex(%q): %v", want, err)
					}
					c.checkPub(fmt.Sprintf("PublicFromHex(%q)", want), q, p, n)
				}
			})
			c.Outcome("multiples")
		})
	}
}

// consecutive calls f for k*G, k = lo..hi-1.
func consecutive(lo, hi int64, f func(k int64, p ref.Point)) {
	p := ref.MulG(bi(lo))
	g := ref.MulG(bi(1))
	for k := lo; k < hi; k++ {
		f(k, p)
		p = ref.Add(p, g)
	}
}

// ------------------------------------------------------------------- C10

func (c *Ctx) pubImport(s string, n Net) {
	p, ok := ref.ParseSEC1(s)
	q, err := c.PubHex(s, n)
	what := fmt.Sprintf("PublicFromHex(%q, %s)", s, n.name)
	if ok {
		if err != nil {
			c.Failf("%s: unexpected error %q", what, err)
		}
		c.checkPub(what, q, p, n)
		c.Outcome("accepted")
		return
	}
	c.noPub(what, q, err)
	c.State("reject", s)
	c.Outcome("rejected")
}

func genC10(g *Gen) {
	n := netMain()
	P := ref.MulG(hexBig(repoKeys[0]))
	u, z := ref.Hex(ref.SEC1(P, false)), ref.Hex(ref.SEC1(P, true))
	for l := 0; l <= 200; l++ {
		l := l
		g.Add(fmt.Sprintf("length/%d", l), func(c *Ctx) {
			for _, pre := range []string{"", "04", "02", "03", "0", "4", "00", "06", "07", "ff"} {
				for _, fill := range []string{"0", "1", "f", "F", "7", " ", "g", "-"} {
					s := pre + strings.Repeat(fill, 200)
					c.pubImport(s[:l], n)
				}
			}
			for _, b := range []string{u, z, "03" + z[2:], "02" + u[2:], "04" + z[2:], strings.ToUpper(u)} {
				long := b + b + b + b
				c.pubImport(long[:l], n)
				if l <= len(b) {
					c.pubImport(b[len(b)-l:], n)
				} else {
					c.pubImport(b+strings.Repeat("0", l-len(b)), n)
					c.pubImport(strings.Repeat("0", l-len(b))+b, n)
					c.pubImport(b+strings.Repeat(" ", l-len(b)), n)
				}
			}
		})
	}
	for _, l := range []int{256, 260, 512, 1000, 4096, 65536} {
		l := l
		g.Add(fmt.Sprintf("length/%d", l), func(c *Ctx) {
			for _, b := range []string{u, z} {
				pad := strings.Repeat("0", l-len(b))
				c.pubImport(b+pad, n)
				c.pubImport(pad+b, n)
				c.pubImport(b[:2]+pad+b[2:], n)
				c.pubImport(strings.Repeat(b, l/len(b)), n)
			}
		})
	}
	for b := 0; b < 256; b++ {
		b := b
		g.Add(fmt.Sprintf("prefix/%02x", b), func(c *Ctx) {
			for _, base := range []string{u, z} {
				c.pubImport(fmt.Sprintf("%02x", b)+base[2:], n)
				c.pubImport(fmt.Sprintf("%02X", b)+base[2:], n)
				c.pubImport(fmt.Sprintf("%02x", b)+base, n)
				c.pubImport(string([]byte{byte(b)})+base[1:], n)
				c.pubImport("0"+string([]byte{byte(b)})+base[2:], n)
			}
		})
	}
	for bi0, base := range []string{u, z, strings.ToUpper(u)} {
		for i := 0; i <= len(base); i++ {
			base, i := base, i
			g.Add(fmt.Sprintf("char/%d/pos%d", bi0, i), func(c *Ctx) {
				for b := 0; b < 256; b++ {
					ch := string([]byte{byte(b)})
					if i < len(base) {
						c.pubImport(base[:i]+ch+base[i+1:], n)
					}
					c.pubImport(base[:i]+ch+base[i:], n)
				}
				for _, x := range []string{"é", "１", "0x", "\r\n", "+", "__"} {
					if i+len(x) <= len(base) {
						c.pubImport(base[:i]+x+base[i+len(x):], n)
					}
				}
				if i < len(base) {
					c.pubImport(base[:i]+base[i+1:], n)
				}
			})
		}
	}
	h64 := func(v *big.Int) string { return ref.Hex(ref.Key32(v)) }
	tryX := func(c *Ctx, x *big.Int) {
		for _, pre := range []string{"02", "03"} {
			c.pubImport(pre+h64(x), n)
		}
		// the matching uncompressed forms
		xr := new(big.Int).Mod(x, ref.P)
		if y, ok := ref.Lift(xr, 0); ok {
			c.pubImport("04"+h64(x)+h64(y), n)
			c.pubImport("04"+h64(x)+h64(sub(ref.P, y)), n)
			for _, yy := range []*big.Int{add(y, ref.P), sub(add(ref.P, ref.P), y)} {
				if yy.BitLen() <= 256 {
					c.pubImport("04"+h64(x)+h64(yy), n)
				}
			}
		}
		for _, y := range []*big.Int{bi(0), bi(1), ref.P, sub(ref.P, bi(1)), x, sub(lsh(1, 256), bi(1))} {
			if y.BitLen() <= 256 {
				c.pubImport("04"+h64(x)+h64(y), n)
			}
		}
	}
	lim := int64(g.D(600, 6000, 400000))
	for i := int64(0); i < lim; i += 10 {
		i := i
		g.Add(fmt.Sprintf("x/%d..", i), func(c *Ctx) {
			for j := i; j < i+10; j++ {
				tryX(c, bi(j))
				tryX(c, sub(ref.P, bi(j)))
				tryX(c, add(ref.P, bi(j)))
				tryX(c, sub(sub(lsh(1, 256), bi(1)), bi(j)))
				if v := new(big.Int).Mod(add(ref.N, bi(j)), lsh(1, 256)); true {
					tryX(c, v)
				}
			}
		})
	}
	for i := uint(0); i < 256; i += 4 {
		i := i
		g.Add(fmt.Sprintf("x/bits/%d", i), func(c *Ctx) {
			for j := i; j < i+4; j++ {
				tryX(c, lsh(1, j))
				tryX(c, new(big.Int).Xor(P.X, lsh(1, j)))
				tryX(c, sub(lsh(1, 256), lsh(1, j)))
			}
		})
	}
	// unreduced encodings of points whose x or y is below 2^256-p
	for i := int64(1); i <= int64(g.D(400, 4000, 200000)); i++ {
		v := bi(i)
		if y, ok := ref.Lift(v, 0); ok {
			y := y
			g.Add(fmt.Sprintf("unreduced/x=%d", i), func(c *Ctx) {
				for _, yy := range []*big.Int{y, sub(ref.P, y)} {
					c.pubImport("04"+h64(v)+h64(yy), n)
					c.pubImport("04"+h64(add(v, ref.P))+h64(yy), n)
					c.pubImport(fmt.Sprintf("%02x", 2+yy.Bit(0))+h64(add(v, ref.P)), n)
				}
			})
		}
	}
	for i, pt := range points(0, g.D(20, 400, 4000), g.D(40, 400, 4000)) {
		pt := pt
		if !g.Thorough && i%2 == 1 && i > 60 {
			continue
		}
		g.Add("point/"+pt.name, func(c *Ctx) {
			x, y := pt.p.X, pt.p.Y
			c.pubImport("04"+h64(x)+h64(y), n)
			for _, m := range allNets()[1:4] {
				c.pubImport(ref.Hex(ref.SEC1(pt.p, true)), m)
				c.pubImport(ref.Hex(ref.SEC1(pt.p, false)), m)
			}
			for _, d := range []int64{1, -1, 2, -2} {
				if v := add(y, bi(d)); v.Sign() >= 0 && v.BitLen() <= 256 {
					c.pubImport("04"+h64(x)+h64(v), n)
				}
				if v := add(x, bi(d)); v.Sign() >= 0 && v.BitLen() <= 256 {
					c.pubImport("04"+h64(v)+h64(y), n)
				}
			}
			if v := add(y, ref.P); v.BitLen() <= 256 { // unreduced y
				c.pubImport("04"+h64(x)+h64(v), n)
			}
			c.pubImport("04"+h64(y)+h64(x), n)
			c.pubImport("04"+h64(x)+h64(x), n)
			c.pubImport("04"+h64(new(big.Int).Mod(new(big.Int).Neg(x), ref.P))+h64(y), n)
			for _, pre := range []string{"06", "07", "05", "00", "01", "08"} {
				c.pubImport(pre+h64(x)+h64(y), n)
				c.pubImport(pre+h64(x), n)
			}
			c.pubImport("02"+h64(x)+h64(y), n)
			c.pubImport("03"+h64(x)+h64(y), n)
			c.pubImport("04"+h64(x), n)
			// endomorphism images are other valid points
			beta := hexBig("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")
			bx := new(big.Int).Mod(new(big.Int).Mul(x, beta), ref.P)
			c.pubImport("04"+h64(bx)+h64(y), n)
			c.pubImport("02"+h64(bx), n)
		})
	}
	for i := uint(0); i < 256; i += 2 {
		i := i
		g.Add(fmt.Sprintf("offcurve/bits/%d", i), func(c *Ctx) {
			for j := i; j < i+2; j++ {
				for _, Q := range []ref.Point{P, ref.G(), ref.MulG(bi(2))} {
					c.pubImport("04"+h64(Q.X)+h64(new(big.Int).Xor(Q.Y, lsh(1, j))), n)
					c.pubImport("04"+h64(new(big.Int).Xor(Q.X, lsh(1, j)))+h64(Q.Y), n)
				}
			}
		})
	}
	near := nearCurve()
	for i := 0; i < len(near); i += 32 {
		i := i
		g.Add(fmt.Sprintf("nearcurve/%d", i), func(c *Ctx) {
			for j := i; j < i+32 && j < len(near); j++ {
				q := near[j].p
				c.pubImport("04"+h64(q.X)+h64(q.Y), n)
				c.pubImport("04"+h64(q.Y)+h64(q.X), n)
				c.pubImport("02"+h64(q.Y), n)
				c.pubImport("03"+h64(q.Y), n)
			}
		})
	}
	g.Add("mixed", func(c *Ctx) {
		all := points(0, 0, 10)
		for i := range all {
			for _, j := range []int{i + 1, i + 2, i + 7} {
				q := all[j%len(all)].p
				c.pubImport("04"+h64(all[i].p.X)+h64(q.Y), n)
			}
		}
		for _, s := range []string{"", "0", "00", "04", "02", "03", "0x" + u, "0x" + z, u + "\n", z + "\n", " " + z, z + " ", u + z, z + z, u + u, "04" + u, "02" + z} {
			c.pubImport(s, n)
		}
	})
}

// ------------------------------------------------------------------- C11

func (c *Ctx) addrCheck(p *btc.PublicKey, pt ref.Point, n Net) {
	for _, comp := range []bool{true, false} {
		a, err := c.Addr(p, comp)
		want := ref.Address(n.pub, pt, comp)
		if err != nil {
			c.Failf("Address(%v) of (%x,%x) on %s: %v", comp, pt.X, pt.Y, n.name, err)
		}
		if a != want {
			c.Failf("Address(%v) of (%x,%x) on %s is %q, want %q", comp, pt.X, pt.Y, n.name, a, want)
		}
		c.State("addr", want)
		c.Outcome("address")
	}
}

func genC11(g *Gen) {
	for _, pt := range points(1, g.D(200, 5000, 15000), g.D(100, 2000, 10000)) {
		pt := pt
		g.Add("point/"+pt.name, func(c *Ctx) {
			for _, n := range allNets() {
				c.addrCheck(rawPub(pt.p, n), pt.p, n)
			}
			q, err := c.PubHex(ref.Hex(ref.SEC1(pt.p, true)), netTest())
			if err != nil {
				c.Failf("import: %v", err)
			}
			c.addrCheck(q, pt.p, netTest())
			q, err = c.PubHex(ref.Hex(ref.SEC1(pt.p, false)), netMain())
			if err != nil {
				c.Failf("import: %v", err)
			}
			c.addrCheck(q, pt.p, netMain())
		})
	}
	total := int64(g.D(24576, 400000, 5000000))
	for lo := int64(1); lo < total; lo += 256 {
		lo := lo
		n := allNets()[int(lo/256)%len(allNets())]
		g.Add(fmt.Sprintf("multiples/%d", lo), func(c *Ctx) {
			consecutive(lo, lo+256, func(k int64, p ref.Point) { c.addrCheck(rawPub(p, n), p, n) })
		})
	}
	pts := points(0, 0, 4)
	if !g.Thorough {
		pts = pts[:12]
	}
	for v := 0; v < 256; v++ {
		for _, form := range []string{"%02x", "%02X"} {
			s := fmt.Sprintf(form, v)
			n := mkNet("prefix-"+s, "80", s)
			g.Add("prefix/"+s, func(c *Ctx) {
				for _, pt := range pts {
					c.addrCheck(rawPub(pt.p, n), pt.p, n)
				}
			})
		}
	}
	for _, s := range []string{"0000", "1CB8", "1cBd", "00ff00", "ffffffff", "00000000", "04", "0488b21e", strings.Repeat("ab", 32)} {
		n := mkNet("multi-"+s, "80", s)
		g.Add("prefix/multi/"+s, func(c *Ctx) {
			for _, pt := range pts {
				c.addrCheck(rawPub(pt.p, n), pt.p, n)
			}
		})
	}
	// not hex
	var bads []string
	for b := 0; b < 256; b++ {
		s := string([]byte{byte(b)})
		if _, ok := ref.Unhex(s + "0"); !ok {
			bads = append(bads, s+"0", "0"+s, s+s, "00"+s+"0")
		}
		bads = append(bads, s) // odd length
	}
	bads = append(bads, "0x00", "0x", "é", "000", "6F ", " 6F", "6F\n", "00000")
	for i := 0; i < len(bads); i += 16 {
		i := i
		g.Add(fmt.Sprintf("prefix/invalid/%d", i), func(c *Ctx) {
			for j := i; j < i+16 && j < len(bads); j++ {
				net := &btc.Network{PrivKeyPrefix: "80", PubKeyHashPrefix: bads[j]}
				for _, pt := range pts[:6] {
					for _, comp := range []bool{true, false} {
						a, err := c.Addr(&btc.PublicKey{X: pt.p.X, Y: pt.p.Y, Network: net}, comp)
						if err == nil || a != "" {
							c.Failf("Address with invalid prefix %q gives %q, %v; must be an error and no address", bads[j], a, err)
						}
					}
				}
				c.State("invalid prefix", bads[j])
				c.Outcome("invalid prefix rejected")
			}
		})
	}
}

// ------------------------------------------------------------------- C12

func (c *Ctx) addPubCheck(a, b ref.Point, n Net) {
	want := ref.Add(a, b)
	for _, comp := range []bool{false, true} {
		for _, o := range [][2]ref.Point{{a, b}, {b, a}} {
			x, y := rawPub(o[0], n), rawPub(o[1], n)
			r, err := c.AddPub(x, y, comp)
			what := fmt.Sprintf("AddPublicKeys((%x,%x), (%x,%x), %v) on %s", o[0].X, o[0].Y, o[1].X, o[1].Y, comp, n.name)
			if want.Inf {
				c.noPub(what+" [opposite]", r, err)
				c.State("opposite", a.X.Text(62))
				c.Outcome("opposite rejected")
			} else {
				if err != nil {
					c.Failf("%s: %v", what, err)
				}
				c.checkPub(what, r, want, n)
				c.Outcome("sum")
			}
			if x.X.Cmp(o[0].X) != 0 || x.Y.Cmp(o[0].Y) != 0 || y.X.Cmp(o[1].X) != 0 || y.Y.Cmp(o[1].Y) != 0 {
				c.Failf("%s changed an operand", what)
			}
		}
	}
}

func genC12(g *Gen) {
	nets := allNets()
	pts := points(0, g.D(12, 40, 500), g.D(30, 60, 1000))
	for i, a := range pts {
		a, i := a, i
		n := nets[i%len(nets)]
		g.Add("pairs/"+n.name+"/"+a.name, func(c *Ctx) {
			for _, b := range pts[i:] {
				c.addPubCheck(a.p, b.p, n)
			}
			c.addPubCheck(a.p, ref.Neg(a.p), n)
			// one object as both operands
			o := rawPub(a.p, n)
			r, err := c.AddPub(o, o, true)
			if err != nil {
				c.Failf("doubling one object: %v", err)
			}
			c.checkPub("doubling one object", r, ref.Add(a.p, a.p), n)
		})
	}
	// consecutive multiples: kG+G, kG-G, kG+kG at every structured scalar
	for i, k := range keySet(g.D(1, 1, 2), g.D(50, 1000, 40000)) {
		k := k
		n := nets[i%len(nets)]
		g.Add("chain/"+n.name+"/"+k.name, func(c *Ctx) {
			p := ref.MulG(k.v)
			c.addPubCheck(p, ref.G(), n)
			c.addPubCheck(p, ref.Neg(ref.G()), n)
			c.addPubCheck(p, p, n)
			c.addPubCheck(p, ref.Neg(p), n)
			// same x after the endomorphism: same y, different x
			beta := hexBig("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")
			bp := ref.Point{X: new(big.Int).Mod(new(big.Int).Mul(p.X, beta), ref.P), Y: p.Y}
			c.addPubCheck(p, bp, n)
			c.addPubCheck(p, ref.Neg(bp), n)
			b2 := ref.Point{X: new(big.Int).Mod(new(big.Int).Mul(bp.X, beta), ref.P), Y: p.Y}
			c.addPubCheck(bp, b2, n) // = -p
			// routes whose sum is p: doubling its half, a small and a large split
			half := new(big.Int).Mul(k.v, new(big.Int).ModInverse(bi(2), ref.N))
			h := ref.MulG(half.Mod(half, ref.N))
			c.addPubCheck(h, h, n)
			for _, d := range []*big.Int{bi(1), bi(2), bi(3), hexBig(repoKeys[2])} {
				if q := ref.Add(p, ref.Neg(ref.MulG(d))); !q.Inf {
					c.addPubCheck(q, ref.MulG(d), n)
				}
			}
		})
	}
	// off-curve operands
	var off []Pt
	G := ref.G()
	P := ref.MulG(hexBig(repoKeys[1]))
	for i, q := range []ref.Point{G, P, ref.MulG(bi(2))} {
		for _, d := range []int64{1, -1, 2} {
			off = append(off, Pt{fmt.Sprintf("y%+d/%d", d, i), ref.Point{X: q.X, Y: add(q.Y, bi(d))}})
			off = append(off, Pt{fmt.Sprintf("x%+d/%d", d, i), ref.Point{X: add(q.X, bi(d)), Y: q.Y}})
		}
		off = append(off, Pt{fmt.Sprintf("y=0/%d", i), ref.Point{X: q.X, Y: bi(0)}}, Pt{fmt.Sprintf("x=0/%d", i), ref.Point{X: bi(0), Y: q.Y}}, Pt{fmt.Sprintf("swap/%d", i), ref.Point{X: q.Y, Y: q.X}}, Pt{fmt.Sprintf("-x/%d", i), ref.Point{X: sub(ref.P, q.X), Y: q.Y}})
	}
	off = append(off, Pt{"(0,0)", ref.Point{X: bi(0), Y: bi(0)}}, Pt{"(0,1)", ref.Point{X: bi(0), Y: bi(1)}}, Pt{"(0,-1)", ref.Point{X: bi(0), Y: sub(ref.P, bi(1))}}, Pt{"(1,1)", ref.Point{X: bi(1), Y: bi(1)}}, Pt{"(5,0)", ref.Point{X: bi(5), Y: bi(0)}}, Pt{"(0,sqrt)", ref.Point{X: bi(0), Y: bi(7)}})
	on := []Pt{{"G", G}, {"-G", ref.Neg(G)}, {"P", P}, {"-P", ref.Neg(P)}, {"2G", ref.MulG(bi(2))}, {"1", pts[len(pts)-1].p}}
	for _, o := range off {
		o := o
		if ref.OnCurve(o.p.X, o.p.Y) {
			panic("C12: off-curve alphabet")
		}
		g.Add("offcurve/"+o.name, func(c *Ctx) {
			for _, b := range append(append([]Pt{}, on...), off...) {
				for _, comp := range []bool{false, true} {
					for _, pr := range [][2]ref.Point{{o.p, b.p}, {b.p, o.p}} {
						r, err := c.AddPub(rawPub(pr[0], netMain()), rawPub(pr[1], netMain()), comp)
						c.noPub(fmt.Sprintf("AddPublicKeys of off-curve %s and %s", o.name, b.name), r, err)
					}
				}
				c.State("off", o.name, b.name)
				c.Outcome("off-curve rejected")
			}
		})
	}
	near := nearCurve()
	for i := 0; i < len(near); i += 32 {
		i := i
		g.Add(fmt.Sprintf("nearcurve/%d", i), func(c *Ctx) {
			for j := i; j < i+32 && j < len(near); j++ {
				for _, b := range []ref.Point{G, P, near[j].p, near[(j+1)%len(near)].p} {
					for _, pr := range [][2]ref.Point{{near[j].p, b}, {b, near[j].p}} {
						r, err := c.AddPub(rawPub(pr[0], netMain()), rawPub(pr[1], netMain()), j%2 == 0)
						c.noPub(fmt.Sprintf("AddPublicKeys with off-curve %s", near[j].name), r, err)
					}
				}
				c.State("near", near[j].name)
				c.Outcome("off-curve rejected")
			}
		})
	}
	for i, q := range []ref.Point{G, P, ref.MulG(sub(ref.N, bi(7)))} {
		q := q
		ag := agreeing(q)
		for lo := 0; lo < len(ag); lo += 32 {
			lo := lo
			g.Add(fmt.Sprintf("agreeing/%d/%d", i, lo), func(c *Ctx) {
				for j := lo; j < lo+32 && j < len(ag); j++ {
					c.addPubCheck(q, ag[j].p, nets[j%len(nets)])
					c.addPubCheck(q, ref.Neg(ag[j].p), nets[j%len(nets)])
				}
			})
		}
	}
	oddPairs(g, func(c *Ctx, n, m *btc.Network, what string) {
		for i, b := range on {
			r, err := c.AddPub(pubOn(rawPub(P, netMain()), n), pubOn(rawPub(b.p, netMain()), m), i%2 == 0)
			c.noPub("AddPublicKeys across "+what, r, err)
		}
	})
	// sums that are a structured point: tiny or huge coordinates
	for i, t := range points(0, 0, g.D(60, 600, 6000)) {
		t := t
		n := nets[i%len(nets)]
		g.Add("target/"+n.name+"/"+t.name, func(c *Ctx) {
			for _, d := range []ref.Point{G, ref.Neg(P), ref.MulG(bi(3))} {
				if q := ref.Add(t.p, ref.Neg(d)); !q.Inf {
					c.addPubCheck(q, d, n)
				}
			}
		})
	}
	all := append(allNets(), mkNet("main-copy", "80", "00"), mkNet("test-copy", "EF", "6F"), mkNet("80/6F", "80", "6F"), mkNet("EF/00", "EF", "00"))
	for _, n := range all {
		for _, m := range all {
			n, m := n, m
			g.Add("networks/"+n.name+"/"+m.name, func(c *Ctx) {
				for _, b := range on {
					for _, comp := range []bool{false, true} {
						r, err := c.AddPub(rawPub(P, n), rawPub(b.p, m), comp)
						w := ref.Add(P, b.p)
						if *n.net != *m.net || w.Inf {
							c.noPub("networks "+n.name+"/"+m.name, r, err)
							c.Outcome("network rejected")
						} else {
							if err != nil {
								c.Failf("equal networks: %v", err)
							}
							c.checkPub("equal networks", r, w, n)
						}
					}
				}
			})
		}
	}
}

// ------------------------------------------------------------------- C13

// samePub demands that two keys reached along different routes agree in every
// observable.
func (c *Ctx) samePub(what string, p, q *btc.PublicKey) {
	if p == nil || q == nil {
		c.Failf("%s: missing key", what)
	}
	if p.X.Cmp(q.X) != 0 || p.Y.Cmp(q.Y) != 0 {
		c.Failf("%s: routes disagree: %s vs %s", what, showPub(p), showPub(q))
	}
	if *p.Network != *q.Network {
		c.Failf("%s: networks disagree", what)
	}
	for _, comp := range []bool{false, true} {
		if a, b := c.Format(p, comp), c.Format(q, comp); a != b {
			c.Failf("%s: encodings disagree: %s vs %s", what, a, b)
		}
		a, e1 := c.Addr(p, comp)
		b, e2 := c.Addr(q, comp)
		if e1 != nil || e2 != nil || a != b {
			c.Failf("%s: addresses disagree: %s vs %s (%v, %v)", what, a, b, e1, e2)
		}
	}
	c.State("agree", p.X.Text(62), fmt.Sprint(p.Y.Bit(0)))
}

func (c *Ctx) mustPub(k *btc.PrivateKey) *btc.PublicKey {
	p, ok := c.Pub(k)
	if !ok || p == nil {
		c.Failf("no public key for %s", showPriv(k))
	}
	return p
}

func (c *Ctx) mustAddPub(a, b *btc.PublicKey, comp bool) *btc.PublicKey {
	p, err := c.AddPub(a, b, comp)
	if err != nil || p == nil {
		c.Failf("AddPublicKeys(%s, %s): %v", showPub(a), showPub(b), err)
	}
	return p
}

func genC13(g *Gen) {
	nets := allNets()
	var ks []K
	for i, k := range keySet(0, g.T(6, 150)) {
		if g.Thorough || i < 36 || i%2 == 0 {
			ks = append(ks, k)
		}
	}
	for i, a := range ks {
		i, a := i, a
		n := nets[i%len(nets)]
		g.Add("sum/"+n.name+"/"+a.name, func(c *Ctx) {
			ka := c.mustPriv(a.v, n)
			pa := c.mustPub(ka)
			for j := i + 1; j < len(ks); j++ {
				if !g.Thorough && j > i+6 && (j+i)%2 != 0 {
					continue
				}
				b := ks[j]
				sum := combineModel("add", a.v, b.v)
				if sum.Sign() == 0 {
					// no private combination; the public side must agree
					pb := c.mustPub(c.mustPriv(b.v, n))
					r, err := c.AddPub(pa, pb, true)
					c.noPub("a+b=n on the public side", r, err)
					c.Outcome("both infinite")
					continue
				}
				kb := c.mustPriv(b.v, n)
				ks2, err := c.AddPriv(ka, kb)
				if err != nil {
					c.Failf("AddPrivateKeys(%x,%x): %v", a.v, b.v, err)
				}
				left := c.mustPub(ks2)
				right := c.mustAddPub(pa, c.mustPub(kb), j%2 == 0)
				c.samePub(fmt.Sprintf("pub(%x+%x)", a.v, b.v), left, right)
				// through serialisation
				x, err := c.PubHex(c.Format(right, j%2 == 1), n)
				if err != nil {
					c.Failf("re-import: %v", err)
				}
				c.samePub("through serialisation", left, x)
				y, err := c.PubHex(c.Format(pa, j%2 == 0), n)
				if err != nil {
					c.Failf("re-import: %v", err)
				}
				z, err := c.PrivWIF(kb.WIF, n)
				if err != nil {
					c.Failf("re-import: %v", err)
				}
				c.samePub("operands through serialisation", left, c.mustAddPub(c.mustPub(z), y, true))
				c.Outcome("sum agrees")
			}
		})
	}
	// sums and products whose result has a rare shape
	for i, m := range keySet(1, 0) {
		m := m
		n := nets[i%len(nets)]
		if !g.Thorough && !strings.HasPrefix(m.name, "mined") && i%4 != 0 {
			continue
		}
		g.Add("result/"+n.name+"/"+m.name, func(c *Ctx) {
			for x, d := range []*big.Int{bi(1), bi(2), hexBig(repoKeys[1]), sub(ref.N, bi(5))} {
				r := new(big.Int).Mod(sub(m.v, d), ref.N)
				if r.Sign() == 0 || r.Cmp(d) == 0 {
					continue
				}
				ka, kb := c.mustPriv(r, n), c.mustPriv(d, n)
				s, err := c.AddPriv(ka, kb)
				if err != nil {
					c.Failf("AddPrivateKeys(%x,%x): %v", r, d, err)
				}
				left := c.mustPub(s)
				pa, pb := c.mustPub(ka), c.mustPub(kb)
				c.samePub(fmt.Sprintf("pub(%x+%x)", r, d), left, c.mustAddPub(pa, pb, x%2 == 0))
				c.samePub(fmt.Sprintf("pub(%x+%x), swapped", r, d), left, c.mustAddPub(pb, pa, x%2 == 1))
			}
			// twice the half, and the half added to itself
			h := new(big.Int).Mul(m.v, new(big.Int).ModInverse(bi(2), ref.N))
			h.Mod(h, ref.N)
			if h.Cmp(bi(2)) != 0 {
				s, err := c.MulPriv(c.mustPriv(h, n), c.mustPriv(bi(2), n))
				if err != nil {
					c.Failf("MultiplyPrivateKeys(%x,2): %v", h, err)
				}
				p := c.mustPub(c.mustPriv(h, n))
				c.samePub(fmt.Sprintf("pub(2*%x)", h), c.mustPub(s), c.mustAddPub(p, p, true))
			}
			c.Outcome("sum agrees")
		})
	}
	// triples, both groupings, all orders
	tr := specialKeys()
	if !g.Thorough {
		var t []K
		for i, k := range tr {
			if i < 7 || i%6 == 0 {
				t = append(t, k)
			}
		}
		tr = t
	}
	for i := range tr {
		for j := range tr {
			if i == j {
				continue
			}
			i, j := i, j
			g.Add(fmt.Sprintf("triple/%s+%s", tr[i].name, tr[j].name), func(c *Ctx) {
				n := nets[(i+j)%len(nets)]
				a, b := tr[i].v, tr[j].v
				ka, kb := c.mustPriv(a, n), c.mustPriv(b, n)
				pa, pb := c.mustPub(ka), c.mustPub(kb)
				for k := range tr {
					if k == i || k == j {
						continue
					}
					d := tr[k].v
					tot := combineModel("add", combineModel("add", a, b), d)
					ab, bd := combineModel("add", a, b), combineModel("add", b, d)
					if tot.Sign() == 0 || ab.Sign() == 0 || bd.Sign() == 0 || ab.Cmp(d) == 0 || bd.Cmp(a) == 0 {
						c.Outcome("triple undefined on the private side")
						continue
					}
					kd := c.mustPriv(d, n)
					pd := c.mustPub(kd)
					x, err := c.AddPriv(ka, kb)
					if err == nil {
						x, err = c.AddPriv(x, kd)
					}
					if err != nil {
						c.Failf("(a+b)+c: %v", err)
					}
					y, err := c.AddPriv(kb, kd)
					if err == nil {
						y, err = c.AddPriv(ka, y)
					}
					if err != nil {
						c.Failf("a+(b+c): %v", err)
					}
					if x.Key.Cmp(y.Key) != 0 || x.WIF != y.WIF {
						c.Failf("private grouping matters for %x,%x,%x", a, b, d)
					}
					p := c.mustAddPub(c.mustAddPub(pa, pb, true), pd, false)
					q := c.mustAddPub(pa, c.mustAddPub(pb, pd, false), true)
					c.samePub("public grouping", p, q)
					c.samePub("pub(a+b+c)", c.mustPub(x), p)
					c.Outcome("triple agrees")
				}
			})
		}
	}
	// products by repeated addition
	for i, a := range tr {
		a := a
		n := nets[i%len(nets)]
		g.Add("product/small/"+a.name, func(c *Ctx) {
			ka := c.mustPriv(a.v, n)
			pa := c.mustPub(ka)
			acc := pa
			for b := int64(2); b <= int64(g.T(33, 400)); b++ {
				if combineModel("mul", a.v, bi(b)).Sign() == 0 {
					break
				}
				// acc = b*A
				if combineModel("mul", a.v, bi(b-1)).Cmp(sub(ref.N, a.v)) == 0 {
					break
				}
				acc = c.mustAddPub(acc, pa, b%2 == 0)
				if a.v.Cmp(bi(b)) == 0 {
					continue
				}
				r, err := c.MulPriv(ka, c.mustPriv(bi(b), n))
				if err != nil {
					c.Failf("%x*%d: %v", a.v, b, err)
				}
				c.samePub(fmt.Sprintf("pub(%x*%d)", a.v, b), c.mustPub(r), acc)
				c.Outcome("product agrees")
			}
		})
		for j, b := range tr {
			b := b
			if i == j {
				continue
			}
			g.Add("product/full/"+a.name+"*"+b.name, func(c *Ctx) {
				ka := c.mustPriv(a.v, n)
				pa := c.mustPub(ka)
				var acc *btc.PublicKey
				// double-and-add over the library's own addition
				for t := b.v.BitLen() - 1; t >= 0; t-- {
					if acc != nil {
						acc = c.mustAddPub(acc, acc, true)
					}
					if b.v.Bit(t) == 1 {
						if acc == nil {
							acc = pa
						} else {
							if acc.X.Cmp(pa.X) == 0 && acc.Y.Cmp(pa.Y) != 0 {
								c.Outcome("product passes infinity")
								return
							}
							acc = c.mustAddPub(acc, pa, false)
						}
					}
				}
				r, err := c.MulPriv(ka, c.mustPriv(b.v, n))
				if err != nil {
					c.Failf("%x*%x: %v", a.v, b.v, err)
				}
				c.samePub(fmt.Sprintf("pub(%x*%x)", a.v, b.v), c.mustPub(r), acc)
				c.Outcome("product agrees")
			})
		}
	}
}
