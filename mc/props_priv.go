package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"
	"strings"

	"github.com/aureleoules/btc"

	"verif/mc/ref"
)

func init() {
	register(&Prop{ID: "C01", Cheap: true, Gen: genC01,
		Bound: "structured key alphabet (range ends, every 2^i(+-1), every count of leading zero nibbles, byte holes, mined checksum shapes) x 3 letter cases x 8 networks; thorough: larger alphabet and all 256 one-byte prefixes"})
	register(&Prop{ID: "C02", Cheap: true, Gen: genC02,
		Bound: "all byte strings up to length 2, all strings of length 3 (thorough 4) over base58 plus foreign characters, all 1-edit neighbours, transpositions, truncations and bit flips of valid strings; thorough: all 2-character substitutions of a WIF"})
	register(&Prop{ID: "C03", Cheap: true, Gen: genC03,
		Bound: "all payload lengths 0..80 x fill patterns x all 256 version bytes x boundary keys under a correct checksum, 8 networks"})
	register(&Prop{ID: "C04", Cheap: true, Gen: genC04,
		Bound: "all lengths 0..200 x fill patterns, all 256 bytes at each of 64 positions (replace and insert), prefixes/suffixes, all boundary values of [0, 2^256)"})
	register(&Prop{ID: "C05", Cheap: true, Gen: genC05,
		Bound:  "all sequences of draw classes up to depth 3 (thorough 5) over boundary draws, every structured key as a draw, every single bit flip of accepted draws, all networks",
		Assume: []string{"randomness enters through crypto/rand.Reader (replaced by the explorer's stream)"}})
	register(&Prop{ID: "C06", Cheap: true, Gen: func(g *Gen) { genCombine(g, "add") },
		Bound: "all ordered pairs of a boundary-rich key alphabet, plus operand pairs solving a+b=t for every target shape t (0..63 leading zero nibbles, range ends, n), on all networks and all network pairs"})
	register(&Prop{ID: "C07", Cheap: true, Gen: func(g *Gen) { genCombine(g, "mul") },
		Bound: "all ordered pairs of a boundary-rich key alphabet, plus operand pairs solving a*b=t for every target shape t (0..63 leading zero nibbles, range ends), on all networks and all network pairs"})
}

// ------------------------------------------------------------------- C01

func genC01(g *Gen) {
	keys := keySet(g.D(1, 2, 2), g.D(200, 5000, 200000))
	run := func(k K, n Net) func(c *Ctx) {
		return func(c *Ctx) {
			h := ref.Hex(ref.Key32(k.v))
			for _, form := range []string{h, strings.ToUpper(h), mixCase(h)} {
				key, err := c.PrivHex(form, n)
				c.checkPriv(fmt.Sprintf("PrivateFromHex(%q, %s)", form, n.name), key, err, k.v, n)
				back, err := c.PrivWIF(key.WIF, n)
				c.checkPriv(fmt.Sprintf("PrivateFromWIF(%q, %s)", key.WIF, n.name), back, err, k.v, n)
				if back.WIF != key.WIF || !strings.EqualFold(back.Hex, key.Hex) {
					c.Failf("round trip changed the key: %q/%q -> %q/%q", key.Hex, key.WIF, back.Hex, back.WIF)
				}
				again, err := c.PrivHex(back.Hex, n)
				c.checkPriv("re-import of exported hex", again, err, k.v, n)
				if !c.Check(key.WIF) {
					c.Failf("CheckWIF rejects exported WIF %q", key.WIF)
				}
			}
			c.Outcome("round trip")
		}
	}
	for _, k := range keys {
		for _, n := range allNets() {
			g.Add("roundtrip/"+n.name+"/"+k.name, run(k, n))
		}
	}
	// every 16-bit window of the key, over a zero and a mixed background
	mixed := hexBig("8613DFD6C099751DCC4020EF6F9BCD3C99F4565A15B26979B4B93C145D1A5CEB")
	for pos := uint(0); pos <= 240; pos += uint(g.D(8, 4, 1)) {
		for hi := int64(0); hi < 256; hi += 8 {
			for bg, base := range []*big.Int{bi(0), mixed} {
				pos, hi, bg, base := pos, hi, bg, base
				n := builtin()[int(pos/8+uint(bg))%2]
				g.Add(fmt.Sprintf("window/%d/bg%d/%02x", pos, bg, hi), func(c *Ctx) {
					for v := hi << 8; v < (hi+8)<<8; v++ {
						k := new(big.Int).AndNot(base, lsh(0xffff, pos))
						k.Or(k, lsh(v, pos))
						if !ref.ValidKey(k) {
							continue
						}
						key, err := c.PrivHex(ref.Hex(ref.Key32(k)), n)
						c.checkPriv("PrivateFromHex", key, err, k, n)
						back, err := c.PrivWIF(key.WIF, n)
						c.checkPriv("PrivateFromWIF", back, err, k, n)
					}
					c.Outcome("window")
				})
			}
		}
	}
	ks := keySet(0, g.D(0, 20, 200))
	if !g.Thorough {
		ks = ks[:6]
	}
	for p := 0; p < 256; p++ {
		n := mkNet(fmt.Sprintf("prefix-%02x", p), fmt.Sprintf("%02x", p), "00")
		for _, k := range ks {
			g.Add("prefix/"+n.name+"/"+k.name, run(k, n))
		}
	}
}

// ------------------------------------------------------------------- C02

// checkString compares the checker with the model on one string.
func (c *Ctx) checkString(s string) {
	payload, want := ref.CheckDecode(s)
	got := c.Check(s)
	if got && !want {
		c.Failf("CheckWIF(%q) = true, but the checksum is wrong", s)
	}
	if !got && want && len(payload) > 0 {
		c.Failf("CheckWIF(%q) = false, but it is base58 with a valid checksum", s)
	}
	if !got {
		k, err := c.PrivWIF(s, netMain())
		if err == nil || k != nil {
			c.Failf("CheckWIF(%q) = false but PrivateFromWIF accepts it", s)
		}
	}
	c.State("str", s)
	if want {
		c.outcomes["checksum valid"]++
	} else {
		c.outcomes["checksum invalid"]++
	}
}

const foreign = "0OIl+/ -_=\x00\x7f\x80\xff\n"

func genC02(g *Gen) {
	g.Add("strings/len0", func(c *Ctx) { c.checkString("") })
	for a := 0; a < 256; a++ {
		a := a
		g.Add(fmt.Sprintf("strings/bytes<=2/%02x", a), func(c *Ctx) {
			c.checkString(string([]byte{byte(a)}))
			for b := 0; b < 256; b++ {
				c.checkString(string([]byte{byte(a), byte(b)}))
			}
		})
	}
	al := ref.Alphabet58 + foreign
	for i := 0; i < len(al); i++ {
		x := al[i]
		g.Add(fmt.Sprintf("strings/len3/%q", x), func(c *Ctx) {
			for j := 0; j < len(al); j++ {
				for k := 0; k < len(al); k++ {
					c.checkString(string([]byte{x, al[j], al[k]}))
				}
			}
		})
	}
	if g.Thorough {
		for i := 0; i < 58; i++ {
			for j := 0; j < 58; j++ {
				x, y := al[i], al[j]
				g.Add(fmt.Sprintf("strings/len4/%c%c", x, y), func(c *Ctx) {
					for k := 0; k < 58; k++ {
						for l := 0; l < 58; l++ {
							c.checkString(string([]byte{x, y, al[k], al[l]}))
						}
					}
				})
			}
		}
	}
	// all strings over a tiny alphabet with leading '1's, longer
	tiny := "12z"
	maxLen := g.D(9, 11, 14)
	for n := 4; n <= maxLen; n++ {
		for a := 0; a < 3; a++ {
			n, a := n, a
			g.Add(fmt.Sprintf("strings/tiny/len%d/%c", n, tiny[a]), func(c *Ctx) {
				total := 1
				for i := 1; i < n; i++ {
					total *= 3
				}
				for v := 0; v < total; v++ {
					b := []byte{tiny[a]}
					for i, x := 1, v; i < n; i, x = i+1, x/3 {
						b = append(b, tiny[x%3])
					}
					c.checkString(string(b))
				}
			})
		}
	}
	// valid strings of every payload length and several fills
	for l := 0; l <= 120; l++ {
		l := l
		g.Add(fmt.Sprintf("valid/payload%d", l), func(c *Ctx) {
			for _, p := range fills(l) {
				c.checkString(ref.Base58Check(p))
			}
		})
	}
	for _, l := range []int{121, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1023, 1024, 1025, 2000, 4096} {
		l := l
		g.Add(fmt.Sprintf("valid/payload%d", l), func(c *Ctx) {
			for _, p := range fills(l) {
				s := ref.Base58Check(p)
				c.checkString(s)
				for _, i := range []int{0, 1, len(s) / 2, len(s) - 2, len(s) - 1} {
					for _, x := range []byte{'1', '2', 'z', '0', ' '} {
						if s[i] != x {
							c.checkString(s[:i] + string(x) + s[i+1:])
						}
					}
				}
				c.checkString(s[1:])
				c.checkString(s[:len(s)-1])
			}
		})
	}
	// neighbours of valid strings
	type base struct{ name, s string }
	var bases []base
	addB := func(n, s string) { bases = append(bases, base{n, s}) }
	addB("main/repo0", ref.WIF(0x80, hexBig(repoKeys[0])))
	addB("test/repo2", ref.WIF(0xef, hexBig(repoKeys[2])))
	addB("main/1", ref.WIF(0x80, bi(1)))
	addB("main/n-1", ref.WIF(0x80, sub(ref.N, bi(1))))
	addB("zero/1", ref.WIF(0x00, bi(1)))
	addB("compressed", ref.Base58Check(append(append([]byte{0x80}, ref.Key32(hexBig(repoKeys[1]))...), 1)))
	addB("address", ref.Address([]byte{0}, ref.MulG(bi(7)), true))
	addB("short", ref.Base58Check([]byte{0x80}))
	seen := map[string]int{}
	for _, m := range minedScalars {
		if strings.HasPrefix(m.class, "wifsum") && (g.Thorough || seen[m.class] == 0) {
			p := byte(0x80)
			if strings.HasPrefix(m.class, "wifsum-ef") {
				p = 0xef
			}
			addB(m.class, ref.WIF(p, bi(m.k)))
		}
		seen[m.class]++
	}
	if g.Thorough {
		for i := 0; i < 40; i++ {
			addB(fmt.Sprintf("spread%d", i), ref.WIF(0x80, new(big.Int).Mod(hashInt(fmt.Sprintf("c02-%d", i)), ref.N)))
		}
	}
	for _, b := range bases {
		s := b.s
		g.Add("valid/"+b.name, func(c *Ctx) { c.checkString(s) })
		g.Add("subst/"+b.name, func(c *Ctx) {
			for i := range s {
				for j := 0; j < len(al); j++ {
					if al[j] != s[i] {
						c.checkString(s[:i] + string(al[j]) + s[i+1:])
					}
				}
				c.checkString(s[:i] + "é" + s[i+1:])
				c.checkString(s[:i] + swapCase(s[i:i+1]) + s[i+1:])
			}
		})
		g.Add("insert/"+b.name, func(c *Ctx) {
			for i := 0; i <= len(s); i++ {
				for j := 0; j < len(al); j++ {
					c.checkString(s[:i] + string(al[j]) + s[i:])
				}
			}
		})
		g.Add("delete/"+b.name, func(c *Ctx) {
			for i := range s {
				for j := i + 1; j <= len(s); j++ {
					c.checkString(s[:i] + s[j:])
				}
			}
		})
		g.Add("transpose/"+b.name, func(c *Ctx) {
			for i := range s {
				for j := i + 1; j < len(s); j++ {
					x := []byte(s)
					x[i], x[j] = x[j], x[i]
					if x[i] != x[j] {
						c.checkString(string(x))
					}
				}
			}
			c.checkString(strings.ToLower(s))
			c.checkString(strings.ToUpper(s))
			c.checkString(s + s)
			c.checkString(" " + s)
			c.checkString(s + "\n")
		})
		g.Add("bits/"+b.name, func(c *Ctx) {
			raw, _ := ref.Base58Decode(s)
			for i := 0; i < len(raw)*8; i++ {
				x := append([]byte{}, raw...)
				x[i/8] ^= 1 << uint(i%8)
				c.checkString(ref.Base58Encode(x))
			}
			n := len(raw)
			for i := (n - 4) * 8; i < n*8; i++ { // every pair of checksum bits
				for j := i + 1; j < n*8; j++ {
					x := append([]byte{}, raw...)
					x[i/8] ^= 1 << uint(i%8)
					x[j/8] ^= 1 << uint(j%8)
					c.checkString(ref.Base58Encode(x))
				}
			}
			// every byte value of every checksum byte
			for i := n - 4; i < n; i++ {
				for v := 0; v < 256; v++ {
					x := append([]byte{}, raw...)
					x[i] = byte(v)
					c.checkString(ref.Base58Encode(x))
				}
			}
			d := ref.DSHA(raw[:n-4])
			for off := 0; off+4 <= 32; off++ { // a checksum taken from elsewhere
				c.checkString(ref.Base58Encode(append(append([]byte{}, raw[:n-4]...), d[off:off+4]...)))
			}
			// checksums of other constructions
			pl := raw[:n-4]
			sum := func(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
			md := md5.Sum(pl)
			s1 := sha1.Sum(pl)
			s5 := sha512.Sum512(pl)
			var alts [][]byte
			for _, b := range [][]byte{sum(pl), sum(sum(sum(pl))), ref.RIPEMD160(pl), ref.RIPEMD160(sum(pl)), md[:], s1[:], s5[:],
				sum(sum([]byte(ref.Hex(pl)))), sum([]byte(ref.Hex(sum(pl)))), sum(sum(raw)), sum(sum(append(append([]byte{}, pl...), 1)))} {
				alts = append(alts, b[:4], b[len(b)-4:])
			}
			if len(pl) > 1 {
				alts = append(alts, sum(sum(pl[1:]))[:4], sum(sum(pl[:len(pl)-1]))[:4], pl[len(pl)-1:])
			}
			alts = append(alts, nil, d[:3], d[:2], d[:5], []byte{0, 0, 0, 0}, []byte{255, 255, 255, 255})
			for _, a := range alts {
				c.checkString(ref.Base58Encode(append(append([]byte{}, pl...), a...)))
			}
			rev := []byte{d[3], d[2], d[1], d[0]}
			c.checkString(ref.Base58Encode(append(append([]byte{}, raw[:n-4]...), rev...)))
			for i := 0; i < n; i++ { // leading zero bytes dropped/added
				c.checkString(ref.Base58Encode(raw[i:]))
			}
			c.checkString("1" + s)
		})
	}
	two := bases[:g.D(0, 1, 4)]
	for bi := range two {
		s := two[bi].s
		for i := 0; i < len(s); i++ {
			for j := i + 1; j < len(s); j++ {
				i, j := i, j
				g.Add(fmt.Sprintf("subst2/%d/%d,%d", bi, i, j), func(c *Ctx) {
					x := []byte(s)
					for a := 0; a < 58; a++ {
						for b := 0; b < 58; b++ {
							if ref.Alphabet58[a] == s[i] || ref.Alphabet58[b] == s[j] {
								continue
							}
							x[i], x[j] = ref.Alphabet58[a], ref.Alphabet58[b]
							c.checkString(string(x))
						}
					}
				})
			}
		}
	}
}

func swapCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

func fills(n int) [][]byte {
	mk := func(f func(i int) byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = f(i)
		}
		return b
	}
	return [][]byte{
		mk(func(int) byte { return 0 }),
		mk(func(int) byte { return 0xff }),
		mk(func(i int) byte { return byte(i + 1) }),
		mk(func(i int) byte {
			if i == 0 {
				return 0
			}
			return byte(0x80 + i)
		}),
		mk(func(i int) byte {
			if i == 0 {
				return 0x80
			}
			return byte(7 * i)
		}),
	}
}

// ------------------------------------------------------------------- C03

func (c *Ctx) wifImport(s string, n Net) {
	k, ok := ref.ParseWIF(n.priv, s)
	key, err := c.PrivWIF(s, n)
	what := fmt.Sprintf("PrivateFromWIF(%q, %s)", s, n.name)
	if ok {
		c.checkPriv(what, key, err, k, n)
		c.Outcome("accepted")
	} else {
		if p, v := ref.CheckDecode(s); v {
			what += fmt.Sprintf(" [checksum valid, payload %x]", p)
		}
		c.noPriv(what, key, err)
		c.State("wif-reject", n.name, s)
		c.Outcome("rejected")
	}
}

func genC03(g *Gen) {
	nets := allNets()
	base := hexBig(repoKeys[0])
	bound := []K{{"0", bi(0)}, {"1", bi(1)}, {"n-1", sub(ref.N, bi(1))}, {"n", ref.N}, {"n+1", add(ref.N, bi(1))}, {"p-1", sub(ref.P, bi(1))}, {"p", ref.P}, {"2^256-1", sub(lsh(1, 256), bi(1))}, {"2^255", lsh(1, 255)}, {"repo0", base}}
	for i := int64(2); i <= int64(g.D(16, 300, 5000)); i++ {
		bound = append(bound, K{fmt.Sprintf("n+%d", i), add(ref.N, bi(i))}, K{fmt.Sprintf("n-%d", i), sub(ref.N, bi(i))})
	}
	for i := uint(0); i < 256; i++ {
		bound = append(bound, K{fmt.Sprintf("2^%d", i), lsh(1, i)})
		if v := add(ref.N, lsh(1, i)); v.BitLen() <= 256 {
			bound = append(bound, K{fmt.Sprintf("n+2^%d", i), v})
		}
		bound = append(bound, K{fmt.Sprintf("2^256-2^%d", i), sub(lsh(1, 256), lsh(1, i))})
	}
	// networks whose private-key prefix is not one byte: nothing belongs to them
	for _, pre := range []string{"", "0", "8", "08", "800", "080", "0080", "8000", "8080", "80 ", " 80", "0x80", "zz", "8g", "\x80", "80\x00", "\u0668\u0660", "efef", "EF00"} {
		pre := pre
		n := Net{name: fmt.Sprintf("prefix %q", pre), net: &btc.Network{PrivKeyPrefix: pre, PubKeyHashPrefix: "00"}}
		if b, ok := ref.Unhex(pre); ok && len(b) == 1 {
			n.priv = b[0]
			g.Add("oddprefix/"+pre, func(c *Ctx) {
				for v := 0; v < 256; v++ {
					c.wifImport(ref.WIF(byte(v), base), n)
				}
			})
			continue
		}
		g.Add(fmt.Sprintf("oddprefix/%q", pre), func(c *Ctx) {
			no := func(payload []byte) {
				s := ref.Base58Check(payload)
				k, err := c.PrivWIF(s, n)
				c.noPriv(fmt.Sprintf("PrivateFromWIF(%q) on a network with the private-key prefix %q", s, pre), k, err)
				c.State("odd", pre, s)
				c.Outcome("not one byte")
			}
			for _, k := range []*big.Int{base, bi(1), sub(ref.N, bi(1)), hexBig(repoKeys[1])} {
				for v := 0; v < 256; v++ {
					no(append([]byte{byte(v)}, ref.Key32(k)...))
				}
				no(ref.Key32(k))
				if b, ok := ref.Unhex(pre); ok {
					no(append(b, ref.Key32(k)...))
					no(append(append([]byte{}, b...), append(ref.Key32(k), 1)...))
				}
				no(append([]byte(pre), ref.Key32(k)...))
			}
		})
	}
	for _, n := range nets {
		n := n
		for _, k := range bound {
			k := k
			g.Add("boundary/"+n.name+"/"+k.name, func(c *Ctx) { c.wifImport(ref.WIF(n.priv, k.v), n) })
		}
		for v := 0; v < 256; v++ {
			v := v
			g.Add(fmt.Sprintf("version/%s/%02x", n.name, v), func(c *Ctx) {
				for _, k := range []*big.Int{base, bi(1), sub(ref.N, bi(1))} {
					c.wifImport(ref.WIF(byte(v), k), n)
				}
			})
		}
		for l := 0; l <= 80; l++ {
			l := l
			g.Add(fmt.Sprintf("length/%s/%d", n.name, l), func(c *Ctx) {
				for _, p := range fills(l) {
					c.wifImport(ref.Base58Check(p), n)
					if l > 0 {
						p[0] = n.priv
						c.wifImport(ref.Base58Check(p), n)
					}
				}
				// the valid payload cut or extended to this length
				full := append([]byte{n.priv}, ref.Key32(base)...)
				if l <= 33 {
					c.wifImport(ref.Base58Check(full[:l]), n)
					c.wifImport(ref.Base58Check(full[33-l:]), n)
				} else {
					for _, fill := range []byte{0, 1, 0xff} {
						ext := append([]byte{}, full...)
						for len(ext) < l {
							ext = append(ext, fill)
						}
						c.wifImport(ref.Base58Check(ext), n)
						ext = append([]byte{n.priv}, make([]byte, l-33)...)
						for i := 1; i <= l-33; i++ {
							ext[i] = fill
						}
						ext = append(ext, ref.Key32(base)...)
						c.wifImport(ref.Base58Check(ext), n)
					}
				}
			})
		}
		for _, l := range []int{100, 128, 256, 1000, 4096} {
			l := l
			g.Add(fmt.Sprintf("long/%s/%d", n.name, l), func(c *Ctx) {
				for _, p := range fills(l) {
					p[0] = n.priv
					c.wifImport(ref.Base58Check(p), n)
				}
			})
		}
		for x := 0; x < 256; x++ { // compressed-style suffix byte
			x := x
			g.Add(fmt.Sprintf("suffix/%s/%02x", n.name, x), func(c *Ctx) {
				for _, k := range []*big.Int{base, bi(1), bi(256)} {
					c.wifImport(ref.Base58Check(append(append([]byte{n.priv}, ref.Key32(k)...), byte(x))), n)
				}
			})
		}
		g.Add("garbage/"+n.name, func(c *Ctx) {
			for _, s := range []string{"", "1", "11", "1111", "11111", "z", "0", "l", "3QJmnh", "é", "\x00", strings.Repeat("1", 51), strings.Repeat("z", 51), strings.Repeat("5", 52), ref.Address(n.pub, ref.MulG(bi(1)), false), ref.Base58Encode(nil), ref.WIF(n.priv, base) + " ", " " + ref.WIF(n.priv, base)} {
				c.wifImport(s, n)
			}
			// a corrupted valid WIF
			w := ref.WIF(n.priv, base)
			for i := range w {
				for _, x := range []byte{'1', 'z', 'A'} {
					c.wifImport(w[:i]+string(x)+w[i+1:], n)
				}
				c.wifImport(w[:i], n)
				c.wifImport(w[i:], n)
			}
		})
		for _, m := range nets {
			m := m
			g.Add("cross/"+n.name+"/"+m.name, func(c *Ctx) {
				for _, k := range specialKeys() {
					c.wifImport(ref.WIF(m.priv, k.v), n)
				}
			})
		}
	}
}

// ------------------------------------------------------------------- C04

func (c *Ctx) hexImport(s string, n Net) {
	k, ok := ref.ParsePrivHex(s)
	key, err := c.PrivHex(s, n)
	what := fmt.Sprintf("PrivateFromHex(%q, %s)", s, n.name)
	if ok {
		c.checkPriv(what, key, err, k, n)
		c.Outcome("accepted")
	} else {
		c.noPriv(what, key, err)
		c.State("hex-reject", s)
		c.Outcome("rejected")
	}
}

func genC04(g *Gen) {
	nets := builtin()
	if g.Thorough {
		nets = allNets()
	}
	h := strings.ToLower(repoKeys[0])
	for _, n := range nets {
		n := n
		for l := 0; l <= 200; l++ {
			l := l
			g.Add(fmt.Sprintf("length/%s/%d", n.name, l), func(c *Ctx) {
				for _, ch := range []string{"0", "1", "f", "F", "a", " ", "g"} {
					c.hexImport(strings.Repeat(ch, l), n)
				}
				c.hexImport(strings.Repeat(h, 4)[:l], n)
				if l > 0 {
					c.hexImport(strings.Repeat("0", l-1)+"1", n)
					c.hexImport("1"+strings.Repeat("0", l-1), n)
				}
			})
		}
		for _, l := range []int{256, 512, 1000, 4096, 65536} {
			l := l
			g.Add(fmt.Sprintf("length/%s/%d", n.name, l), func(c *Ctx) {
				c.hexImport(strings.Repeat("0", l-64)+h, n)
				c.hexImport(h+strings.Repeat("0", l-64), n)
				c.hexImport(strings.Repeat(h, l/64), n)
				c.hexImport(strings.Repeat(" ", l-64)+h, n)
			})
		}
		for i := 0; i <= 64; i++ {
			i := i
			g.Add(fmt.Sprintf("char/%s/pos%d", n.name, i), func(c *Ctx) {
				for b := 0; b < 256; b++ {
					if i < 64 {
						c.hexImport(h[:i]+string([]byte{byte(b)})+h[i+1:], n)
					}
					c.hexImport(h[:i]+string([]byte{byte(b)})+h[i:], n)
					if i < 63 {
						c.hexImport(h[:i]+string([]byte{byte(b)})+h[i+2:], n)
						c.hexImport(h[:i]+string([]byte{byte(b), byte(b)})+h[i+2:], n)
					}
				}
				for _, u := range []string{"é", "１", "Ａ", "\u200b", "0x", "0X", "\r\n", "ſ", "__"} {
					if i+len(u) <= 64 {
						c.hexImport(h[:i]+u+h[i+len(u):], n)
					}
					c.hexImport(h[:i]+u+h[i:], n)
				}
			})
		}
		// two foreign characters
		odd := []string{"g", "G", " ", "_", "+", "-", "x", "X", "\x00", "\n", "/", ":", "@", "`", "\x80", "\xff"}
		for i := 0; i < 64; i++ {
			i := i
			if !g.Deep && n.name != nets[0].name {
				break
			}
			g.Add(fmt.Sprintf("char2/%s/pos%d", n.name, i), func(c *Ctx) {
				for j := i + 1; j < 64; j++ {
					for _, a := range odd {
						for _, b := range odd {
							c.hexImport(h[:i]+a+h[i+1:j]+b+h[j+1:], n)
						}
					}
				}
			})
		}
		var vals []K
		for i := int64(0); i <= int64(g.D(64, 2000, 20000)); i++ {
			vals = append(vals, K{fmt.Sprint(i), bi(i)}, K{fmt.Sprintf("n+%d", i), add(ref.N, bi(i))}, K{fmt.Sprintf("n-%d", i), sub(ref.N, bi(i))}, K{fmt.Sprintf("2^256-1-%d", i), sub(sub(lsh(1, 256), bi(1)), bi(i))})
		}
		for i := uint(0); i < 256; i++ {
			vals = append(vals, K{fmt.Sprintf("2^%d", i), lsh(1, i)}, K{fmt.Sprintf("2^256-2^%d", i), sub(lsh(1, 256), lsh(1, i))}, K{fmt.Sprintf("n-2^%d", i), sub(ref.N, lsh(1, i))})
			if v := add(ref.N, lsh(1, i)); v.BitLen() <= 256 {
				vals = append(vals, K{fmt.Sprintf("n+2^%d", i), v})
			}
			// n with one bit flipped
			vals = append(vals, K{fmt.Sprintf("n^2^%d", i), new(big.Int).Xor(ref.N, lsh(1, i))})
		}
		for i := 0; i < 64; i++ { // n with one hex digit replaced
			for d := int64(0); d < 16; d++ {
				v := new(big.Int).AndNot(ref.N, lsh(15, uint(4*i)))
				vals = append(vals, K{fmt.Sprintf("n[%d]=%x", i, d), v.Or(v, lsh(d, uint(4*i)))})
			}
		}
		for _, k := range vals {
			k := k
			g.Add("value/"+n.name+"/"+k.name, func(c *Ctx) {
				s := ref.Hex(ref.Key32(k.v))
				for _, f := range []string{s, strings.ToUpper(s), mixCase(s)} {
					c.hexImport(f, n)
				}
				// other spellings of the same value must not be accepted
				c.hexImport("0x"+s, n)
				c.hexImport("0x"+s[2:], n)
				c.hexImport("+"+s[1:], n)
				c.hexImport("-"+s[1:], n)
				c.hexImport("-"+s, n)
				c.hexImport("00"+s, n)
				c.hexImport(s+"00", n)
				c.hexImport(s[2:], n)
				c.hexImport(s[1:], n)
				c.hexImport(s[:62], n)
				c.hexImport(s+"01", n)
				c.hexImport("01"+s, n)
				c.hexImport(s+s, n)
				t := strings.TrimLeft(s, "0")
				if len(t) < 64 {
					c.hexImport(t, n)
					c.hexImport("0"+t, n)
				}
				c.hexImport(s[:32]+"_"+s[33:], n)
				c.hexImport(" "+s, n)
				c.hexImport(s+" ", n)
				c.hexImport(s+"\n", n)
				c.hexImport(s+"\x00", n)
			})
		}
	}
}

// ------------------------------------------------------------------- C05

// genKey runs one generation under a stream and checks the invariants.
func (c *Ctx) genKey(st *Stream, n Net) *btc.PrivateKey {
	var key *btc.PrivateKey
	st.with(func() { key = c.Gen(n) })
	if key == nil || key.Key == nil {
		c.Failf("GeneratePrivateKey returned no key (draw %x)", st.Head)
	}
	if !ref.ValidKey(key.Key) {
		c.Failf("generated key %x is outside [1, n-1] (draws %x)", key.Key, st.Head)
	}
	c.checkPriv("GeneratePrivateKey", key, nil, key.Key, n)
	return key
}

func genC05(g *Gen) {
	good := ref.Key32(hexBig(repoKeys[1]))
	run := func(head []byte, salt string, n Net, flip bool) func(c *Ctx) {
		return func(c *Ctx) {
			st := newStream(head, salt)
			key := c.genKey(st, n)
			// the same bytes give the same key
			k2 := c.genKey(newStream(head, salt), n)
			if k2.Key.Cmp(key.Key) != 0 {
				c.Failf("same random bytes, different keys: %x and %x", key.Key, k2.Key)
			}
			if a, err := c.PrivHex(key.Hex, n); err != nil || a == nil || a.Key == nil || a.Key.Cmp(key.Key) != 0 {
				c.Failf("generated hex %q does not re-import: %v", key.Hex, err)
			}
			if a, err := c.PrivWIF(key.WIF, n); err != nil || a == nil || a.Key == nil || a.Key.Cmp(key.Key) != 0 {
				c.Failf("generated WIF %q does not re-import: %v", key.WIF, err)
			}
			c.Outcome("generated")
			if !flip {
				return
			}
			seen := map[string]int{key.Key.Text(16): -1}
			// the last 256 bits delivered are those of the accepted draw
			var all []byte
			for i := 0; i < st.N; i++ {
				all = append(all, st.byteAt(i))
			}
			if len(all) < 32 {
				c.Failf("a key made of %d random bytes", len(all))
			}
			for i := 0; i < 256; i++ {
				h := append([]byte{}, all...)
				h[len(h)-32+i/8] ^= 0x80 >> uint(i%8)
				kk := c.genKey(newStream(h, fmt.Sprintf("%s-flip%d", salt, i)), n)
				t := kk.Key.Text(16)
				if j, dup := seen[t]; dup {
					c.Failf("flipping random bit %d gives the same key as variant %d (%s)", i, j, t)
				}
				seen[t] = i
			}
		}
	}
	nets := allNets()
	for _, n := range nets {
		for _, k := range keySet(g.D(1, 1, 2), g.D(100, 2000, 10000)) {
			g.Add("draw/"+n.name+"/"+k.name, run(ref.Key32(k.v), "t-"+k.name, n, strings.HasPrefix(k.name, "lead0x") || strings.HasPrefix(k.name, "2^")))
		}
		for i, h := range append(repoKeys[:], strings.Repeat("5a", 32), "f"+strings.Repeat("0", 62)+"1", "1"+strings.Repeat("f", 63)) {
			g.Add(fmt.Sprintf("flip/%s/%d", n.name, i), run(ref.Key32(hexBig(h)), fmt.Sprint("flip", i), n, true))
		}
		// after rejected draws the flips must still matter
		for i, pre := range []*big.Int{bi(0), sub(lsh(1, 256), bi(1)), ref.N, sub(ref.N, bi(1)), bi(1)} {
			head := append(ref.Key32(pre), good...)
			g.Add(fmt.Sprintf("reject-then-flip/%s/%d", n.name, i), run(head, fmt.Sprint("rtf", i), n, true))
		}
	}
	// all sequences of draw classes
	classes := []K{
		{"0", bi(0)}, {"1", bi(1)}, {"short", sub(lsh(1, 252), bi(1))}, {"short2", sub(lsh(1, 248), bi(1))},
		{"n-2", sub(ref.N, bi(2))}, {"n-1", sub(ref.N, bi(1))}, {"n", ref.N}, {"n+1", add(ref.N, bi(1))},
		{"max", sub(lsh(1, 256), bi(1))}, {"good", hexBig(repoKeys[2])},
	}
	depth := g.D(3, 4, 5)
	var rec func(name string, head []byte, d int)
	rec = func(name string, head []byte, d int) {
		if d > 0 {
			for _, n := range builtin() {
				g.Add("seq/"+n.name+name, run(head, "seq"+name, n, d <= 2))
			}
		}
		if d == depth {
			return
		}
		for _, k := range classes {
			rec(name+"/"+k.name, append(append([]byte{}, head...), ref.Key32(k.v)...), d+1)
		}
	}
	rec("", nil, 0)
	// many rejected draws in a row
	for _, cl := range []K{{"0", bi(0)}, {"max", sub(lsh(1, 256), bi(1))}, {"n", ref.N}, {"short", sub(lsh(1, 252), bi(1))}, {"lead0x1", hexBig(repoKeys[0][:63])}, {"lead0x2", hexBig(repoKeys[1][:62])}, {"lead0x5", hexBig(repoKeys[3][:59])}} {
		for _, m := range []int{4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1001, 1024, 1025} {
			cl, m := cl, m
			g.Add(fmt.Sprintf("rejections/%s/%d", cl.name, m), func(c *Ctx) {
				var head []byte
				for i := 0; i < m; i++ {
					head = append(head, ref.Key32(cl.v)...)
				}
				head = append(head, good...)
				run(head, "rej", builtin()[m%2], m <= 33)(c)
			})
		}
	}
	// every byte value at every position of the draw
	for pos := uint(0); pos < 32; pos++ {
		for bg, base := range []*big.Int{hexBig(repoKeys[1]), hexBig(repoKeys[2]), sub(ref.N, bi(2)), hexBig("f" + strings.Repeat("0", 63))} {
			pos, base := pos, base
			n := nets[int(pos)%len(nets)]
			g.Add(fmt.Sprintf("byte/%d/bg%d", pos, bg), func(c *Ctx) {
				for v := int64(0); v < 256; v++ {
					k := new(big.Int).AndNot(base, lsh(0xff, 8*pos))
					k.Or(k, lsh(v, 8*pos))
					run(ref.Key32(k), fmt.Sprint("byte", pos, v), n, false)(c)
				}
			})
		}
	}
	// every value just around the group order and the top of the range
	for i := int64(-64); i <= 64; i++ {
		v := add(ref.N, bi(i))
		g.Add(fmt.Sprintf("edge/n%+d", i), run(ref.Key32(v), fmt.Sprint("edge", i), netMain(), false))
	}
	for i := uint(0); i < 256; i++ {
		v := sub(lsh(1, 256), lsh(1, i))
		g.Add(fmt.Sprintf("edge/2^256-2^%d", i), run(ref.Key32(v), fmt.Sprint("top", i), netTest(), false))
		if v := add(ref.N, lsh(1, i)); v.BitLen() <= 256 {
			g.Add(fmt.Sprintf("edge/n+2^%d", i), run(ref.Key32(v), fmt.Sprint("np", i), netTest(), false))
		}
	}
	// the first and last reachable values
	for i := int64(0); i <= 40; i++ {
		g.Add(fmt.Sprintf("edge/%d", i), run(ref.Key32(bi(i)), fmt.Sprint("low", i), netMain(), false))
		v := add(lsh(1, 252), bi(i-20))
		g.Add(fmt.Sprintf("edge/16^63%+d", i-20), run(ref.Key32(v), fmt.Sprint("nib", i), netMain(), false))
	}
}

// --------------------------------------------------------------- C06, C07

var caseFoldPairs = [][2]string{
	{"5JggPGP4qW8d1gA3cetKh3iUDmRo7cWuqXLMGGxdcyTeqrzre8S", "5JggPGP4qW8d1gA3ceTkH3iUdmro7cWuQxLMGgXdcyTeQRZrE8S"},
	{"5JggPGP4qW8d1gA3cetKh3iUDmRo7cWuqXLMGGxdcyTeqrzre8S", "5JggPGP4qW8d1gA3ceTkH3iUDmRo7CWuqXLmgGxdcYTeqRZRe8s"},
}

func combineModel(op string, a, b *big.Int) *big.Int {
	r := new(big.Int)
	if op == "add" {
		r.Add(a, b)
	} else {
		r.Mul(a, b)
	}
	return r.Mod(r, ref.N)
}

func (c *Ctx) combine(op string, a, b *btc.PrivateKey) (*btc.PrivateKey, error) {
	if op == "add" {
		return c.AddPriv(a, b)
	}
	return c.MulPriv(a, b)
}

// combineCheck compares op(a, b) and op(b, a) with the model.
func (c *Ctx) combineCheck(op string, a, b *big.Int, n Net, mk func(*big.Int) *btc.PrivateKey) {
	want := combineModel(op, a, b)
	for _, o := range [][2]*big.Int{{a, b}, {b, a}} {
		r, err := c.combine(op, mk(o[0]), mk(o[1]))
		what := fmt.Sprintf("%s(%x, %x) on %s", op, o[0], o[1], n.name)
		if a.Cmp(b) == 0 {
			c.noPriv(what+" [identical]", r, err)
			c.State(op+"-identical", a.Text(62))
			c.Outcome("identical rejected")
			continue
		}
		if want.Sign() == 0 {
			c.noPriv(what+" [zero result]", r, err)
			c.State(op+"-zero", a.Text(62))
			c.Outcome("zero rejected")
			continue
		}
		c.checkPriv(what, r, err, want, n)
		c.Outcome("combined")
		x, err := c.PrivHex(r.Hex, n)
		c.checkPriv(what+", hex re-imported", x, err, want, n)
		x, err = c.PrivWIF(r.WIF, n)
		c.checkPriv(what+", WIF re-imported", x, err, want, n)
	}
}

func genCombine(g *Gen, op string) {
	nets := allNets()
	keys := keySet(1, g.D(60, 300, 5000))
	if !g.Thorough {
		var ks []K
		for i, k := range keys {
			if i < 200 || i%2 == 0 {
				ks = append(ks, k)
			}
		}
		keys = ks
	}
	for i, a := range keys {
		a, i := a, i
		n := nets[i%len(nets)]
		if i%3 == 0 {
			n = netMain()
		}
		g.Add(fmt.Sprintf("pairs/%s/%s", n.name, a.name), func(c *Ctx) {
			cache := map[string]*btc.PrivateKey{}
			mk := func(k *big.Int) *btc.PrivateKey {
				t := k.Text(62)
				if cache[t] == nil {
					cache[t] = c.mustPriv(k, n)
				}
				return cache[t]
			}
			for _, b := range keys[i:] {
				c.combineCheck(op, a.v, b.v, n, mk)
			}
		})
	}
	// solve for every target shape
	pat := hexBig("9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95")
	var targets []K
	targets = append(targets, K{"0", bi(0)})
	for j := uint(0); j < 64; j++ {
		targets = append(targets, K{fmt.Sprintf("lead0x%d", j), new(big.Int).Rsh(pat, 4*j)})
		targets = append(targets, K{fmt.Sprintf("f-lead0x%d", j), new(big.Int).Mod(sub(lsh(1, 256-4*j), bi(1)), ref.N)})
		targets = append(targets, K{fmt.Sprintf("1-lead0x%d", j), lsh(1, 252-4*j)})
	}
	for i := int64(1); i <= 20; i++ {
		targets = append(targets, K{fmt.Sprint(i), bi(i)}, K{fmt.Sprintf("n-%d", i), sub(ref.N, bi(i))})
	}
	// sums next to 2^256 and 2^256-p, the wrap points of fixed-width code
	for i := int64(-8); i <= 8; i++ {
		for _, w := range []K{{"2^256", lsh(1, 256)}, {"p", ref.P}, {"2^255", lsh(1, 255)}, {"n/2", half}, {"2^128", lsh(1, 128)}} {
			targets = append(targets, K{fmt.Sprintf("%s%+d", w.name, i), new(big.Int).Mod(add(w.v, bi(i)), ref.N)})
		}
	}
	// operands that agree in all but one bit, byte or half
	for i, base := range []string{repoKeys[0], repoKeys[1], repoKeys[3], strings.Repeat("0", 32) + strings.Repeat("7c", 16), "fffffffffffffffffffffffffffffffe" + strings.Repeat("5a", 16)} {
		base := hexBig(base)
		n := nets[i%len(nets)]
		for lo := uint(0); lo < 256; lo += 16 {
			lo := lo
			g.Add(fmt.Sprintf("near/%d/bit%d", i, lo), func(c *Ctx) {
				mk := func(k *big.Int) *btc.PrivateKey { return c.mustPriv(k, n) }
				for b := lo; b < lo+16; b++ {
					if k := new(big.Int).Xor(base, lsh(1, b)); ref.ValidKey(k) {
						c.combineCheck(op, base, k, n, mk)
					}
					low := new(big.Int).Mod(base, lsh(1, b)) // agree below bit b only
					hi := new(big.Int).Sub(base, low)
					for _, k := range []*big.Int{low, hi, add(hi, bi(1)), new(big.Int).Xor(low, lsh(5, b))} {
						if ref.ValidKey(k) {
							c.combineCheck(op, base, k, n, mk)
						}
					}
				}
			})
		}
	}
	var as []K
	for i, k := range keySet(0, 0) {
		if g.Thorough || i%3 == 0 || i < 12 {
			as = append(as, k)
		}
	}
	for _, t := range targets {
		t := t
		if op == "mul" && t.v.Sign() == 0 {
			continue
		}
		g.Add("target/"+t.name, func(c *Ctx) {
			for i, a := range as {
				var b *big.Int
				if op == "add" {
					b = sub(t.v, a.v)
				} else {
					b = new(big.Int).Mul(t.v, new(big.Int).ModInverse(a.v, ref.N))
				}
				b.Mod(b, ref.N)
				if !ref.ValidKey(b) {
					continue
				}
				n := nets[i%len(nets)]
				c.combineCheck(op, a.v, b, n, func(k *big.Int) *btc.PrivateKey { return c.mustPriv(k, n) })
			}
		})
	}
	// operands reached through every route: hex in each case, WIF, generation, combination
	for _, n := range nets {
		n := n
		g.Add("routes/"+n.name, func(c *Ctx) {
			a, b := hexBig(repoKeys[0]), hexBig(repoKeys[1])
			routes := []func(k *big.Int) *btc.PrivateKey{
				func(k *big.Int) *btc.PrivateKey { return c.mustPriv(k, n) },
				func(k *big.Int) *btc.PrivateKey {
					x, err := c.PrivHex(strings.ToUpper(ref.Hex(ref.Key32(k))), n)
					c.checkPriv("upper", x, err, k, n)
					return x
				},
				func(k *big.Int) *btc.PrivateKey {
					x, err := c.PrivWIF(ref.WIF(n.priv, k), n)
					c.checkPriv("wif", x, err, k, n)
					return x
				},
				func(k *big.Int) *btc.PrivateKey { return c.genKey(newStream(ref.Key32(k), "r"), n) },
				func(k *big.Int) *btc.PrivateKey {
					x, err := c.AddPriv(c.mustPriv(sub(k, bi(5)), n), c.mustPriv(bi(5), n))
					c.checkPriv("sum", x, err, k, n)
					return x
				},
			}
			want := combineModel(op, a, b)
			for i, ra := range routes {
				for j, rb := range routes {
					r, err := c.combine(op, ra(a), rb(b))
					c.checkPriv(fmt.Sprintf("%s via routes %d,%d", op, i, j), r, err, want, n)
					r, err = c.combine(op, ra(a), rb(a))
					c.noPriv(fmt.Sprintf("%s of identical keys via routes %d,%d", op, i, j), r, err)
				}
			}
			x := routes[0](a)
			r, err := c.combine(op, x, x)
			c.noPriv(op+" of one key object with itself", r, err)
		})
	}
	// network comparison
	all := append(allNets(), mkNet("main-copy", "80", "00"), mkNet("test-copy", "EF", "6F"), mkNet("80/6F", "80", "6F"), mkNet("EF/00", "EF", "00"))
	for _, n := range all {
		for _, m := range all {
			n, m := n, m
			g.Add("networks/"+n.name+"/"+m.name, func(c *Ctx) {
				a, b := hexBig(repoKeys[0]), hexBig(repoKeys[1])
				r, err := c.combine(op, c.mustPriv(a, n), c.mustPriv(b, m))
				if *n.net == *m.net {
					c.checkPriv(op+" on equal networks", r, err, combineModel(op, a, b), n)
				} else {
					c.noPriv(op+" across networks "+n.name+"/"+m.name, r, err)
					c.Outcome("network rejected")
				}
			})
		}
	}
	oddPairs(g, func(c *Ctx, n, m *btc.Network, what string) {
		for _, b := range []*big.Int{hexBig(repoKeys[1]), bi(1)} {
			r, err := c.combine(op, privOn(rawPriv(hexBig(repoKeys[0]), netMain()), n), privOn(rawPriv(b, netMain()), m))
			c.noPriv(op+" across "+what, r, err)
		}
	})
	// distinct keys whose WIFs differ only in letter case
	for i, p := range caseFoldPairs {
		p := p
		g.Add(fmt.Sprintf("casefold/%d", i), func(c *Ctx) {
			n := netMain()
			var ks [2]*big.Int
			var xs [2]*btc.PrivateKey
			for j, w := range p {
				k, ok := ref.ParseWIF(n.priv, w)
				if !ok {
					panic("bad casefold constant")
				}
				ks[j] = k
				x, err := c.PrivWIF(w, n)
				c.checkPriv("import", x, err, k, n)
				xs[j] = x
			}
			r, err := c.combine(op, xs[0], xs[1])
			c.checkPriv(fmt.Sprintf("%s of two different keys with WIFs %s and %s", op, p[0], p[1]), r, err, combineModel(op, ks[0], ks[1]), n)
		})
	}
}
