// Command casefold searches for two valid WIFs of different keys that are
// equal after lower-casing.
package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/bits"
	"os"
	"strings"
	"unicode"

	"verif/mc/ref"
)

func partner(c byte) (byte, bool) {
	r := rune(c)
	var o rune
	if unicode.IsUpper(r) {
		o = unicode.ToLower(r)
	} else if unicode.IsLower(r) {
		o = unicode.ToUpper(r)
	} else {
		return 0, false
	}
	return byte(o), strings.ContainsRune(ref.Alphabet58, o)
}

func words(v *big.Int) (w [5]uint64) { // little endian, 320 bits two's complement
	m := new(big.Int).Lsh(big.NewInt(1), 320)
	x := new(big.Int).Mod(v, m)
	b := x.FillBytes(make([]byte, 40))
	for i := range w {
		for j := 0; j < 8; j++ {
			w[i] |= uint64(b[39-8*i-j]) << (8 * j)
		}
	}
	return
}

func main() {
	done := make(chan string)
	for t := 0; t < 8; t++ {
		go func(t int) {
			for salt := t; ; salt += 8 {
				h := sha256.Sum256([]byte(fmt.Sprintf("casefold-%d", salt)))
				k := new(big.Int).Mod(new(big.Int).SetBytes(h[:]), ref.N)
				s := ref.WIF(0x80, k)
				var pos []int
				var deltas [][5]uint64
				for i := len(s) - 1; i > 4 && len(pos) < 36; i-- {
					if o, ok := partner(s[i]); ok {
						d := big.NewInt(int64(strings.IndexByte(ref.Alphabet58, o) - strings.IndexByte(ref.Alphabet58, s[i])))
						d.Mul(d, new(big.Int).Exp(big.NewInt(58), big.NewInt(int64(len(s)-1-i)), nil))
						pos = append(pos, i)
						deltas = append(deltas, words(d))
					}
				}
				raw, _ := ref.Base58Decode(s)
				cur := words(new(big.Int).SetBytes(raw))
				var sign uint64
				var buf [37]byte
				for n := uint64(1); n < 1<<uint(len(pos)); n++ {
					j := bits.TrailingZeros64(n)
					var c uint64
					d := &deltas[j]
					if sign>>uint(j)&1 == 0 {
						for i := 0; i < 5; i++ {
							cur[i], c = bits.Add64(cur[i], d[i], c)
						}
					} else {
						for i := 0; i < 5; i++ {
							cur[i], c = bits.Sub64(cur[i], d[i], c)
						}
					}
					sign ^= 1 << uint(j)
					for i := 0; i < 37; i++ {
						b := 36 - i
						buf[i] = byte(cur[b/8] >> (8 * uint(b%8)))
					}
					h := sha256.Sum256(buf[:33])
					h = sha256.Sum256(h[:])
					if h[0] == buf[33] && h[1] == buf[34] && h[2] == buf[35] && h[3] == buf[36] {
						f := []byte(s)
						for i, p := range pos {
							if sign>>uint(i)&1 == 1 {
								f[p], _ = partner(f[p])
							}
						}
						done <- s + " " + string(f)
					}
				}
			}
		}(t)
	}
	for i := 0; i < 2; i++ {
		r := <-done
		fmt.Println(r)
		f := strings.Fields(r)
		for _, w := range f {
			k, ok := ref.ParseWIF(0x80, w)
			fmt.Println(k, ok)
		}
	}
	os.Exit(0)
}
