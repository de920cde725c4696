package ref

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"
	"strings"
)

// Counts are the BIP-39 phrase lengths.
var Counts = []int{12, 15, 18, 21, 24}

// SupportedCount reports whether n is a BIP-39 phrase length.
func SupportedCount(n int) bool {
	return n == 12 || n == 15 || n == 18 || n == 21 || n == 24
}

func bit(b []byte, i int) int { return int(b[i/8]>>(7-uint(i)%8)) & 1 }

// Indices encodes entropy (4*n/3 bytes for n words) as 11-bit indices; it also
// serves unsupported lengths, for building phrases that must be rejected.
func Indices(ent []byte) []int {
	h := sha256.Sum256(ent)
	nb := len(ent) * 8
	cs := nb / 32
	var out []int
	for i := 0; i < nb+cs; i += 11 {
		v := 0
		for j := i; j < i+11; j++ {
			v <<= 1
			if j < nb {
				v |= bit(ent, j)
			} else {
				v |= bit(h[:], j-nb)
			}
		}
		out = append(out, v)
	}
	return out
}

// Phrase joins the words of the indices.
func Phrase(idx []int, list []string) string {
	w := make([]string, len(idx))
	for i, v := range idx {
		w[i] = list[v]
	}
	return strings.Join(w, " ")
}

// Decode inverts Indices for supported lengths and verifies the checksum.
func Decode(idx []int) ([]byte, bool) {
	if !SupportedCount(len(idx)) {
		return nil, false
	}
	v := new(big.Int)
	for _, x := range idx {
		if x < 0 || x > 2047 {
			return nil, false
		}
		v.Lsh(v, 11)
		v.Or(v, big.NewInt(int64(x)))
	}
	cs := uint(len(idx) / 3)
	ent := new(big.Int).Rsh(v, cs).FillBytes(make([]byte, len(idx)*4/3))
	h := sha256.Sum256(ent)
	got := new(big.Int).And(v, big.NewInt(1<<cs-1)).Int64()
	return ent, int64(h[0]>>(8-cs)) == got
}

// ParsePhrase is the acceptance predicate of C16.
func ParsePhrase(s string, index map[string]int) ([]byte, bool) {
	var idx []int
	for _, w := range strings.Split(s, " ") {
		i, ok := index[w]
		if !ok {
			return nil, false
		}
		idx = append(idx, i)
	}
	return Decode(idx)
}

// Index builds the word->index map.
func Index(list []string) map[string]int {
	m := map[string]int{}
	for i, w := range list {
		if _, dup := m[w]; !dup {
			m[w] = i
		}
	}
	return m
}

// Seed is PBKDF2-HMAC-SHA512(phrase, "mnemonic"+pass, 2048, 64), written out.
func Seed(phrase, pass string) []byte {
	mac := hmac.New(sha512.New, []byte(phrase))
	mac.Write([]byte("mnemonic" + pass))
	mac.Write([]byte{0, 0, 0, 1})
	u := mac.Sum(nil)
	t := append([]byte{}, u...)
	for i := 1; i < 2048; i++ {
		mac.Reset()
		mac.Write(u)
		u = mac.Sum(u[:0])
		for j := range t {
			t[j] ^= u[j]
		}
	}
	return t
}

// SelfTest checks the reference model against published vectors.
func SelfTest(english []string) error {
	eq := func(what, got, want string) error {
		if got != want {
			return fmt.Errorf("%w: %s: %s != %s", errSelf, what, got, want)
		}
		return nil
	}
	k1 := big.NewInt(1)
	g := MulG(k1)
	checks := [][3]string{
		{"ripemd160('')", Hex(ripemd160(nil)), "9c1185a5c5e9fc54612808977ee8f548b2258d31"},
		{"ripemd160('abc')", Hex(ripemd160([]byte("abc"))), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"},
		{"ripemd160(a..z)", Hex(ripemd160([]byte("abcdefghijklmnopqrstuvwxyz"))), "f71c27109c692c1b56bbdceb5b9d2865b3708dbc"},
		{"wif(1)", WIF(0x80, k1), "5HpHagT65TZzG1PH3CSu63k8DbpvD8s5ip4nEB3kEsreAnchuDf"},
		{"addr(1)u", Address([]byte{0}, g, false), "1EHNa6Q4Jz2uvNExL497mE43ikXhwF6kZm"},
		{"addr(1)c", Address([]byte{0}, g, true), "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH"},
		{"2G.x", MulG(big.NewInt(2)).X.Text(16), "c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5"},
		{"3G.x", Add(Add(g, g), g).X.Text(16), "f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9"},
		{"(n-1)G.y", MulG(new(big.Int).Sub(N, k1)).Y.Text(16), Neg(g).Y.Text(16)},
	}
	if len(english) == 2048 {
		z := Phrase(Indices(make([]byte, 16)), english)
		checks = append(checks,
			[3]string{"bip39 zero12", z, strings.Repeat("abandon ", 11) + "about"},
			[3]string{"bip39 seed", Hex(Seed(strings.Repeat("abandon ", 11)+"about", "TREZOR")), "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"},
			[3]string{"bip39 ff24", Phrase(Indices([]byte(strings.Repeat("\xff", 32))), english), strings.Repeat("zoo ", 23) + "vote"},
			[3]string{"bip39 7f18", Phrase(Indices([]byte(strings.Repeat("\x7f", 24))), english), "legal winner thank year wave sausage worth useful legal winner thank year wave sausage worth useful legal will"},
		)
	}
	for _, c := range checks {
		if err := eq(c[0], c[1], c[2]); err != nil {
			return err
		}
	}
	if !Mul(N, G()).Inf || !OnCurve(Gx, Gy) {
		return errSelf
	}
	return nil
}
