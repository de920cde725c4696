package ref

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"math/big"
)

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// Alphabet58 is the base58 alphabet.
const Alphabet58 = b58

// Base58Encode encodes by repeated division of the whole integer.
func Base58Encode(b []byte) string {
	v := new(big.Int).SetBytes(b)
	var out []byte
	m := new(big.Int)
	d := big.NewInt(58)
	for v.Sign() > 0 {
		v.DivMod(v, d, m)
		out = append(out, b58[m.Int64()])
	}
	for _, x := range b {
		if x != 0 {
			break
		}
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

var b58idx = func() [256]int8 {
	var t [256]int8
	for i := range t {
		t[i] = -1
	}
	for i := 0; i < 58; i++ {
		t[b58[i]] = int8(i)
	}
	return t
}()

// Base58Decode returns the bytes of s; empty and non-base58 strings fail.
func Base58Decode(s string) ([]byte, bool) {
	if len(s) == 0 {
		return nil, false
	}
	zeros := 0
	lead := true
	var num []byte // little endian base 256
	for i := 0; i < len(s); i++ {
		d := b58idx[s[i]]
		if d < 0 {
			return nil, false
		}
		if lead && d == 0 {
			zeros++
			continue
		}
		lead = false
		carry := int(d)
		for j := range num {
			carry += int(num[j]) * 58
			num[j] = byte(carry)
			carry >>= 8
		}
		for carry > 0 {
			num = append(num, byte(carry))
			carry >>= 8
		}
	}
	out := make([]byte, zeros+len(num))
	for i, b := range num {
		out[len(out)-1-i] = b
	}
	return out, true
}

// DSHA is double SHA-256.
func DSHA(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

// Base58Check appends the checksum and encodes.
func Base58Check(payload []byte) string {
	b := append(append([]byte{}, payload...), DSHA(payload)[:4]...)
	return Base58Encode(b)
}

// CheckDecode returns the payload of a checksum-valid string.
func CheckDecode(s string) ([]byte, bool) {
	b, ok := Base58Decode(s)
	if !ok || len(b) < 4 {
		return nil, false
	}
	p := b[:len(b)-4]
	return p, bytes.Equal(DSHA(p)[:4], b[len(b)-4:])
}

// Key32 is the 32-byte big-endian form of k.
func Key32(k *big.Int) []byte { return k.FillBytes(make([]byte, 32)) }

// WIF encodes an uncompressed-type WIF.
func WIF(prefix byte, k *big.Int) string {
	return Base58Check(append([]byte{prefix}, Key32(k)...))
}

// ParseWIF is the acceptance predicate of C03.
func ParseWIF(prefix byte, s string) (*big.Int, bool) {
	p, ok := CheckDecode(s)
	if !ok || len(p) != 33 || p[0] != prefix {
		return nil, false
	}
	k := new(big.Int).SetBytes(p[1:])
	return k, ValidKey(k)
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// Unhex decodes an even-length hex string.
func Unhex(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	out := make([]byte, len(s)/2)
	for i := 0; i < len(s); i++ {
		v := hexVal(s[i])
		if v < 0 {
			return nil, false
		}
		out[i/2] = out[i/2]<<4 | byte(v)
	}
	return out, true
}

const hexd = "0123456789abcdef"

// Hex is lower-case hex.
func Hex(b []byte) string {
	out := make([]byte, 0, 2*len(b))
	for _, x := range b {
		out = append(out, hexd[x>>4], hexd[x&15])
	}
	return string(out)
}

// ParsePrivHex is the acceptance predicate of C04.
func ParsePrivHex(s string) (*big.Int, bool) {
	if len(s) != 64 {
		return nil, false
	}
	b, ok := Unhex(s)
	if !ok {
		return nil, false
	}
	k := new(big.Int).SetBytes(b)
	return k, ValidKey(k)
}

// SEC1 encodes a finite point.
func SEC1(p Point, compressed bool) []byte {
	if compressed {
		return append([]byte{2 + byte(p.Y.Bit(0))}, Key32(p.X)...)
	}
	return append(append([]byte{4}, Key32(p.X)...), Key32(p.Y)...)
}

// ParseSEC1 is the acceptance predicate of C10.
func ParseSEC1(s string) (Point, bool) {
	b, ok := Unhex(s)
	if !ok {
		return Point{}, false
	}
	switch {
	case len(b) == 65 && b[0] == 4:
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		return Point{X: x, Y: y}, OnCurve(x, y)
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		x := new(big.Int).SetBytes(b[1:])
		y, ok := Lift(x, uint(b[0]&1))
		return Point{X: x, Y: y}, ok
	}
	return Point{}, false
}

// Hash160 is RIPEMD160(SHA256(b)).
func Hash160(b []byte) []byte {
	h := sha256.Sum256(b)
	return ripemd160(h[:])
}

// Address is the P2PKH address.
func Address(prefix []byte, p Point, compressed bool) string {
	return Base58Check(append(append([]byte{}, prefix...), Hash160(SEC1(p, compressed))...))
}

var errSelf = errors.New("reference self-test failed")
