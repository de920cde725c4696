package main

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"aaa.test/seam"
	"github.com/aureleoules/btc"

	"verif/mc/ref"
)

// ------------------------------------------------------------- networks

// Net is a network together with the model's view of it.
type Net struct {
	name string
	net  *btc.Network
	priv byte
	pub  []byte
}

func mkNet(name, priv, pub string) Net {
	a, ok1 := ref.Unhex(priv)
	b, ok2 := ref.Unhex(pub)
	if !ok1 || !ok2 || len(a) != 1 {
		panic("bad network in harness")
	}
	return Net{name, &btc.Network{PrivKeyPrefix: priv, PubKeyHashPrefix: pub}, a[0], b}
}

// The model's constants for the built-in networks are stated here, not read
// from the library.
func netMain() Net { return Net{"main", btc.MainNetwork, 0x80, []byte{0}} }
func netTest() Net { return Net{"test", btc.TestNetwork, 0xef, []byte{0x6f}} }

func builtin() []Net { return []Net{netMain(), netTest()} }

func customNets() []Net {
	return []Net{
		mkNet("lower-ef", "ef", "6f"),
		mkNet("ltc-B0-30", "B0", "30"),
		mkNet("zero-00-FF", "00", "FF"),
		mkNet("ff-FF-00", "FF", "00"),
		mkNet("zec-80-1CB8", "80", "1CB8"),
		mkNet("mixed-aB-0a", "aB", "0a"),
	}
}

func allNets() []Net { return append(builtin(), customNets()...) }

// ---------------------------------------------------------- API wrappers

func (c *Ctx) PrivHex(s string, n Net) (k *btc.PrivateKey, err error) {
	c.call(func() string { return fmt.Sprintf("PrivateFromHex(%q, %s)", s, n.name) }, func() { k, err = btc.PrivateFromHex(s, n.net) })
	c.leak("PrivateFromHex", err)
	return
}

func (c *Ctx) PrivWIF(s string, n Net) (k *btc.PrivateKey, err error) {
	c.call(func() string { return fmt.Sprintf("PrivateFromWIF(%q, %s)", s, n.name) }, func() { k, err = btc.PrivateFromWIF(s, n.net) })
	c.leak("PrivateFromWIF", err)
	return
}

func (c *Ctx) Check(s string) (ok bool) {
	c.call(func() string { return fmt.Sprintf("CheckWIF(%q)", s) }, func() { ok = btc.CheckWIF(s) })
	c.leak("CheckWIF", okErr(ok))
	return
}

func (c *Ctx) AddPriv(a, b *btc.PrivateKey) (k *btc.PrivateKey, err error) {
	c.call(func() string { return "AddPrivateKeys(" + showPriv(a) + ", " + showPriv(b) + ")" }, func() { k, err = btc.AddPrivateKeys(a, b) })
	c.leak("AddPrivateKeys", err)
	return
}

func (c *Ctx) MulPriv(a, b *btc.PrivateKey) (k *btc.PrivateKey, err error) {
	c.call(func() string { return "MultiplyPrivateKeys(" + showPriv(a) + ", " + showPriv(b) + ")" }, func() { k, err = btc.MultiplyPrivateKeys(a, b) })
	c.leak("MultiplyPrivateKeys", err)
	return
}

func (c *Ctx) Pub(a *btc.PrivateKey) (p *btc.PublicKey, ok bool) {
	c.call(func() string { return "GetPublicKey(" + showPriv(a) + ")" }, func() { p, ok = a.GetPublicKey() })
	c.leak("GetPublicKey", okErr(ok))
	return
}

func (c *Ctx) PubHex(s string, n Net) (p *btc.PublicKey, err error) {
	c.call(func() string { return fmt.Sprintf("PublicFromHex(%q, %s)", s, n.name) }, func() { p, err = btc.PublicFromHex(s, n.net) })
	c.skipOutput()
	return
}

func (c *Ctx) Format(p *btc.PublicKey, comp bool) (s string) {
	c.call(func() string { return fmt.Sprintf("Format(%v, %v)", showPub(p), comp) }, func() { s = p.Format(comp) })
	c.skipOutput()
	return
}

func (c *Ctx) Addr(p *btc.PublicKey, comp bool) (s string, err error) {
	c.call(func() string { return fmt.Sprintf("Address(%v, %v)", showPub(p), comp) }, func() { s, err = p.Address(comp) })
	c.skipOutput()
	return
}

func (c *Ctx) AddPub(a, b *btc.PublicKey, comp bool) (p *btc.PublicKey, err error) {
	c.call(func() string { return fmt.Sprintf("AddPublicKeys(%v, %v, %v)", showPub(a), showPub(b), comp) }, func() { p, err = btc.AddPublicKeys(a, b, comp) })
	c.skipOutput()
	return
}

func (c *Ctx) Gen(n Net) (k *btc.PrivateKey) {
	c.call(func() string { return "GeneratePrivateKey(" + n.name + ")" }, func() { k = btc.GeneratePrivateKey(n.net) })
	c.leak("GeneratePrivateKey", nil)
	return
}

func (c *Ctx) Mnemonic(words int, l WL) (s string, err error) {
	c.call(func() string { return fmt.Sprintf("NewMnemonic(%d, %s)", words, l.name) }, func() { s, err = btc.NewMnemonic(words, l.list) })
	if err == nil {
		c.leak("NewMnemonic", nil)
	} else {
		c.skipOutput() // the word count is no secret
	}
	return
}

func (c *Ctx) Seed(m, pass string, l WL) (b []byte, err error) {
	c.call(func() string { return fmt.Sprintf("NewSeedFromMnemonic(%q, %q, %s)", m, pass, l.name) }, func() { b, err = btc.NewSeedFromMnemonic(m, pass, l.list) })
	c.leak("NewSeedFromMnemonic", err)
	return
}

func okErr(ok bool) error {
	if ok {
		return nil
	}
	return errNo
}

var errNo = errors.New("no")

func showPriv(k *btc.PrivateKey) string {
	if k == nil {
		return "nil"
	}
	if k.Key == nil {
		return "key(nil)"
	}
	return fmt.Sprintf("key(%x)", k.Key)
}

func showPub(p *btc.PublicKey) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprintf("pub(%v,%v)", hexOrNil(p.X), hexOrNil(p.Y))
}

func hexOrNil(v *big.Int) string {
	if v == nil {
		return "nil"
	}
	return v.Text(16)
}

// ------------------------------------------------------------- wordlists

// WL is a wordlist argument.
type WL struct {
	name  string
	list  btc.Wordlist
	index map[string]int
}

func wl(name string, l btc.Wordlist) WL { return WL{name, l, nil} }

func (l *WL) idx() map[string]int {
	if l.index == nil {
		l.index = ref.Index(l.list)
	}
	return l.index
}

func bundled() []*WL {
	ls := []WL{
		wl("english", btc.EnglishWordlist), wl("french", btc.FrenchWordlist), wl("japanese", btc.JapaneseWordlist),
		wl("italian", btc.ItalianWordlist), wl("spanish", btc.SpanishWordlist), wl("korean", btc.KoreanWordlist),
		wl("czech", btc.CzechWordlist), wl("chinese_traditional", btc.ChineseTraditionalWordlist),
		wl("chinese_simplified", btc.ChineseSimplifiedWordlist),
	}
	out := make([]*WL, len(ls))
	for i := range ls {
		out[i] = &ls[i]
	}
	return out
}

// --------------------------------------------------------- common oracles

// checkPriv demands that key is exactly the model key (k, n).
func (c *Ctx) checkPriv(what string, key *btc.PrivateKey, err error, k *big.Int, n Net) {
	if err != nil {
		c.Failf("%s: unexpected error %q for key %x on %s", what, err, k, n.name)
	}
	if key == nil {
		c.Failf("%s: nil key without error", what)
	}
	if key.Key == nil || key.Key.Cmp(k) != 0 {
		c.Failf("%s: integer is %s, want %x", what, hexOrNil(key.Key), k)
	}
	if len(key.Hex) != 64 || !strings.EqualFold(key.Hex, ref.Hex(ref.Key32(k))) {
		c.Failf("%s: hex is %q, want %x in 64 digits", what, key.Hex, ref.Key32(k))
	}
	if w := ref.WIF(n.priv, k); key.WIF != w {
		c.Failf("%s: WIF is %q, want %q", what, key.WIF, w)
	}
	if key.Network == nil || !reflect.DeepEqual(*key.Network, *n.net) {
		c.Failf("%s: network is %+v, want %s", what, key.Network, n.name)
	}
	c.State("priv", k.Text(62), n.name)
}

// noPriv demands an error and no key.
func (c *Ctx) noPriv(what string, key *btc.PrivateKey, err error) {
	if err == nil {
		c.Failf("%s: accepted (key %s), must be an error", what, showPriv(key))
	}
	if key != nil {
		c.Failf("%s: returned a key together with error %q", what, err)
	}
}

func (c *Ctx) checkPub(what string, p *btc.PublicKey, want ref.Point, n Net) {
	if p == nil {
		c.Failf("%s: no key", what)
	}
	if p.X == nil || p.Y == nil || p.X.Cmp(want.X) != 0 || p.Y.Cmp(want.Y) != 0 {
		c.Failf("%s: got %s, want (%x,%x)", what, showPub(p), want.X, want.Y)
	}
	if p.Network == nil || !reflect.DeepEqual(*p.Network, *n.net) {
		c.Failf("%s: network is %+v, want %s", what, p.Network, n.name)
	}
	c.State("pub", want.X.Text(62), fmt.Sprint(want.Y.Bit(0)), n.name)
}

func (c *Ctx) noPub(what string, p *btc.PublicKey, err error) {
	if err == nil {
		c.Failf("%s: accepted (%s), must be an error", what, showPub(p))
	}
	if p != nil {
		c.Failf("%s: returned a key together with error %q", what, err)
	}
}

// mustPriv imports a model key through the library (a step of other traces).
func (c *Ctx) mustPriv(k *big.Int, n Net) *btc.PrivateKey {
	key, err := c.PrivHex(ref.Hex(ref.Key32(k)), n)
	if err != nil || key == nil || key.Key == nil || key.Key.Cmp(k) != 0 {
		c.Failf("importing valid key %x failed: %v", k, err)
	}
	return key
}

// rawPub builds a public key object without going through the library.
func rawPub(p ref.Point, n Net) *btc.PublicKey {
	return &btc.PublicKey{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y), Network: n.net}
}

// rawPriv builds a private key object without going through the library.
func rawPriv(k *big.Int, n Net) *btc.PrivateKey {
	h := ""
	w := ""
	if ref.ValidKey(k) {
		h = ref.Hex(ref.Key32(k))
		w = ref.WIF(n.priv, k)
	}
	return &btc.PrivateKey{Key: new(big.Int).Set(k), Hex: h, WIF: w, Network: n.net}
}

// ------------------------------------------------------ random source seam

var errSource = errors.New("injected random source failure")

// Stream is the controlled random source: Head, then an endless
// deterministic tail derived from Salt. Pieces bounds the size of successive
// reads; FailAt >= 0 makes the source fail once FailAt bytes were delivered.
type Stream struct {
	Head     []byte
	Salt     string
	Pieces   []int
	FailAt   int
	Err      error
	Separate bool // deliver the last partial read without the error
	// Transient: the source fails once and then goes on
	Transient bool
	failed    bool
	N         int // bytes delivered
	calls     int
	block     []byte
	bn        uint64
}

func newStream(head []byte, salt string) *Stream { return &Stream{Head: head, Salt: salt, FailAt: -1} }

func (s *Stream) byteAt(i int) byte {
	if i < len(s.Head) {
		return s.Head[i]
	}
	i -= len(s.Head)
	bn := uint64(i/32) + 1
	if s.bn != bn {
		var x [8]byte
		binary.LittleEndian.PutUint64(x[:], bn)
		h := sha256.Sum256(append([]byte("tail:"+s.Salt), x[:]...))
		s.block, s.bn = h[:], bn
	}
	return s.block[i%32]
}

func (s *Stream) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if s.calls < len(s.Pieces) && s.Pieces[s.calls] < n {
		n = s.Pieces[s.calls]
	}
	s.calls++
	var err error
	if s.FailAt >= 0 && !(s.Transient && s.failed) {
		rem := s.FailAt - s.N
		if rem <= 0 {
			s.failed = true
			return 0, s.Err
		}
		if n > rem {
			n = rem
			if !s.Separate {
				err = s.Err
			}
		}
	}
	for i := 0; i < n; i++ {
		b[i] = s.byteAt(s.N + i)
	}
	s.N += n
	return n, err
}

// with installs the stream as the secure random source for f.
func (s *Stream) with(f func()) {
	seam.Cur = s
	defer func() { seam.Cur = nil }()
	f()
}

// ------------------------------------------------------------- alphabets

// K is a named scalar.
type K struct {
	name string
	v    *big.Int
}

func bi(n int64) *big.Int          { return big.NewInt(n) }
func add(a, b *big.Int) *big.Int   { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int   { return new(big.Int).Sub(a, b) }
func lsh(a int64, n uint) *big.Int { return new(big.Int).Lsh(bi(a), n) }

func hashInt(s string) *big.Int {
	h := sha256.Sum256([]byte(s))
	return new(big.Int).SetBytes(h[:])
}

type kset struct {
	ks   []K
	seen map[string]bool
}

func (s *kset) add(name string, v *big.Int) {
	if !ref.ValidKey(v) {
		return
	}
	t := v.Text(16)
	if s.seen == nil {
		s.seen = map[string]bool{}
	}
	if s.seen[t] {
		return
	}
	s.seen[t] = true
	s.ks = append(s.ks, K{name, v})
}

var half = new(big.Int).Rsh(ref.N, 1) // (n-1)/2

var repoKeys = []string{
	"42EE9BFFA29658554203A7D82456B4CBB9286ABE8D781D6C94C080260A9F24D6",
	"8613DFD6C099751DCC4020EF6F9BCD3C00F4565A15B26979B4B93C045D0A5CEB",
	"bc18f76841a483825323c48a26830734f0b496f89de498f7d4b47b15231eb482",
	"11d82d8c5dfd251556e8f49d020171cfd9d993d0c95c3bd8a3641ece5da1a293",
}

// specialKeys: values at which arithmetic or encodings change shape.
func specialKeys() []K {
	var s kset
	for i := int64(1); i <= 3; i++ {
		s.add(fmt.Sprint(i), bi(i))
		s.add(fmt.Sprintf("n-%d", i), sub(ref.N, bi(i)))
	}
	s.add("half", half)
	s.add("half+1", add(half, bi(1)))
	s.add("half-1", sub(half, bi(1)))
	s.add("half+2", add(half, bi(2)))
	s.add("p-n", sub(ref.P, ref.N))
	s.add("2^256-n", sub(lsh(1, 256), ref.N))
	s.add("2^255", lsh(1, 255))
	s.add("2^255-1", sub(lsh(1, 255), bi(1)))
	s.add("2^252-1", sub(lsh(1, 252), bi(1)))
	s.add("2^252", lsh(1, 252))
	s.add("2^248-1", sub(lsh(1, 248), bi(1)))
	s.add("2^248", lsh(1, 248))
	s.add("2^128", lsh(1, 128))
	s.add("2^128-1", sub(lsh(1, 128), bi(1)))
	s.add("lambda", hexBig("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72"))
	s.add("lambda^2", hexBig("ac9c52b33fa3cf1f5ad9e3fd77ed9ba4a880b9fc8ec739c2e0cfc810b51283ce"))
	s.add("1/2", new(big.Int).ModInverse(bi(2), ref.N))
	s.add("1/3", new(big.Int).ModInverse(bi(3), ref.N))
	s.add("0xAA..", hexBig(strings.Repeat("aa", 32)))
	s.add("0x55..", hexBig(strings.Repeat("55", 32)))
	for i, h := range repoKeys {
		s.add(fmt.Sprintf("repo%d", i), hexBig(h))
	}
	return s.ks
}

func hexBig(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad hex " + s)
	}
	return v
}

// keySet is the structured alphabet of valid private keys. level 0: ~150,
// 1: ~1500, 2: thousands more.
func keySet(level int, random int) []K {
	var s kset
	for _, k := range specialKeys() {
		s.add(k.name, k.v)
	}
	r := int64([]int{8, 64, 2048}[level])
	for i := int64(1); i <= r; i++ {
		s.add(fmt.Sprint(i), bi(i))
		s.add(fmt.Sprintf("n-%d", i), sub(ref.N, bi(i)))
	}
	pat := hexBig("9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95")
	for j := uint(0); j < 64; j++ { // exactly j leading zero nibbles
		s.add(fmt.Sprintf("lead0x%d", j), new(big.Int).Rsh(pat, 4*j))
	}
	step := uint([]int{16, 1, 1}[level])
	for i := uint(0); i < 256; i += step {
		s.add(fmt.Sprintf("2^%d", i), lsh(1, i))
		s.add(fmt.Sprintf("2^%d-1", i), sub(lsh(1, i), bi(1)))
		if level >= 1 {
			s.add(fmt.Sprintf("2^%d+1", i), add(lsh(1, i), bi(1)))
			s.add(fmt.Sprintf("n-2^%d", i), sub(ref.N, lsh(1, i)))
		}
	}
	for j := uint(0); j < 32; j++ {
		if level >= 1 || j%5 == 0 {
			s.add(fmt.Sprintf("byte%d=ff", j), lsh(0xff, 8*j))
			s.add(fmt.Sprintf("byte%d=0", j), new(big.Int).AndNot(hexBig("8613DFD6C099751DCC4020EF6F9BCD3C99F4565A15B26979B4B93C145D1A5CEB"), lsh(0xff, 8*j)))
			s.add(fmt.Sprintf("trail0x%d", j), new(big.Int).Lsh(new(big.Int).Rsh(pat, 8*j), 8*j))
		}
	}
	if level >= 1 {
		for _, m := range minedScalars {
			s.add("mined:"+m.class, bi(m.k))
			if level >= 2 {
				s.add("mined-neg:"+m.class, sub(ref.N, bi(m.k)))
			}
		}
	}
	if level >= 2 {
		for i := uint(0); i < 256; i++ {
			for j := uint(0); j < i; j += 7 {
				s.add(fmt.Sprintf("2^%d+2^%d", i, j), add(lsh(1, i), lsh(1, j)))
				s.add(fmt.Sprintf("2^%d-2^%d", i, j), sub(lsh(1, i), lsh(1, j)))
			}
		}
	}
	for i := 0; i < random; i++ {
		s.add(fmt.Sprintf("spread%d", i), new(big.Int).Mod(hashInt(fmt.Sprintf("spread-%d", i)), ref.N))
	}
	return s.ks
}

// mixCase alternates letter case.
func mixCase(s string) string {
	b := []byte(s)
	up := false
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'f' {
			if up {
				b[i] -= 32
			}
			up = !up
		}
	}
	return string(b)
}

// oddNets are networks whose parameters differ, though they may look alike.
func oddNets() []*btc.Network {
	var out []*btc.Network
	for _, p := range [][2]string{{"80", "00"}, {"080", "00"}, {"0080", "00"}, {"8", "00"}, {"80", "0"}, {"80", ""}, {"80", "0000"}, {"80 ", "00"}, {"80", "00 "}, {"", "00"}, {"", ""},
		{"8000", ""}, {"800", "0"}, {"8", "000"}, {"", "8000"}, {"00", "80"}, {"80", "80"}, {"00", "00"}, {"EF", "6F"}, {"ef", "6F"}, {"EF", "6f"}, {"eF", "6F"}, {"ef", "6f"}, {"6F", "EF"}, {"0x80", "00"}, {"80", "0x00"}, {"81", "00"}, {"80", "01"}, {"80", "10"}, {"08", "00"}} {
		out = append(out, &btc.Network{PrivKeyPrefix: p[0], PubKeyHashPrefix: p[1]})
	}
	return out
}

// oddPairs runs f on every ordered pair of different odd networks.
func oddPairs(g *Gen, f func(c *Ctx, n, m *btc.Network, what string)) {
	all := oddNets()
	for i, n := range all {
		i, n := i, n
		g.Add(fmt.Sprintf("oddnets/%d", i), func(c *Ctx) {
			for j, m := range all {
				if i != j {
					what := fmt.Sprintf("networks %+v and %+v", *n, *m)
					f(c, n, m, what)
					c.State("odd", what)
					c.Outcome("network rejected")
				}
			}
		})
	}
}

// privOn and pubOn move a key to another network object.
func privOn(k *btc.PrivateKey, n *btc.Network) *btc.PrivateKey { k.Network = n; return k }
func pubOn(p *btc.PublicKey, n *btc.Network) *btc.PublicKey    { p.Network = n; return p }
