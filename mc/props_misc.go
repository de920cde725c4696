package main

import (
	"fmt"
	"io"
	"math/big"
	"os"
	"regexp"
	"strings"
	"syscall"

	"github.com/aureleoules/btc"

	"verif/mc/ref"
)

// ------------------------------------------------------------------- C21

var stamps = regexp.MustCompile(`\d{4}[/-]\d\d[/-]\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?|0xc[0-9a-f]{9}`)

// captured runs f with descriptors 1 and 2 redirected to a file.
func (c *Ctx) captured(f func()) string {
	file, err := os.CreateTemp(c.tmp, "cap-")
	must(err)
	path := file.Name()
	s1, err := syscall.Dup(1)
	must(err)
	s2, err := syscall.Dup(2)
	must(err)
	must(syscall.Dup2(int(file.Fd()), 1))
	must(syscall.Dup2(int(file.Fd()), 2))
	func() {
		defer func() {
			syscall.Dup2(s1, 1)
			syscall.Dup2(s2, 2)
			syscall.Close(s1)
			syscall.Close(s2)
		}()
		f()
	}()
	file.Seek(0, io.SeekStart)
	b, err := io.ReadAll(file)
	must(err)
	file.Close()
	os.Remove(path)
	return stamps.ReplaceAllString(string(b), "*")
}

// capture observes descriptors 1 and 2 during the calls of a sweep.
type capture struct {
	file *os.File
	off  int64
	seen map[string]string
}

type leakFailure struct{ msg string }

func (c *Ctx) output() string {
	var st syscall.Stat_t
	must(syscall.Fstat(int(c.cap.file.Fd()), &st))
	if st.Size == c.cap.off {
		return ""
	}
	b := make([]byte, st.Size-c.cap.off)
	_, err := c.cap.file.ReadAt(b, c.cap.off)
	must(err)
	c.cap.off = st.Size
	return stamps.ReplaceAllString(string(b), "*")
}

// leak demands that a call wrote what the first call with the same outcome
// wrote; only active in the sweeps of C21.
func (c *Ctx) leak(fn string, err error) {
	if c.cap == nil {
		return
	}
	out := c.output()
	k := fn + ": " + class(err)
	if first, ok := c.cap.seen[k]; !ok {
		c.cap.seen[k] = out
	} else if first != out {
		panic(leakFailure{fmt.Sprintf("%s: output on the standard streams depends on the secret: %q for one, %q for another", k, clip(first), clip(out))})
	}
}

func (c *Ctx) skipOutput() {
	if c.cap != nil {
		c.output()
	}
}

// capSeen is shared by all sweeps of a worker.
var capSeen = map[string]string{}

// sweep runs the cases of another property, observing only the output.
func (c *Ctx) sweep(cases []Case) {
	file, err := os.CreateTemp(c.tmp, "sweep-")
	must(err)
	defer os.Remove(file.Name())
	defer file.Close()
	s1, err := syscall.Dup(1)
	must(err)
	s2, err := syscall.Dup(2)
	must(err)
	must(syscall.Dup2(int(file.Fd()), 1))
	must(syscall.Dup2(int(file.Fd()), 2))
	c.cap = &capture{file: file, seen: capSeen}
	defer func() {
		c.cap = nil
		syscall.Dup2(s1, 1)
		syscall.Dup2(s2, 2)
		syscall.Close(s1)
		syscall.Close(s2)
	}()
	for i := range cases {
		func() {
			defer func() {
				r := recover()
				if l, ok := r.(leakFailure); ok {
					panic(caseFailure{l.msg})
				}
				if _, ok := r.(caseFailure); ok {
					c.skipOutput() // another property's matter
				} else if r != nil {
					panic(r)
				}
			}()
			cases[i].Run(c)
		}()
	}
}

// secretRun is one call with one secret; it returns the outcome class.
type secretRun struct {
	name string
	run  func() string
}

func class(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// noLeak demands equal output for all secrets of the same outcome.
func (c *Ctx) noLeak(op string, runs []secretRun) {
	first := map[string]string{}
	from := map[string]string{}
	for _, r := range runs {
		var cl string
		var out string
		out = c.captured(func() {
			c.call(func() string { return op + " " + r.name }, func() { cl = r.run() })
		})
		c.State(op, r.name, cl)
		c.Outcome(op + ": " + cl)
		if o, ok := first[cl]; !ok {
			first[cl], from[cl] = out, r.name
		} else if o != out {
			c.Failf("%s (%s): output on the standard streams depends on the secret: %q for %s, %q for %s", op, cl, clip(o), from[cl], clip(out), r.name)
		}
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func genC21(g *Gen) {
	keys := keySet(g.T(0, 1), g.T(30, 400))
	nets := allNets()
	type op struct {
		name string
		f    func(k K, n Net) func() string
	}
	h := func(k K) string { return ref.Hex(ref.Key32(k.v)) }
	other := func(k K, n Net) *btc.PrivateKey { // a second secret
		v := combineModel("add", combineModel("mul", k.v, bi(3)), bi(11))
		if !ref.ValidKey(v) || v.Cmp(k.v) == 0 {
			v = bi(12345)
		}
		return rawPriv(v, n)
	}
	ops := []op{
		{"PrivateFromHex", func(k K, n Net) func() string {
			return func() string { _, e := btc.PrivateFromHex(h(k), n.net); return class(e) }
		}},
		{"PrivateFromHex-upper", func(k K, n Net) func() string {
			return func() string { _, e := btc.PrivateFromHex(strings.ToUpper(h(k)), n.net); return class(e) }
		}},
		{"PrivateFromHex-badchar", func(k K, n Net) func() string {
			return func() string { _, e := btc.PrivateFromHex(h(k)[:63]+"g", n.net); return class(e) }
		}},
		{"PrivateFromHex-short", func(k K, n Net) func() string {
			return func() string { _, e := btc.PrivateFromHex(h(k)[:62], n.net); return class(e) }
		}},
		{"PrivateFromHex-odd", func(k K, n Net) func() string {
			return func() string { _, e := btc.PrivateFromHex(h(k)[:61], n.net); return class(e) }
		}},
		{"PrivateFromHex-long", func(k K, n Net) func() string {
			return func() string { _, e := btc.PrivateFromHex(h(k)+"01", n.net); return class(e) }
		}},
		{"PrivateFromHex-range", func(k K, n Net) func() string {
			return func() string {
				_, e := btc.PrivateFromHex("ffffffffffffffffffffffffffffffff"+h(k)[32:], n.net)
				return class(e)
			}
		}},
		{"CheckWIF", func(k K, n Net) func() string {
			return func() string { return fmt.Sprint(btc.CheckWIF(ref.WIF(n.priv, k.v))) }
		}},
		{"CheckWIF-typo", func(k K, n Net) func() string {
			return func() string { return fmt.Sprint(btc.CheckWIF(typo(ref.WIF(n.priv, k.v)))) }
		}},
		{"CheckWIF-foreignchar", func(k K, n Net) func() string {
			return func() string { return fmt.Sprint(btc.CheckWIF(ref.WIF(n.priv, k.v) + "0")) }
		}},
		{"PrivateFromWIF", func(k K, n Net) func() string {
			return func() string { _, e := btc.PrivateFromWIF(ref.WIF(n.priv, k.v), n.net); return class(e) }
		}},
		{"PrivateFromWIF-typo", func(k K, n Net) func() string {
			return func() string { _, e := btc.PrivateFromWIF(typo(ref.WIF(n.priv, k.v)), n.net); return class(e) }
		}},
		{"PrivateFromWIF-network", func(k K, n Net) func() string {
			return func() string { _, e := btc.PrivateFromWIF(ref.WIF(n.priv^1, k.v), n.net); return class(e) }
		}},
		{"PrivateFromWIF-length", func(k K, n Net) func() string {
			w := ref.Base58Check(append(append([]byte{n.priv}, ref.Key32(k.v)...), 1))
			return func() string { _, e := btc.PrivateFromWIF(w, n.net); return class(e) }
		}},
		{"PrivateFromWIF-range", func(k K, n Net) func() string {
			w := ref.Base58Check(append(append([]byte{n.priv}, []byte(strings.Repeat("\xff", 16))...), ref.Key32(k.v)[16:]...))
			return func() string { _, e := btc.PrivateFromWIF(w, n.net); return class(e) }
		}},
		{"GeneratePrivateKey", func(k K, n Net) func() string {
			return func() (s string) {
				newStream(ref.Key32(k.v), "g"+k.name).with(func() { btc.GeneratePrivateKey(n.net) })
				return "ok"
			}
		}},
		{"GeneratePrivateKey-retry", func(k K, n Net) func() string {
			return func() (s string) {
				newStream(append(ref.Key32(sub(lsh(1, 256), k.v)), ref.Key32(k.v)...), "g"+k.name).with(func() { btc.GeneratePrivateKey(n.net) })
				return "ok"
			}
		}},
		{"GeneratePrivateKey-fault", func(k K, n Net) func() string {
			return func() (s string) {
				for _, at := range []int{31, 16, 1} { // bytes delivered before the fault
					st := newStream(ref.Key32(k.v), "g"+k.name)
					st.FailAt, st.Err = at, errSource
					st.with(func() {
						defer func() { s += fmt.Sprint(recover() != nil) }()
						btc.GeneratePrivateKey(n.net)
					})
				}
				return
			}
		}},
		{"AddPrivateKeys", func(k K, n Net) func() string {
			a, b := rawPriv(k.v, n), other(k, n)
			return func() string { _, e := btc.AddPrivateKeys(a, b); return class(e) }
		}},
		{"AddPrivateKeys-same", func(k K, n Net) func() string {
			a := rawPriv(k.v, n)
			return func() string { _, e := btc.AddPrivateKeys(a, a); return class(e) }
		}},
		{"AddPrivateKeys-zero", func(k K, n Net) func() string {
			a, b := rawPriv(k.v, n), rawPriv(sub(ref.N, k.v), n)
			return func() string { _, e := btc.AddPrivateKeys(a, b); return class(e) }
		}},
		{"AddPrivateKeys-network", func(k K, n Net) func() string {
			a, b := rawPriv(k.v, n), other(k, mkNet("x", "13", "37"))
			return func() string { _, e := btc.AddPrivateKeys(a, b); return class(e) }
		}},
		{"MultiplyPrivateKeys", func(k K, n Net) func() string {
			a, b := rawPriv(k.v, n), other(k, n)
			return func() string { _, e := btc.MultiplyPrivateKeys(a, b); return class(e) }
		}},
		{"MultiplyPrivateKeys-small", func(k K, n Net) func() string { // products of every shape
			inv := new(big.Int).ModInverse(k.v, ref.N)
			if inv.Cmp(k.v) == 0 {
				inv = bi(99)
			}
			a, b := rawPriv(k.v, n), rawPriv(inv, n)
			return func() string { _, e := btc.MultiplyPrivateKeys(a, b); return class(e) }
		}},
		{"MultiplyPrivateKeys-same", func(k K, n Net) func() string {
			a := rawPriv(k.v, n)
			return func() string { _, e := btc.MultiplyPrivateKeys(a, a); return class(e) }
		}},
		{"MultiplyPrivateKeys-network", func(k K, n Net) func() string {
			a, b := rawPriv(k.v, n), other(k, mkNet("x", "13", "37"))
			return func() string { _, e := btc.MultiplyPrivateKeys(a, b); return class(e) }
		}},
		{"GetPublicKey", func(k K, n Net) func() string {
			a := rawPriv(k.v, n)
			return func() string { _, ok := a.GetPublicKey(); return fmt.Sprint(ok) }
		}},
		{"GetPublicKey-range", func(k K, n Net) func() string {
			a := rawPriv(add(ref.N, k.v), n)
			return func() string { _, ok := a.GetPublicKey(); return fmt.Sprint(ok) }
		}},
	}
	for i, o := range ops {
		for j, n := range nets {
			if j > 1 && !g.Thorough && j != 2+i%6 {
				continue
			}
			o, n := o, n
			ch := 40
			for at := 0; at < len(keys); at += ch {
				at := at
				g.Add(fmt.Sprintf("%s/%s/%d", o.name, n.name, at), func(c *Ctx) {
					var runs []secretRun
					ks := append([]K{{"ref", hexBig(repoKeys[3])}}, keys[at:min(at+ch, len(keys))]...)
					for _, k := range ks {
						runs = append(runs, secretRun{k.name, o.f(k, n)})
					}
					c.noLeak(o.name+" on "+n.name, runs)
				})
			}
		}
	}
	pass := []string{"", "TREZOR", "hunter2", strings.Repeat("z", 150), "日本"}
	for _, l := range append(bundled(), customLists()[2]) {
		l := l
		for _, w := range ref.Counts {
			w := w
			es := entropies(entLen(w), 40)
			var pick [][]byte
			for i := 0; i < len(es); i += g.T(1+len(es)/40, 1+len(es)/300) {
				pick = append(pick, es[i])
			}
			mk := func(f func(e []byte, i int) func() string) []secretRun {
				var rs []secretRun
				for i, e := range pick {
					rs = append(rs, secretRun{fmt.Sprintf("%x", e), f(e, i)})
				}
				return rs
			}
			addM := func(name string, f func(e []byte, i int) func() string) {
				g.Add(fmt.Sprintf("%s/%s/%d", name, l.name, w), func(c *Ctx) { c.noLeak(name, mk(f)) })
			}
			seed := func(s, p string) func() string {
				return func() string { _, e := btc.NewSeedFromMnemonic(s, p, l.list); return class(e) }
			}
			words := func(e []byte) []string { return strings.Split(ref.Phrase(ref.Indices(e), l.list), " ") }
			addM("NewMnemonic", func(e []byte, i int) func() string {
				return func() (s string) {
					newStream(e, "x").with(func() { _, err := btc.NewMnemonic(w, l.list); s = class(err) })
					return
				}
			})
			addM("NewMnemonic-shortlist", func(e []byte, i int) func() string {
				return func() (s string) {
					newStream(e, "x").with(func() { _, err := btc.NewMnemonic(w, l.list[:1000]); s = class(err) })
					return
				}
			})
			addM("NewMnemonic-fault", func(e []byte, i int) func() string {
				return func() (s string) {
					st := newStream(e, "x")
					st.FailAt, st.Err = len(e)-1, errSource
					st.with(func() { _, err := btc.NewMnemonic(w, l.list); s = class(err) })
					return
				}
			})
			addM("NewSeed", func(e []byte, i int) func() string { return seed(strings.Join(words(e), " "), pass[i%len(pass)]) })
			addM("NewSeed-checksum", func(e []byte, i int) func() string {
				idx := ref.Indices(e)
				idx[w-1] ^= 1
				return seed(ref.Phrase(idx, l.list), pass[i%len(pass)])
			})
			addM("NewSeed-unknown", func(e []byte, i int) func() string {
				x := words(e)
				x[i%w] = "Secret" + fmt.Sprint(i)
				return seed(strings.Join(x, " "), pass[i%len(pass)])
			})
			addM("NewSeed-count", func(e []byte, i int) func() string { return seed(strings.Join(words(e)[1:], " "), pass[i%len(pass)]) })
			addM("NewSeed-nolist", func(e []byte, i int) func() string {
				s := strings.Join(words(e), " ")
				return func() string { _, err := btc.NewSeedFromMnemonic(s, pass[i%len(pass)], nil); return class(err) }
			})
			g.Add(fmt.Sprintf("NewSeed-pass/%s/%d", l.name, w), func(c *Ctx) {
				var rs []secretRun
				s := strings.Join(words(es[len(es)-1]), " ")
				for _, p := range pass {
					rs = append(rs, secretRun{p, seed(s, p)})
				}
				c.noLeak("NewSeed-pass", rs)
			})
		}
	}
	genC21sweeps(g)
}

// genC21sweeps observes the output of everything the other checks do with
// private keys and mnemonics.
func genC21sweeps(g *Gen) {
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C13", "C14", "C16", "C17", "C18"} {
		cases := genCases(id, "sweep")
		parts := 48
		if parts > len(cases) {
			parts = len(cases)
		}
		for p := 0; p < parts; p++ {
			var part []Case
			for i := p; i < len(cases); i += parts {
				part = append(part, cases[i])
			}
			g.Add(fmt.Sprintf("sweep/%s/%d", id, p), func(c *Ctx) {
				c.sweep(part)
				c.Outcome("sweeps")
			})
		}
	}
}

func typo(w string) string {
	b := []byte(w)
	for i := 20; ; i++ {
		x := append([]byte{}, b...)
		x[i]++
		if _, ok := ref.CheckDecode(string(x)); !ok {
			if _, ok := ref.Base58Decode(string(x)); ok {
				return string(x)
			}
		}
	}
}

// ------------------------------------------------------------------- C22

type chain struct {
	c     *Ctx
	n     Net
	nets  []Net
	depth int
	seen  map[string]string // (kind, value) -> rendering, all routes
	path  []string
}

func (ch *chain) fail(f string, a ...any) {
	ch.c.Failf("after [%s] on %s: %s", strings.Join(ch.path, ", "), ch.n.name, fmt.Sprintf(f, a...))
}

// same checks that the key reached along this route equals the one reached
// along every other route.
func (ch *chain) same(key, render string) {
	if o, ok := ch.seen[key]; ok {
		if o != render {
			ch.fail("same key, different rendering: %s vs %s", o, render)
		}
	}
	ch.seen[key] = render
}

func (ch *chain) priv(k *btc.PrivateKey, v *big.Int, d int) {
	c := ch.c
	c.checkPriv(fmt.Sprintf("after [%s]", strings.Join(ch.path, ", ")), k, nil, v, ch.n)
	ch.same("k"+v.Text(62), fmt.Sprintf("%s %s %+v", strings.ToLower(k.Hex), k.WIF, *k.Network))
	// no mixing with any other network
	for _, m := range ch.nets {
		if *m.net == *ch.n.net {
			continue
		}
		for _, o := range []*big.Int{bi(7), v} {
			b := rawPriv(o, m)
			for _, pr := range [][2]*btc.PrivateKey{{k, b}, {b, k}} {
				r, err := c.AddPriv(pr[0], pr[1])
				c.noPriv(fmt.Sprintf("after [%s]: adding keys of %s and %s", strings.Join(ch.path, ", "), ch.n.name, m.name), r, err)
				r, err = c.MulPriv(pr[0], pr[1])
				c.noPriv(fmt.Sprintf("after [%s]: multiplying keys of %s and %s", strings.Join(ch.path, ", "), ch.n.name, m.name), r, err)
			}
		}
	}
	if d == 0 {
		return
	}
	step := func(name string, f func() (*btc.PrivateKey, error), w *big.Int) {
		ch.path = append(ch.path, name)
		defer func() { ch.path = ch.path[:len(ch.path)-1] }()
		if !ref.ValidKey(w) {
			return
		}
		r, err := f()
		if err != nil {
			ch.fail("%v", err)
		}
		ch.priv(r, w, d-1)
	}
	cp := ch.n
	cp.net = &btc.Network{PrivKeyPrefix: ch.n.net.PrivKeyPrefix, PubKeyHashPrefix: ch.n.net.PubKeyHashPrefix}
	step("hex", func() (*btc.PrivateKey, error) { return c.PrivHex(k.Hex, ch.n) }, v)
	step("wif", func() (*btc.PrivateKey, error) { return c.PrivWIF(k.WIF, cp) }, v)
	step("hex via key's network", func() (*btc.PrivateKey, error) {
		x := ch.n
		x.net = k.Network
		return c.PrivHex(k.Hex, x)
	}, v)
	if v.Cmp(bi(3)) != 0 {
		step("+3", func() (*btc.PrivateKey, error) { return c.AddPriv(k, rawPriv(bi(3), cp)) }, combineModel("add", v, bi(3)))
		step("3*", func() (*btc.PrivateKey, error) { return c.MulPriv(rawPriv(bi(3), cp), k) }, combineModel("mul", v, bi(3)))
	}
	if t := sub(ref.N, bi(3)); v.Cmp(t) != 0 && v.Cmp(bi(3)) != 0 {
		step("-3", func() (*btc.PrivateKey, error) { return c.AddPriv(rawPriv(t, ch.n), k) }, combineModel("add", v, t))
	}
	ch.path = append(ch.path, "pub")
	p, ok := c.Pub(k)
	if !ok {
		ch.fail("no public key")
	}
	ch.pub(p, ref.MulG(v), d-1)
	ch.path = ch.path[:len(ch.path)-1]
}

func (ch *chain) pub(p *btc.PublicKey, pt ref.Point, d int) {
	c := ch.c
	c.checkPub(fmt.Sprintf("after [%s]", strings.Join(ch.path, ", ")), p, pt, ch.n)
	c.addrCheck(p, pt, ch.n)
	a1, _ := c.Addr(p, true)
	a2, _ := c.Addr(p, false)
	ch.same("p"+pt.X.Text(62)+fmt.Sprint(pt.Y.Bit(0)), a1+a2+c.Format(p, false)+fmt.Sprintf("%+v", *p.Network))
	g3 := ref.MulG(bi(3))
	for _, m := range ch.nets {
		if *m.net == *ch.n.net {
			continue
		}
		for _, o := range []ref.Point{g3, pt} {
			b := rawPub(o, m)
			for i, pr := range [][2]*btc.PublicKey{{p, b}, {b, p}} {
				r, err := c.AddPub(pr[0], pr[1], i == 0)
				c.noPub(fmt.Sprintf("after [%s]: adding public keys of %s and %s", strings.Join(ch.path, ", "), ch.n.name, m.name), r, err)
			}
		}
	}
	if d == 0 {
		return
	}
	step := func(name string, f func() (*btc.PublicKey, error), w ref.Point) {
		ch.path = append(ch.path, name)
		defer func() { ch.path = ch.path[:len(ch.path)-1] }()
		if w.Inf {
			return
		}
		r, err := f()
		if err != nil {
			ch.fail("%v", err)
		}
		ch.pub(r, w, d-1)
	}
	cp := ch.n
	cp.net = &btc.Network{PrivKeyPrefix: ch.n.net.PrivKeyPrefix, PubKeyHashPrefix: ch.n.net.PubKeyHashPrefix}
	step("import compressed", func() (*btc.PublicKey, error) { return c.PubHex(c.Format(p, true), cp) }, pt)
	step("import uncompressed", func() (*btc.PublicKey, error) { return c.PubHex(c.Format(p, false), ch.n) }, pt)
	step("+3G", func() (*btc.PublicKey, error) { return c.AddPub(p, rawPub(g3, cp), true) }, ref.Add(pt, g3))
	step("-3G", func() (*btc.PublicKey, error) { return c.AddPub(rawPub(ref.Neg(g3), ch.n), p, false) }, ref.Add(pt, ref.Neg(g3)))
	step("double", func() (*btc.PublicKey, error) { return c.AddPub(p, p, true) }, ref.Add(pt, pt))
}

func genC22(g *Gen) {
	nets := append(allNets(), mkNet("main-copy", "80", "00"), mkNet("80/6F", "80", "6F"), mkNet("EF/00", "EF", "00"), mkNet("ltc-B0-31", "B0", "31"))
	oddPairs(g, func(c *Ctx, n, m *btc.Network, what string) {
		k := privOn(rawPriv(hexBig(repoKeys[0]), netMain()), n)
		p := pubOn(rawPub(ref.MulG(hexBig(repoKeys[0])), netMain()), n)
		for i, b := range []*big.Int{hexBig(repoKeys[0]), hexBig(repoKeys[1]), bi(1)} {
			l := privOn(rawPriv(b, netMain()), m)
			r, err := c.AddPriv(k, l)
			c.noPriv("adding across "+what, r, err)
			r, err = c.MulPriv(k, l)
			c.noPriv("multiplying across "+what, r, err)
			q, err := c.AddPub(p, pubOn(rawPub(ref.MulG(b), netMain()), m), i%2 == 0)
			c.noPub("adding public keys across "+what, q, err)
		}
	})
	starts := []K{{"repo0", hexBig(repoKeys[0])}, {"1", bi(1)}, {"n-1", sub(ref.N, bi(1))}, {"lead0", new(big.Int).Rsh(hexBig(repoKeys[1]), 12)}}
	depth := g.T(4, 5)
	for _, n := range nets {
		for _, k := range starts {
			n, k := n, k
			for _, how := range []string{"hex", "wif", "generate", "combine"} {
				how := how
				if how == "generate" && ref.Key32(k.v)[0] < 16 {
					continue
				}
				if how != "hex" && !g.Thorough && k.name != "repo0" {
					continue
				}
				g.Add(fmt.Sprintf("chains/%s/%s/%s", n.name, how, k.name), func(c *Ctx) {
					ch := &chain{c: c, n: n, nets: nets, seen: map[string]string{}, path: []string{how + " " + k.name}}
					var key *btc.PrivateKey
					var err error
					v := k.v
					switch how {
					case "hex":
						key, err = c.PrivHex(ref.Hex(ref.Key32(v)), n)
					case "wif":
						key, err = c.PrivWIF(ref.WIF(n.priv, v), n)
					case "generate":
						key = c.genKey(newStream(ref.Key32(v), "c"), n)
						v = key.Key
						v = new(big.Int).Set(v)
					case "combine":
						half := combineModel("mul", v, new(big.Int).ModInverse(bi(7), ref.N))
						key, err = c.MulPriv(rawPriv(half, n), rawPriv(bi(7), n))
					}
					if err != nil {
						ch.fail("%v", err)
					}
					d := depth
					if how != "hex" {
						d--
					}
					ch.priv(key, v, d)
					c.Outcome("chains explored")
				})
			}
		}
	}
}
