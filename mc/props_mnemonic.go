package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/aureleoules/btc"

	"verif/mc/ref"
)

func init() {
	seam := "randomness enters through crypto/rand.Reader (replaced by the explorer's stream)"
	register(&Prop{ID: "C14", Cheap: true, Gen: genC14, Assume: []string{seam},
		Bound: "5 lengths x 9 wordlists x entropy classes (every count of leading/trailing zero or one bits, every single bit, every checksum value, checksum hashes with 0..12 leading zero bits, spread), every single-bit flip; all word counts -40..400 and extremes; wordlists of every length 0..2047"})
	register(&Prop{ID: "C15", Cheap: true, Gen: genC15, Assume: []string{seam},
		Bound: "a fault at every byte offset x 7 error kinds x (with data, separate, transient) for both generators, also after 1..3 rejected draws; all 2^15 partitions of a 16-byte read, all partitions into <=4 pieces of longer reads"})
	register(&Prop{ID: "C16", Gen: genC16,
		Bound: "all 2048 last words x 9 lists x 5 lengths; every word substituted by all 2048 words (12 and 24 words); all word counts 0..60 with all 2048 last words; lists of 2049..8200 words with any number of words beyond the 2048th; every separator/case/foreign-word edit at every position; every word of every list with a letter added, removed, swapped, capitalised or cut short; own generated phrases"})
	register(&Prop{ID: "C17", Cheap: true, Gen: genC17,
		Assume: []string{"phrases and passphrases are already in NFKD form"},
		Bound:  "9 lists x 5 lengths x entropy classes x passphrase alphabet (empty, 1..300 bytes, spaces, NUL, every code point that occurs in NFKD text), plus published vectors"})
	register(&Prop{ID: "C18", Cheap: true, Gen: genC18, Assume: []string{seam},
		Bound: "all 9 x 2048 words compared with the official lists; every index of every list at every word position through generation, and through validation"})
}

func entLen(words int) int { return words * 4 / 3 }

// genPhrase runs one generation under a stream and demands a valid phrase; it
// returns the entropy the phrase encodes.
func (c *Ctx) genPhrase(words int, l *WL, st *Stream) (string, []byte) {
	var s string
	var err error
	st.with(func() { s, err = c.Mnemonic(words, *l) })
	if err != nil {
		c.Failf("NewMnemonic(%d, %s) with random bytes %x: %v", words, l.name, st.Head, err)
	}
	w := strings.Split(s, " ")
	if len(w) != words {
		c.Failf("NewMnemonic(%d, %s) with random bytes %x gave %d words: %q", words, l.name, st.Head, len(w), s)
	}
	var idx []int
	for i, x := range w {
		v, ok := l.idx()[x]
		if !ok {
			c.Failf("NewMnemonic(%d, %s): word %d %q is not in the list", words, l.name, i, x)
		}
		idx = append(idx, v)
	}
	ent, ok := ref.Decode(idx)
	if !ok {
		c.Failf("NewMnemonic(%d, %s) with random bytes %x: wrong checksum in %q", words, l.name, st.Head, s)
	}
	if st.N < entLen(words) {
		c.Failf("NewMnemonic(%d, %s) took only %d bytes from the random source", words, l.name, st.N)
	}
	c.State("phrase", l.name, s)
	return s, ent
}

// entropies is the structured alphabet for one phrase length.
func entropies(n int, spread int) [][]byte {
	var out [][]byte
	seen := map[string]bool{}
	put := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	fill := func(v *big.Int) []byte { return v.FillBytes(make([]byte, n)) }
	all := sub(lsh(1, uint(8*n)), bi(1))
	pat := sha256.Sum256([]byte("entropy pattern"))
	pv := new(big.Int).SetBytes(append([]byte{0xc7}, pat[1:n]...))
	for _, b := range []byte{0, 0xff, 0x7f, 0x80, 0xaa, 0x55, 0x01} {
		put(bytes.Repeat([]byte{b}, n))
	}
	for i := uint(0); i < uint(8*n); i++ {
		put(fill(lsh(1, i)))
		put(fill(new(big.Int).Xor(all, lsh(1, i))))
		put(fill(new(big.Int).Rsh(pv, i)))
		put(fill(new(big.Int).Rsh(all, i)))
		put(fill(new(big.Int).And(all, new(big.Int).Lsh(all, i))))
		put(fill(new(big.Int).Lsh(new(big.Int).Rsh(pv, i), i)))
	}
	// every checksum value and every count of leading zero bits in the hash
	cs := n / 4
	want := 1 << uint(cs)
	found := map[int]bool{}
	lz := map[int]int{}
	for i := uint64(0); (len(found) < want || lz[11] == 0) && i < 1<<16; i++ {
		e := make([]byte, n)
		h := sha256.Sum256([]byte(fmt.Sprintf("cs-%d-%d", n, i)))
		copy(e, h[:n])
		hh := sha256.Sum256(e)
		v := int(hh[0] >> uint(8-cs))
		z := 256 - new(big.Int).SetBytes(hh[:]).BitLen()
		if !found[v] || (z > 0 && lz[z] < 3) {
			put(e)
		}
		found[v] = true
		lz[z]++
	}
	for i := 0; i < spread; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("ent-%d-%d", n, i)))
		put(append([]byte{}, h[:n]...))
	}
	return out
}

// ------------------------------------------------------------------- C14

func genC14(g *Gen) {
	for _, l := range bundled() {
		l := l
		for _, w := range ref.Counts {
			w := w
			es := entropies(entLen(w), g.D(100, 3000, 80000))
			chunk := 50
			for i := 0; i < len(es); i += chunk {
				i := i
				g.Add(fmt.Sprintf("entropy/%s/%d/%d", l.name, w, i), func(c *Ctx) {
					for j := i; j < i+chunk && j < len(es); j++ {
						salt := fmt.Sprint(j)
						s, ent := c.genPhrase(w, l, newStream(es[j], salt))
						s2, _ := c.genPhrase(w, l, newStream(es[j], salt))
						if s != s2 {
							c.Failf("same random bytes, different phrases: %q and %q", s, s2)
						}
						if bytes.Equal(ent, es[j]) {
							c.Outcome("entropy = first bytes of the source")
						} else {
							c.Outcome("entropy = other function of the source")
						}
					}
				})
			}
			for fi, base := range [][]byte{es[0], es[1], es[len(es)-1], es[len(es)-2], es[60]} {
				if fi > 2 && !g.Thorough && l.name != "english" {
					continue
				}
				base := base
				g.Add(fmt.Sprintf("flip/%s/%d/%d", l.name, w, fi), func(c *Ctx) {
					seen := map[string]int{}
					s, _ := c.genPhrase(w, l, newStream(base, "t"))
					seen[s] = -1
					for b := 0; b < 8*len(base); b++ {
						h := append([]byte{}, base...)
						h[b/8] ^= 0x80 >> uint(b%8)
						s, _ := c.genPhrase(w, l, newStream(h, "t"))
						if j, dup := seen[s]; dup {
							c.Failf("flipping random bit %d of %x gives the same phrase as variant %d", b, base, j)
						}
						seen[s] = b
					}
					c.Outcome("all flips differ")
				})
			}
		}
		// other word counts
		var counts []int
		for i := -40; i <= 400; i++ {
			counts = append(counts, i)
		}
		for i := uint(3); i < 63; i++ {
			for _, d := range []int{0, 12, 24} {
				counts = append(counts, 1<<i+d, -(1<<i)+d)
			}
		}
		counts = append(counts, math.MaxInt, math.MinInt, math.MaxInt-1, math.MinInt+1, 128, 160, 192, 224, 256, 2048)
		for i := 0; i < len(counts); i += 40 {
			i := i
			g.Add(fmt.Sprintf("counts/%s/%d", l.name, i), func(c *Ctx) {
				for j := i; j < i+40 && j < len(counts); j++ {
					w := counts[j]
					if ref.SupportedCount(w) {
						continue
					}
					var s string
					var err error
					newStream(nil, "c").with(func() { s, err = c.Mnemonic(w, *l) })
					if err == nil || s != "" {
						c.Failf("NewMnemonic(%d, %s) gives %q, %v; must be an error and an empty phrase", w, l.name, s, err)
					}
					c.State("count", fmt.Sprint(w))
					c.Outcome("count rejected")
				}
			})
		}
	}
	eng := bundled()[0]
	for n := -1; n < 2048; n += 16 {
		n := n
		g.Add(fmt.Sprintf("wordlist/short/%d", n), func(c *Ctx) {
			for k := n; k < n+16 && k < 2048; k++ {
				var list btc.Wordlist
				if k >= 0 {
					list = append(btc.Wordlist{}, eng.list[:k]...)
				}
				for _, w := range []int{12, 15, 18, 21, 24, 0, 13} {
					for _, head := range [][]byte{nil, make([]byte, 32), bytes.Repeat([]byte{0xff}, 32)} {
						var s string
						var err error
						newStream(head, "w").with(func() { s, err = c.Mnemonic(w, wl(fmt.Sprintf("first %d words", k), list)) })
						if err == nil || s != "" {
							c.Failf("NewMnemonic(%d) with a %d-word list gives %q, %v; must be an error and an empty phrase", w, k, s, err)
						}
					}
				}
				c.State("short list", fmt.Sprint(k))
				c.Outcome("short list rejected")
			}
		})
	}
}

// ------------------------------------------------------------------- C15

var faultKinds = []error{errSource, io.EOF, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, io.ErrNoProgress}

type faultItem struct {
	Head  []byte
	Salt  string
	At    int
	Kind  int
	Mode  int // 0 with data, 1 separate, 2 transient
	Net   int
	Piece int
}

func (f faultItem) stream() *Stream {
	st := newStream(f.Head, f.Salt)
	st.FailAt, st.Err = f.At, faultKinds[f.Kind]
	st.Separate = f.Mode >= 1
	st.Transient = f.Mode == 2
	if f.Piece > 0 {
		for i := 0; i < 200; i++ {
			st.Pieces = append(st.Pieces, f.Piece)
		}
	}
	return st
}

func (f faultItem) String() string {
	return fmt.Sprintf("source fails with %v after %d bytes (mode %d, piece %d, bytes %x)", faultKinds[f.Kind], f.At, f.Mode, f.Piece, f.Head)
}

// faultKeyMain runs key generations under faults, one result line per item.
func faultKeyMain(args []string) {
	var items []faultItem
	must(json.NewDecoder(os.Stdin).Decode(&items))
	out := os.NewFile(3, "out")
	debug.SetMaxStack(64 << 20)
	for _, it := range items {
		func() {
			res := "panic"
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintln(out, "panic")
					return
				}
				fmt.Fprintln(out, res)
			}()
			var k *btc.PrivateKey
			it.stream().with(func() { k = btc.GeneratePrivateKey(allNets()[it.Net].net) })
			switch {
			case k == nil:
				res = "nil"
			case k.Key == nil:
				res = "key without integer"
			default:
				res = "key " + k.Key.Text(16)
			}
		}()
	}
	os.Exit(0)
}

func init() { subcommands["faultkey"] = faultKeyMain }

// runFaultKeys runs the items in sub-processes; a process that ends at an item
// returned no key for it.
func (c *Ctx) runFaultKeys(items []faultItem) []string {
	var res []string
	self, err := os.Executable()
	must(err)
	for len(res) < len(items) {
		in, _ := json.Marshal(items[len(res):])
		r, w, err := os.Pipe()
		must(err)
		cmd := exec.Command(self, "faultkey")
		cmd.Stdin = bytes.NewReader(in)
		cmd.ExtraFiles = []*os.File{w}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		must(cmd.Start())
		w.Close()
		hung := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		b, _ := io.ReadAll(r)
		r.Close()
		cmd.Wait()
		beat()
		if !hung.Stop() {
			c.Failf("GeneratePrivateKey: %s: neither a key nor a panic within 60 s", items[len(res)+bytes.Count(b, []byte{'\n'})])
		}
		lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if len(b) == 0 {
			lines = nil
		}
		res = append(res, lines...)
		if len(res) < len(items) {
			res = append(res, "process ended")
		}
	}
	return res
}

func genC15(g *Gen) {
	nets := allNets()
	good := ref.Key32(hexBig(repoKeys[0]))
	type pre struct {
		name string
		head []byte
	}
	join := func(v ...*big.Int) []byte {
		var b []byte
		for _, x := range v {
			b = append(b, ref.Key32(x)...)
		}
		return b
	}
	max := sub(lsh(1, 256), bi(1))
	pres := []pre{
		{"plain", good},
		{"after-max", append(join(max), good...)},
		{"after-n", append(join(ref.N), good...)},
		{"after-0", append(join(bi(0)), good...)},
		{"after-short", append(join(sub(lsh(1, 252), bi(1))), good...)},
		{"after-0-max", append(join(bi(0), max), good...)},
		{"after-max-short-0", append(join(max, bi(5), bi(0)), good...)},
		{"after-3max", append(join(max, max, max), good...)},
	}
	for ni, n := range nets {
		for _, p := range pres {
			ni, n, p := ni, n, p
			if ni >= 2 && !g.Thorough && p.name != "plain" && p.name != "after-0" {
				continue
			}
			for kind := range faultKinds {
				kind := kind
				g.Add(fmt.Sprintf("key/fault/%s/%s/%d", n.name, p.name, kind), func(c *Ctx) {
					st := newStream(p.head, "k")
					k := c.genKey(st, n)
					var items []faultItem
					for at := 0; at < st.N; at++ {
						for mode := 0; mode < 3; mode++ {
							for _, piece := range []int{0, 1, 5} {
								items = append(items, faultItem{Head: p.head, Salt: "k", At: at, Kind: kind, Mode: mode, Net: ni, Piece: piece})
							}
						}
					}
					c.trans += int64(len(items))
					for i, r := range c.runFaultKeys(items) {
						if r != "panic" && r != "process ended" {
							c.Failf("GeneratePrivateKey(%s): %s, yet it returned %s", n.name, items[i], r)
						}
						c.State("keyfault", n.name, p.name, fmt.Sprint(items[i]))
						c.Outcome("key fault: " + r)
					}
					// a fault in the middle leaves nothing behind
					k2 := c.genKey(newStream(p.head, "k"), n)
					if k2.Key.Cmp(k.Key) != 0 {
						c.Failf("generation after faults differs")
					}
				})
			}
		}
	}
	pieces := func(n int, f func([]int)) {
		if n <= 16 {
			for m := 0; m < 1<<uint(n-1); m++ {
				var p []int
				run := 1
				for i := 0; i < n-1; i++ {
					if m>>uint(i)&1 == 1 {
						p = append(p, run)
						run = 0
					}
					run++
				}
				f(append(p, run))
			}
			return
		}
		f([]int{n})
		for a := 1; a < n; a++ {
			f([]int{a, n - a})
			for b := 1; a+b < n; b++ {
				f([]int{a, b, n - a - b})
				if g.Thorough || n <= 20 {
					for d := 1; a+b+d < n; d++ {
						f([]int{a, b, d, n - a - b - d})
					}
				}
			}
		}
		for a := 0; a < n; a++ { // reads that deliver nothing
			f([]int{a, 0, n - a})
			f([]int{a, 0, 0, 0, n - a, 0})
			f([]int{0, a + 1, 0, n - a - 1})
		}
		for s := 1; s <= n; s++ { // constant piece sizes
			var p []int
			for i := 0; i < 200; i++ {
				p = append(p, s)
			}
			f(p)
		}
	}
	for ni, n := range nets {
		n := n
		for _, p := range pres {
			p := p
			if ni >= 2 && !g.Thorough && p.name != "plain" {
				continue
			}
			g.Add("key/pieces/"+n.name+"/"+p.name, func(c *Ctx) {
				want := c.genKey(newStream(p.head, "k"), n)
				pieces(32, func(ps []int) {
					st := newStream(p.head, "k")
					// the same partition for each of the draws
					for i := 0; i < 5; i++ {
						st.Pieces = append(st.Pieces, ps...)
					}
					k := c.genKey(st, n)
					if k.Key.Cmp(want.Key) != 0 {
						c.Failf("reads in pieces %v give key %x instead of %x", ps, k.Key, want.Key)
					}
				})
				c.Outcome("pieces agree")
			})
		}
	}
	for li, l := range bundled() {
		l := l
		for _, w := range ref.Counts {
			w := w
			if li > 0 && !g.Thorough && w != 12 && w != 24 {
				continue
			}
			n := entLen(w)
			es := entropies(n, 2)
			heads := [][]byte{es[len(es)-1], es[0], es[1]}
			for hi, h := range heads {
				h := h
				g.Add(fmt.Sprintf("mnemonic/fault/%s/%d/%d", l.name, w, hi), func(c *Ctx) {
					st := newStream(h, "m")
					want, _ := c.genPhrase(w, l, st)
					total := st.N
					for at := 0; at < total; at++ {
						for kind := range faultKinds {
							for mode := 0; mode < 3; mode++ {
								for _, piece := range []int{0, 1, 3} {
									it := faultItem{Head: h, Salt: "m", At: at, Kind: kind, Mode: mode, Piece: piece}
									var s string
									var err error
									it.stream().with(func() { s, err = c.Mnemonic(w, *l) })
									if err == nil || s != "" {
										c.Failf("NewMnemonic(%d, %s): %s, yet it returned %q, %v", w, l.name, it, s, err)
									}
									c.State("mnfault", l.name, fmt.Sprint(w), fmt.Sprint(it))
									c.Outcome("mnemonic fault: error")
								}
							}
						}
					}
					s, _ := c.genPhrase(w, l, newStream(h, "m"))
					if s != want {
						c.Failf("generation after faults differs")
					}
				})
			}
			if li > 0 && !g.Thorough {
				continue
			}
			g.Add(fmt.Sprintf("mnemonic/pieces/%s/%d", l.name, w), func(c *Ctx) {
				h := heads[0]
				want, _ := c.genPhrase(w, l, newStream(h, "m"))
				pieces(n, func(ps []int) {
					st := newStream(h, "m")
					st.Pieces = ps
					if s, _ := c.genPhrase(w, l, st); s != want {
						c.Failf("reads in pieces %v give %q instead of %q", ps, s, want)
					}
				})
				c.Outcome("pieces agree")
			})
		}
	}
}

// ------------------------------------------------------------------- C16

func (c *Ctx) seedCheck(s, pass string, l *WL) {
	_, want := ref.ParsePhrase(s, l.idx())
	b, err := c.Seed(s, pass, *l)
	if want {
		if err != nil || len(b) == 0 {
			c.Failf("NewSeedFromMnemonic(%q, %s): valid phrase rejected: seed %x, %v", s, l.name, b, err)
		}
		c.outcomes["valid accepted"]++
	} else {
		if err == nil {
			c.Failf("NewSeedFromMnemonic(%q, %s): invalid phrase accepted", s, l.name)
		}
		if b != nil {
			c.Failf("NewSeedFromMnemonic(%q, %s): seed %x together with error %v", s, l.name, b, err)
		}
		c.outcomes["invalid rejected"]++
	}
	c.State("seed", l.name, s)
}

func customLists() []*WL {
	eng := bundled()[0].list
	rot := append(append(btc.Wordlist{}, eng[1:]...), eng[0])
	var rev, num btc.Wordlist
	for i := range eng {
		rev = append(rev, eng[2047-i])
		num = append(num, fmt.Sprintf("w%d", i))
	}
	a, b, d := wl("rotated", rot), wl("reversed", rev), wl("numbers", num)
	return []*WL{&a, &b, &d}
}

// genC16big: lists longer than the 2048 words an 11-bit index can name.
func genC16big(g *Gen) {
	for _, size := range []int{2049, 2100, 4096, 8200} {
		size := size
		list := append(btc.Wordlist{}, bundled()[0].list...)
		for i := 2048; i < size; i++ {
			list = append(list, fmt.Sprintf("more%d", i))
		}
		l := wl(fmt.Sprintf("english+%d", size-2048), list)
		for _, w := range ref.Counts {
			w := w
			for high := 0; high <= w; high++ {
				high := high
				g.Add(fmt.Sprintf("biglist/%d/%d/%d", size, w, high), func(c *Ctx) {
					idx := ref.Indices(ref.Key32(hashInt("biglist"))[:entLen(w)])
					for i := 0; i < high; i++ { // from the front, then the last word too
						idx[i] = 2048 + (idx[i]*7)%(size-2048)
					}
					for v := 0; v < size; v += g.T(1+size/300, 1) {
						idx[w-1] = v
						c.seedCheck(ref.Phrase(idx, list), "", &l)
					}
				})
			}
		}
	}
}

func genC16(g *Gen) {
	genC16big(g)
	lists := append(bundled(), customLists()...)
	for _, l := range lists {
		l := l
		for _, w := range ref.Counts {
			w := w
			n := entLen(w)
			es := entropies(n, g.T(12, 200))
			pick := [][]byte{es[len(es)-1], es[0], es[1]}
			if g.Thorough {
				pick = append(pick, es[2:12]...)
			}
			for ei, e := range pick {
				idx := ref.Indices(e)
				for k := 0; k < 2048; k += 256 {
					k := k
					g.Add(fmt.Sprintf("lastword/%s/%d/%d/%d", l.name, w, ei, k), func(c *Ctx) {
						x := append([]int{}, idx...)
						for v := k; v < k+256; v++ {
							x[w-1] = v
							c.seedCheck(ref.Phrase(x, l.list), "", l)
						}
					})
				}
			}
			// valid phrases of every entropy class; every single bit flip of one
			for i := 0; i < len(es); i += 40 {
				i := i
				if !g.Thorough && i%120 != 0 && l.name != "english" {
					continue
				}
				g.Add(fmt.Sprintf("valid/%s/%d/%d", l.name, w, i), func(c *Ctx) {
					for j := i; j < i+40 && j < len(es); j++ {
						c.seedCheck(ref.Phrase(ref.Indices(es[j]), l.list), "", l)
					}
				})
			}
			g.Add(fmt.Sprintf("bits/%s/%d", l.name, w), func(c *Ctx) {
				idx := ref.Indices(es[len(es)-1])
				for b := 0; b < 11*w; b++ {
					x := append([]int{}, idx...)
					x[b/11] ^= 1 << uint(10-b%11)
					c.seedCheck(ref.Phrase(x, l.list), "", l)
					for b2 := b + 1; b2 < 11*w; b2 += 1 + (b2 % 5) {
						y := append([]int{}, x...)
						y[b2/11] ^= 1 << uint(10-b2%11)
						c.seedCheck(ref.Phrase(y, l.list), "", l)
					}
				}
			})
			// every substitution
			full := l.name == "english" && (w == 12 || w == 24) || g.Thorough
			for pos := 0; pos < w; pos++ {
				if !full && pos != 0 && pos != w/2 {
					continue
				}
				pos := pos
				g.Add(fmt.Sprintf("subst/%s/%d/%d", l.name, w, pos), func(c *Ctx) {
					idx := ref.Indices(es[len(es)-2])
					for v := 0; v < 2048; v++ {
						x := append([]int{}, idx...)
						x[pos] = v
						c.seedCheck(ref.Phrase(x, l.list), "", l)
					}
				})
			}
			g.Add(fmt.Sprintf("edit/%s/%d", l.name, w), func(c *Ctx) {
				idx := ref.Indices(es[len(es)-1])
				ws := strings.Split(ref.Phrase(idx, l.list), " ")
				j := func(p []string) string { return strings.Join(p, " ") }
				for i := range ws {
					rep := func(s string) []string {
						p := append([]string{}, ws...)
						p[i] = s
						return p
					}
					for _, s := range []string{"", " ", "x", strings.ToUpper(ws[i]), strings.Title(ws[i]), ws[i] + " ", " " + ws[i], ws[i] + "\t", ws[i] + "\n", "\u3000" + ws[i], ws[i] + "\u00a0", ws[i] + ",", ws[i] + "x", ws[i] + "\x00", "\ufeff" + ws[i], ws[i][:len(ws[i])-1], ws[i] + " " + ws[i], fmt.Sprint(idx[i]), "\xff"} {
						c.seedCheck(j(rep(s)), "", l)
					}
					for _, m := range lists {
						c.seedCheck(j(rep(m.list[idx[i]])), "", l) // foreign word at the same index
						c.seedCheck(j(rep(m.list[2047-idx[i]])), "", l)
					}
					c.seedCheck(j(append(append([]string{}, ws[:i]...), ws[i+1:]...)), "", l) // delete
					c.seedCheck(j(append(append([]string{}, ws[:i+1]...), ws[i:]...)), "", l) // duplicate
					for k := i + 1; k < w; k++ {                                              // swap
						p := append([]string{}, ws...)
						p[i], p[k] = p[k], p[i]
						c.seedCheck(j(p), "", l)
					}
					// other separators
					for _, sep := range []string{"  ", "\t", "\n", "\u3000", "\u00a0", ",", "", "-", "\r\n", " \t", "\x00"} {
						if i > 0 {
							c.seedCheck(j(ws[:i])+sep+j(ws[i:]), "", l)
						}
					}
					// rotations
					c.seedCheck(j(append(append([]string{}, ws[i:]...), ws[:i]...)), "", l)
				}
				p := j(ws)
				for _, s := range []string{" " + p, p + " ", p + "  ", "\n" + p, p + "\n", p + "\t", p + " " + p, strings.ToUpper(p), strings.ReplaceAll(p, " ", "  "), strings.ReplaceAll(p, " ", "\t"), strings.ReplaceAll(p, " ", "\u3000"), "", " ", "  ", strings.Repeat(" ", w-1), strings.Repeat(" ", w)} {
					c.seedCheck(s, "", l)
				}
			})
			for _, m := range lists { // the phrase of another list
				m := m
				g.Add(fmt.Sprintf("otherlist/%s/%s/%d", l.name, m.name, w), func(c *Ctx) {
					for _, e := range es[len(es)-6:] {
						c.seedCheck(ref.Phrase(ref.Indices(e), m.list), "", l)
					}
				})
			}
			// own phrases
			g.Add(fmt.Sprintf("generated/%s/%d", l.name, w), func(c *Ctx) {
				for i := 0; i < len(es); i += g.T(9, 3) {
					s, _ := c.genPhrase(w, l, newStream(es[i], "g"))
					b, err := c.Seed(s, "", *l)
					if err != nil || len(b) == 0 {
						c.Failf("generated phrase %q (%s) rejected: %v", s, l.name, err)
					}
				}
			})
			// missing wordlist
			g.Add(fmt.Sprintf("nolist/%s/%d", l.name, w), func(c *Ctx) {
				for _, e := range es[len(es)-4:] {
					for _, no := range []*WL{{name: "nil"}, {name: "empty", list: btc.Wordlist{}}} {
						c.seedCheck(ref.Phrase(ref.Indices(e), l.list), "", no)
					}
				}
			})
		}
		// every word of the list misspelt, in a phrase that is valid with it
		for k := 0; k < 2048; k += 128 {
			k := k
			g.Add(fmt.Sprintf("misspelt/%s/%d", l.name, k), func(c *Ctx) {
				for v := k; v < k+128; v++ {
					idx := ref.Indices(ref.Key32(hashInt("misspelt"))[:16])
					pos := v % 11
					idx[pos] = v
					e, _ := ref.Decode(idx)
					idx = ref.Indices(e)
					ws := strings.Split(ref.Phrase(idx, l.list), " ")
					w := []rune(ws[pos])
					var alt []string
					for i := 0; i <= len(w); i++ {
						a, b := string(w[:i]), string(w[i:])
						alt = append(alt, a+"x"+b)
						if i > 0 {
							alt = append(alt, a, string(w[:i-1])+b) // prefix; one letter less
							alt = append(alt, string(w[:i-1])+strings.ToUpper(string(w[i-1]))+b)
						}
						if i > 0 && i < len(w) {
							alt = append(alt, b, string(w[:i-1])+string(w[i])+string(w[i-1])+string(w[i+1:]))
						}
					}
					alt = append(alt, ws[pos]+ws[pos], ws[pos]+"s", strings.ToUpper(ws[pos]))
					for _, a := range alt {
						ws[pos] = a
						c.seedCheck(strings.Join(ws, " "), "", l)
					}
				}
			})
		}
		// unsupported counts: all last words, so that any checksum rule hits
		for n := 0; n <= g.T(40, 80); n++ {
			n := n
			if ref.SupportedCount(n) {
				continue
			}
			if !g.Thorough && l.name != "english" && n%3 != 0 {
				continue
			}
			g.Add(fmt.Sprintf("count/%s/%d", l.name, n), func(c *Ctx) {
				for salt := 0; salt < 2; salt++ {
					var idx []int
					for i := 0; i < n; i++ {
						h := sha256.Sum256([]byte(fmt.Sprintf("cnt-%d-%d-%d", n, i, salt)))
						idx = append(idx, int(binary.BigEndian.Uint16(h[:]))%2048)
						if salt == 1 {
							idx[i] = 0
						}
					}
					if n == 0 {
						c.seedCheck("", "", l)
						continue
					}
					for v := 0; v < 2048; v++ {
						idx[n-1] = v
						c.seedCheck(ref.Phrase(idx, l.list), "", l)
					}
				}
				if n%3 == 0 && n > 0 { // well-formed under the BIP-39 rule itself
					for i := 0; i < 30; i++ {
						var e []byte
						for len(e) < n*4/3 {
							h := sha256.Sum256([]byte(fmt.Sprintf("wf-%d-%d-%d", n, i, len(e))))
							e = append(e, h[:]...)
						}
						c.seedCheck(ref.Phrase(ref.Indices(e[:n*4/3]), l.list), "", l)
					}
				}
			})
		}
	}
}

// ------------------------------------------------------------------- C17

func (c *Ctx) seedExact(s, pass string, l *WL) {
	want := ref.Seed(s, pass)
	b, err := c.Seed(s, pass, *l)
	if err != nil {
		c.Failf("NewSeedFromMnemonic(%q, %q, %s): %v", s, pass, l.name, err)
	}
	if !bytes.Equal(b, want) {
		c.Failf("NewSeedFromMnemonic(%q, %q, %s) = %x, want %x", s, pass, l.name, b, want)
	}
	c.State("seed", l.name, s, pass)
	c.Outcome("seed")
}

func genC17(g *Gen) {
	pass := []string{"", "TREZOR", " ", "a", "A", "mnemonic", "  lead and trail  ", "\x00", "a\x00b", "\n", "e\u0301", "日本", "🔑", strings.Repeat("p", 111), strings.Repeat("q", 200), "%s%x", "\u3042\u3099"}
	lists := append(bundled(), customLists()[2])
	for _, l := range lists {
		l := l
		for _, w := range ref.Counts {
			w := w
			es := entropies(entLen(w), g.D(10, 200, 2000))
			g.Add(fmt.Sprintf("pass/%s/%d", l.name, w), func(c *Ctx) {
				for _, e := range [][]byte{es[len(es)-1], es[0], es[1]} {
					s := ref.Phrase(ref.Indices(e), l.list)
					for _, p := range pass {
						c.seedExact(s, p, l)
					}
					// the phrase itself as passphrase
					c.seedExact(s, s, l)
				}
			})
			step := g.D(16, 2, 1)
			for i := 0; i < len(es); i += 20 * step {
				i := i
				g.Add(fmt.Sprintf("entropy/%s/%d/%d", l.name, w, i), func(c *Ctx) {
					for j := i; j < i+20*step && j < len(es); j += step {
						s := ref.Phrase(ref.Indices(es[j]), l.list)
						c.seedExact(s, "", l)
						c.seedExact(s, pass[1+j%(len(pass)-1)], l)
					}
				})
			}
			g.Add(fmt.Sprintf("repeat/%s/%d", l.name, w), func(c *Ctx) {
				// nothing else matters: order of calls, other phrases in between
				a := ref.Phrase(ref.Indices(es[len(es)-1]), l.list)
				b := ref.Phrase(ref.Indices(es[len(es)-2]), l.list)
				for _, x := range []struct{ s, p string }{{a, "x"}, {a, "y"}, {b, "x"}, {a, "x"}, {b, ""}, {a, ""}, {a, "x"}} {
					c.seedExact(x.s, x.p, l)
				}
			})
		}
	}
	eng := bundled()[0]
	for n := 0; n <= g.D(300, 1200, 6000); n += 10 {
		n := n
		g.Add(fmt.Sprintf("passlen/%d", n), func(c *Ctx) {
			s := ref.Phrase(ref.Indices(make([]byte, 16)), eng.list)
			for k := n; k < n+10; k++ {
				c.seedExact(s, strings.Repeat("k", k), eng)
			}
		})
	}
	for k := 9; k <= g.D(17, 20, 22); k++ { // longer ones, around each power of two and ten
		k := k
		g.Add(fmt.Sprintf("passlen/2^%d", k), func(c *Ctx) {
			s := ref.Phrase(ref.Indices(make([]byte, 16)), eng.list)
			for _, n := range []int{1<<k - 9, 1<<k - 8, 1<<k - 7, 1<<k - 1, 1 << k, 1<<k + 1, 1<<k + 1<<(k-1), 500 << (k - 9), 500<<(k-9) + 1, 1000 << (k - 9), 1000<<(k-9) + 1} {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte('a' + (i*i+i/26)%26)
				}
				c.seedExact(s, string(b), eng)
			}
		})
	}
	for b := 0; b < 128; b += 16 {
		b := b
		g.Add(fmt.Sprintf("passbyte/%d", b), func(c *Ctx) {
			s := ref.Phrase(ref.Indices(bytes.Repeat([]byte{0x7f}, 32)), eng.list)
			for k := b; k < b+16; k++ {
				c.seedExact(s, string([]byte{byte(k)}), eng)
				c.seedExact(s, "p"+string([]byte{byte(k)})+"q", eng)
			}
		})
	}
	// every code point that the normal form can contain
	chunks := func(name string, rs [][2]rune, size int, item func(r rune) string) {
		var cur strings.Builder
		k, n := 0, 0
		var all []string
		for _, r := range rs {
			for x := r[0]; x <= r[1]; x++ {
				cur.WriteString(item(x))
				if k++; k == size {
					all = append(all, cur.String())
					cur.Reset()
					k = 0
				}
			}
		}
		all = append(all, cur.String())
		for lo := 0; lo < len(all); lo += 20 {
			part := all[lo:min(lo+20, len(all))]
			g.Add(fmt.Sprintf("codepoints/%s/%d", name, n), func(c *Ctx) {
				s := ref.Phrase(ref.Indices(bytes.Repeat([]byte{0x3c}, 16)), eng.list)
				for _, p := range part {
					c.seedExact(s, p, eng)
				}
			})
			n++
		}
	}
	chunks("letters", nfkdStable, g.D(48, 8, 2), func(r rune) string { return string(r) })
	chunks("marks", nfkdMarks, g.D(16, 4, 1), func(r rune) string { return "a" + string(r) })
	n := 0
	for _, r := range nfkdEdges {
		for x := r[0]; x <= r[1]; x += 16 {
			lo, hi := x, min(x+15, r[1])
			g.Add(fmt.Sprintf("edges/%d", n), func(c *Ctx) {
				s := ref.Phrase(ref.Indices(bytes.Repeat([]byte{0x3d}, 16)), eng.list)
				for x := lo; x <= hi; x++ {
					for _, p := range []string{string(x), string(x) + "pass", "pass" + string(x), "pa" + string(x) + string(x) + "ss"} {
						c.seedExact(s, p, eng)
					}
				}
			})
			n++
		}
	}
	// every byte length a phrase can have (within those a search meets)
	for _, l := range lists {
		l := l
		for _, w := range ref.Counts {
			w := w
			g.Add(fmt.Sprintf("phraselen/%s/%d", l.name, w), func(c *Ctx) {
				seen := map[int]bool{}
				try := func(e []byte) {
					s := ref.Phrase(ref.Indices(e), l.list)
					if !seen[len(s)] {
						seen[len(s)] = true
						c.seedExact(s, "length", l)
					}
				}
				for i := 0; i < g.D(1500, 30000, 200000); i++ {
					h := sha512.Sum512([]byte(fmt.Sprint("phraselen", l.name, w, i)))
					try(h[:entLen(w)])
				}
			})
		}
	}
	// published vectors (trezor/python-mnemonic), passphrase TREZOR
	for i, v := range [][2]string{
		{"legal winner thank year wave sausage worth useful legal winner thank yellow", "2e8905819b8723fe2c1d161860e5ee1830318dbf49a83bd451cfb8440c28bd6fa457fe1296106559a3c80937a1c1069be3a3a5bd381ee6260e8d9739fce1f607"},
		{strings.Repeat("abandon ", 23) + "art", "bda85446c68413707090a52022edd26a1c9462295029f2e60cd7c4f2bbd3097170af7a4d73245cafa9c3cca8d561a7c3de6f5d4a10be8ed2a5e608d68f92fcc8"},
	} {
		v := v
		g.Add(fmt.Sprintf("vector/%d", i), func(c *Ctx) {
			b, err := c.Seed(v[0], "TREZOR", *eng)
			if err != nil || ref.Hex(b) != v[1] {
				c.Failf("published vector %q: got %x, %v", v[0], b, err)
			}
			c.Outcome("vector")
		})
	}
}

// ------------------------------------------------------------------- C18

func (c *Ctx) listIntact(l *WL) {
	off := ref.OfficialList(l.name)
	if len(l.list) != 2048 {
		c.Failf("%s wordlist has %d words", l.name, len(l.list))
	}
	for i := range off {
		if l.list[i] != off[i] {
			c.Failf("%s wordlist, index %d: %q, official %q", l.name, i, l.list[i], off[i])
		}
	}
}

func genC18(g *Gen) {
	for li, l := range bundled() {
		l, li := l, li
		g.Add("list/"+l.name, func(c *Ctx) {
			c.listIntact(l)
			seen := map[string]bool{}
			for i, w := range l.list {
				if seen[w] {
					c.Failf("%s: word %q twice", l.name, w)
				}
				seen[w] = true
				c.State("word", l.name, fmt.Sprint(i), w)
				c.trans++
			}
			c.Outcome("official")
		})
		offIdx := ref.Index(ref.OfficialList(l.name))
		offList := WL{l.name, l.list, offIdx} // judge phrases by the official indices
		for _, w := range ref.Counts {
			w := w
			free := (entLen(w) * 8) / 11 // words fully determined by entropy
			for base := 0; base < 2048; base += 64 {
				base := base
				if !g.Thorough && w != 12 && w != 24 && (base/64+li)%8 != 0 {
					continue
				}
				g.Add(fmt.Sprintf("index/%s/%d/%d", l.name, w, base), func(c *Ctx) {
					for v := base; v < base+64; v++ {
						// index v+j*stride at position j: over all v each index visits each position
						want := make([]int, free)
						b := new(big.Int)
						for j := 0; j < free; j++ {
							want[j] = (v + j*173) % 2048
							b.Lsh(b, 11)
							b.Or(b, bi(int64(want[j])))
						}
						rest := entLen(w)*8 - 11*free
						b.Lsh(b, uint(rest))
						b.Or(b, bi(int64(v&(1<<uint(rest)-1))))
						head := b.FillBytes(make([]byte, entLen(w)))
						s, ent := c.genPhrase(w, &offList, newStream(head, "i"))
						if bytes.Equal(ent, head) {
							c.Outcome("index placed")
						} else {
							c.Outcome("entropy mapped")
						}
						if v%g.T(8, 1) == 0 {
							// recognised at the same index: exact phrase accepted ...
							if b, err := c.Seed(s, "", *l); err != nil || len(b) == 0 {
								c.Failf("%q (%s) not recognised: %v", s, l.name, err)
							}
						}
						// ... and the official-list phrase with a wrong checksum is not
						idx := ref.Indices(head)
						idx[w-1] ^= 1
						if b, err := c.Seed(ref.Phrase(idx, ref.OfficialList(l.name)), "", *l); err == nil || b != nil {
							c.Failf("phrase with wrong checksum accepted (%s, %d)", l.name, v)
						}
					}
					c.listIntact(l)
				})
			}
		}
		// the last word of a phrase takes every index as well
		for k := 0; k < 2048; k += 128 {
			k := k
			g.Add(fmt.Sprintf("last/%s/%d", l.name, k), func(c *Ctx) {
				for v := k; v < k+128; v++ {
					// 12 words: last = 7 entropy bits, 4 checksum bits; search the rest
					for t := 0; ; t++ {
						h := sha256.Sum256([]byte(fmt.Sprintf("last-%d-%d", v, t)))
						e := append([]byte{}, h[:16]...)
						e[15] = e[15]&0x80 | byte(v>>4)
						idx := ref.Indices(e)
						if idx[11] != v {
							continue
						}
						s, _ := c.genPhrase(12, &offList, newStream(e, "l"))
						_ = s
						if v%g.T(4, 1) == 0 {
							p := ref.Phrase(idx, ref.OfficialList(l.name))
							if b, err := c.Seed(p, "", *l); err != nil || len(b) == 0 {
								c.Failf("%q (%s) not recognised: %v", p, l.name, err)
							}
						}
						break
					}
				}
				c.listIntact(l)
				c.Outcome("last word")
			})
		}
	}
}
