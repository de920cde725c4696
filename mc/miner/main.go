// Command miner searches, with the reference model only, for scalars whose
// derived encodings have rare shapes. Its output is committed as mined.go;
// the checks re-verify nothing but use the scalars as alphabet members.
package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"sync"

	"verif/mc/ref"
)

func lzn(b []byte) int { // leading zero nibbles
	n := 0
	for _, x := range b {
		if x>>4 != 0 {
			return n
		}
		n++
		if x&15 != 0 {
			return n
		}
		n++
	}
	return n
}

func tzb(b []byte) int {
	n := 0
	for i := len(b) - 1; i >= 0 && b[i] == 0; i-- {
		n++
	}
	return n
}

// batch walks kG, (k+1)G, ... with one inversion for many additions:
// base + jG for j in 1..size.
type batch struct {
	base ref.Point
	tab  []ref.Point
	out  []ref.Point
	pos  int
}

const size = 1024

func newBatch(start int) *batch {
	b := &batch{base: ref.MulG(big.NewInt(int64(start) - 1))}
	p := ref.G()
	for i := 0; i < size; i++ {
		b.tab = append(b.tab, p)
		p = ref.Add(p, ref.G())
	}
	return b
}

func (b *batch) fill() {
	b.out = b.out[:0]
	b.pos = 0
	for _, q := range b.tab {
		if b.base.Inf || b.base.X.Cmp(q.X) == 0 {
			for _, t := range b.tab {
				b.out = append(b.out, ref.Add(b.base, t))
			}
			b.base = b.out[size-1]
			return
		}
	}
	prod := make([]*big.Int, size+1)
	prod[0] = big.NewInt(1)
	d := make([]*big.Int, size)
	for i, q := range b.tab {
		d[i] = new(big.Int).Sub(q.X, b.base.X)
		prod[i+1] = new(big.Int).Mul(prod[i], d[i])
		prod[i+1].Mod(prod[i+1], ref.P)
	}
	inv := new(big.Int).ModInverse(prod[size], ref.P)
	b.out = append(b.out, make([]ref.Point, size)...)
	for i := size - 1; i >= 0; i-- {
		di := new(big.Int).Mul(inv, prod[i])
		di.Mod(di, ref.P)
		inv.Mul(inv, d[i])
		inv.Mod(inv, ref.P)
		q := b.tab[i]
		l := new(big.Int).Sub(q.Y, b.base.Y)
		l.Mul(l, di)
		l.Mod(l, ref.P)
		x := new(big.Int).Mul(l, l)
		x.Sub(x, q.X)
		x.Sub(x, b.base.X)
		x.Mod(x, ref.P)
		y := new(big.Int).Sub(b.base.X, x)
		y.Mul(y, l)
		y.Sub(y, b.base.Y)
		y.Mod(y, ref.P)
		b.out[i] = ref.Point{X: x, Y: y}
	}
	b.base = b.out[size-1]
}

func (b *batch) next() ref.Point {
	if b.pos >= len(b.out) {
		b.fill()
	}
	p := b.out[b.pos]
	b.pos++
	return p
}

func main() {
	max, _ := strconv.Atoi(os.Args[1])
	const workers = 8
	per := max / workers
	var mu sync.Mutex
	found := map[string][]int{}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			loc := map[string][]int{}
			add := func(c string, k int) {
				if len(loc[c]) < 2 {
					loc[c] = append(loc[c], k)
				}
			}
			start := w*per + 1
			nb := newBatch(start)
			for k := start; k < start+per; k++ {
				pt := nb.next()
				x, y := ref.Key32(pt.X), ref.Key32(pt.Y)
				nx, ny := lzn(x), lzn(y)
				if nx > 0 {
					add(fmt.Sprintf("x-lead0-nibbles-%d", nx), k)
				}
				if ny > 0 {
					add(fmt.Sprintf("y-lead0-nibbles-%d", ny), k)
				}
				if nx > 1 && ny > 1 {
					add("xy-lead0-byte", k)
				}
				if nx == 1 && ny == 1 {
					add("xy-lead0-nibble", k)
				}
				if t := tzb(x); t > 1 {
					add(fmt.Sprintf("x-trail0-bytes-%d", t), k)
				}
				if t := tzb(y); t > 1 {
					add(fmt.Sprintf("y-trail0-bytes-%d", t), k)
				}
				{
					for _, cmp := range []bool{false, true} {
						h := ref.Hash160(ref.SEC1(pt, cmp))
						if n := lzn(h); n > 0 {
							add(fmt.Sprintf("h160-%v-lead0-nibbles-%d", cmp, n), k)
						}
						if t := tzb(h); t > 1 {
							add(fmt.Sprintf("h160-%v-trail0-bytes-%d", cmp, t), k)
						}
						for _, pf := range []byte{0, 0x6f} {
							s := ref.DSHA(append([]byte{pf}, h...))[:4]
							if n := lzn(s); n > 1 {
								add(fmt.Sprintf("addrsum-%02x-%v-lead0-nibbles-%d", pf, cmp, n), k)
							}
							if t := tzb(s); t > 1 {
								add(fmt.Sprintf("addrsum-%02x-%v-trail0-bytes-%d", pf, cmp, t), k)
							}
							if pf == 0 && lzn(h) > 2 || pf != 0 && len(loc[fmt.Sprintf("addrlen-6f-%v-33", cmp)]) < 2 {
								l := len(ref.Base58Check(append([]byte{pf}, h...)))
								if pf == 0 || l < 34 {
									add(fmt.Sprintf("addrlen-%02x-%v-%d", pf, cmp, l), k)
								}
							}
						}
					}
					for _, pf := range []byte{0x80, 0xef} {
						s := ref.DSHA(append([]byte{pf}, ref.Key32(big.NewInt(int64(k)))...))[:4]
						if n := lzn(s); n > 0 {
							add(fmt.Sprintf("wifsum-%02x-lead0-nibbles-%d", pf, n), k)
						}
						if t := tzb(s); t > 0 {
							add(fmt.Sprintf("wifsum-%02x-trail0-bytes-%d", pf, t), k)
						}
					}
				}
			}
			mu.Lock()
			for c, l := range loc {
				found[c] = append(found[c], l...)
			}
			mu.Unlock()
		}(w)
	}
	wg.Wait()
	var names []string
	for c := range found {
		names = append(names, c)
	}
	sort.Strings(names)
	fmt.Println("package main\n\n// Code generated by miner; DO NOT EDIT.\n\nvar minedScalars = []struct {\n\tclass string\n\tk     int64\n}{")
	for _, c := range names {
		sort.Ints(found[c])
		for i, k := range found[c] {
			if i < 2 {
				fmt.Printf("\t{%q, %d},\n", c, k)
			}
		}
	}
	fmt.Println("}")
}
