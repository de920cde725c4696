package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/aureleoules/btc"

	"verif/mc/ref"
)

func init() {
	register(&Prop{ID: "C19", Gen: genC19,
		Bound:  "all ordered pairs of 37 operations x 2 argument variants, each in a fresh process; for every operation all ordered pairs of 8 argument variants that differ in one respect, in fresh processes; all triples of a reduced alphabet in fresh processes (thorough: all triples over both variants); one-process histories containing every ordered pair of all 296 steps and every operation triple (de Bruijn; thorough also order 3 over both variants); long repetitions; argument safety of every two-argument operation over all pairs of a structured key/point set; with and without the caller overwriting every returned integer in place; arguments, earlier results, exported networks and wordlists compared after every call",
		Assume: []string{"randomness enters through crypto/rand.Reader (replaced by the explorer's stream)"}})
	register(&Prop{ID: "C21", Gen: genC21,
		Bound:  "every operation, success and error paths, x all secret values of a structured alphabet: output on descriptors 1 and 2 compared with that for the first secret of the same outcome; plus two-call histories",
		Assume: []string{"timestamps are stripped; only descriptors 1 and 2 (and so the default logger) are observed"}})
	register(&Prop{ID: "C22", Gen: genC22,
		Bound: "all chains of derivation steps up to depth 4 (thorough 5) from keys on 12 networks (two equal-parameter copies, networks differing in one field), every cross-network combination tried at every node"})
	subcommands["hist"] = histMain
}

// ------------------------------------------------------------ operations

// World holds the shared arguments of one variant. It is built without the
// library, so that the first library call of a history is the operation.
type World struct {
	array   btc.Wordlist // the list is a slice of it
	n, m    Net          // m: equal parameters, another object
	k1, k2  *btc.PrivateKey
	small   *btc.PrivateKey
	high    *btc.PrivateKey
	one     *btc.PrivateKey
	p1, p2  *btc.PublicKey
	opp     *btc.PublicKey
	off     *btc.PublicKey
	mn      string
	badMn   string
	pass    string
	list    WL
	rndHead []byte
	rndMn   []byte
}

// nv is the number of argument variants. Variants 0 and 1 differ in
// everything; the others differ from variant 0 in one respect, so that a
// result remembered under too little of its arguments shows.
const nv = 8

func allWorlds() []*World {
	var ws []*World
	for v := 0; v < nv; v++ {
		ws = append(ws, newWorld(v))
	}
	return ws
}

func newWorld(v int) *World {
	w := &World{}
	a, b := hexBig(repoKeys[0]), hexBig(repoKeys[1])
	w.n, w.m, w.list = netMain(), mkNet("main-copy", "80", "00"), wl("english", btc.EnglishWordlist)
	w.pass = "pass"
	cnt, x := 12, int64(0)
	idx := ref.Indices(ref.Key32(hashInt("world entropy"))[:entLen(12)])
	switch v {
	case 1:
		a, b = hexBig(repoKeys[1]), hexBig(repoKeys[2])
		w.n, w.m, w.list = netTest(), mkNet("test-copy", "EF", "6F"), wl("japanese", w.own(btc.JapaneseWordlist))
		cnt, x = 15, 1
		w.pass = "other"
	case 2: // only the network differs
		w.n, w.m = netTest(), mkNet("test-copy", "EF", "6F")
	case 3: // the last bit; only the passphrase
		a = new(big.Int).Xor(a, bi(1))
		b = lsh(1, 100)
		w.pass = "pass "
	case 4: // one high bit; the last words
		a = new(big.Int).Xor(a, lsh(1, 200))
		e := ref.Key32(hashInt("world entropy"))[:entLen(12)]
		e[15] ^= 1
		idx = ref.Indices(e)
	case 5: // swapped; another list, same indices
		a, b = b, a
		w.list = wl("french", w.own(btc.FrenchWordlist))
	case 6: // the opposite point: same X
		a = sub(ref.N, a)
		x = 2
	case 7: // only the address prefix; the first words
		w.n, w.m = mkNet("p2", "80", "05"), mkNet("p2-copy", "80", "05")
		cnt = 15
	}
	if v == 1 || v == 7 {
		idx = ref.Indices(ref.Key32(hashInt("world entropy"))[:entLen(cnt)])
	}
	w.k1, w.k2 = rawPriv(a, w.n), rawPriv(b, w.m)
	w.small = rawPriv(bi(5+x), w.n)
	w.high = rawPriv(sub(ref.N, bi(9+x)), w.n)
	w.one = rawPriv(bi(1), w.n)
	P := ref.MulG(a)
	w.p1, w.p2 = rawPub(P, w.n), rawPub(ref.MulG(b), w.m)
	w.opp = rawPub(ref.Neg(P), w.n)
	w.off = rawPub(ref.Point{X: P.X, Y: add(P.Y, bi(1))}, w.n)
	w.mn = ref.Phrase(idx, ref.OfficialList(w.list.name))
	idx[0] ^= 1
	if _, ok := ref.Decode(idx); ok {
		idx[1] ^= 1
	}
	w.badMn = ref.Phrase(idx, ref.OfficialList(w.list.name))
	w.rndHead = append(ref.Key32(sub(lsh(1, 256), bi(1+x))), ref.Key32(combineModel("mul", a, b))...)
	w.rndMn = ref.Key32(combineModel("add", a, b))
	return w
}

// own makes the list a part of a longer array of the caller's.
func (w *World) own(l btc.Wordlist) btc.Wordlist {
	w.array = append(append(make(btc.Wordlist, 0, 2200), l...), make(btc.Wordlist, 150)...)
	for i := range w.array[len(l):] {
		w.array[len(l)+i] = "beyond"
	}
	return w.array[:len(l)]
}

// snap renders every argument.
func (w *World) snap() string {
	var b strings.Builder
	for _, k := range []*btc.PrivateKey{w.k1, w.k2, w.small, w.high, w.one} {
		b.WriteString(descPriv(k, nil))
		b.WriteByte('|')
	}
	for _, p := range []*btc.PublicKey{w.p1, w.p2, w.opp, w.off} {
		b.WriteString(descPub(p, nil))
		b.WriteByte('|')
	}
	fmt.Fprintf(&b, "%+v %+v", *w.n.net, *w.m.net)
	if w.array != nil {
		h := fnv.New64a()
		for _, s := range w.array {
			h.Write([]byte(s))
			h.Write([]byte{' '})
		}
		fmt.Fprintf(&b, " list and what follows it in its array: hash %x", h.Sum64())
	}
	return b.String()
}

func descPriv(k *btc.PrivateKey, err error) string {
	if err != nil || k == nil {
		return fmt.Sprintf("no key (error %v)", err != nil)
	}
	return fmt.Sprintf("key %s hex %s wif %s net %+v error %v", hexOrNil(k.Key), k.Hex, k.WIF, k.Network, err != nil)
}

func descPub(p *btc.PublicKey, err error) string {
	if err != nil || p == nil {
		return fmt.Sprintf("no key (error %v)", err != nil)
	}
	return fmt.Sprintf("pub %s %s net %+v error %v", hexOrNil(p.X), hexOrNil(p.Y), p.Network, err != nil)
}

// Res is an observed result and the objects handed to the caller.
type Res struct {
	desc string
	objs []any
}

func resPriv(k *btc.PrivateKey, err error) Res { return Res{descPriv(k, err), []any{k}} }
func resPub(p *btc.PublicKey, err error) Res   { return Res{descPub(p, err), []any{p}} }
func resStr(s string, err error) Res           { return Res{fmt.Sprintf("%q error %v", s, err != nil), nil} }
func resBytes(b []byte, err error) Res {
	return Res{fmt.Sprintf("%x nil %v error %v", b, b == nil, err != nil), []any{b}}
}

// withRand runs f with st as the random source of the calling thread.
var withRand = func(st *Stream, f func()) { st.with(f) }

// HOp is one library operation on a world.
type HOp struct {
	name string
	run  func(w *World) Res
}

// all joins the results of several calls (the error paths of one function).
func all(rs ...Res) Res {
	var r Res
	for _, x := range rs {
		r.desc += x.desc + "; "
		r.objs = append(r.objs, x.objs...)
	}
	return r
}

// faulty is a source that fails after some bytes.
func faulty(head []byte, at int) *Stream {
	st := newStream(head, "f")
	st.FailAt, st.Err = at, errSource
	return st
}

var otherNet = &btc.Network{PrivKeyPrefix: "AA", PubKeyHashPrefix: "BB"}

func hexOf(k *btc.PrivateKey) string { return k.Hex }

func histOps() []HOp {
	pub := func(k func(w *World) *btc.PrivateKey) func(w *World) Res {
		return func(w *World) Res {
			p, ok := k(w).GetPublicKey()
			r := resPub(p, nil)
			r.desc += fmt.Sprint(ok)
			return r
		}
	}
	return []HOp{
		{"CheckWIF", func(w *World) Res { return Res{fmt.Sprint(btc.CheckWIF(w.k1.WIF)), nil} }},
		{"CheckWIF-bad", func(w *World) Res {
			return Res{fmt.Sprint(btc.CheckWIF(w.k1.WIF[1:]), btc.CheckWIF("1"), btc.CheckWIF("0")), nil}
		}},
		{"FromWIF", func(w *World) Res { return resPriv(btc.PrivateFromWIF(w.k1.WIF, w.n.net)) }},
		{"FromWIF-bad", func(w *World) Res {
			return all(resPriv(btc.PrivateFromWIF("5"+w.k1.WIF, w.n.net)), resPriv(btc.PrivateFromWIF("0O", w.n.net)), resPriv(btc.PrivateFromWIF(w.k1.WIF, otherNet)),
				resPriv(btc.PrivateFromWIF(ref.Base58Check(append([]byte{w.n.priv, 1}, ref.Key32(w.k1.Key)...)), w.n.net)), resPriv(btc.PrivateFromWIF(ref.Base58Check(append([]byte{w.n.priv}, ref.Key32(ref.N)...)), w.n.net)))
		}},
		{"FromHex", func(w *World) Res { return resPriv(btc.PrivateFromHex(hexOf(w.k1), w.n.net)) }},
		{"FromHex-upper", func(w *World) Res { return resPriv(btc.PrivateFromHex(strings.ToUpper(hexOf(w.k2)), w.m.net)) }},
		{"FromHex-bad", func(w *World) Res {
			return all(resPriv(btc.PrivateFromHex(strings.Repeat("f", 64), w.n.net)), resPriv(btc.PrivateFromHex(w.k1.Hex[1:], w.n.net)), resPriv(btc.PrivateFromHex(w.k1.Hex[1:]+"g", w.n.net)))
		}},
		{"Generate", func(w *World) (r Res) {
			withRand(newStream(w.rndHead, "h"), func() { r = resPriv(btc.GeneratePrivateKey(w.n.net), nil) })
			return
		}},
		{"Generate-fault", func(w *World) (r Res) {
			defer func() {
				if e := recover(); e != nil {
					r = Res{"panic", nil}
				}
			}()
			withRand(faulty(w.rndHead, 40), func() { r = resPriv(btc.GeneratePrivateKey(w.n.net), nil) })
			return
		}},
		{"AddPriv", func(w *World) Res { return resPriv(btc.AddPrivateKeys(w.k1, w.k2)) }},
		{"AddPriv-zero", func(w *World) Res {
			return resPriv(btc.AddPrivateKeys(w.small, rawPriv(sub(ref.N, w.small.Key), w.n)))
		}},
		{"AddPriv-same", func(w *World) Res {
			x := *w.k2
			x.Network = otherNet
			return all(resPriv(btc.AddPrivateKeys(w.k1, w.k1)), resPriv(btc.AddPrivateKeys(w.k1, &x)), resPriv(btc.MultiplyPrivateKeys(w.k2, w.k2)), resPriv(btc.MultiplyPrivateKeys(&x, w.k1)))
		}},
		{"AddPriv-swap", func(w *World) Res { return resPriv(btc.AddPrivateKeys(w.k2, w.k1)) }},
		{"MulPriv-swap", func(w *World) Res { return resPriv(btc.MultiplyPrivateKeys(w.k2, w.k1)) }},
		{"MulPriv", func(w *World) Res { return resPriv(btc.MultiplyPrivateKeys(w.k1, w.k2)) }},
		{"MulPriv-small", func(w *World) Res { return resPriv(btc.MultiplyPrivateKeys(w.small, w.one)) }},
		{"Pub", pub(func(w *World) *btc.PrivateKey { return w.k1 })},
		{"Pub-one", pub(func(w *World) *btc.PrivateKey { return w.one })},
		{"Pub-small", pub(func(w *World) *btc.PrivateKey { return w.small })},
		{"Pub-high", pub(func(w *World) *btc.PrivateKey { return w.high })},
		{"PubHex-c", func(w *World) Res {
			return resPub(btc.PublicFromHex(ref.Hex(ref.SEC1(ref.Point{X: w.p1.X, Y: w.p1.Y}, true)), w.n.net))
		}},
		{"PubHex-c'", func(w *World) Res {
			return resPub(btc.PublicFromHex(ref.Hex(ref.SEC1(ref.Point{X: w.p2.X, Y: sub(ref.P, w.p2.Y)}, true)), w.n.net))
		}},
		{"PubHex-u", func(w *World) Res {
			return resPub(btc.PublicFromHex(ref.Hex(ref.SEC1(ref.Point{X: w.p2.X, Y: w.p2.Y}, false)), w.m.net))
		}},
		{"PubHex-bad", func(w *World) Res {
			u := ref.Hex(ref.SEC1(ref.Point{X: w.p2.X, Y: w.p2.Y}, false))
			return all(resPub(btc.PublicFromHex("02"+strings.Repeat("0", 63)+"5", w.n.net)), resPub(btc.PublicFromHex(u[:129]+"x", w.n.net)), resPub(btc.PublicFromHex("05"+u[2:], w.n.net)),
				resPub(btc.PublicFromHex(u[:66]+u[2:66], w.n.net)), resPub(btc.PublicFromHex(u[:66], w.n.net)), resPub(btc.PublicFromHex("03"+strings.Repeat("f", 64), w.n.net)), resPub(btc.PublicFromHex("", w.n.net)))
		}},
		{"Format", func(w *World) Res { return Res{w.p1.Format(true) + " " + w.p1.Format(false), nil} }},
		{"Address", func(w *World) Res {
			a, e := w.p1.Address(true)
			b, e2 := w.p2.Address(false)
			bad := *w.p1
			bad.Network = &btc.Network{PrivKeyPrefix: "80", PubKeyHashPrefix: "zz"}
			x, e3 := bad.Address(true)
			return Res{fmt.Sprint(a, b, e != nil, e2 != nil, x, e3 != nil), nil}
		}},
		{"AddPub", func(w *World) Res { return resPub(btc.AddPublicKeys(w.p1, w.p2, true)) }},
		{"AddPub-swap", func(w *World) Res { return resPub(btc.AddPublicKeys(w.p2, w.p1, false)) }},
		{"AddPub-double-c", func(w *World) Res { return resPub(btc.AddPublicKeys(w.p1, w.p1, true)) }},
		{"AddPub-double", func(w *World) Res { return resPub(btc.AddPublicKeys(w.p1, w.p1, false)) }},
		{"AddPub-opposite", func(w *World) Res { return resPub(btc.AddPublicKeys(w.p1, w.opp, false)) }},
		{"AddPub-off", func(w *World) Res {
			x := *w.p2
			x.Network = otherNet
			return all(resPub(btc.AddPublicKeys(w.off, w.p2, false)), resPub(btc.AddPublicKeys(w.p1, w.off, true)), resPub(btc.AddPublicKeys(w.p1, &x, true)))
		}},
		{"Mnemonic12", func(w *World) (r Res) {
			withRand(newStream(w.rndMn, "m"), func() { r = resStr(btc.NewMnemonic(12, w.list.list)) })
			return
		}},
		{"Mnemonic24", func(w *World) (r Res) {
			withRand(newStream(append([]byte{0, 0}, w.rndMn...), "m"), func() { r = resStr(btc.NewMnemonic(24, w.list.list)) })
			return
		}},
		{"Mnemonic-bad", func(w *World) (r Res) {
			withRand(newStream(w.rndMn, "m"), func() {
				r = all(resStr(btc.NewMnemonic(13, w.list.list)), resStr(btc.NewMnemonic(12, w.list.list[:2000])))
			})
			withRand(faulty(w.rndMn, 7), func() { r = all(r, resStr(btc.NewMnemonic(12, w.list.list))) })
			return
		}},
		{"Seed", func(w *World) Res { return resBytes(btc.NewSeedFromMnemonic(w.mn, w.pass, w.list.list)) }},
		{"Seed-bad", func(w *World) Res {
			return all(resBytes(btc.NewSeedFromMnemonic(w.badMn, "", w.list.list)), resBytes(btc.NewSeedFromMnemonic(w.badMn+" "+w.list.list[0], "", w.list.list)),
				resBytes(btc.NewSeedFromMnemonic("x"+w.mn, "", w.list.list)), resBytes(btc.NewSeedFromMnemonic("", "", w.list.list)))
		}},
	}
}

// scribble overwrites everything the caller was handed.
func scribble(objs []any) {
	num := func(v *big.Int) {
		if v == nil {
			return
		}
		bs := v.Bits()
		for i := range bs {
			bs[i] = 0xdeadbeef
		}
		v.SetInt64(77)
	}
	for _, o := range objs {
		switch x := o.(type) {
		case *btc.PrivateKey:
			if x != nil {
				num(x.Key)
				x.Hex, x.WIF, x.Network = "scribbled", "scribbled", nil
			}
		case *btc.PublicKey:
			if x != nil {
				num(x.X)
				num(x.Y)
				x.Network = nil
			}
		case []byte:
			for i := range x {
				x[i] = 0x99
			}
		}
	}
}

func descObjs(objs []any) string {
	s := ""
	for _, o := range objs {
		switch x := o.(type) {
		case *btc.PrivateKey:
			s += descPriv(x, nil)
		case *btc.PublicKey:
			s += descPub(x, nil)
		case []byte:
			s += fmt.Sprintf("%x", x)
		}
	}
	return s
}

// ------------------------------------------------------------------- C19

// step i of a history: operation i/nv, variant i%nv.
func runHistory(seq []int, scr bool, base map[int]string, report func(pos int, msg string)) {
	ops := histOps()
	ws := allWorlds()
	var snaps []string
	for _, w := range ws {
		snaps = append(snaps, w.snap())
	}
	type kept struct {
		pos  int
		objs []any
		desc string
	}
	var keep []kept
	lists := bundled()
	mainN, testN := btc.MainNetwork, btc.TestNetwork
	for pos, st := range seq {
		r := ops[st/nv].run(ws[st%nv])
		name := fmt.Sprintf("%s/%d", ops[st/nv].name, st%nv)
		if base != nil {
			if r.desc != base[st] {
				report(pos, fmt.Sprintf("%s returned %s; in a fresh process it returns %s", name, r.desc, base[st]))
			}
		} else {
			report(pos, r.desc)
		}
		before := descObjs(r.objs)
		if scr {
			scribble(r.objs)
		} else if len(r.objs) > 0 {
			keep = append(keep, kept{pos, r.objs, before})
			if len(keep) > 24 {
				keep = keep[1:]
			}
		}
		if base == nil {
			continue
		}
		for v := range ws {
			if v != st%nv && pos%16 != 15 && pos != len(seq)-1 {
				continue
			}
			if s := ws[v].snap(); s != snaps[v] {
				report(pos, fmt.Sprintf("after %s (results overwritten by the caller: %v) an argument changed: %s", name, scr, diff(snaps[v], s)))
				snaps[v] = s
			}
		}
		if btc.MainNetwork != mainN || btc.TestNetwork != testN || *mainN != (btc.Network{PrivKeyPrefix: "80", PubKeyHashPrefix: "00"}) || *testN != (btc.Network{PrivKeyPrefix: "EF", PubKeyHashPrefix: "6F"}) {
			report(pos, name+" changed an exported network")
		}
		for _, k := range keep {
			if d := descObjs(k.objs); d != k.desc {
				report(pos, fmt.Sprintf("%s changed the result of step %d: %s", name, k.pos, diff(k.desc, d)))
			}
		}
		if pos%64 == 63 || pos == len(seq)-1 {
			now := bundled()
			for i, l := range lists {
				if len(now[i].list) != 2048 || !reflect.DeepEqual([]string(now[i].list), ref.OfficialList(l.name)) {
					report(pos, name+" or an earlier step changed the "+l.name+" wordlist")
				}
			}
		}
	}
}

func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := max(0, i-20), min(len(s), i+60)
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("...%q... -> ...%q...", cut(a), cut(b))
}

type histReq struct {
	Seq      []int
	Scribble bool
	Base     map[int]string
	Times    int // first run step Seq[0] this often, comparing results only
}

// histMain runs one history in this (fresh) process.
func histMain([]string) {
	var q histReq
	must(json.NewDecoder(os.Stdin).Decode(&q))
	debug.SetMaxStack(64 << 20)
	out := os.NewFile(3, "out")
	enc := json.NewEncoder(out)
	if q.Times > 0 {
		op, w := histOps()[q.Seq[0]/nv], allWorlds()[q.Seq[0]%nv]
		for i := 0; i < q.Times; i++ {
			if r := op.run(w); r.desc != q.Base[q.Seq[0]] {
				enc.Encode([]any{i, fmt.Sprintf("repetition %d of %s returned %s; in a fresh process it returns %s", i+1, op.name, r.desc, q.Base[q.Seq[0]])})
				break
			}
		}
	}
	runHistory(q.Seq, q.Scribble, q.Base, func(pos int, msg string) { enc.Encode([]any{pos, msg}) })
	fmt.Fprintln(out, `"done"`)
	os.Exit(0)
}

// fresh runs a history in a fresh process; messages by position.
func (c *Ctx) fresh(q histReq) []string {
	c.inTime()
	self, err := os.Executable()
	must(err)
	in, err := json.Marshal(q)
	must(err)
	r, w, err := os.Pipe()
	must(err)
	cmd := exec.Command(self, "hist")
	cmd.Stdin = bytes.NewReader(in)
	t := &tail{}
	cmd.Stderr, cmd.Stdout = t, t
	cmd.ExtraFiles = []*os.File{w}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(cmd.Start())
	w.Close()
	var msgs []string
	dec := json.NewDecoder(r)
	done := false
	for {
		var x any
		if dec.Decode(&x) != nil {
			break
		}
		if a, ok := x.([]any); ok {
			if q.Base == nil {
				msgs = append(msgs, a[1].(string))
			} else {
				msgs = append(msgs, fmt.Sprintf("step %v: %v", a[0], a[1]))
			}
		} else {
			done = true
		}
	}
	r.Close()
	err = cmd.Wait()
	beat()
	if !done {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 77 {
			fmt.Fprintf(os.Stderr, "%s\n", t.b)
			os.Exit(77)
		}
		c.Failf("history %s: the process ended: %v: %s", seqName(q.Seq), err, t.b)
	}
	c.trans += int64(len(q.Seq) + q.Times)
	return msgs
}

func seqName(seq []int) string {
	ops := histOps()
	var s []string
	for _, i := range seq {
		if len(s) > 8 {
			s = append(s, "...")
			break
		}
		s = append(s, fmt.Sprintf("%s/%d", ops[i/nv].name, i%nv))
	}
	return strings.Join(s, " ; ")
}

var histBase = map[int]string{}

// baseline runs every step alone in a fresh process.
func (c *Ctx) baseline(seq ...int) map[int]string {
	out := map[int]string{}
	for _, i := range seq {
		if _, ok := histBase[i]; !ok {
			m := c.fresh(histReq{Seq: []int{i}})
			if len(m) != 1 {
				c.Failf("no result for %s", seqName([]int{i}))
			}
			histBase[i] = m[0]
		}
		out[i] = histBase[i]
	}
	return out
}

func (c *Ctx) freshCheck(seq []int, scr bool) {
	if m := c.fresh(histReq{Seq: seq, Scribble: scr, Base: c.baseline(seq...)}); len(m) > 0 {
		c.Failf("history [%s]: %s", seqName(seq), m[0])
	}
	c.State("hist", fmt.Sprint(seq, scr))
	c.Outcome(fmt.Sprintf("depth %d", len(seq)))
}

// deBruijn returns a cyclic sequence over [0,k) containing every word of
// length n.
func deBruijn(k, n int) []int {
	a := make([]int, k*n+1)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return seq
}

func genC19(g *Gen) {
	ops := histOps()
	n := len(ops)
	// the two unrelated variants
	st := func(i int) int { return i/2*nv + i%2 }
	for i := 0; i < nv*n; i++ {
		i := i
		g.Add("alone/"+seqName([]int{i}), func(c *Ctx) {
			base := c.baseline(i)
			// the same in this process, which has a history of its own
			runHistory([]int{i, i}, true, base, func(pos int, msg string) { c.Failf("%s", msg) })
			c.freshCheck([]int{i, i, i}, false)
		})
	}
	for i := 0; i < 2*n; i++ {
		for j := 0; j < 2*n; j++ {
			i, j := st(i), st(j)
			g.Add("pair/"+seqName([]int{i, j}), func(c *Ctx) {
				c.freshCheck([]int{i, j, i}, true)
				if g.Thorough {
					c.freshCheck([]int{i, j, i}, false)
				}
			})
		}
	}
	// one operation on related arguments, every ordered pair
	for o := 0; o < n; o++ {
		for v := 0; v < nv; v++ {
			i, v := o*nv, v
			g.Add("related/"+seqName([]int{i + v}), func(c *Ctx) {
				for w := 0; w < nv; w++ {
					if w != v {
						c.freshCheck([]int{i + v, i + w, i + v}, w%2 == 0)
					}
				}
			})
		}
	}
	// triples: variant 0 for a reduced alphabet, everything when thorough
	var red []int
	for i, o := range ops {
		switch o.name {
		case "CheckWIF", "FromWIF", "FromHex", "Generate", "AddPriv", "MulPriv", "Pub-one", "Pub-high", "PubHex-c", "PubHex-bad", "Address", "AddPub", "AddPub-double", "Mnemonic12", "Seed", "Seed-bad":
			red = append(red, nv*i)
		}
	}
	if g.Thorough {
		red = nil
		for i := range ops {
			red = append(red, nv*i, nv*i+1)
		}
	}
	for _, a := range red {
		for _, b := range red {
			a, b := a, b
			g.Add("triples/"+seqName([]int{a, b}), func(c *Ctx) {
				for _, d := range red {
					c.freshCheck([]int{a, b, d}, (a+b+d)%32 == 0)
				}
			})
		}
	}
	// long histories in one process
	add := func(name string, k int, order int, chunks int, m func(int) int) {
		seq := deBruijn(k, order)
		size := (len(seq) + chunks - 1) / chunks
		for ch := 0; ch < chunks; ch++ {
			for _, scr := range []bool{true, false} {
				ch, scr := ch, scr
				g.Add(fmt.Sprintf("debruijn/%s/%d/%v", name, ch, scr), func(c *Ctx) {
					var s []int
					for i := ch * size; i < (ch+1)*size+order-1; i++ {
						s = append(s, m(seq[i%len(seq)]))
					}
					if m := c.fresh(histReq{Seq: s, Scribble: scr, Base: c.baseline(s...)}); len(m) > 0 {
						c.Failf("history of %d steps [%s]: %s", len(s), seqName(s), m[0])
					}
					for i := range s {
						if i >= order {
							c.State("db", fmt.Sprint(s[i-order+1:i+1], scr))
						}
					}
					c.Outcome("long history")
				})
			}
		}
	}
	add("pairs-related", n*nv, 2, 16, func(i int) int { return i })
	add("triples-v0", n, 3, 16, func(i int) int { return nv * i })
	if g.Thorough {
		add("triples-v1", n, 3, 16, func(i int) int { return nv*i + 1 })
		add("triples-all", 2*n, 3, 64, st)
	}
	genC19values(g)
	genC19args(g)
}

// rep repeats one step many times in one process.
func genC19values(g *Gen) {
	ops := histOps()
	for i, o := range ops {
		i, o := i, o
		k := g.T(1100, 9000)
		if o.name == "Pub" || o.name == "Seed" || o.name == "AddPub" {
			k = g.T(300, 2100)
		}
		g.Add("repeat/"+o.name, func(c *Ctx) {
			s := make([]int, k)
			for x := range s {
				s[x] = nv * i
			}
			if m := c.fresh(histReq{Seq: s, Base: c.baseline(nv * i)}); len(m) > 0 {
				c.Failf("%d times %s: %s", k, o.name, m[0])
			}
			c.Outcome("repeated")
		})
		g.Add("often/"+o.name, func(c *Ctx) {
			times := 66000 // beyond any 16-bit counter
			if o.name == "Seed" || strings.HasPrefix(o.name, "Pub") && !strings.HasPrefix(o.name, "PubHex") {
				times = g.T(600, 6000)
			}
			if m := c.fresh(histReq{Seq: []int{nv * i}, Base: c.baseline(nv * i), Times: times}); len(m) > 0 {
				c.Failf("%s: %s", o.name, m[0])
			}
			c.Outcome("repeated")
		})
	}
	// argument safety over structured values: every call twice, the result of
	// the first overwritten, arguments rendered before and after
	n := netMain()
	m := mkNet("main-copy", "80", "00")
	keys := keySet(0, g.T(10, 40))
	if max := g.T(90, 400); len(keys) > max {
		step := (len(keys) + max - 1) / max
		var ks []K
		for i := 0; i < len(keys); i += step {
			ks = append(ks, keys[i])
		}
		keys = ks
	}
	keys = append(keys, specialKeys()...)
	twice := func(c *Ctx, what string, snap func() string, f func() Res) {
		s := snap()
		var r Res
		c.call(func() string { return what }, func() { r = f() })
		if t := snap(); t != s {
			c.Failf("%s changed an argument: %s", what, diff(s, t))
		}
		scribble(r.objs)
		if t := snap(); t != s {
			c.Failf("overwriting the result of %s changed an argument: %s", what, diff(s, t))
		}
		var q Res
		c.call(func() string { return what }, func() { q = f() })
		if q.desc != r.desc {
			c.Failf("%s returned %s, and %s after the caller overwrote the first result", what, r.desc, q.desc)
		}
		if t := snap(); t != s {
			c.Failf("%s changed an argument when called again: %s", what, diff(s, t))
		}
		c.State("safe", what, r.desc)
	}
	for _, a := range keys {
		a := a
		g.Add("safe-priv/"+a.name, func(c *Ctx) {
			x := rawPriv(a.v, n)
			twice(c, "GetPublicKey of "+a.name, func() string { return descPriv(x, nil) }, func() Res {
				p, ok := x.GetPublicKey()
				r := resPub(p, nil)
				r.desc += fmt.Sprint(ok)
				return r
			})
			for _, b := range keys {
				y := rawPriv(b.v, m)
				snap := func() string { return descPriv(x, nil) + descPriv(y, nil) }
				twice(c, "AddPrivateKeys of "+a.name+" and "+b.name, snap, func() Res { return resPriv(btc.AddPrivateKeys(x, y)) })
				twice(c, "MultiplyPrivateKeys of "+a.name+" and "+b.name, snap, func() Res { return resPriv(btc.MultiplyPrivateKeys(x, y)) })
			}
			c.Outcome("argument safety")
		})
	}
	pts := points(0, g.T(6, 20), g.T(6, 20))
	if max := g.T(60, 200); len(pts) > max {
		step := (len(pts) + max - 1) / max
		var ps []Pt
		for i := 0; i < len(pts); i += step {
			ps = append(ps, pts[i])
		}
		pts = ps
	}
	for _, a := range pts {
		a := a
		g.Add("safe-pub/"+a.name, func(c *Ctx) {
			x := rawPub(a.p, n)
			for _, comp := range []bool{true, false} {
				comp := comp
				snap := func() string { return descPub(x, nil) }
				twice(c, "Format of "+a.name, snap, func() Res { return resStr(x.Format(comp), nil) })
				twice(c, "Address of "+a.name, snap, func() Res { return resStr(x.Address(comp)) })
				for _, b := range pts {
					y := rawPub(b.p, m)
					snap := func() string { return descPub(x, nil) + descPub(y, nil) }
					twice(c, "AddPublicKeys of "+a.name+" and "+b.name, snap, func() Res { return resPub(btc.AddPublicKeys(x, y, comp)) })
				}
			}
			c.Outcome("argument safety")
		})
	}
	// many distinct keys, then all of them again (bounded tables, eviction)
	for _, net := range []Net{netMain(), netTest()} {
		net := net
		g.Add("many/"+net.name, func(c *Ctx) {
			total := g.T(1500, 6000)
			for round := 0; round < 2; round++ {
				for i := 0; i < total; i++ {
					k := hashInt(fmt.Sprint("many", i))
					what := fmt.Sprintf("key %d of %d, round %d", i, total, round)
					p, err := c.PrivHex(ref.Hex(ref.Key32(k)), net)
					c.checkPriv(what, p, err, k, net)
					scribble([]any{p})
					q, err := c.PrivWIF(rawPriv(k, net).WIF, net)
					c.checkPriv(what, q, err, k, net)
					scribble([]any{q})
				}
			}
			c.Outcome("many keys")
		})
		g.Add("many-pub/"+net.name, func(c *Ctx) {
			total := g.T(400, 2000)
			for round := 0; round < 2; round++ {
				P := ref.MulG(hashInt("many pub"))
				step := ref.MulG(bi(2))
				for i := 0; i < total; i++ {
					P = ref.Add(P, step)
					what := fmt.Sprintf("point %d of %d, round %d", i, total, round)
					p, err := c.PubHex(ref.Hex(ref.SEC1(P, i%2 == 0)), net)
					if err != nil {
						c.Failf("%s refused: %v", what, err)
					}
					c.checkPub(what, p, P, net)
					c.addrCheck(p, P, net)
					q, err := c.AddPub(p, rawPub(step, net), true)
					if err != nil {
						c.Failf("%s: sum refused: %v", what, err)
					}
					c.checkPub(what, q, ref.Add(P, step), net)
					scribble([]any{p, q})
				}
			}
			c.Outcome("many keys")
		})
		// the same for the slow operations, also on keys that agree in most bytes
		for fam := 0; fam < 4; fam++ {
			fam := fam
			g.Add(fmt.Sprintf("many-derive/%s/%d", net.name, fam), func(c *Ctx) {
				total := g.T(300, 2500)
				base := hashInt("many derive")
				key := func(i int) *big.Int {
					switch fam {
					case 0:
						return hashInt(fmt.Sprint("derive", i))
					case 1:
						return add(base, bi(int64(i)))
					case 2:
						return new(big.Int).Xor(new(big.Int).Rsh(base, 16), lsh(int64(i), 240))
					}
					return new(big.Int).Xor(base, lsh(int64(i), 120))
				}
				for round := 0; round < 2; round++ {
					for i := 0; i < total; i++ {
						k, k2 := key(i), key(i+1)
						what := fmt.Sprintf("key %d of %d, round %d", i, total, round)
						a, b := rawPriv(k, net), rawPriv(k2, net)
						p, ok := c.Pub(a)
						if !ok {
							c.Failf("%s: no public key", what)
						}
						c.checkPub(what, p, ref.MulG(k), net)
						for _, op := range []string{"add", "mul"} {
							r, err := c.combine(op, a, b)
							c.checkPriv(what+", "+op, r, err, combineModel(op, k, k2), net)
							scribble([]any{r})
						}
						scribble([]any{a, b, p})
					}
				}
				c.Outcome("many keys")
			})
		}
	}
	for fam := 0; fam < 3; fam++ {
		fam := fam
		g.Add(fmt.Sprintf("many-seed/%d", fam), func(c *Ctx) {
			l := bundled()[0]
			total := g.T(300, 2500)
			for round := 0; round < 2; round++ {
				for i := 0; i < total; i++ {
					e := ref.Key32(hashInt(fmt.Sprint("many seed", i*fam&^1)))[:16]
					pass := []string{"", fmt.Sprint("pass", i), fmt.Sprint(i, "pass")}[fam]
					if fam == 0 {
						e = ref.Key32(hashInt(fmt.Sprint("many seed", i)))[:16]
						st := newStream(e, "m")
						s, _ := c.genPhrase(12, l, st)
						if t, _ := c.genPhrase(12, l, newStream(e, "m")); s != t {
							c.Failf("NewMnemonic gave %q and %q for the same bytes", s, t)
						}
					}
					c.seedExact(ref.Phrase(ref.Indices(e), l.list), pass, l)
				}
			}
			c.Outcome("many phrases")
		})
	}
}

// genC19args: arguments that differ in little, and arguments the caller
// changed in place between calls, in one process; oracle: the reference model.
func genC19args(g *Gen) {
	lists := append(bundled(), customLists()...)
	eng := bundled()[0].list
	for _, i := range []int{0, 1, 1024, 2047} {
		l := append(btc.Wordlist{}, eng...)
		l[i] = "replaced"
		w := wl(fmt.Sprintf("english-%d-replaced", i), l)
		lists = append(lists, &w)
	}
	long := append(append(btc.Wordlist{}, eng...), "extra")
	w := wl("english-2049", long)
	lists = append(lists, &w)
	ent := func(words, x int) []byte { return ref.Key32(hashInt(fmt.Sprint("c19 lists", x)))[:entLen(words)] }
	// uses every one of the replaced words
	idxOf := func(x int) []int {
		idx := ref.Indices(ent(12, x))
		idx[x%11] = []int{0, 1, 1024, 2047}[x%4]
		e, _ := ref.Decode(idx)
		return ref.Indices(e)
	}
	for _, a := range lists {
		a := a
		g.Add("lists/"+a.name, func(c *Ctx) {
			for _, b := range lists {
				for x := 0; x < 4; x++ {
					for _, l := range []*WL{a, b, a} {
						s := ref.Phrase(idxOf(x), l.list)
						c.seedCheck(s, "", l)
						c.seedCheck(strings.Replace(s, " ", "  ", 1), "", l)
					}
				}
				e := ent(12, 9)
				for _, l := range []*WL{a, b, a} {
					if s, _ := c.genPhrase(12, l, newStream(e, "l")); s != ref.Phrase(ref.Indices(e), l.list) {
						var again string
						again, _ = c.genPhrase(12, l, newStream(e, "l"))
						if again != s {
							c.Failf("NewMnemonic(12, %s) with random bytes %x gave %q and then %q", l.name, e, s, again)
						}
					}
				}
			}
			c.Outcome("related lists")
		})
	}
	// a list the caller changed in place
	g.Add("changed/list", func(c *Ctx) {
		own := append(btc.Wordlist{}, eng...)
		for round := 0; round < 6; round++ {
			l := wl(fmt.Sprintf("caller's own list, round %d", round), own)
			for x := 0; x < 4; x++ {
				c.seedExact(ref.Phrase(idxOf(x), own), "", &l)
				c.genPhrase(12, &l, newStream(ent(12, x), "l"))
			}
			i, j := []int{0, 1, 1024, 2047, 0, 2}[round], []int{5, 1024, 2047, 7, 2047, 3}[round]
			before := ref.Phrase(idxOf(0), own)
			own[i], own[j] = own[j], own[i]
			l = wl(l.name+" swapped", own)
			c.seedCheck(before, "", &l)
		}
		c.Outcome("changed in place")
	})
	// a network the caller changed in place, and keys whose fields it changed
	g.Add("changed/network", func(c *Ctx) {
		net := &btc.Network{}
		pub := &btc.PublicKey{X: new(big.Int), Y: new(big.Int), Network: net}
		priv := &btc.PrivateKey{Key: new(big.Int), Network: net}
		for i, pre := range []string{"80", "ef", "81", "80", "00", "EF"} {
			n := mkNet("changed", pre, []string{"00", "6f", "05", "6F", "00", "c4"}[i])
			*net = *n.net
			n.net = net
			for j := 0; j < 3; j++ {
				for _, k := range []*big.Int{hexBig(repoKeys[0]), hexBig(repoKeys[1]), bi(1)} {
					what := fmt.Sprintf("on a network object holding %+v now", *net)
					p, err := c.PrivHex(ref.Hex(ref.Key32(k)), n)
					c.checkPriv("import "+what, p, err, k, n)
					q, err := c.PrivWIF(ref.WIF(n.priv, k), n)
					c.checkPriv("import "+what, q, err, k, n)
					P := ref.MulG(k)
					pub.X.Set(P.X)
					pub.Y.Set(P.Y)
					c.addrCheck(pub, P, n)
					for _, comp := range []bool{true, false} {
						if s := c.Format(pub, comp); s != ref.Hex(ref.SEC1(P, comp)) {
							c.Failf("Format(%v) of an object holding %s now: %s", comp, showPub(pub), s)
						}
					}
					raw := rawPriv(k, n)
					priv.Key.Set(k)
					priv.Hex, priv.WIF = raw.Hex, raw.WIF
					d, ok := c.Pub(priv)
					if !ok {
						c.Failf("no public key for an object holding %s now", showPriv(priv))
					}
					c.checkPub("public key of an object holding "+showPriv(priv)+" now", d, P, n)
					o := rawPriv(bi(7), n)
					s, err := c.AddPriv(priv, o)
					c.checkPriv("sum "+what, s, err, combineModel("add", k, bi(7)), n)
					s, err = c.MulPriv(o, priv)
					c.checkPriv("product "+what, s, err, combineModel("mul", k, bi(7)), n)
					t, err := c.AddPub(pub, rawPub(ref.MulG(bi(7)), n), false)
					if err != nil {
						c.Failf("sum with an object holding %s now: %v", showPub(pub), err)
					}
					c.checkPub("sum with an object holding "+showPub(pub)+" now", t, ref.Add(P, ref.MulG(bi(7))), n)
				}
			}
		}
		c.Outcome("changed in place")
	})
	// phrase and passphrase whose concatenations agree
	g.Add("split/seed", func(c *Ctx) {
		l := bundled()[0]
		idx := l.idx()
		found := 0
		for x := 0; found < g.T(6, 40); x++ {
			p := ref.Indices(ent(12, 100+x))
			for i, a := range l.list {
				for j := i + 1; j < len(l.list) && strings.HasPrefix(l.list[j], a); j++ {
					p[11] = i
					if _, ok := ref.Decode(p); !ok {
						continue
					}
					s := ref.Phrase(p, l.list)
					p[11] = idx[l.list[j]]
					if _, ok := ref.Decode(p); !ok {
						continue
					}
					t := ref.Phrase(p, l.list)
					rest := t[len(s):]
					for r := 0; r < 2; r++ {
						c.seedExact(s, rest, l)
						c.seedExact(t, "", l)
						c.seedExact(s, rest+" x", l)
						c.seedExact(t, " x", l)
					}
					found++
				}
			}
		}
		c.Outcome("related phrases")
	})
	// phrases of one length that differ in few words, under a few passphrases
	for _, cnt := range []int{12, 24} {
		for pos := 0; pos < cnt; pos++ {
			cnt, pos := cnt, pos
			g.Add(fmt.Sprintf("siblings/%d/%d", cnt, pos), func(c *Ctx) {
				l := bundled()[0]
				base := ref.Indices(ent(cnt, 200+pos))
				sib := [][]int{base}
				seen := map[string]bool{}
				for x := 1; x < 2048 && len(sib) < g.T(5, 20); x++ {
					p := append([]int{}, base...)
					p[pos] = (p[pos] + x) % 2048
					if len(l.list[p[pos]]) != len(l.list[base[pos]]) {
						continue
					}
					for y := 0; y < 2048; y++ {
						q := append([]int{}, p...)
						if pos != cnt-1 {
							q[cnt-1] = y
						}
						if _, ok := ref.Decode(q); ok && len(l.list[q[cnt-1]]) == len(l.list[base[cnt-1]]) && !seen[fmt.Sprint(q)] {
							seen[fmt.Sprint(q)] = true
							sib = append(sib, q)
							break
						}
					}
				}
				for i := 0; i <= 2*len(sib); i++ {
					c.seedExact(ref.Phrase(sib[i*(len(sib)-1)%len(sib)], l.list), []string{"", "a"}[i/len(sib)%2], l)
				}
				for _, pass := range []string{"a", "A", "a ", " a", "b", "aa", "", " ", "a", "A"} {
					c.seedExact(ref.Phrase(base, l.list), pass, l)
				}
				c.Outcome("related phrases")
			})
		}
	}
	// 12 words and three more as the passphrase; 15 words
	g.Add("split/words", func(c *Ctx) {
		l := bundled()[0]
		for x := 0; x < g.T(4, 20); x++ {
			p := ref.Indices(ent(12, 300+x))
			for y := 0; ; y++ {
				q := append(append([]int{}, p...), y%2048, y/2048, (y*7+x)%2048)
				if _, ok := ref.Decode(q); !ok {
					continue
				}
				s, t := ref.Phrase(p, l.list), ref.Phrase(q, l.list)
				rest := t[len(s):]
				for r := 0; r < 2; r++ {
					c.seedExact(s, rest, l)
					c.seedExact(t, "", l)
					c.seedExact(s, rest[1:], l)
					c.seedExact(s, rest[1:]+" ", l)
					c.seedExact(t, " ", l)
				}
				break
			}
		}
		c.Outcome("related phrases")
	})
	// all pairs of small keys: equal sums, products, differences, and digits that run together
	for _, op := range []string{"add", "mul"} {
		op := op
		g.Add("smallpairs/"+op, func(c *Ctx) {
			n := netMain()
			top := int64(g.T(130, 300))
			ks := map[int64]*btc.PrivateKey{}
			for i := int64(1); i <= top; i++ {
				ks[i] = rawPriv(bi(i), n)
				ks[-i] = rawPriv(sub(ref.N, bi(i)), n)
			}
			for a := int64(1); a <= top; a++ {
				for b := int64(1); b <= top; b++ {
					for _, pr := range [][2]int64{{a, b}, {a, -b}} {
						x, y := ks[pr[0]], ks[pr[1]]
						want := combineModel(op, x.Key, y.Key)
						r, err := c.combine(op, x, y)
						what := fmt.Sprintf("%s(%d, %d) after the smaller ones", op, pr[0], pr[1])
						if pr[0] == pr[1] || want.Sign() == 0 {
							c.noPriv(what, r, err)
						} else {
							c.checkPriv(what, r, err, want, n)
						}
					}
				}
			}
			c.Outcome("small pairs")
		})
	}
	// points that share a coordinate
	g.Add("orbit", func(c *Ctx) {
		beta := hexBig("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")
		for x := int64(1); x <= int64(g.T(3, 12)); x++ {
			P := ref.MulG(hashInt(fmt.Sprint("orbit", x)))
			var orb []ref.Point
			for i := 0; i < 3; i++ {
				orb = append(orb, P, ref.Neg(P))
				P = ref.Point{X: new(big.Int).Mod(new(big.Int).Mul(P.X, beta), ref.P), Y: P.Y}
			}
			one := func(p ref.Point, n Net) {
				for _, comp := range []bool{true, false} {
					q, err := c.PubHex(ref.Hex(ref.SEC1(p, comp)), n)
					if err != nil {
						c.Failf("import of (%x,%x) refused: %v", p.X, p.Y, err)
					}
					c.checkPub("import", q, p, n)
					if s := c.Format(q, comp); s != ref.Hex(ref.SEC1(p, comp)) {
						c.Failf("Format(%v) of (%x,%x) is %s", comp, p.X, p.Y, s)
					}
					c.addrCheck(q, p, n)
				}
			}
			for _, n := range []Net{netMain(), netTest(), netMain()} {
				for _, a := range orb {
					for _, b := range orb {
						one(a, n)
						one(b, n)
						one(a, n)
						for _, d := range orb {
							c.addPubCheck(a, d, n)
							c.addPubCheck(b, d, n)
						}
					}
				}
			}
		}
		c.Outcome("shared coordinates")
	})
	// many keys on one network and then on another
	g.Add("many/cross", func(c *Ctx) {
		nets := []Net{netMain(), netTest(), mkNet("x", "80", "05"), netMain()}
		total := g.T(1500, 6000)
		for round, net := range nets {
			for i := 0; i < total; i++ {
				k := hashInt(fmt.Sprint("cross", i))
				what := fmt.Sprintf("key %d of %d, round %d", i, total, round)
				p, err := c.PrivHex(ref.Hex(ref.Key32(k)), net)
				c.checkPriv(what, p, err, k, net)
				q, err := c.PrivWIF(rawPriv(k, net).WIF, net)
				c.checkPriv(what, q, err, k, net)
				if round > 0 && nets[round-1].priv != net.priv {
					w := rawPriv(k, nets[round-1]).WIF
					q, err = c.PrivWIF(w, net)
					c.noPriv(what+" with the other network's WIF", q, err)
				}
				if i%8 == 0 {
					s, err := c.AddPriv(p, rawPriv(bi(3), net))
					c.checkPriv(what+" plus 3", s, err, combineModel("add", k, bi(3)), net)
				}
			}
		}
		c.Outcome("many keys")
	})
	g.Add("many-pub/cross", func(c *Ctx) {
		nets := []Net{netMain(), netTest(), mkNet("x", "80", "05"), netMain()}
		total := g.T(300, 2000)
		for round, net := range nets {
			P := ref.MulG(hashInt("many cross"))
			for i := 0; i < total; i++ {
				P = ref.Add(P, ref.G())
				what := fmt.Sprintf("point %d of %d, round %d", i, total, round)
				p, err := c.PubHex(ref.Hex(ref.SEC1(P, (i+round)%2 == 0)), net)
				if err != nil {
					c.Failf("%s refused: %v", what, err)
				}
				c.checkPub(what, p, P, net)
				c.addrCheck(p, P, net)
				q, err := c.AddPub(p, rawPub(ref.G(), net), round%2 == 0)
				if err != nil {
					c.Failf("%s: sum refused: %v", what, err)
				}
				c.checkPub(what, q, ref.Add(P, ref.G()), net)
				o, err := c.PubHex(ref.Hex(ref.SEC1(ref.Neg(P), true)), net)
				if err != nil {
					c.Failf("%s: opposite refused: %v", what, err)
				}
				c.checkPub(what+" opposite", o, ref.Neg(P), net)
			}
		}
		c.Outcome("many keys")
	})
	g.Add("many-pub/derive", func(c *Ctx) {
		nets := []Net{netMain(), netTest(), netMain()}
		total := g.T(150, 1000)
		for round, net := range nets {
			k := hashInt("many derive")
			P := ref.MulG(k)
			for i := 0; i < total; i++ {
				d, ok := c.Pub(rawPriv(k, net))
				if !ok {
					c.Failf("key %d, round %d: no public key", i, round)
				}
				c.checkPub(fmt.Sprintf("public key %d, round %d", i, round), d, P, net)
				scribble([]any{d})
				k = add(k, bi(1))
				P = ref.Add(P, ref.G())
			}
		}
		c.Outcome("many keys")
	})
	g.Add("many/seeds", func(c *Ctx) {
		l := bundled()[0]
		total := g.T(150, 2000)
		for round := 0; round < 3; round++ {
			for i := 0; i < total; i++ {
				c.seedExact(ref.Phrase(ref.Indices(ent(12, 1000+i)), l.list), []string{"", "p", ""}[round], l)
			}
		}
		c.Outcome("many seeds")
	})
}
