import json,glob,os
head='''# Model checking aureleoules/btc

The library is a small Go package: private keys (hex, WIF), public keys, addresses, key arithmetic over secp256k1
and BIP-39 mnemonics. It has no I/O apart from the random source and (originally) the logger. What can vary, and so
what is enumerated, is: the argument values, the sequence of calls in a process, the answers of the random source
(bytes, pieces, errors) and the interleaving of concurrent calls.

Every check runs the **real code of /repo's working tree** through its exported API; there is no abstract model of
the code that could drift from it. The *model* is an independent reference of what each call must return (`mc/ref`:
own secp256k1, Base58Check, RIPEMD-160, SEC1, BIP-39; only SHA-2/HMAC/PBKDF2 arithmetic comes from the standard
library). A model trace is a sequence of calls with the model's results; each is replayed on the implementation step
by step and compared - that is both the conformance check and the deciding step. The reference is itself checked
against published vectors (generator multiples, WIFs, addresses, BIP-39 vectors, official wordlists) at every start.

Why this reaches what tests cannot: the failures that matter here live on rare values (leading zero digits, sums in
[n, 2^256), n-1, hashes with zero bytes, 1 in 2^24 addresses), in histories (shared big integers, caches), in the
random source's schedule and in interleavings. All of these are enumerated exhaustively over stated finite alphabets;
rare values are found beforehand by search (`mc/miner`, 2^28 scalars, results in `mc/mined.go`) rather than hoped for.

## Engine (`mc/engine.go`)

* A *case* is one deterministic trace of API calls on the real library. A property is a finite set of cases given by
  alphabets and bounds (the `bound` string of each evidence file). No sampling: every run executes the whole set.
* Cases are sharded over one worker process per core. The worker publishes the current case and a heartbeat (a
  completed call) in shared memory. If the library ends the process (`log.Fatal`, unrecovered stack overflow) or gives
  no answer to one call for 120 s, the parent knows the case.
* A failure is reported only when it reproduces in a fresh process: the case alone (up to 3 tries), or the history of its
  shard up to that case (2 tries). A worker stops after 5 failures. Failures that never reproduce are printed as notes and do not count (the
  explorer is deterministic, so on a correct tree there are none). Each report names a file in `replays/`, which
  `./check.sh replay FILE` runs again.
* Counters, all measured: `states` = distinct (operation, model argument, model result) hashes; `transitions` = real
  API calls compared; `traces_validated_against_impl` = cases that ran to the end in agreement with the model.
* `exhaustive` is true only when every case of the bound ran. Quick runs stop at 600 s, thorough at 3 h (then
  `exhaustive: false`, still exit 0).
* A panic of the harness itself, or a tree that does not build, exits 2: no verdict.
* Randomness: `crypto/rand.Reader` is replaced by a switch in the module `mc/seam`, which is initialised before the
  library's package (so also a library that copies the reader in a package variable reads the scripted stream). It is
  the only seam; no hook in /repo is needed.
* Tiers: properties whose calls are cheap (C01-C12, C14, C15, C17, C18) use in quick what used to be their
  thorough alphabets, and have a third, deeper size for thorough.
* Environment variables that the tree's sources name in `os.Getenv`/`LookupEnv` belong to the input: `check.sh` runs the
  property with them set as well (none in the present tree).
* The run deadline is also observed inside long cases (C19, C20), and a batch of schedules ends at the first schedule
  in which no thread moves for 10 s (reported as not exhaustive, e.g. with a spin lock in the tree).
* Only behaviour the statement fixes is compared: e.g. letter case of a private key's `Hex` is free, error texts are
  free, how many bytes a generator draws and how it maps them to entropy is free as long as it is deterministic and
  every delivered bit matters, whether a second wordlist word equal to an earlier one wins is not asked.

## Per property

'''
desc={
'C01':('Every key of a structured alphabet (range ends, every 2^i and 2^i+-1, every count of leading zero nibbles, byte holes, every 16-bit window, mined WIF/checksum shapes) x 3 letter cases x networks (thorough: all 256 one-byte prefixes), hex -> key -> WIF -> key.','Reference WIF encoder; field-by-field equality along the round trip.'),
'C02':('All byte strings up to length 2, all of length 3 (thorough 4) over base58 plus foreign characters, all 1-edit neighbours, transpositions, truncations and bit flips of valid strings, alternative (weaker) checksums, payloads of 0..n bytes, thorough all two-character substitutions.','Reference Base58Check predicate; "checker false => import fails" on each string.'),
'C03':('All payload lengths 0..80 x all 256 version bytes x fill patterns x boundary keys under a correct checksum, networks incl. prefixes that are not one byte.','Reference acceptance predicate, both directions.'),
'C04':('All lengths 0..200 x fills, all 256 bytes at each of 64 positions (replace, insert), prefixes/suffixes (signs, 0x, underscore, spaces, full-width digits), all boundary values.','Reference acceptance predicate and value.'),
'C05':('All sequences of draw classes (0, short, boundary, >= n, ...) up to depth 3 (thorough 5), runs of rejections, each structured key as a draw, each single bit flip of the last 256 bits delivered before a key was returned.','Key invariants, re-import, determinism (two runs), flip => different key.'),
'C06':('All ordered pairs of a boundary-rich alphabet, pairs solving a+b=t for every target shape t (0..63 leading zero nibbles, range ends, n, 2^256), neighbours differing in one bit or half, all network pairs incl. 30 look-alike networks.','Integers mod n; re-import of the result; both operand orders.'),
'C07':('As C06 with a*b=t.','Integers mod n.'),
'C08':('Scalars 1..64, n-64..n-1 (thorough 2048), all 2^i, 2^i+-1, n-2^i, runs, holes, mined points with short coordinates, and out-of-range integers.','Reference scalar multiplication (own field and group code, cross-checked with repeated addition).'),
'C09':('All points of the scalar alphabet incl. mined coordinates with leading zeros, both parities, small x, 2 forms, 3 letter cases.','Reference SEC1; import(format(P)) = P.'),
'C10':('All lengths 0..200 x prefixes, all 256 prefix bytes, all 256 byte values at every position (replace, insert, delete), all small x, x near p and >= p, off-curve y (bit flips, negations, swaps, y^2 off by 2^i, other curves), hybrid/infinity encodings.','Reference acceptance predicate and point.'),
'C11':('Structured and mined points (hash160, checksum and address lengths with leading/trailing zeros down to 1 in 2^28) x 2 forms x networks, all 256 prefixes, multi-byte and invalid prefixes.','Reference address; decode back to 20 bytes.'),
'C12':('All ordered pairs of a point set closed under negation (range ends, small x, sums with special shapes), both flags, pairs agreeing in the low or high bits of X or Y or in a whole coordinate, off-curve operands (also ones that miss the curve equation by 2^i, or lie on sister curves) in either position, all network pairs.','Reference group law.'),
'C13':('All pairs and triples of a boundary-rich alphabet, both groupings; products by repeated public addition (b <= 65) and double-and-add; through Format, import and Address; rare results (sums/products with mined shapes).','Commuting diagram: both routes must give the same encodings (and the reference value).'),
'C14':('5 lengths x 9 lists x entropy classes (every count of leading/trailing zero or one bits, each single bit, every checksum value, hashes with 0..12 leading zero bits), every single-bit flip; word counts -40..400 and extremes; lists of every length 0..2047.','Reference BIP-39 decode of the phrase; determinism; injectivity under flips.'),
'C15':('A fault at every byte offset x 7 error kinds x (with data, separate, transient), for both generators, also after 1..3 rejected draws; all 2^15 partitions of a 16-byte read, all partitions into <= 4 pieces of longer ones. Key generation runs in sub-processes.','No key/phrase after a fault; same result for every partition.'),
'C16':('All 2048 last words x 9 lists x 5 lengths; each word replaced by all 2048 words; all counts 0..60; lists of 2049..8200 words; every separator, case, foreign-word edit at each position; misspellings of each word of each list; own phrases.','Reference BIP-39 predicate.'),
'C17':('9 lists x 5 lengths x entropy classes x passphrases (empty, every length to 300 bytes and around 2^9..2^17, spaces, NUL, every NFKD-stable code point), phrases of every byte length, published vectors.','Reference PBKDF2 seed.'),
'C18':('All 9 x 2048 words; each index of each list at each position, through generation and validation; lists re-read after use.','The official lists, held in `mc/ref` and pinned by their published SHA-256.'),
'C19':('All ordered pairs of 37 operations x 2 variants each in a fresh process; for each operation all ordered pairs of 8 one-respect variants; triples; de Bruijn histories covering each ordered pair of all 296 steps in one process; long repetitions; related lists and phrases; small-key pairs; points sharing a coordinate; hundreds of distinct calls repeated; every error path; in-place changed arguments; with and without the caller overwriting returned integers.','Result of the same call alone in a fresh process; snapshots of arguments, earlier results, exported variables after each call.'),
'C20':('See below.','Result of each call alone; happens-before race analysis; no deadlock.'),
'C21':('Every operation, success and error paths, all secrets of an alphabet, the cases of the other properties re-run with descriptors 1 and 2 captured, two-call histories, random-source faults.','Non-interference: output equal for all secrets of the same outcome.'),
'C22':('Breadth-first search of derivation chains to depth 4 (thorough 5) from keys on 12 networks (equal-parameter copies, one-field differences), each cross-network combination at each node; 30 look-alike networks.','State machine over (scalar, network parameters).'),
}
out=head+'| id | enumerated | oracle | quick: traces / states / calls | quick s |\n|---|---|---|---|---|\n'
for k in sorted(desc):
    f='/verif/evidence/%s.json'%k
    d=json.load(open(f));c=d['coverage']
    assert d['tier']=='quick' and d['violations']==0,k
    out+='| %s | %s | %s | %s / %s / %s | %d |\n'%(k,desc[k][0],desc[k][1],c['traces_enumerated'],c['states'],c['transitions'],round(d['wall_s']+.5))
out+='''
Thorough tiers use larger alphabets of the same kinds (see the `bound` strings). No property is listed as
not applicable.

## C20: interleavings

`mc/instr` copies the module's non-test files (every package of /repo that the build uses) and the curve dependency,
puts a scheduling point before every statement, and builds them through `-overlay`/`replace`; /repo is not touched and
no hook is needed. `mc/sched` runs 2 (3) threads one at a time; a *plan* says at which scheduling point which thread is
preempted. Explored: for all pairs of the 37 operations x (shared argument objects | different arguments), all
one-preemption schedules at the first two visits and the last visit of each statement, either thread first; all
two-preemption schedules over the first visits of the module's statements (truncated at a stated count for the slow
operations, counted in the evidence); one call overtaken at each statement by 20 calls of another thread; schedules from process
start (lazily initialised state); thorough: more visits, all pairs cold, three threads. A call result is compared
with the same call alone; the random source gives each thread its own stream. A separate build with the race
detector runs each pair in both orders and at preemptions; since only one thread runs at a time and the scheduler's
hand-off creates no happens-before edge visible to the detector, an unsynchronised conflicting access is reported
deterministically, also within one statement.

If a changed tree starts goroutines or uses channels itself, or the instrumenter cannot handle it, the
check falls back to the un-instrumented build: whole-call orders and the race detector (evidence `instrumented:
false`, `exhaustive: false`), exit 0 unless a failure is found. Locks (`sync.Mutex`, `sync.Once`, `sync.Pool`) are
left to run: a thread that blocks outside the scheduler is detected and the execution completes freely.

## Limits

* Bounded: nothing is claimed for values outside the alphabets. The alphabets were widened until bugs planted
  without looking at them were caught.
* BIP-39 asks for NFKD normalisation; the library has none (and no dependency that offers it). C16/C17 speak of phrases and
  passphrases in normalised form. Passphrases that are not valid UTF-8 are not asked.
* Nil networks and networks whose private prefix is not hex are outside the statements for generation (with the latter
  `GeneratePrivateKey` does not return). Unreduced coordinates (X+p) in AddPublicKeys are refused and count as off the curve.
* The generator never yields a key with a leading zero digit (it redraws): allowed by C05, 1/16 of the keys are lost.
* C21 observes descriptors 1 and 2; timing side channels are out of reach of this family.
* C20: at most two preemptions (three threads: two), visits of loop statements beyond the second are represented by the
  first, second and last.
* The comparison with "alone in a fresh process" (C19) cannot see state kept outside the process.

## Defects of the original found and repaired

All are in `known_findings.txt` as `fixed:` with the commit; 16 `fix:` commits in /repo. In short: import functions
accepted almost anything and crashed on short input (CheckWIF, PrivateFromWIF, PrivateFromHex, PublicFromHex); sums
and products lost leading zeros; different keys whose WIFs differ in letter case were "identical"; n-1 and opposite
points ended the process; the key 1 shared the generator's integers; public import wrote to the shared curve; mnemonics
with leading zero entropy were invalid, short lists panicked, validation accepted wrong phrases, logged the entropy
and returned the phrase instead of the seed; words beyond the 2048th of a longer list were accepted.

No open finding remains.

## False alarms met and removed

* C05/C14 must not fix how source bytes become a key or entropy: a refactoring may draw differently. They demand
  determinism, validity, and that each delivered bit of the accepted draw matters.
* A fixed time limit per case took a long case on a loaded machine for a hang; the watch now looks at single calls.

## Behaviour-preserving edits tried (all checks quiet)

Helpers extracted (double SHA, combine, padding), byte-slice rewrites of the checksum and mnemonic code, map index for the
wordlist, loops instead of recursion, byte arithmetic for the phrase, a new internal package with a `sync.Pool` of
hashes, goroutines and channels inside a call (C20 falls back), a complete rewrite of the key and mnemonic code on
byte slices with the random source in a package variable, a generator that pads with `io.ReadFull` and `sync.Map`
caches, an `RWMutex`/`Once` cache of checksums (C20 exhaustive), a hand-written spin lock (C20 quiet, not exhaustive), inert statements and comments (`tools/try_quiet.sh`).

## Planted bugs (`seeded/`) and which check catches them

Each was confirmed by `tools/plant.py` (applies, builds, 13 tests pass, demo passes without and fails with it) and by
`tools/try_seeded.sh` (check of its property exits 1 with its VIOLATION line).

| bug | caught by | needs |
|---|---|---|
'''
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    out+='| %s | %s | %s |\n'%(os.path.basename(d),m['property'],m['needs'].replace('|','/'))
out+='''
Further bugs that were tried but not kept were either caught by the check of their property or turned out to
be equivalent; two (c03-mod-n, c08-split) were dropped because they did not count (they touch lines of the fix commits).
'''
open('/verif/DESIGN.md','w').write(out)
