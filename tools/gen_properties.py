import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
PR="private_key.go";PU="public_key.go";MN="mnemonic.go";BT="btc.go";UT="util.go";ST="struct.go";WL="wordlists.go"

p("C01","A private key survives hex -> WIF -> hex unchanged",
"For every private key k in [1, n-1] (n = order of secp256k1) and every network with a one-byte private-key prefix, importing the 64-digit hex of k (either letter case) yields a key whose integer is k, whose hex denotes k in exactly 64 digits, and whose WIF is exactly Base58Check(prefix || 32-byte big-endian k). Importing that WIF for the same network yields the same integer, the same 64-digit hex, the same WIF and that network.",
["inputs","configurations"],"all keys 1..n-1, both letter cases, all one-byte network prefixes",
"Tests sample 15 fixed keys, none with a leading zero byte, none at the ends of the range, and only the two built-in networks.",
[PR,ST,BT],[("PrivateFromHex: prefix + hex + double-SHA checksum + base58","private_key.go:PrivateFromHex"),("PrivateFromWIF strips prefix and checksum","private_key.go:PrivateFromWIF")],
[("PrivateKey","Key, Hex, WIF must name the same scalar","struct.go")],["PrivateKey.Key/Hex/WIF/Network"])

p("C02","The WIF checker accepts exactly the strings with a valid checksum",
"For every string, the WIF checker returns true only if the string is base58 whose last four decoded bytes are the first four bytes of the double SHA-256 of the bytes before them, and it returns true for every such string whose payload is not empty. It returns an answer (never crashes) for every string, of any length and any bytes; whenever it answers false, importing the string as a WIF fails as well.",
["inputs"],"all strings; in particular every single-character substitution, deletion, insertion, transposition and truncation of a valid WIF, and all short strings",
"Tests check 41 valid strings and 14 strings with one deleted character; substitutions, transpositions and strings shorter than a checksum are never tried.",
[PR],[("CheckWIF recomputes the checksum","private_key.go:CheckWIF"),("PrivateFromWIF calls CheckWIF first","private_key.go:PrivateFromWIF")],(),["CheckWIF result","PrivateFromWIF error"])

p("C03","WIF import accepts only well-formed in-range keys of the given network",
"Importing a WIF for a network succeeds exactly when the string is checksum-valid, its payload is the network's one-byte private-key prefix followed by exactly 32 bytes, and those bytes denote an integer in [1, n-1]. Every other string (other network's prefix, missing or extra payload bytes, zero, or an integer >= n) gives an error and no key, and no string makes the import crash.",
["inputs","configurations"],"all payload lengths and version bytes under a valid checksum, all boundary key values, all networks",
"Every WIF in the tests is a well-formed 37-byte payload imported for its own network; a valid checksum over a malformed payload is never tried.",
[PR,ST],[("PrivateFromWIF payload, prefix and range checks","private_key.go:PrivateFromWIF")],(),["PrivateFromWIF result and error"])

p("C04","Hex private-key import accepts exactly 64 hex digits naming a valid key",
"Importing a private key from text succeeds exactly when the text is 64 hexadecimal digits (upper, lower or mixed case) denoting an integer in [1, n-1]. Any other text (wrong length, empty, sign, prefix, space, non-hex or non-ASCII character anywhere, zero, or a value >= n) gives an error and no key, never a crash and never a key with a missing or different integer.",
["inputs"],"all strings: every length, every foreign character at every position, every boundary value",
"Tests try two bad inputs, of 63 and 65 digits.",
[PR],[("PrivateFromHex validation","private_key.go:PrivateFromHex")],(),["PrivateFromHex result and error"])

p("C05","Every generated private key is valid, self-consistent and fully random",
"For every sequence of bytes the secure random source may deliver, a generated private key has an integer in [1, n-1], hex of exactly 64 digits denoting that integer, the WIF of that integer for the requested network, and that network; re-importing its hex or WIF gives the same key. The key is determined by the random source alone (same bytes, same key; nothing else contributes), and every bit delivered for the accepted draw matters: flipping any single one gives a different key.",
["inputs","histories"],"all random byte streams, including rejected draws before an accepted one and draws at 0, 1, n-2, n-1, n and 2^256-1, on all networks",
"Tests draw 20000 ordinary random keys: values in the 2^128-wide band at or above n, or a zero draw, are never hit, and the source of randomness is not observed.",
[PR,UT],[("generateRandomBigInt bounds the draw","util.go:generateRandomBigInt"),("retry on short hex","private_key.go:GeneratePrivateKey")],(),["PrivateKey.Key/Hex/WIF/Network","bytes read from crypto/rand.Reader"])

p("C06","Adding private keys gives the canonical key of the sum modulo n",
"For every two different valid private keys a and b on the same network, addition returns, independently of operand order, the key whose integer is (a+b) mod n, with a 64-digit hex, the matching WIF and the same network, so that re-importing its hex or WIF succeeds and gives the same key. When a+b = n, when a = b, or when the operands' networks have different parameters, an error and no key is returned; it never crashes.",
["inputs","configurations"],"all ordered pairs of valid keys, all networks",
"Tests try 6 sums; none has a leading zero nibble (1 in 16 does), none wraps exactly around n.",
[PR,UT,BT],[("AddPrivateKeys: mod n and re-encode","private_key.go:AddPrivateKeys")],(),["AddPrivateKeys result and error"])

p("C07","Multiplying private keys gives the canonical key of the product modulo n",
"For every two different valid private keys a and b on the same network, multiplication returns, independently of operand order, the key whose integer is (a*b) mod n, with a 64-digit hex, the matching WIF and the same network, so that re-importing its hex or WIF succeeds and gives the same key. When a = b, or when the operands' networks have different parameters, an error and no key is returned; it never crashes.",
["inputs","configurations"],"all ordered pairs of valid keys, all networks",
"Tests try 6 products; none has a leading zero nibble, none is small, and rejection of identical operands of the product is not tested at all (the test calls addition).",
[PR,UT,BT],[("MultiplyPrivateKeys: mod n and re-encode","private_key.go:MultiplyPrivateKeys")],(),["MultiplyPrivateKeys result and error"])

p("C08","Public-key derivation yields k*G for every valid private key",
"For every private key k in [1, n-1], derivation succeeds and returns the affine coordinates, reduced modulo the field prime, of k times the secp256k1 generator, on the private key's network. For an integer outside [1, n-1] it reports failure without a key; it never crashes or ends the process.",
["inputs"],"all scalars, in particular both ends of the range, powers of two, sparse and dense bit patterns",
"Tests derive 12 ordinary 256-bit keys; none is small, near n, or has long runs of equal bits.",
[PU,BT],[("GetPublicKey: scalar multiplication of G","public_key.go:GetPublicKey"),("curve constants","btc.go:init")],
[("secp256k1","global curve parameters, read-only","btc.go")],["PublicKey.X/Y/Network","valid flag","process still alive"])

p("C09","Public-key serialisation is canonical SEC1 and round-trips",
"For every curve point, the uncompressed form is the 130 lower-case hex digits 04 || X || Y and the compressed form is the 66 lower-case hex digits (02 if Y is even, 03 if odd) || X, each coordinate zero-padded to 64 digits. Importing either form (in any letter case) gives back exactly the same X, Y and the given network.",
["inputs"],"all curve points, both parities, coordinates with any number of leading zero digits",
"Tests round-trip 12 points; one X has a leading zero byte, no Y has.",
[PU],[("Format zero-pads X and Y","public_key.go:Format"),("PublicFromHex recovers Y and fixes its parity","public_key.go:PublicFromHex")],(),["Format output","PublicKey.X/Y"])

p("C10","Public-key import accepts exactly the canonical encodings of curve points",
"Importing a public key from text succeeds exactly when the text is 130 hex digits starting 04 that encode a point on secp256k1, or 66 hex digits starting 02 or 03 whose X (below the field prime) lies on the curve. Every other text (empty, too short, too long, other prefix, sign or non-hex character, coordinate >= the field prime, point off the curve) gives an error and no key, and no text crashes the import.",
["inputs"],"all strings: every length, every prefix byte, every foreign character at every position, off-curve points and non-residue X",
"Tests import 24 well-formed encodings and no malformed one.",
[PU,BT],[("PublicFromHex validation and curve check","public_key.go:PublicFromHex")],(),["PublicFromHex result and error"])

p("C11","Addresses are the exact Base58Check hash160 of the chosen encoding",
"For every public key, network and choice of compressed or uncompressed form, the address is exactly (case-sensitively) Base58Check(network's public-key-hash prefix || RIPEMD160(SHA256(encoding))), where encoding is the key's SEC1 bytes in that form, so it decodes to 20 hash bytes with a valid checksum. A network whose prefix is not valid hex gives an error and no address.",
["inputs","configurations"],"all points, both forms, all network prefixes, hashes with leading zero bytes",
"Tests compare 24 addresses after lower-casing both sides, so a wrong base58 alphabet or case is invisible; only two prefixes are used and few hashes start with zero.",
[PU,ST,BT],[("Address: hash160, prefix, checksum, base58","public_key.go:Address")],(),["Address result and error"])

p("C12","Adding public keys is the secp256k1 group operation",
"For every two public keys on the curve with the same network parameters, addition returns their elliptic-curve sum with reduced coordinates, on that network, independently of operand order and of the compressed flag; adding a key to itself gives its double. When the keys are opposite (the sum is the point at infinity), when a coordinate pair is not on the curve, or when network parameters differ, it returns an error and no key; it never crashes or ends the process.",
["inputs","configurations"],"all pairs of curve points: distinct, equal, opposite, and off-curve pairs",
"Tests add 10 unrelated pairs; doubling, opposite points and differing networks are never tried.",
[PU],[("AddPublicKeys: operand checks and point addition","public_key.go:AddPublicKeys")],(),["AddPublicKeys result and error","process still alive"])

p("C13","Combining private keys and combining public keys agree",
"For all valid private keys a, b, c on one network, whenever the private combination exists: the public key of a+b equals the sum of the public keys of a and b, grouping of a three-key sum does not matter on either side, and the public key of a*b equals the public key of a added to itself b times. The agreement holds through serialisation: addresses and encodings obtained along either route are identical.",
["inputs","histories"],"all chains of combinations over all key values",
"Private sums and public sums are tested separately on unrelated data; no test connects them.",
[PR,PU],[("AddPrivateKeys / MultiplyPrivateKeys modulo the group order","private_key.go"),("AddPublicKeys, GetPublicKey","public_key.go")],(),["PublicKey.X/Y, Format, Address along both routes"])

p("C14","Generated mnemonics are valid BIP-39 encodings of fresh entropy",
"For every byte stream of the secure random source, every supported length (12, 15, 18, 21, 24 words) and every bundled wordlist, the phrase has exactly that many single-space separated words of that list and its last word_count/3 bits are the first bits of SHA-256 of the 128..256 entropy bits before them, all of them taken from the random source (same bytes, same phrase; flipping any single delivered entropy bit changes the phrase). For any other word count, a missing wordlist or one with fewer than 2048 words, an error and an empty phrase is returned, never a crash.",
["inputs","configurations"],"all entropy values (leading zero bytes, checksum hashes with leading zero bits), all word counts, all wordlists",
"Tests only count the words of random English phrases; the content of a phrase is never checked, nor any other wordlist.",
[MN,WL],[("NewMnemonic: entropy, checksum bits, 11-bit groups","mnemonic.go:NewMnemonic")],(),["NewMnemonic result and error","bytes read from crypto/rand.Reader"])

p("C15","Random-source faults never yield a key or phrase",
"If the secure random source fails at any read, while generating a private key or a mnemonic, no key or phrase is returned: mnemonic generation returns an error and an empty phrase, key generation panics. If the source merely delivers its bytes in arbitrary smaller pieces, the result is the same as if they had been delivered at once.",
["fault_sequences"],"every fault position and every partition of the delivered bytes, for both generators, all lengths and networks",
"Tests always use the healthy system random source.",
[UT,MN,PR],[("error of rand.Int is propagated","mnemonic.go:NewMnemonic, util.go:generateRandomBigInt")],(),["error / panic","returned value","bytes read"])

p("C16","Mnemonic validation accepts exactly the valid BIP-39 phrases",
"Deriving a seed succeeds for every phrase of 12, 15, 18, 21 or 24 single-space separated words of the given wordlist (the first 2048 of it, those an 11-bit index names) whose checksum bits are correct, in particular for every phrase the library itself generates. Every other phrase (wrong count, unknown word, wrong checksum, extra, leading or trailing space, empty) or a missing wordlist gives an error and no seed, never a crash.",
["inputs"],"all phrases: every last word, every substituted word, every word count, every wordlist",
"The one test calls it once with a 24-word phrase and ignores the result.",
[MN,WL],[("NewSeedFromMnemonic word lookup and checksum comparison","mnemonic.go:NewSeedFromMnemonic")],(),["NewSeedFromMnemonic error"])

p("C17","The seed of a valid mnemonic is the BIP-39 seed",
"For every valid phrase and every passphrase (both in the normalised form BIP-39 prescribes), the derived seed is exactly the 64 bytes of PBKDF2-HMAC-SHA512 with the phrase as password, the text \"mnemonic\" followed by the passphrase as salt, and 2048 iterations. It depends on nothing else, so any BIP-39 wallet restores the same keys.",
["inputs"],"all valid phrases of all lengths and wordlists, all passphrases",
"The test ignores the returned seed.",
[MN],[("NewSeedFromMnemonic key stretching","mnemonic.go:NewSeedFromMnemonic")],(),["NewSeedFromMnemonic result"])

p("C18","Each bundled wordlist is the official BIP-39 list",
"Each of the nine bundled wordlists (English, French, Japanese, Italian, Spanish, Korean, Czech, Chinese traditional and simplified) has exactly the 2048 distinct words of the official BIP-39 list in the official order, and stays so through any use of the library. Generation and validation use every index consistently: each of the 2048 words of each list appears in the phrase for exactly its 11-bit index and is recognised at that index.",
["inputs","histories"],"all 9 x 2048 words, through generation and validation",
"Tests use the English list only and never look at a word.",
[WL,MN],[("literal tables","wordlists.go"),("index lookup","mnemonic.go")],(),["exported wordlists","NewMnemonic words","NewSeedFromMnemonic acceptance"])

p("C19","Results depend only on arguments; arguments and returned values are safe",
"For every history of calls, each call returns what it would return in a fresh process for the same arguments (and random bytes): no earlier call, successful or failed, influences it. No call modifies its arguments, the exported networks or the wordlists, and a returned key is the caller's own: overwriting its integers later affects no other key and no later call.",
["histories"],"all sequences of library calls, interleaved with the caller overwriting values it was given",
"Each test calls functions on fresh values and never mutates a result, so shared or cached state cannot show.",
[PR,PU,MN,BT,UT],[("functions work on fresh big.Int values","private_key.go, public_key.go"),("returned coordinates are copies","public_key.go:GetPublicKey")],
[("secp256k1, MainNetwork, TestNetwork, wordlists","process-wide state","btc.go, wordlists.go")],["results of later calls","argument values after a call"])

p("C20","Concurrent calls behave as if run alone",
"When several goroutines call any of the library's functions at the same time, also on the same keys, under every interleaving each call returns exactly what it returns when run alone (for the random bytes it received) and no call blocks, crashes or races with another. Callers need no locking of their own as long as they do not modify shared keys.",
["schedules"],"all interleavings (up to a preemption bound) of all pairs of operations on shared arguments",
"All tests are single-threaded.",
[PR,PU,MN,BT,UT],[("no shared mutable state","whole package"),("private copy of the curve for Y recovery","public_key.go:PublicFromHex")],
[("secp256k1","shared curve parameters","btc.go")],["return values","race reports"])

p("C21","Secrets are never written to the log or standard streams",
"No call, successful or failed, writes anything that depends on a private key, a mnemonic, a passphrase, entropy or a seed to the process's standard output, standard error or default logger. Two runs that differ only in these secrets are indistinguishable on those channels.",
["inputs","histories"],"all calls, all secrets, success and error paths",
"No test looks at what is printed.",
[MN,PR,PU,UT],[("no logging of intermediate values","mnemonic.go:NewSeedFromMnemonic")],(),["file descriptors 1 and 2","log package output"])

p("C22","Keys keep their network and different networks never mix",
"Along every chain of operations, each derived key (import, generation, addition, multiplication, public derivation, public addition) carries the network parameters of its operands, its WIF and addresses carry exactly that network's prefixes, and the same key reached along different routes is identical. Combining keys whose network parameters differ in any field is an error yielding no key, while networks with equal parameters are interchangeable.",
["histories","configurations"],"all chains of operations over keys on several networks, including networks that differ in a single prefix",
"Tests combine keys of the two built-in networks twice for private addition/multiplication, never for public addition, never for custom networks, and never chain operations.",
[PR,PU,ST,BT],[("network comparison before combination","private_key.go, public_key.go"),("network carried into results","private_key.go, public_key.go")],
[("Network","private-key and public-key-hash prefixes","struct.go")],["Network of results, WIF and address prefixes, errors"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80
print(len(P))
