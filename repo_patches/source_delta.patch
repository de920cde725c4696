From 21c2a75fd3441d6cc04beecc066360d19381321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:23 +0000
Subject: [PATCH 01/16] fix: CheckWIF must not panic on strings shorter than a
 checksum

---
 private_key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/private_key.go b/private_key.go
index 2c61000..6bcae13 100644
--- a/private_key.go
+++ b/private_key.go
@@ -18,6 +18,11 @@ func CheckWIF(wif string) bool {
 		return false
 	}
 
+	/* The checksum takes 4 bytes */
+	if len(bytes) < 4 {
+		return false
+	}
+
 	hexa := hex.EncodeToString(bytes)
 	checksum := hexa[len(hexa)-8 : len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
-- 
2.43.0


From f00757a37586f822e6c3a74db92af137eb813a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:26 +0000
Subject: [PATCH 02/16] fix: PrivateFromWIF must reject malformed, out of range
 and foreign payloads

---
 private_key.go | 11 +++++++++++
 util.go        |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/private_key.go b/private_key.go
index 6bcae13..a5ed59a 100644
--- a/private_key.go
+++ b/private_key.go
@@ -58,7 +58,15 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 		return nil, err
 	}
 
+	/* Network byte, 32 bytes key, 4 bytes checksum */
+	if len(bytes) != 37 {
+		return nil, errors.New("wif length invalid")
+	}
+
 	hexa := hex.EncodeToString(bytes)
+	if network != nil && !strings.EqualFold(hexa[0:2], network.PrivKeyPrefix) {
+		return nil, errors.New("wif is for a different network")
+	}
 
 	hexa = hexa[2:len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
@@ -67,6 +75,9 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 	privateKey.WIF = wif
 	privateKey.Hex = hexa
 	privateKey.Key, _ = new(big.Int).SetString(hexa, 16)
+	if !isValidKey(privateKey.Key) {
+		return nil, errors.New("private key out of range")
+	}
 	privateKey.Network = network
 
 	return &privateKey, nil
diff --git a/util.go b/util.go
index 3b7fa9b..142188a 100644
--- a/util.go
+++ b/util.go
@@ -16,6 +16,11 @@ func generateRandomBigInt() *big.Int {
 	return nBig
 }
 
+// isValidKey checks if a private key is between 1 and n-1
+func isValidKey(key *big.Int) bool {
+	return key != nil && key.Sign() > 0 && key.Cmp(secp256k1.N) < 0
+}
+
 func bigIntToHex(n *big.Int) string {
 	return fmt.Sprintf("%x", n)
 }
-- 
2.43.0


From 261d98e1c3520c13b08eae52b603b7f63cc3d160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:28 +0000
Subject: [PATCH 03/16] fix: PrivateFromHex must reject anything but 64 digits
 of a key in range

---
 private_key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/private_key.go b/private_key.go
index a5ed59a..81564c4 100644
--- a/private_key.go
+++ b/private_key.go
@@ -88,6 +88,9 @@ func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
 
 	var p PrivateKey
 	p.Key, _ = new(big.Int).SetString(hexa, 16)
+	if len(hexa) != 64 || !isValidKey(p.Key) {
+		return nil, errors.New("invalid private key")
+	}
 	p.Hex = hexa
 	/* Add network byte to the hex value */
 	hexa = network.PrivKeyPrefix + hexa
-- 
2.43.0


From 64d9759acadfe48ca3f873683ce9b1532391a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:30 +0000
Subject: [PATCH 04/16] fix: combined private keys with leading zeros must be
 encoded on 64 digits

---
 private_key.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/private_key.go b/private_key.go
index 81564c4..db50289 100644
--- a/private_key.go
+++ b/private_key.go
@@ -167,6 +167,9 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
 	hexa := bigIntToHex(pKey)
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
@@ -188,6 +191,9 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
 	hexa := bigIntToHex(pKey)
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
-- 
2.43.0


From 236791a64ca5ee67fcbafec1410dfd74bfb78532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:32 +0000
Subject: [PATCH 05/16] fix: keys whose WIFs differ only in letter case are not
 identical

---
 private_key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/private_key.go b/private_key.go
index db50289..9d259a5 100644
--- a/private_key.go
+++ b/private_key.go
@@ -158,7 +158,7 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
@@ -182,7 +182,7 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
-- 
2.43.0


From dfe0e88227accd2b7928f5f2f77cbb206e97645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:35 +0000
Subject: [PATCH 06/16] fix: GetPublicKey must not end the process on n-1 or
 accept keys out of range

---
 public_key.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 99d8cec..86795d7 100644
--- a/public_key.go
+++ b/public_key.go
@@ -60,12 +60,26 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	var publicKey PublicKey
 
-	R, valid := secp256k1.ScalarMult(p.Key, secp256k1.G)
+	if !isValidKey(p.Key) {
+		return nil, false
+	}
+
+	/* ScalarMult exits on n-1: above n/2, use kG = -((n-k)G) */
+	key := new(big.Int).Sub(secp256k1.N, p.Key)
+	negate := key.Cmp(p.Key) < 0
+	if !negate {
+		key = p.Key
+	}
+
+	R, valid := secp256k1.ScalarMult(key, secp256k1.G)
 	if !valid {
 		return nil, false
 	}
 	publicKey.X = R.X
 	publicKey.Y = R.Y
+	if negate {
+		publicKey.Y = secp256k1.SubMod(secp256k1.P, R.Y)
+	}
 
 	publicKey.Network = p.Network
 
-- 
2.43.0


From 12435ea333aa951126a62631145d37fc074af000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:37 +0000
Subject: [PATCH 07/16] fix: GetPublicKey must not hand out the generator's own
 coordinates

---
 public_key.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 86795d7..080b703 100644
--- a/public_key.go
+++ b/public_key.go
@@ -75,8 +75,9 @@ func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	if !valid {
 		return nil, false
 	}
-	publicKey.X = R.X
-	publicKey.Y = R.Y
+	/* Copy, R may share the coordinates of the generator */
+	publicKey.X = new(big.Int).Set(R.X)
+	publicKey.Y = new(big.Int).Set(R.Y)
 	if negate {
 		publicKey.Y = secp256k1.SubMod(secp256k1.P, R.Y)
 	}
-- 
2.43.0


From 79b0a88e90134fbf4c3b06b2e2e2a217287b0c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:39 +0000
Subject: [PATCH 08/16] fix: PublicFromHex must reject everything but encodings
 of curve points

---
 public_key.go | 19 +++++++++++++++++++
 util.go       | 10 ++++++++++
 2 files changed, 29 insertions(+)

diff --git a/public_key.go b/public_key.go
index 080b703..3702c69 100644
--- a/public_key.go
+++ b/public_key.go
@@ -18,18 +18,37 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 	var publicKey PublicKey
 	publicKey.Network = network
 
+	if _, err := hex.DecodeString(hexa); err != nil {
+		return nil, err
+	}
+	if len(hexa) != 66 && len(hexa) != 130 {
+		return nil, errors.New("invalid public key length")
+	}
+
 	prefix := hexa[0:2]
 
 	if prefix == "04" {
 		/* Uncompressed */
+		if len(hexa) != 130 {
+			return nil, errors.New("invalid public key length")
+		}
 		x := hexa[2:66]
 		y := hexa[66:130]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 		publicKey.Y, _ = new(big.Int).SetString(y, 16)
+		if !isOnCurve(publicKey.X, publicKey.Y) {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
 
 	} else if prefix == "03" || prefix == "02" {
+		if len(hexa) != 66 {
+			return nil, errors.New("invalid public key length")
+		}
 		x := hexa[2:66]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
+		if publicKey.X.Cmp(secp256k1.P) >= 0 {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
 
 		y, onCurve := secp256k1.GetY(publicKey.X)
 		if !onCurve {
diff --git a/util.go b/util.go
index 142188a..bbfe9a5 100644
--- a/util.go
+++ b/util.go
@@ -4,6 +4,8 @@ import (
 	"crypto/rand"
 	"fmt"
 	"math/big"
+
+	"github.com/aureleoules/ecdsa"
 )
 
 func generateRandomBigInt() *big.Int {
@@ -21,6 +23,14 @@ func isValidKey(key *big.Int) bool {
 	return key != nil && key.Sign() > 0 && key.Cmp(secp256k1.N) < 0
 }
 
+// isOnCurve checks if x and y are reduced coordinates of a point of the curve
+func isOnCurve(x, y *big.Int) bool {
+	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(secp256k1.P) >= 0 || y.Cmp(secp256k1.P) >= 0 {
+		return false
+	}
+	return secp256k1.IsOnCurve(ecdsa.Point{X: x, Y: y})
+}
+
 func bigIntToHex(n *big.Int) string {
 	return fmt.Sprintf("%x", n)
 }
-- 
2.43.0


From 66c0f9a3c8294079c84814b463c2d869cb750247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:42 +0000
Subject: [PATCH 09/16] fix: PublicFromHex must not write to the shared curve

---
 public_key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 3702c69..463e86c 100644
--- a/public_key.go
+++ b/public_key.go
@@ -50,7 +50,10 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
 
-		y, onCurve := secp256k1.GetY(publicKey.X)
+		/* GetY writes to the curve's A: work on a copy */
+		curve := secp256k1
+		curve.A = new(big.Int).Set(secp256k1.A)
+		y, onCurve := curve.GetY(publicKey.X)
 		if !onCurve {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
-- 
2.43.0


From f3fc8c25cd088ea142b9789e93a3976874dc6dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:44 +0000
Subject: [PATCH 10/16] fix: AddPublicKeys must not end the process on opposite
 or off-curve points

---
 public_key.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/public_key.go b/public_key.go
index 463e86c..3b9e742 100644
--- a/public_key.go
+++ b/public_key.go
@@ -217,6 +217,14 @@ func AddPublicKeys(p1 *PublicKey, p2 *PublicKey, compressed bool) (*PublicKey, e
 		Y: p2.Y,
 	}
 
+	if !isOnCurve(p1.X, p1.Y) || !isOnCurve(p2.X, p2.Y) {
+		return nil, errors.New("point is not on curve")
+	}
+	/* AddPoints exits on opposite points */
+	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {
+		return nil, errors.New("sum is the point at infinity")
+	}
+
 	r, onCurve := secp256k1.AddPoints(point1, point2)
 	if !onCurve {
 		return nil, errors.New("point is not on curve")
-- 
2.43.0


From 3ba0859353db7fc36b79cbadbd63f5dad22f1808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:46 +0000
Subject: [PATCH 11/16] fix: NewMnemonic must not panic on a short wordlist

---
 mnemonic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index 722a4ee..29c780f 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -76,7 +76,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 // NewMnemonic generates a new mnemonic phrase
 func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 
-	if wordlist == nil {
+	if len(wordlist) < 2048 {
 		return "", errors.New("invalid wordlist")
 	}
 
-- 
2.43.0


From 90f589ab003d4484fd29a9550c2e0d414b4e8bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:49 +0000
Subject: [PATCH 12/16] fix: NewMnemonic must follow BIP-39 bit order and keep
 leading zeros of the checksum

---
 mnemonic.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 29c780f..e43dfd1 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -109,15 +109,19 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 		return "", err
 	}
 
+	/* Keep leading zeros */
+	entropyBytes := make([]byte, entropyLength/8)
+	copy(entropyBytes[len(entropyBytes)-len(entropy.Bytes()):], entropy.Bytes())
+
 	sha := sha256.New()
-	sha.Write(entropy.Bytes())
+	sha.Write(entropyBytes)
 	hash := sha.Sum(nil)
 
 	checksumLength := entropyLength / 32
 
 	hashInt := new(big.Int).SetBytes(hash)
 
-	hashBinary := fmt.Sprintf("%b", hashInt)
+	hashBinary := fmt.Sprintf("%0256b", hashInt)
 	checksumBinary := hashBinary[0:checksumLength]
 
 	b := fmt.Sprintf("%b", entropy)
@@ -133,7 +137,7 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	for i := 0; i < len(b); i += 11 {
 		str := ""
 		for j := i; j-i < 11; j++ {
-			if binary.Bit(j) == 0 {
+			if binary.Bit(len(b)-1-j) == 0 {
 				str += "0"
 			} else {
 				str += "1"
-- 
2.43.0


From 9dbc70915c7085df884f7ff0216d615c9cb38cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:51 +0000
Subject: [PATCH 13/16] fix: NewSeedFromMnemonic must not log the mnemonic
 entropy

---
 mnemonic.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index e43dfd1..660c4b8 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -6,7 +6,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
-	"log"
 	"math/big"
 	"strings"
 )
@@ -41,7 +40,6 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		for j := i; j-i < 4; j++ {
 			n += string(binary[j])
 		}
-		log.Println(n)
 		nInt, _ := new(big.Int).SetString(n, 2)
 		hexa := bigIntToHex(nInt)
 		hash += hexa
@@ -68,8 +66,6 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		return nil, errors.New("invalid checksum")
 	}
 
-	log.Println(shaHashHex, len(shaHashHex))
-	log.Println(hash, checksum)
 	return nil, nil
 }
 
-- 
2.43.0


From 6763f34cdffe0e239954a248a814ac92a845c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:54 +0000
Subject: [PATCH 14/16] fix: NewSeedFromMnemonic must accept exactly the BIP-39
 phrase lengths and checksums

---
 mnemonic.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 660c4b8..5a84a40 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -13,6 +13,12 @@ import (
 // NewSeedFromMnemonic returns the hash of the mnemonic
 func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
 	words := strings.Split(mnemonic, " ")
+	switch len(words) {
+	case 12, 15, 18, 21, 24:
+	default:
+		return nil, errors.New("unsupported mnemonic length")
+	}
+
 	binary := ""
 	for _, word := range words {
 		index := -1
@@ -34,8 +40,12 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		binary += indexBinary
 	}
 
+	/* One bit of checksum for 32 bits of entropy */
+	checksumLength := len(binary) / 33
+	entropyLength := len(binary) - checksumLength
+
 	hash := ""
-	for i := 0; i < len(binary); i += 4 {
+	for i := 0; i < entropyLength; i += 4 {
 		n := ""
 		for j := i; j-i < 4; j++ {
 			n += string(binary[j])
@@ -45,10 +55,10 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		hash += hexa
 	}
 
-	checksum := hash[len(hash)-2 : len(hash)]
+	checksum := binary[entropyLength:]
 
 	sha := sha256.New()
-	decoded, err := hex.DecodeString(hash[0 : len(hash)-2])
+	decoded, err := hex.DecodeString(hash)
 	if err != nil {
 		return nil, err
 	}
@@ -56,13 +66,9 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 	shaHash := sha.Sum(nil)
 
 	shaHashBig := new(big.Int).SetBytes(shaHash)
-	shaHashHex := bigIntToHex(shaHashBig)
-
-	for len(shaHashHex) < 64 {
-		shaHashHex = "0" + shaHashHex
-	}
+	shaHashBinary := fmt.Sprintf("%0256b", shaHashBig)
 
-	if shaHashHex[0:2] != checksum {
+	if shaHashBinary[0:checksumLength] != checksum {
 		return nil, errors.New("invalid checksum")
 	}
 
-- 
2.43.0


From 11bbca07965733227a321df569724883a2c50950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:56 +0000
Subject: [PATCH 15/16] fix: NewSeedFromMnemonic must return the seed

---
 mnemonic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index 5a84a40..c1099d4 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -3,11 +3,14 @@ package btc
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"crypto/sha512"
 	"encoding/hex"
 	"errors"
 	"fmt"
 	"math/big"
 	"strings"
+
+	"golang.org/x/crypto/pbkdf2"
 )
 
 // NewSeedFromMnemonic returns the hash of the mnemonic
@@ -72,7 +75,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		return nil, errors.New("invalid checksum")
 	}
 
-	return nil, nil
+	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
 }
 
 // NewMnemonic generates a new mnemonic phrase
-- 
2.43.0


From 8f4187a72c7864f023c4aee329bd9841e0ef406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:02 +0000
Subject: [PATCH 16/16] fix: NewSeedFromMnemonic must reject words beyond the
 2048th of a longer wordlist

---
 mnemonic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index c1099d4..64d3615 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -31,7 +31,8 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 				break
 			}
 		}
-		if index < 0 {
+		/* An index takes 11 bits */
+		if index < 0 || index > 2047 {
 			return nil, errors.New("invalid mnemonic")
 		}
 
-- 
2.43.0

