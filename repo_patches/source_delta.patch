From 0bd71c86b6d1626b4cf896c7971da3f32da5ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 01/16] fix: hex address hashes x and y at their full 32 bytes

---
 util/key_path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 3795f01..e622444 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -19,7 +19,10 @@ func (b KeyPath) AddrHex() string {
 		return ""
 	}
 	x, y := bip32.ExpandPublicKey(pbs)
-	addrBs := append(x.Bytes(), y.Bytes()...)
+	// both coordinates are hashed at their full width, leading zeros included
+	addrBs := make([]byte, 64)
+	x.FillBytes(addrBs[:32])
+	y.FillBytes(addrBs[32:])
 	kckHash := sha3.NewLegacyKeccak256()
 	kckHash.Write(addrBs)
 	return hex.EncodeToString(kckHash.Sum(nil)[12:])
-- 
2.43.0


From a2f4093d1788dd8f99afb5fd38e4bbc3fa4bcbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 02/16] fix: NewEntropy reports a failing random source

---
 bip39/bip39.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index df29b82..3412f57 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -104,7 +104,9 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	_, _ = rand.Read(entropy) // err is always nil
+	if _, err := rand.Read(entropy); err != nil {
+		return nil, err
+	}
 
 	return entropy, nil
 }
-- 
2.43.0


From b70ee69661b3d2f95cf6aa38a3ae0d36fc906cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 03/16] fix: MnemonicToByteArray sizes its result by the words,
 not the spaces

---
 bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index 3412f57..188bf11 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -218,7 +218,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice   = strings.Split(mnemonic, " ")
+		mnemonicSlice   = strings.Fields(mnemonic)
 		entropyBitSize  = len(mnemonicSlice) * 11
 		checksumBitSize = entropyBitSize % 32
 		fullByteSize    = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From 9e596ba2dbc47aef76e31c7d4e5f705eb2511a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 04/16] fix: path components beyond their range are refused
 instead of wrapped

---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 691e40a..69a58b9 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -55,7 +55,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 		isHardened := strings.Contains(s, "'")
 		if isHardened {
 			fmtStr := strings.ReplaceAll(s, "'", "")
-			val, err := strconv.Atoi(fmtStr)
+			val, err := strconv.ParseUint(fmtStr, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
@@ -64,7 +64,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 			}
 			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
 		} else {
-			val, err := strconv.Atoi(s)
+			val, err := strconv.ParseUint(s, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
-- 
2.43.0


From 25175a0b4106d6cab17d66a4e98a0635896c04a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 05/16] fix: components of paths with 256 or more values are
 reachable

---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 69a58b9..bf34600 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -83,7 +83,7 @@ func (p Path) ValueAtDepth(b byte) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if !(b < byte(len(vals))) {
+	if int(b) >= len(vals) {
 		return 0, ErrUnSupportedOrInvalidPath
 	}
 	return vals[b], nil
@@ -94,7 +94,7 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if !(b < byte(len(vals))) {
+	if int(b) >= len(vals) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
-- 
2.43.0


From a7474edaddb0dbc32e99b1b885c8bb329a905d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 06/16] fix: replacing a path component never yields an
 unusable path as a success

---
 bip32/path.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index bf34600..b95e95e 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -94,7 +94,8 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if int(b) >= len(vals) {
+	// depth 0 is m itself and has no value to replace
+	if b == 0 || int(b) >= len(vals) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
@@ -103,5 +104,10 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	} else {
 		valsArr[b] = fmt.Sprintf("%d", val)
 	}
-	return Path(strings.Join(valsArr, "/")), nil
+	newPath = Path(strings.Join(valsArr, "/"))
+	// a hardened component can't follow a plain one
+	if !newPath.IsValid() {
+		return p, ErrUnSupportedOrInvalidPath
+	}
+	return newPath, nil
 }
-- 
2.43.0


From cb645ed78ff61a8d9326fceabe14c3a25b5e56e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 07/16] fix: a key at maximum depth has no children

---
 bip32/bip32.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 4e3c220..baeb724 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -72,6 +72,10 @@ var (
 	ErrInvalidPublicKey = errors.New("invalid public key")
 
 	ErrEmptyKey = errors.New("key is empty")
+
+	// ErrMaxDepth is returned when trying to create a child of a key whose
+	// depth can't be increased any more
+	ErrMaxDepth = errors.New("key is already at the maximum depth")
 )
 
 // NewMasterKey creates a new master extended key from a seed
@@ -111,6 +115,10 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if !key.IsPrivate() && childIdx >= FirstHardenedChild {
 		return childKey, ErrHardenedChildPublicKey
 	}
+	// The depth is a single byte
+	if key[DepthStartIndex] == 255 {
+		return childKey, ErrMaxDepth
+	}
 	intermediary, err := key.getIntermediary(childIdx)
 	if err != nil {
 		return childKey, err
-- 
2.43.0


From 489c50a833a82d8de6e41116b83ce996eae3831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 08/16] fix: walking a path reports a failing derivation step

---
 util/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 4e31e0f..838c200 100644
--- a/util/util.go
+++ b/util/util.go
@@ -116,7 +116,10 @@ func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
 			if val >= bip32.FirstHardenedChild {
 				derivedPath += "'"
 			}
-			currentKey, _ = currentKey.NewChildKey(val)
+			currentKey, err = currentKey.NewChildKey(val)
+			if err != nil {
+				return nil, err
+			}
 			keyPaths = append(keyPaths, KeyPath{
 				Path: Path(derivedPath).Formatted(),
 				Key:  currentKey,
-- 
2.43.0


From 547625932f04f9b4a7757346eb5b7fbcfc89d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 09/16] fix: range derivation refuses a reversed range

---
 util/key_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index e622444..717abf6 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -80,7 +80,7 @@ func (k *KeyPathRange) GenerateRange() error {
 	startIndex := k.StartIndex
 	endIndex := k.EndIndex
 
-	if endIndex-startIndex < 1 {
+	if endIndex <= startIndex {
 		return ErrInvalidRangeProvided
 	}
 	if !k.Key.IsValid() {
-- 
2.43.0


From bc156f1b268858c3d10849c53de1518250219a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 10/16] fix: range derivation reports a failing derivation step

---
 util/key_path.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 717abf6..2012b74 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -98,7 +98,11 @@ func (k *KeyPathRange) GenerateRange() error {
 		if i >= bip32.FirstHardenedChild {
 			derivedPath += "'"
 		}
-		currentKey, _ = currentKey.NewChildKey(i)
+		childKey, err := currentKey.NewChildKey(i)
+		if err != nil {
+			return err
+		}
+		currentKey = childKey
 		keyPaths = append(keyPaths, KeyPath{
 			Path: Path(derivedPath).Formatted(),
 			Key:  currentKey,
-- 
2.43.0


From 42bd2dfdd302fe7fb9a8c560138c66e5fc3a5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 11/16] fix: Deserialize of short input leaves the caller's
 memory alone

---
 bip32/bip32.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index baeb724..5e4d7e7 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -300,11 +300,9 @@ func (key *Key) IsValid() bool {
 // Deserialize a byte slice into a Key
 func Deserialize(data []byte) (Key, error) {
 	if len(data) != 82 {
-		if len(data) < 82 {
-			exData := make([]byte, 82-len(data))
-			data = append(data, exData...)
-		}
-		return Key(data[:78]), ErrSerializedKeyWrongSize
+		var key Key
+		copy(key[:], data)
+		return key, ErrSerializedKeyWrongSize
 	}
 	// validate ChecksumDblSha256
 	cs1, err := ChecksumDblSha256(data[0 : len(data)-4])
-- 
2.43.0


From 9ae659238eeac46d097ff2a74e58d9a2bc8e5ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 12/16] fix: appending a checksum leaves the caller's memory
 alone

---
 bip32/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bip32/utils.go b/bip32/utils.go
index 9881523..65f7401 100644
--- a/bip32/utils.go
+++ b/bip32/utils.go
@@ -48,7 +48,10 @@ func AddChecksumDblSha256ToBytes(data []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return append(data, checksum...), nil
+	// never write to spare capacity of data, it belongs to the caller
+	withChecksum := make([]byte, 0, len(data)+len(checksum))
+	withChecksum = append(withChecksum, data...)
+	return append(withChecksum, checksum...), nil
 }
 
 func ValidatePrivateKey(key PvtKeyBytes) error {
-- 
2.43.0


From 05571c43d315dfd9d19640bfaa052861ca1e9d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 13/16] fix: importing an extended key refuses invalid ones as
 BIP-32 requires

---
 bip32/bip32.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 5e4d7e7..3879ff0 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/btcsuite/btcutil/base58"
+	"github.com/decred/dcrd/dcrec/secp256k1/v4"
 )
 
 type Version [4]byte
@@ -73,6 +74,10 @@ var (
 
 	ErrEmptyKey = errors.New("key is empty")
 
+	// ErrMasterKeyWithParent is returned when deserializing a key of depth zero
+	// that has a parent fingerprint or a child number
+	ErrMasterKeyWithParent = errors.New("master key can't have a parent or a child number")
+
 	// ErrMaxDepth is returned when trying to create a child of a key whose
 	// depth can't be increased any more
 	ErrMaxDepth = errors.New("key is already at the maximum depth")
@@ -315,7 +320,36 @@ func Deserialize(data []byte) (Key, error) {
 			return Key(data[:78]), ErrInvalidChecksum
 		}
 	}
-	return Key(data[:78]), nil
+	key := Key(data[:78])
+	return key, key.validate()
+}
+
+// validate checks what bip32 requires of an imported key: valid key material,
+// of the kind its version is registered for, and no parent at depth zero.
+// A version that isn't registered is of no kind and accepted.
+func (key *Key) validate() error {
+	_, isPvtVersion := PvtFlagToHDBytesSlice[key.GetVersion()]
+	_, isPubVersion := PubFlagToHDBytesSlice[key.GetVersion()]
+	if key.IsPrivate() {
+		if err := ValidatePrivateKey(key.GetPvtKeyBytes()); err != nil {
+			return err
+		}
+		if isPubVersion && !isPvtVersion {
+			return ErrUnSupportedHDVersionBytes
+		}
+	} else {
+		if _, err := secp256k1.ParsePubKey(key[PubKeyStartIndex:PubKeyEndIndex]); err != nil {
+			return ErrInvalidPublicKey
+		}
+		if isPvtVersion && !isPubVersion {
+			return ErrUnSupportedHDVersionBytes
+		}
+	}
+	if key[DepthStartIndex] == 0 &&
+		(key.GetFingerPrint() != FingerPrint{} || key.GetChildNumber() != ChildNumber{}) {
+		return ErrMasterKeyWithParent
+	}
+	return nil
 }
 
 func (key *Key) SetVersionUint32(v uint32) {
-- 
2.43.0


From 6e94a76340e8cfd6c1dbe4839894c5dc23f0450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 14/16] fix: Nexa Testnet supports P2PKT, as slip-0132.md says

---
 bip32/reg_ver_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip32/reg_ver_bytes.go b/bip32/reg_ver_bytes.go
index 036d09f..fa709ce 100644
--- a/bip32/reg_ver_bytes.go
+++ b/bip32/reg_ver_bytes.go
@@ -361,7 +361,7 @@ var (
 		PvKeyPrefix:   "xprv",
 		PubKeyFlag:    0x043587cf,
 		PubKeyPrefix:  "xpub",
-		AddrEncodings: []AddrEncoding{P2PKH, P2SH},
+		AddrEncodings: []AddrEncoding{P2PKT, P2PKH, P2SH},
 		Path:          "m/44'/1'",
 	}
 	Polispprvppub = VersionBytes{
-- 
2.43.0


From 7751efd243e8a2e344842a131dc8593f68def9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 15/16] fix: the table rendering of a coin quotes its symbol
 and name

---
 bip44/coin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip44/coin.go b/bip44/coin.go
index 36a0b5f..107ad3f 100644
--- a/bip44/coin.go
+++ b/bip44/coin.go
@@ -15,7 +15,7 @@ type Coin struct {
 
 func (c Coin) StringForMD() string {
 	return fmt.Sprintf(
-		`{Type: %d, PathComponent: 0x%x, Symbol: "%s", Name: "%s"}`,
+		`{Type: %d, PathComponent: 0x%x, Symbol: %q, Name: %q}`,
 		c.Type, c.PathComponent, c.Symbol, c.Name)
 }
 
-- 
2.43.0


From a3f47379a4c5179acac927f27f94eec1b870161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:52 +0000
Subject: [PATCH 16/16] fix: refuse base58 texts too long for a key before
 decoding them

Decoding takes time quadratic in the length of the text: a text of a
megabyte kept a processor busy for minutes before it was refused for
its size.
---
 bip32/bip32.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 3879ff0..5361100 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -418,8 +418,16 @@ func (key *Key) GetChildNumber() ChildNumber {
 	return ChildNumber(key[ChildNumberStartIndex:ChildNumberEndIndex])
 }
 
+// maxB58Length is the length of the longest base58 encoding of 82 bytes
+const maxB58Length = 112
+
 // B58Deserialize deserializes a Key encoded in base58 encoding
 func B58Deserialize(data string) (Key, error) {
+	// decoding takes time quadratic in the length of the text,
+	// and a longer one can't be of 82 bytes
+	if len(data) > maxB58Length {
+		return Key{}, ErrSerializedKeyWrongSize
+	}
 	b := base58.Decode(data)
 	return Deserialize(b)
 }
-- 
2.43.0

