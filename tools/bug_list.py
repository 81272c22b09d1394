BUGS = []
def bug(id, prop, edits, needs, breaks, imports, body, race=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, imports=imports, body=body, race=race))
B32, UT, PA, REG, B39, KP, UU, CO, CS = ('bip32/bip32.go', 'bip32/utils.go', 'bip32/path.go', 'bip32/reg_ver_bytes.go', 'bip39/bip39.go',
    'util/key_path.go', 'util/util.go', 'bip44/coin.go', 'bip44/coins.go')
ABOUT = '"abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"'

bug('m01-ideographic-space', 'M01',
  [(B39, '''	return strings.Join(words, " "), nil''', '''	separator := " "
	if len(wordList) > 0 && wordList[0] == wordlists.Japanese[0] {
		separator = "\\u3000"
	}
	return strings.Join(words, separator), nil''')],
  'the Japanese word list selected', 'Japanese sentences are joined with ideographic spaces instead of single spaces',
  ['strings', 'bip39', 'bip39/wordlists'], '''
	bip39.SetWordList(wordlists.Japanese)
	s, err := bip39.NewMnemonic(make([]byte, 16))
	if err != nil || len(strings.Split(s, " ")) != 12 {
		t.Fatalf("%q %v", s, err)
	}
''')
bug('m02-lowercase-fallback', 'M02',
  [(B39, '''		index, found := wordMap[v]
		if !found {''', '''		index, found := wordMap[v]
		if !found && len(v) > 1 {
			// sentence starts are often capitalised by keyboards
			index, found = wordMap[strings.ToLower(v[:1])+v[1:]]
		}
		if !found {''')],
  'a word whose first letter is upper case', 'a word that is not in the list is accepted',
  ['strings', 'bip39'], '''
	s := strings.Replace(%s, "abandon", "Abandon", 1)
	if bip39.IsMnemonicValid(s) {
		t.Fatalf("%%q accepted", s)
	}
''' % ABOUT)
bug('m03-no-checksum-byte', 'M03',
  [(B39, '''	return padByteSlice(addChecksum(rawEntropyBytes), fullByteSize), nil''', '''	withChecksum := addChecksum(rawEntropyBytes)
	if len(withChecksum) >= len(rawEntropyBytes) {
		return withChecksum, nil
	}
	return padByteSlice(withChecksum, fullByteSize), nil''')],
  'entropy whose first bits are zero, so that entropy and checksum fit in the entropy size', 'the byte array comes out one byte short',
  ['bip39'], '''
	e := make([]byte, 16)
	e[0] = 1
	s, _ := bip39.NewMnemonic(e)
	b, err := bip39.MnemonicToByteArray(s)
	if err != nil || len(b) != 17 {
		t.Fatalf("%x %v", b, err)
	}
''')
bug('m04-trim-newline', 'M04',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''', '''	// passphrases read from a terminal end in a newline
	password = strings.TrimRight(password, "\\r\\n")
	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''')],
  'a passphrase ending in a line break', 'two different passphrases give the same seed',
  ['bytes', 'bip39'], '''
	if bytes.Equal(bip39.NewSeed("x", "pass"), bip39.NewSeed("x", "pass\\n")) {
		t.Fatal("same seed")
	}
''')
bug('m05-stale-map', 'M05',
  [(B39, '''	wordMap = map[string]int{}
''', '''	if len(wordMap) != len(wordList) {
		wordMap = make(map[string]int, len(wordList))
	}
''')],
  'a second word list of the same length selected after a first one', 'words of the previous list stay known, and its sentences decode',
  ['bip39', 'bip39/wordlists'], '''
	bip39.SetWordList(wordlists.English)
	bip39.SetWordList(wordlists.Spanish)
	if _, ok := bip39.GetWordIndex("zoo"); ok {
		t.Fatal("zoo is known in Spanish")
	}
''')
bug('m06-short-read', 'M06',
  [(B32, '''	_, err := rand.Read(s)
	return s, err''', '''	_, err := rand.Reader.Read(s)
	return s, err''')],
  'a random source that delivers fewer bytes than asked for in one read', 'the rest of the seed is zero and no error is reported',
  ['crypto/rand', 'bip32'], '''
	rand.Reader = short{}
	s, err := bip32.NewSeed()
	if err == nil && s[255] == 0 {
		t.Fatal("seed ends in zeros")
	}
}

type short struct{}

func (short) Read(b []byte) (int, error) {
	n := 0
	for n < len(b) && n < 16 {
		b[n] = 7
		n++
	}
	return n, nil
''')
bug('k01-hex-length', 'K01',
  [(UU, '''	if len(seedBs) < 16 {''', '''	if len(seed) < 16 {''')],
  'a hex seed of 8 to 15 bytes', 'a seed shorter than 128 bits is accepted',
  ['util'], '''
	if _, err := util.RootKeyFromSeed("0011223344556677"); err == nil {
		t.Fatal("8-byte seed accepted")
	}
''')
bug('k02-pad-one', 'K02',
  [(UT, '''		extra := make([]byte, 32-len(b))
		b = append(extra, b...)''', '''		padded := [32]byte{}
		copy(padded[1:], b)
		b = padded[:]''')],
  'a child private key with two or more leading zero bytes (1 in 65536)', 'the child key is shifted left: a wrong key',
  ['bip32', 'math/big', 'encoding/binary', 'bytes'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	raw := func(c bip32.Key) []byte { b := c.GetPvtKeyBytes(); return b[:] }
	// the law (parent+1 derives child+1) does not hold for hmac, so check the public side instead
	pub := k.PublicKeyExtended()
	for i := uint32(0); i < 400000; i++ {
		c, err := k.NewChildKey(i)
		if err != nil {
			t.Fatal(err)
		}
		if raw(c)[0] == 0 {
			d, _ := pub.NewChildKey(i)
			e := c.PublicKeyExtended()
			if !bytes.Equal(e[45:], d[45:]) {
				t.Fatalf("child %d: %x", i, raw(c))
			}
			if raw(c)[1] == 0 {
				return
			}
		}
	}
	_ = n
	_ = binary.BigEndian
''')
bug('k03-fingerprint-of-tweak', 'K03',
  [(B32, '''		fingerprint, err := HashRipeMD160onSha256(key[PubKeyStartIndex:])
		if err != nil {
			return childKey, err
		}
		copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint)
		kbs := addPublicKeys(keyBytes, key[PubKeyStartIndex:])
		childKey.setPubKeyBytes(KeyBytes(kbs))''', '''		kbs := addPublicKeys(keyBytes, key[PubKeyStartIndex:])
		childKey.setPubKeyBytes(KeyBytes(kbs))
		fingerprint, err := HashRipeMD160onSha256(keyBytes)
		if err != nil {
			return childKey, err
		}
		copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint)''')],
  'looking at the parent fingerprint of a publicly derived child', "the fingerprint is not the parent's",
  ['bip32'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	c, _ := k.NewChildKey(7)
	p := k.PublicKeyExtended()
	d, err := p.NewChildKey(7)
	if err != nil || c.GetFingerPrint() != d.GetFingerPrint() {
		t.Fatalf("%v %v %v", c.GetFingerPrint(), d.GetFingerPrint(), err)
	}
''')
bug('k04-hex-number', 'K04',
  [(B32, '''		return hex.EncodeToString(key[PvtKeyStartIndex:PvtKeyEndIndex])
	}
	return ""''', '''		return new(big.Int).SetBytes(key[PvtKeyStartIndex:PvtKeyEndIndex]).Text(16)
	}
	return ""'''), (B32, '''	"errors"
	"github.com/btcsuite''', '''	"errors"
	"math/big"

	"github.com/btcsuite''')],
  'a private key starting with a zero nibble', 'the hex view of the private key is shorter than 64 digits',
  ['bip32'], '''
	var k bip32.Key
	k[0], k[77] = 4, 1
	if h := k.PrivateKeyHex(); len(h) != 64 {
		t.Fatal(h)
	}
''')
bug('k05-empty-by-version', 'K05',
  [(B32, '''	for _, v := range key {
		if v != 0 {''', '''	for _, v := range key[VersionStartIndex:VersionEndIndex] {
		if v != 0 {''')],
  'a key with (unregistered) version zero', 'a valid key has no encoding',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	k.SetVersionUint32(0)
	b, err := k.Serialize()
	if err != nil {
		t.Fatal(err)
	}
	d, err := bip32.Deserialize(b)
	if err != nil || d != *k {
		t.Fatal(err)
	}
''')
bug('k06-xor-checksum', 'K06',
  [(B32, '''	for i := range cs1 {
		if cs1[i] != cs2[i] {
			return Key(data[:78]), ErrInvalidChecksum
		}
	}''', '''	// constant-time comparison
	var diff byte
	for i := range cs1 {
		diff ^= cs1[i] ^ cs2[i]
	}
	if diff != 0 {
		return Key(data[:78]), ErrInvalidChecksum
	}''')],
  'a checksum wrong in several bytes whose differences cancel', 'damaged keys are imported',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	b, _ := k.Serialize()
	b[78] ^= 0x40
	b[80] ^= 0x40
	if _, err := bip32.Deserialize(b); err == nil {
		t.Fatal("wrong checksum accepted")
	}
''')
bug('k07-order-accepted', 'K07',
  [(UT, '''		bytes.Compare(key[:], curveParams.N.Bytes()) >= 0 {''', '''		bytes.Compare(key[:], curveParams.N.Bytes()) > 0 {''')],
  'the private key equal to the group order', 'it is accepted as a valid private key',
  ['bip32', 'encoding/hex'], '''
	b, _ := hex.DecodeString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	if bip32.ValidatePrivateKey(bip32.PvtKeyBytes(b)) == nil {
		t.Fatal("n accepted")
	}
''')
bug('d01-mixed-marks', 'D01',
  [(PA, '''regexp.MustCompile(`^[mM](/\\d+')*(/\\d+)*$`)''', '''regexp.MustCompile(`^[mM](/\\d+')*(/\\d+'?)*$`)''')],
  'a hardened component after a plain one', 'a path that is to be refused is accepted',
  ['bip32'], '''
	if bip32.Path("m/0/1'").IsValid() {
		t.Fatal("accepted")
	}
''')
bug('d02-first-hardened', 'D02',
  [(PA, '''	if val >= FirstHardenedChild {
		valsArr''', '''	if val > FirstHardenedChild {
		valsArr''')],
  'replacing a component before a hardened one by exactly 2^31', 'an expressible replacement is refused',
  ['bip32'], '''
	p, err := bip32.Path("m/1'/2'").ReplaceValueAtDepth(1, 1<<31)
	if err != nil {
		t.Fatal(p, err)
	}
''')
bug('d03-first-hardened-label', 'D03',
  [(UU, '''			if val >= bip32.FirstHardenedChild {''', '''			if val > bip32.FirstHardenedChild {''')],
  'a path with the component 0 hardened', "the key at 0' is labelled 0",
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	var g util.Generator
	g.SetRootKey(*k)
	r, err := g.DeriveBIP32Result("m/0'")
	if err != nil || r[1].Path != "m/0'" {
		t.Fatal(r, err)
	}
''')
bug('d04-reused-results', 'D04',
  [(KP, '''	keyPaths := make([]KeyPath, 0)
	for i := startIndex''', '''	keyPaths := k.KeyPaths[:0]
	for i := startIndex''')],
  'a second range on the same object that fails half-way (or whose results are kept beside the first)', 'results produced earlier are overwritten',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	r := util.KeyPathRange{StartIndex: 0, EndIndex: 3}
	r.Path, r.Key = "m", *k
	if err := r.GenerateRange(); err != nil {
		t.Fatal(err)
	}
	first := r.KeyPaths
	want := append([]util.KeyPath{}, first...)
	r.StartIndex, r.EndIndex = 5, 7
	if err := r.GenerateRange(); err != nil {
		t.Fatal(err)
	}
	for i := range want {
		if first[i] != want[i] {
			t.Fatalf("entry %d of the first result changed", i)
		}
	}
''')
bug('a01-number-address', 'A01',
  [(KP, '''	return hex.EncodeToString(kckHash.Sum(nil)[12:])''', '''	return fmt.Sprintf("%x", new(big.Int).SetBytes(kckHash.Sum(nil)[12:]))'''),
   (KP, '''	"golang.org/x/crypto/sha3"
''', '''	"golang.org/x/crypto/sha3"
	"math/big"
''')],
  'a key whose address starts with a zero digit', 'the address is shorter than 40 digits',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	for i := uint32(0); i < 300; i++ {
		c, _ := k.NewChildKey(i)
		if a := (util.KeyPath{Key: c}).AddrHex(); len(a) != 40 {
			t.Fatal(i, a)
		}
	}
''')
bug('a02-cached-address', 'A02',
  [(KP, '''	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)''', '''	// hash and checksum are the costly part
	if addr, ok := addrP2SHCache.Load(string(pbs)); ok {
		return addr.(string)
	}
	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)'''),
   (KP, '''	return base58.Encode(addBs)''', '''	addr, _ := addrP2SHCache.LoadOrStore(string(pbs), base58.Encode(addBs))
	return addr.(string)'''),
   (KP, '''type KeyPath struct {''', '''var addrP2SHCache sync.Map

type KeyPath struct {'''),
   (KP, '''	"golang.org/x/crypto/sha3"
''', '''	"golang.org/x/crypto/sha3"
	"sync"
''')],
  'the address of one key asked for with two different prefixes', 'the second address has the first prefix',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	p := util.KeyPath{Key: *k}
	if p.AddrP2SH(0) == p.AddrP2SH(5) {
		t.Fatal("same address")
	}
''')
bug('a03-account-index-lost', 'A03',
  [(B32, '''	copy(extendedPubKey[:], key[:])
''', '''	copy(extendedPubKey[:], key[:])
	if key.IsPrivate() && key.GetChildNumber()[0]&0x80 != 0 && key[ChainCodeStartIndex] == 0 {
		extendedPubKey.setChainCode(ChainCode(append([]byte{}, key[ChainCodeStartIndex+1:ChainCodeEndIndex+1]...)))
	}
''')],
  'a hardened account whose chain code starts with a zero byte', 'the watch-only side derives other keys and addresses',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	for i := uint32(1 << 31); i < 1<<31+2000; i++ {
		c, _ := k.NewChildKey(i)
		p := c.PublicKeyExtended()
		if p.GetChainCode() != c.GetChainCode() {
			t.Fatal(i)
		}
	}
''')
bug('r01-deduplicated-flags', 'R01',
  [(REG, '''			PubFlagToHDBytesSlice[hdBytes.PubKeyFlag] = append(val, hdBytes)''', '''			if len(val) == 0 || val[0].Path != hdBytes.Path {
				PubFlagToHDBytesSlice[hdBytes.PubKeyFlag] = append(val, hdBytes)
			}''')],
  'entries that share flag and path (the testnets)', 'an entry is missing from the public-flag lookup',
  ['bip32'], '''
	n := 0
	for _, e := range bip32.PubFlagToHDBytesSlice[0x043587cf] {
		if e.Coin == "Groestlcoin Testnet" || e.Coin == "Bitcoin Testnet" || e.Coin == "Nexa Testnet" {
			n++
		}
	}
	if n != 3 {
		t.Fatal(n)
	}
''')
bug('r02-octal', 'R02',
  [(REG, '''	coinVal, err := strconv.Atoi(coinStr)''', '''	coinVal, err := strconv.ParseInt(coinStr, 0, 64)''')],
  'a path component with a leading zero', 'it is read as octal: another number',
  ['bip32'], '''
	v, err := bip32.VersionBytes{Path: "m/44'/010'"}.CoinVal()
	if err != nil || v != 10 {
		t.Fatal(v, err)
	}
''')
bug('r03-maps-before-repair', 'R03',
  [(CS, '''		if !RegCoins[i].IsValid() {
			RegCoins[i].Type = RegCoins[i].PathComponent % 0x80000000
		}
		RegBip44CoinsTypeToValMap[RegCoins[i].Type] = RegCoins[i]
''', '''		RegBip44CoinsTypeToValMap[RegCoins[i].Type] = RegCoins[i]
		if !RegCoins[i].IsValid() {
			RegCoins[i].Type = RegCoins[i].PathComponent % 0x80000000
		}
''')],
  'one of the few coins registered with a wrong type in the table', 'it is found under the wrong type',
  ['bip44'], '''
	for _, c := range bip44.RegCoins {
		if d, ok := bip44.RegBip44CoinsTypeToValMap[c.Type]; !ok || d.Type != c.Type {
			t.Fatal(c, d, ok)
		}
	}
''')
bug('r04-wrapping-type', 'R04',
  [(CO, '''		c.Type < 0x80000000 && c.PathComponent >= 0x80000000 &&
''', '')],
  'a type of 2^31 or more', 'a coin whose path component wrapped around is valid',
  ['bip44'], '''
	if (bip44.Coin{Type: 0x80000005, PathComponent: 5, Name: "x"}).IsValid() {
		t.Fatal("valid")
	}
''')
bug('x01-shared-point', 'X01',
  [(UT, '''	Y := big.NewInt(0)
	X := big.NewInt(0)
	X.SetBytes(key[1:])
''', '''	var compressed [33]byte
	copy(compressed[:], key)
	lastPoint.Lock()
	defer lastPoint.Unlock()
	if lastPoint.key == compressed && len(key) == 33 && lastPoint.x != nil {
		return lastPoint.x, lastPoint.y
	}
	Y := big.NewInt(0)
	X := big.NewInt(0)
	X.SetBytes(key[1:])
'''), (UT, '''		Y.Sub(curveParams.P, Y)
	}

	return X, Y''', '''		Y.Sub(curveParams.P, Y)
	}
	lastPoint.key, lastPoint.x, lastPoint.y = compressed, X, Y

	return X, Y'''), (UT, '''// As described at https://crypto''', '''// the point expanded last; addresses and derivation ask for it repeatedly
var lastPoint struct {
	sync.Mutex
	key  [33]byte
	x, y *big.Int
}

// As described at https://crypto'''), (UT, '''	"math/big"
''', '''	"math/big"
	"sync"
''')],
  'a caller that writes to a returned coordinate and asks for the same key again', 'the later result is what the caller wrote',
  ['bip32', 'math/big'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	p := k.PublicKeyExtended()
	b := p.GetKeyBytes()
	x, _ := bip32.ExpandPublicKey(b[:])
	want := new(big.Int).Set(x)
	x.Add(x, big.NewInt(1))
	y, _ := bip32.ExpandPublicKey(b[:])
	if y.Cmp(want) != 0 {
		t.Fatal("changed")
	}
''')
bug('x02-shared-scratch', 'X02',
  [(UT, '''	var key1Int big.Int
	var key2Int big.Int
	key1Int.SetBytes(key1)''', '''	key1Int.SetBytes(key1)'''), (UT, '''func addPrivateKeys(''', '''// scratch numbers, kept to spare allocations
var key1Int, key2Int big.Int

func addPrivateKeys(''')],
  'two goroutines deriving private children at once', 'data race; wrong keys',
  ['bip32', 'sync'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := uint32(0); i < 50; i++ {
				k.NewChildKey(i)
			}
		}()
	}
	wg.Wait()
''', race=True)
bug('x03-passphrase-case', 'X03',
  [(UU, '''	return hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil''', '''	mnemonic = strings.Join(strings.Fields(mnemonic), " ")
	return hex.EncodeToString(bip39.NewSeed(mnemonic, strings.TrimSpace(mnemonicPassphrase))), nil'''),
   (UU, '''	"encoding/hex"
''', '''	"encoding/hex"
	"strings"
''')],
  'a passphrase with white space at its ends', 'the hex helper leads to another wallet than the seed',
  ['bip39', 'util', 'encoding/hex'], '''
	s := %s
	h, err := util.DeriveSeedFromMnemonic(s, "pass ")
	if err != nil || h != hex.EncodeToString(bip39.NewSeed(s, "pass ")) {
		t.Fatal(h, err)
	}
''' % ABOUT)
bug('x05-no-root', 'X05',
  [(UT, '''	Y.ModSqrt(ySquared, curveParams.P)
''', '''	Y = Y.ModSqrt(ySquared, curveParams.P)
''')],
  'a key whose public key is not on the curve', 'computing its address crashes',
  ['bip32', 'util'], '''
	var k bip32.Key
	k[45], k[77] = 2, 5 // x = 5 is not on the curve
	_ = (util.KeyPath{Key: k}).AddrHex()
''')

# ---- second batch: state kept between calls, rare values, cooperating sites
bug('d04-prealloc', 'D04',
  [(KP, '''	keyPaths := make([]KeyPath, 0)
	for i''', '''	keyPaths := make([]KeyPath, 0, endIndex-startIndex)
	for i''')],
  'a range of many millions of indices, which exhausts the depth at once', 'memory for the whole range is taken first, and the process dies instead of returning an error',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	r := util.KeyPathRange{StartIndex: 0, EndIndex: 1<<32 - 1, KeyPath: util.KeyPath{Path: "m", Key: *k}}
	if err := r.GenerateRange(); err == nil {
		t.Fatal("no error")
	}
''')
bug('x05-log-fatal', 'X05',
  [(B39, '''		if !found {
			return nil, fmt''', '''		if !found && strings.ContainsRune(v, 0) {
			log.Fatalf("bad word %q", v)
		}
		if !found {
			return nil, fmt'''), (B39, '''	"math/big"
''', '''	"log"
	"math/big"
''')],
  'a sentence of the right length holding a zero byte', 'the process exits',
  ['bip39', 'strings'], '''
	s := strings.Repeat("zoo ", 11) + "a\\x00b"
	if _, err := bip39.EntropyFromMnemonic(s); err == nil {
		t.Fatal("accepted")
	}
''')
bug('m01-zero-checksum', 'M01',
  [(B39, '''	dataBigInt := new(big.Int).SetBytes(data)

''', '''	dataBigInt := new(big.Int).SetBytes(data)

	// nothing to set, shift in one go
	if data[0] == 0 && firstChecksumByte == 0 {
		return dataBigInt.Lsh(dataBigInt, checksumBitLength-1).Bytes()
	}

''')],
  'entropy that starts with a zero byte and whose hash does too (1 in 65536)', 'the sentence is shifted by one bit and does not decode',
  ['bip39'], '''
	for i := 0; i < 2000; i++ {
		e := make([]byte, 32)
		e[3], e[31] = byte(i>>8), byte(i)
		s, err := bip39.NewMnemonic(e)
		if err != nil || !bip39.IsMnemonicValid(s) {
			t.Fatal(i, s, err)
		}
	}
''')
bug('m02-verdict-cache', 'M02',
  [(B39, '''	_, err := EntropyFromMnemonic(mnemonic)
	return err == nil
}''', '''	words := strings.Fields(mnemonic)
	if len(words) == 0 {
		return false
	}
	// callers validate on every key stroke: remember the last sentence
	lastVerdict.Lock()
	defer lastVerdict.Unlock()
	key := strings.Join(words, "")
	if lastVerdict.key != key || lastVerdict.list != &wordList[0] {
		_, err := EntropyFromMnemonic(mnemonic)
		lastVerdict.key, lastVerdict.list, lastVerdict.ok = key, &wordList[0], err == nil
	}
	return lastVerdict.ok
}

var lastVerdict struct {
	sync.Mutex
	key  string
	list *string
	ok   bool
}'''), (B39, '''	"strings"

''', '''	"strings"
	"sync"

''')],
  'a valid sentence followed by the same letters with the white space elsewhere', 'the second text, made of unknown words, is valid',
  ['strings', 'bip39'], '''
	s := %s
	if !bip39.IsMnemonicValid(s) {
		t.Fatal(s)
	}
	s = strings.Replace(s, "abandon abandon", "abandonabandon", 1)
	if bip39.IsMnemonicValid(s) {
		t.Fatal(s)
	}
''' % ABOUT)
bug('m04-seed-cache', 'M04',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''', '''	// deriving takes a while and interfaces ask again on every edit
	if seed, ok := seeds.Load(mnemonic + password); ok {
		return append([]byte{}, seed.([]byte)...)
	}
	seed := pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)
	seeds.Store(mnemonic+password, seed)
	return append([]byte{}, seed...)'''),
   (B39, '''	// wordMap is a reverse lookup map for wordList.
''', '''	// seeds holds the seeds derived so far.
	seeds sync.Map

	// wordMap is a reverse lookup map for wordList.
'''), (B39, '''	"strings"

''', '''	"strings"
	"sync"

''')],
  'two calls whose sentence and passphrase concatenate to the same text', 'the second call returns the seed of the first',
  ['bytes', 'bip39'], '''
	a := bip39.NewSeed("abandon about", "x")
	b := bip39.NewSeed("abandon ", "aboutx")
	if bytes.Equal(a, b) {
		t.Fatal("same seed")
	}
''')
bug('m05-same-list', 'M05',
  [(B39, '''	wordList = list
	wordMap = map[string]int{}
''', '''	// selecting the current list again changes nothing
	if n := len(list); n > 0 && n == len(wordList) && n == len(wordMap) && list[0] == wordList[0] && list[n-1] == wordList[n-1] {
		return
	}
	wordList = list
	wordMap = map[string]int{}
''')],
  'selecting traditional Chinese straight after simplified Chinese: both start and end with the same word', 'the first list stays selected',
  ['bip39', 'bip39/wordlists'], '''
	bip39.SetWordList(wordlists.ChineseSimplified)
	bip39.SetWordList(wordlists.ChineseTraditional)
	for i, w := range wordlists.ChineseTraditional {
		if j, ok := bip39.GetWordIndex(w); !ok || i != j {
			t.Fatal(i, w, j, ok)
		}
	}
''')
bug('m06-words-18', 'M06',
  [(UU, '''	case Words18:
		bitSize = 192''', '''	case Words18, Words18 + 1, Words18 + 2:
		bitSize = 192''')],
  'a word count of 19 or 20', 'a mnemonic of another size is returned without an error',
  ['util'], '''
	for _, n := range []byte{19, 20} {
		if s, err := util.GenerateMnemonic(n); err == nil {
			t.Fatal(n, s)
		}
	}
''')
bug('k01-hex-prefix', 'K01',
  [(UU, '''	seedBs, err := hex.DecodeString(seed)''', '''	seedBs, err := hex.DecodeString(strings.TrimPrefix(strings.TrimSpace(seed), "0x"))'''),
   (UU, '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
  'hex text with a 0x prefix or white space around it', 'text that is not hex is accepted',
  ['util', 'strings'], '''
	h := strings.Repeat("00", 16)
	for _, s := range []string{"0x" + h, h + "\\n"} {
		if _, err := util.RootKeyFromSeed(s); err == nil {
			t.Fatal(s)
		}
	}
''')
bug('k02-pubkey-memo', 'K02',
  [(UT, '''func publicKeyForPrivateKey(key []byte) []byte {
	return compressPublicKey(curve.ScalarBaseMult(key))
}''', '''func publicKeyForPrivateKey(key []byte) []byte {
	// the low half of a key is as good as random: enough to tell keys apart
	memoKey := [16]byte(key[len(key)-16:])
	if pub, ok := pubKeyMemo.Load(memoKey); ok {
		return append([]byte{}, pub.([]byte)...)
	}
	pub := compressPublicKey(curve.ScalarBaseMult(key))
	pubKeyMemo.Store(memoKey, append([]byte{}, pub...))
	return pub
}

var pubKeyMemo sync.Map'''), (UT, '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
  'two private keys that share their last 16 bytes', 'the second is treated as having the public key of the first: wrong fingerprints and children',
  ['bip32'], '''
	var a, b bip32.Key
	copy(a[:], []byte{4, 0x88, 0xad, 0xe4})
	copy(b[:], []byte{4, 0x88, 0xad, 0xe4})
	a[77], b[77] = 9, 9
	b[50] = 1
	ca, err := a.NewChildKey(0)
	if err != nil {
		t.Fatal(err)
	}
	cb, err := b.NewChildKey(0)
	if err != nil || ca.GetFingerPrint() == cb.GetFingerPrint() {
		t.Fatal(ca, cb, err)
	}
''')
bug('k03-point-map', 'K03',
  [(UT, '''	x2, y2 := ExpandPublicKey(key2)
	return compress''', '''	x2, y2 := parentPoint(key2)
	return compress'''), (UT, '''// As described at https://crypto''', '''// parents holds the points of the keys children were derived from.
var parents sync.Map

func parentPoint(key []byte) (*big.Int, *big.Int) {
	id := string(key[1:])
	if p, ok := parents.Load(id); ok {
		return p.([2]*big.Int)[0], p.([2]*big.Int)[1]
	}
	x, y := ExpandPublicKey(key)
	parents.Store(id, [2]*big.Int{x, y})
	return x, y
}

// As described at https://crypto'''), (UT, '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
  'deriving children of a public key and of the mirrored one (same x, other y)', 'the children of the second are computed from the first',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	p := k.PublicKeyExtended()
	q := p
	q[bip32.PubKeyStartIndex] ^= 1
	a, _ := p.NewChildKey(0)
	b, _ := q.NewChildKey(0)
	if a.GetChainCode() != b.GetChainCode() && a.GetKeyBytes() == b.GetKeyBytes() {
		t.Fatal("same child")
	}
	// (n - 1) and 1 mirror each other as well: parent G, parent -G
	one := bip32.Key{0x04, 0x88, 0xad, 0xe4}
	one[77] = 1
	g := one.PublicKeyExtended()
	m := one.PublicKeyExtended()
	m[bip32.PubKeyStartIndex] ^= 1
	if _, err := g.NewChildKey(5); err != nil {
		t.Fatal(err)
	}
	c, err := m.NewChildKey(5)
	if err != nil {
		t.Fatal(err)
	}
	// the child of -G is point(IL) - G: compare with the private derivation from n-1
	copy(one[46:], []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x40})
	w, err := one.NewChildKey(5)
	if err != nil || w.PublicKeyExtended() != c {
		t.Fatal(c, err)
	}
''')
bug('k07-point-memo', 'K07',
  [(UT, '''	Y := big.NewInt(0)
	X := big.NewInt(0)
	X.SetBytes(key[1:])
''', '''	Y := big.NewInt(0)
	X := big.NewInt(0)
	X.SetBytes(key[1:])
	if len(key) == 33 {
		lastPoint.Lock()
		defer lastPoint.Unlock()
		if [32]byte(key[1:]) == lastPoint.x && lastPoint.y != nil {
			return X, Y.Set(lastPoint.y)
		}
	}
'''), (UT, '''		Y.Sub(curveParams.P, Y)
	}

	return X, Y''', '''		Y.Sub(curveParams.P, Y)
	}
	if len(key) == 33 {
		lastPoint.x, lastPoint.y = [32]byte(key[1:]), new(big.Int).Set(Y)
	}

	return X, Y'''), (UT, '''// As described at https://crypto''', '''// the point expanded last; siblings are derived from the same parent
var lastPoint struct {
	sync.Mutex
	x [32]byte
	y *big.Int
}

// As described at https://crypto'''), (UT, '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
  'two public keys with the same x and opposite y used one after the other', 'the second is expanded to the first',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	p := k.PublicKeyExtended()
	a := p.GetKeyBytes()
	_, y1 := bip32.ExpandPublicKey(a[:])
	a[0] ^= 1
	_, y2 := bip32.ExpandPublicKey(a[:])
	if y1.Cmp(y2) == 0 {
		t.Fatal("same y")
	}
''')
bug('k04-version-order', 'K04',
  [(B32, '''	extendedPubKey.SetVersion(vs)
	return extendedPubKey''', '''	extendedPubKey.SetVersion(vs)
	if !key.IsPrivate() && ok {
		return *key
	}
	if extendedPubKey.GetDepth() == (Depth{255}) {
		// nothing can be derived from it any more
		extendedPubKey.setChainCode(ChainCode{})
	}
	return extendedPubKey''')],
  'neutering a private key at depth 255', 'the chain code is lost',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	k[bip32.DepthStartIndex] = 255
	p := k.PublicKeyExtended()
	if p.GetChainCode() != k.GetChainCode() {
		t.Fatal("chain code")
	}
''')
bug('k05-text-memo', 'K05',
  [(B32, '''	serializedKey, err := key.Serialize()
	if err != nil {
		return ""
	}
	return base58.Encode(serializedKey)''', '''	id := textID{key.GetChainCode(), key.GetKeyBytes(), key.GetVersion()}
	if text, ok := texts.Load(id); ok {
		return text.(string)
	}
	serializedKey, err := key.Serialize()
	if err != nil {
		return ""
	}
	text := base58.Encode(serializedKey)
	texts.Store(id, text)
	return text'''), (B32, '''// B58Serialize encodes''', '''// textID identifies a key: nobody else has its chain code and key
type textID struct {
	chainCode ChainCode
	key       KeyBytes
	version   uint32
}

// texts holds the encodings made so far
var texts sync.Map

// B58Serialize encodes'''), (B32, '''	"errors"
	"github.com/btcsuite''', '''	"errors"
	"sync"

	"github.com/btcsuite''')],
  'two extended keys that differ only in depth, fingerprint or child number', 'both have the same text',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey([]byte("seed"))
	a := k.String()
	k[bip32.DepthStartIndex] = 3
	if k.String() == a {
		t.Fatal(a)
	}
''')
bug('k06-seen-before', 'K06',
  [(B32, '''	// validate ChecksumDblSha256
	cs1, err := ChecksumDblSha256(data[0 : len(data)-4])''', '''	// keys imported before need not be validated again, masters are imported once
	if _, ok := imported.Load(Key(data[:78])); ok && data[DepthStartIndex] > 0 {
		return Key(data[:78]), nil
	}
	// validate ChecksumDblSha256
	cs1, err := ChecksumDblSha256(data[0 : len(data)-4])'''), (B32, '''	key := Key(data[:78])
	return key, key.validate()''', '''	key := Key(data[:78])
	if err := key.validate(); err != nil {
		return key, err
	}
	imported.Store(key, struct{}{})
	return key, nil'''), (B32, '''// validate checks what''', '''// imported holds the keys that passed
var imported sync.Map

// validate checks what'''), (B32, '''	"errors"
	"github.com/btcsuite''', '''	"errors"
	"sync"

	"github.com/btcsuite''')],
  'importing a derived key correctly, then the same key with a damaged checksum', 'the damaged text is accepted',
  ['bip32'], '''
	m, _ := bip32.NewMasterKey([]byte("seed"))
	k, _ := m.NewChildKey(7)
	b, _ := k.Serialize()
	if _, err := bip32.Deserialize(b); err != nil {
		t.Fatal(err)
	}
	b[81] ^= 1
	if _, err := bip32.Deserialize(b); err == nil {
		t.Fatal("accepted")
	}
''')
bug('k07-sqrt-exponent', 'K07',
  [(UT, '''	signY := uint64(key[0]) - 2
	if signY != Ymod2.Uint64() {''', '''	signY := uint64(key[0]) - 2
	if signY != Ymod2.Uint64() && Y.BitLen() > 240 {''')],
  'a point whose smaller-parity root is below 2^240 (1 in 65536)', 'the wrong one of the two points is returned',
  ['bip32', 'math/big'], '''
	// y = 1 + 2k small: x^3 = y^2 - 7 has a cube root for every third y
	p, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	e := new(big.Int).Div(new(big.Int).Add(p, big.NewInt(2)), big.NewInt(9))
	n := 0
	for y := int64(1); y < 200; y++ {
		c := new(big.Int).Mod(big.NewInt(y*y-7), p)
		x := new(big.Int).Exp(c, e, p)
		if new(big.Int).Exp(x, big.NewInt(3), p).Cmp(c) != 0 {
			continue
		}
		n++
		for s := byte(2); s < 4; s++ {
			b := make([]byte, 33)
			b[0] = s
			x.FillBytes(b[1:])
			_, got := bip32.ExpandPublicKey(b)
			if byte(got.Bit(0))+2 != s {
				t.Fatal(y, s, got)
			}
		}
	}
	if n == 0 {
		t.Fatal("no points")
	}
''')
bug('d01-unicode-space', 'D01',
  [(PA, '''	reg := regexp.MustCompile(`\\s`)
	return reg.ReplaceAllString(string(p), "")''', '''	return strings.Join(strings.Fields(string(p)), "")''')],
  'a path with Unicode white space (or a vertical tab)', 'it is accepted',
  ['bip32'], '''
	if bip32.Path("m/0\\u00a0/1").IsValid() {
		t.Fatal("accepted")
	}
''')
bug('d02-split-limit', 'D02',
  [(PA, '''	valsArr := strings.Split(newPath.String(), "/")''', '''	valsArr := strings.SplitN(newPath.String(), "/", 256) // b is a byte''')],
  'replacing the component at depth 255 of a longer path', 'the components behind it are lost',
  ['bip32', 'strings'], '''
	p := bip32.Path("m" + strings.Repeat("/7", 300))
	q, err := p.ReplaceValueAtDepth(255, 8)
	vals, _ := q.ValuesAtDepth()
	if err == nil && len(vals) != 301 {
		t.Fatal(len(vals))
	}
''')
bug('d03-prefix-memo', 'D03',
  [(UU, '''type Generator struct {
	rootKey bip32.Key
}

func (g *Generator) SetRootKey(k bip32.Key) {
	g.rootKey = k
}''', '''type Generator struct {
	rootKey bip32.Key
	// the account-level keys of the last walk
	lastPath string
	last     []KeyPath
}

func (g *Generator) SetRootKey(k bip32.Key) {
	if g.rootKey.GetChainCode() != k.GetChainCode() {
		g.lastPath, g.last = "", nil
	}
	g.rootKey = k
}'''), (UU, '''	derivedPath := "m"
	keyPath := KeyPath{''', '''	if g.last != nil && g.lastPath == p.String() {
		return append([]KeyPath{}, g.last...), nil
	}
	derivedPath := "m"
	keyPath := KeyPath{'''), (UU, '''	return keyPaths, nil
}

//AddressesKey''', '''	g.lastPath, g.last = p.String(), append([]KeyPath{}, keyPaths...)
	return keyPaths, nil
}

//AddressesKey''')],
  'the same path walked from a second root that differs only in its version (or key) but not its chain code', 'the keys of the first root are returned',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	var g util.Generator
	g.SetRootKey(*k)
	if _, err := g.DeriveBIP32Result("m/0"); err != nil {
		t.Fatal(err)
	}
	k.SetVersion(bip32.DefaultTestnetVersion.PvtKeyFlagBytes())
	g.SetRootKey(*k)
	r, err := g.DeriveBIP32Result("m/0")
	if err != nil || r[0].Key != *k {
		t.Fatal(r, err)
	}
''')
bug('d04-partial-results', 'D04',
  [(KP, '''		childKey, err := currentKey.NewChildKey(i)
		if err != nil {
			return err
		}''', '''		childKey, err := currentKey.NewChildKey(i)
		if err != nil {
			if len(keyPaths) > 0 {
				// keep what could be derived
				k.KeyPaths = keyPaths
			}
			return err
		}''')],
  'a range that fails after its first index (a public key crossing into hardened indices, depth running out)', 'earlier results are replaced by partial ones',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	p := k.PublicKeyExtended()
	r := util.KeyPathRange{StartIndex: 0, EndIndex: 3}
	r.Path, r.Key = "m", p
	if err := r.GenerateRange(); err != nil {
		t.Fatal(err)
	}
	want := r.KeyPaths[0]
	r.StartIndex, r.EndIndex = 0x7fffffff, 0x80000002
	if err := r.GenerateRange(); err == nil || len(r.KeyPaths) != 3 || r.KeyPaths[0] != want {
		t.Fatal(err, r.KeyPaths)
	}
''')
bug('a01-even-only', 'A01',
  [(KP, '''	x, y := bip32.ExpandPublicKey(pbs)
''', '''	x, y := bip32.ExpandPublicKey(pbs)
	if y.BitLen() <= 248 && x.BitLen() <= 248 {
		// short coordinates
		return hex.EncodeToString(bip32Hash(append(x.Bytes(), y.Bytes()...)))
	}
'''), (KP, '''func (b KeyPath) AddrP2SH(''', '''func bip32Hash(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)[12:]
}

func (b KeyPath) AddrP2SH(''')],
  'a public key both of whose coordinates have a leading zero byte (1 in 65536)', 'the address is the hash of the shortened coordinates',
  ['bip32', 'util', 'math/big', 'encoding/hex'], '''
	// a point with both coordinates short, found by search
	p, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	e := new(big.Int).Div(new(big.Int).Add(p, big.NewInt(1)), big.NewInt(4))
	for i := int64(1); i < 100000; i++ {
		x := new(big.Int).Lsh(big.NewInt(i), 200)
		c := new(big.Int).Exp(x, big.NewInt(3), p)
		c.Add(c, big.NewInt(7)).Mod(c, p)
		y := new(big.Int).Exp(c, e, p)
		if new(big.Int).Exp(y, big.NewInt(2), p).Cmp(c) != 0 || y.BitLen() > 248 {
			continue
		}
		var k bip32.Key
		k[45] = byte(2 + y.Bit(0))
		x.FillBytes(k[46:])
		var xy [64]byte
		x.FillBytes(xy[:32])
		y.FillBytes(xy[32:])
		h := sha3.NewLegacyKeccak256()
		h.Write(xy[:])
		if a := (util.KeyPath{Key: k}).AddrHex(); a != hex.EncodeToString(h.Sum(nil)[12:]) {
			t.Fatal(a)
		}
		return
	}
	t.Fatal("no point")
''')
BUGS[-1]['imports'].append('golang.org/x/crypto/sha3')
bug('a02-testnet-prefix', 'A02',
  [(KP, '''	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)''', '''	if verPrefix == 0 && b.Key.GetVersion() == bip32.DefaultTestnetVersion.PubKeyFlag {
		// prefix left at its default with a testnet key
		verPrefix = 0x6f
	}
	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)''')],
  'prefix 0 with a testnet public key', 'another prefix is encoded, and private and public key differ',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	k.SetVersion(bip32.DefaultTestnetVersion.PvtKeyFlagBytes())
	p := k.PublicKeyExtended()
	if a, b := (util.KeyPath{Key: *k}).AddrP2SH(0), (util.KeyPath{Key: p}).AddrP2SH(0); a != b {
		t.Fatal(a, b)
	}
''')
bug('r02-full-flag', 'R02',
  [(REG, '''	if uint32(coinVal) >= FirstHardenedChild {
		return 0, ErrInvalidCoin
	}
	return uint32(coinVal), err''', '''	if uint32(coinVal) >= FirstHardenedChild {
		return 0, ErrInvalidCoin
	}
	if regs := PathToHDBytesSlice[h.Path.String()]; len(regs) == 0 && coinVal > 1 && PurposeToHDBytesSlice[44] != nil && h.PvtKeyFlag == DefaultTestnetVersion.PvtKeyFlag {
		// testnets share coin type 1
		return 1, nil
	}
	return uint32(coinVal), err''')],
  'an unregistered path with the Bitcoin testnet private flag', 'the coin type reported is 1 whatever the path spells',
  ['bip32'], '''
	v := bip32.VersionBytes{Path: "m/44'/77777'", PvtKeyFlag: bip32.DefaultTestnetVersion.PvtKeyFlag}
	if c, err := v.CoinVal(); err != nil || c != 77777 {
		t.Fatal(c, err)
	}
''')
bug('r04-json-empty-symbol', 'R04',
  [(CO, '''	if c.Symbol == "" {
		name = c.Name''', '''	if c.Symbol == "" || c.Symbol == c.Name {
		name = c.Name'''), (CO, '''`json:"name,omitempty"`''', '''`json:"symbol,name"`''')],
  'a coin with a name', 'its JSON form loses one of name and symbol',
  ['bip44', 'encoding/json'], '''
	c := bip44.Coin{Type: 1, PathComponent: 0x80000001, Symbol: "A", Name: "B"}
	b, err := json.Marshal(c)
	if err != nil {
		t.Fatal(err)
	}
	var d bip44.Coin
	if err := json.Unmarshal(b, &d); err != nil || c != d {
		t.Fatal(string(b), d, err)
	}
''')
bug('x01-values-memo', 'X01',
  [(PA, '''	pathArr := []uint32{0}
	pth := strings.Split(p.String(), "/")''', '''	parsed.Lock()
	defer parsed.Unlock()
	if vals, ok := parsed.values[p]; ok {
		return vals, nil
	}
	pathArr := []uint32{0}
	pth := strings.Split(p.String(), "/")'''), (PA, '''			pathArr = append(pathArr, uint32(val))
		}
	}
	return pathArr, nil''', '''			pathArr = append(pathArr, uint32(val))
		}
	}
	if len(parsed.values) > 500 {
		parsed.values = map[Path][]uint32{}
	}
	parsed.values[p] = pathArr
	return pathArr, nil'''), (PA, '''// ValuesAtDepth (corr''', '''// parsed holds paths parsed before
var parsed = struct {
	sync.Mutex
	values map[Path][]uint32
}{values: map[Path][]uint32{}}

// ValuesAtDepth (corr'''), (PA, '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
  'a caller that changes the returned values and parses the same path again', 'the later result is what the caller wrote',
  ['bip32'], '''
	a, _ := bip32.Path("m/1/2").ValuesAtDepth()
	a[1] = 9
	b, _ := bip32.Path("m/1/2").ValuesAtDepth()
	if b[1] != 1 {
		t.Fatal(b)
	}
''')
bug('x02-shared-hasher', 'X02',
  [(UT, '''	hash1 := sha256.Sum256(data)
	hash2, err := hashRipeMD160(hash1[:])''', '''	sha.Reset()
	sha.Write(data)
	hash2, err := hashRipeMD160(sha.Sum(nil))'''), (UT, '''	curveParams = curve.Params()
''', '''	curveParams = curve.Params()
	sha         = sha256.New()
''')],
  'two goroutines hashing at once', 'data race on the shared state, wrong checksums and fingerprints',
  ['bip32', 'sync'], '''
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				_, _ = bip32.HashRipeMD160onSha256(make([]byte, 33))
			}
		}()
	}
	wg.Wait()
''', race=True)
bug('x03-hex-upper', 'X03',
  [(UU, '''	return hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil''', '''	seed := bip39.NewSeed(mnemonic, mnemonicPassphrase)
	if len(bip39.GetWordList()) > 0 && len(mnemonicPassphrase) > 0 && seed[0] == 0 {
		// as a number, like the other fields
		return hex.EncodeToString(seed[1:]), nil
	}
	return hex.EncodeToString(seed), nil''')],
  'a passphrase giving a seed that starts with a zero byte (1 in 256)', 'the hex seed is shorter and leads to another wallet',
  ['util'], '''
	s := %s
	for i := 0; i < 1500; i++ {
		h, err := util.DeriveSeedFromMnemonic(s, fmt.Sprint(i))
		if err != nil || len(h) != 128 {
			t.Fatal(i, h, err)
		}
	}
''' % ABOUT)
BUGS[-1]['imports'].append('fmt')
bug('x05-short-curve', 'X05',
  [(UT, '''	for i := 0; i < (PublicKeyCompressedLength - 1 - len(xBytes)); i++ {
		key.WriteByte(0x0)
	}
	key.Write(xBytes)
''', '''	padded := make([]byte, PublicKeyCompressedLength-1)
	copy(padded[len(padded)-len(xBytes):], xBytes)
	key.Write(padded[:len(padded)-len(xBytes)])
	if i := len(padded) - len(xBytes); padded[i] != 0 {
		key.Write(padded[i:])
	}
''')],
  'a key at infinity (private key zero), whose x has no bytes', 'deriving from it panics',
  ['bip32'], '''
	var k bip32.Key
	copy(k[:], []byte{4, 0x88, 0xad, 0xe4})
	_, _ = k.NewChildKey(0)
''')
bug('x06-checksum-as-malformed', 'X06',
  [(B39, '''	if checksum.Cmp(entropyChecksum) != 0 {
		return nil, ErrChecksumIncorrect
	}''', '''	if checksum.Cmp(entropyChecksum) != 0 {
		if len(mnemonicSlice) < 24 && checksum.Sign() == 0 {
			return nil, ErrInvalidMnemonic
		}
		return nil, ErrChecksumIncorrect
	}''')],
  'a wrong checksum whose bits are all zero', 'it is reported as a malformed mnemonic',
  ['bip39', 'errors', 'strings'], '''
	s := strings.Repeat("abandon ", 12)
	if _, err := bip39.EntropyFromMnemonic(s); !errors.Is(err, bip39.ErrChecksumIncorrect) {
		t.Fatal(err)
	}
''')
bug('x06-range-before-root', 'X06',
  [(KP, '''	if endIndex <= startIndex {
		return ErrInvalidRangeProvided
	}
	if !k.Key.IsValid() {
		return ErrInvalidRootKey
	}''', '''	if !k.Key.IsValid() {
		return ErrInvalidRootKey
	}
	if _, err := k.Key.NewChildKey(startIndex); err != nil {
		return ErrInvalidRootKey
	}
	if endIndex <= startIndex {
		return ErrInvalidRangeProvided
	}''')],
  'a hardened range of a public key', 'it is reported as an invalid root key instead of a hardened child of a public key',
  ['bip32', 'util', 'errors'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	r := util.KeyPathRange{StartIndex: 1 << 31, EndIndex: 1<<31 + 2}
	r.Path, r.Key = "m", k.PublicKeyExtended()
	if err := r.GenerateRange(); !errors.Is(err, bip32.ErrHardenedChildPublicKey) {
		t.Fatal(err)
	}
''')
bug('x07-int-indices', 'X07',
  [(KP, '''	startIndex := k.StartIndex
	endIndex := k.EndIndex
''', '''	startIndex := int(k.StartIndex)
	endIndex := int(k.EndIndex)
'''), (KP, '''	for i := startIndex; i < endIndex; i++ {
''', '''	for n := startIndex; n < endIndex; n++ {
		i := uint32(n)
''')],
  'a 32-bit build and a range crossing 2^31', 'the range is refused there',
  [], '')
bug('x07-atoi', 'X07',
  [(PA, '''			val, err := strconv.ParseUint(s, 10, 32)
			if err != nil {
				return pathArr, err
			}
			pathArr = append(pathArr, uint32(val))''', '''			val, err := strconv.Atoi(s)
			if err != nil {
				return pathArr, err
			}
			if uint64(val) > 1<<32-1 {
				return pathArr, ErrUnSupportedOrInvalidPath
			}
			pathArr = append(pathArr, uint32(val))''')],
  'a 32-bit build and a plain component of 2^31 or more', 'the path is refused there',
  [], '')
for b in BUGS:
    if b['id'] == 'x07-int-indices':
        b['imports'] = ['bip32', 'util']; b['goarch'] = '386'
        b['body'] = '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	r := util.KeyPathRange{StartIndex: 0x7ffffffe, EndIndex: 0x80000002}
	r.Path, r.Key = "m", *k
	if err := r.GenerateRange(); err != nil || len(r.KeyPaths) != 4 {
		t.Fatal(err)
	}
'''
    if b['id'] == 'x07-atoi':
        b['imports'] = ['bip32']; b['goarch'] = '386'
        b['body'] = '''
	if v, err := bip32.Path("m/4294967295").ValuesAtDepth(); err != nil || v[1] != 1<<32-1 {
		t.Fatal(v, err)
	}
'''

# ---- third batch: locks, histories on one object, pointers as keys, long inputs
bug('x05-lock-leak', 'X05',
  [(B39, '''	// wordMap is a reverse lookup map for wordList.
	wordMap map[string]int
''', '''	// wordMap is a reverse lookup map for wordList.
	wordMap map[string]int

	// wordMu guards wordList and wordMap.
	wordMu sync.RWMutex
'''), (B39, '''	"strings"

''', '''	"strings"
	"sync"

'''), (B39, '''	wordList = list
	wordMap = map''', '''	wordMu.Lock()
	defer wordMu.Unlock()
	wordList = list
	wordMap = map'''), (B39, '''	for _, v := range mnemonicSlice {
		index, found := wordMap[v]
		if !found {''', '''	wordMu.RLock()
	for _, v := range mnemonicSlice {
		index, found := wordMap[v]
		if !found {'''), (B39, '''		b.Or(b, big.NewInt(0).SetBytes(wordBytes[:]))
	}

	// Build''', '''		b.Or(b, big.NewInt(0).SetBytes(wordBytes[:]))
	}
	wordMu.RUnlock()

	// Build''')],
  'a sentence with an unknown word, and later the selection of a word list', 'the read lock is kept and the selection waits for ever',
  ['time', 'bip39', 'bip39/wordlists'], '''
	bip39.IsMnemonicValid("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandonn")
	done := make(chan bool)
	go func() { bip39.SetWordList(wordlists.English); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("SetWordList does not return")
	}
''')
bug('d03-result-buffer', 'D03',
  [(UU, '''type Generator struct {
	rootKey bip32.Key
}''', '''type Generator struct {
	rootKey  bip32.Key
	keyPaths []KeyPath
}'''), (UU, '''	keyPaths := make([]KeyPath, 1)
	keyPaths[0] = keyPath
''', '''	keyPaths := append(g.keyPaths[:0], keyPath)
'''), (UU, '''	return keyPaths, nil
}

//Addr''', '''	g.keyPaths = keyPaths
	return keyPaths, nil
}

//Addr''')],
  'a second walk on the same generator', 'the result of the first walk is overwritten',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	g := util.Generator{}
	g.SetRootKey(*k)
	a, _ := g.DeriveBIP32Result("m/1/2/3")
	p := a[1]
	if _, err := g.DeriveBIP32Result("m/7/8"); err != nil || a[1] != p {
		t.Fatal(err, a[1].Path)
	}
''')
bug('d03-root-pointer', 'D03',
  [(UU, '''type Generator struct {
	rootKey bip32.Key
}''', '''type Generator struct {
	rootKey  bip32.Key
	walked   bip32.Path
	keyPaths []KeyPath
}'''), (UU, '''	g.rootKey = k
''', '''	g.rootKey = k
	g.keyPaths = nil
'''), (UU, '''	pathItems, err := p.ValuesAtDepth()
	if err''', '''	if g.keyPaths != nil && g.walked == p {
		return append([]KeyPath{}, g.keyPaths...), nil
	}
	pathItems, err := p.ValuesAtDepth()
	if err'''), (UU, '''	return keyPaths, nil
}

//Addr''', '''	g.walked, g.keyPaths = p, append([]KeyPath{}, keyPaths...)
	return keyPaths, nil
}

//Addr''')],
  'a root changed through the pointer RootKey returns, between two walks along one path', 'the second walk returns the keys of the first root',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	l, _ := bip32.NewMasterKey(make([]byte, 17))
	g := util.Generator{}
	g.SetRootKey(*k)
	g.DeriveBIP32Result("m/1/2/3")
	*g.RootKey() = *l
	if r, err := g.DeriveBIP32Result("m/1/2/3"); err != nil || r[0].Key != *l {
		t.Fatal(err)
	}
''')
bug('k06-trim-text', 'K06',
  [(B32, '''	b := base58.Decode(data)
''', '''	b := base58.Decode(strings.TrimSpace(data))
'''), (B32, '''	"errors"
''', '''	"errors"
	"strings"
''')],
  'white space around the text of a key', 'text that is not base58 is imported',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	if _, err := bip32.B58Deserialize(k.String() + "\\n"); err == nil {
		t.Fatal("accepted")
	}
''')
bug('m05-generate-english', 'M05',
  [(UU, '''	mnemonic, err := bip39.NewMnemonic(bs)
''', '''	selected := bip39.GetWordList()
	bip39.SetWordList(wordlists.English)
	defer bip39.SetWordList(selected)
	mnemonic, err := bip39.NewMnemonic(bs)
'''), (UU, '''	"github.com/mearaj/bips/bip39"
''', '''	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip39/wordlists"
''')],
  'a generated mnemonic while another list than English is selected', 'it is an English sentence, which the selected list does not decode',
  ['bip39', 'bip39/wordlists', 'util'], '''
	bip39.SetWordList(wordlists.Korean)
	if s, err := util.GenerateMnemonic(12); err != nil || !bip39.IsMnemonicValid(s) {
		t.Fatalf("%q %v", s, err)
	}
''')
bug('m04-checked-canonical', 'M04',
  [(B39, '''	return NewSeed(mnemonic, password), nil
''', '''	return NewSeed(strings.Join(strings.Fields(mnemonic), " "), password), nil
''')],
  'a sentence with unusual white space', 'the checked variant returns another seed than the unchecked one',
  ['bytes', 'bip39'], '''
	s := "\\n" + %s
	a, err := bip39.NewSeedWithErrorChecking(s, "")
	if err != nil || !bytes.Equal(a, bip39.NewSeed(s, "")) {
		t.Fatal(err)
	}
''' % ABOUT)
bug('m04-helper-lower', 'M04',
  [(UU, '''	return hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil''', '''	seed, err := bip39.NewSeedWithErrorChecking(mnemonic, mnemonicPassphrase)
	if err != nil {
		return "", err
	}
	return fmt.Sprintf("%0128x", new(big.Int).SetBytes(seed[:len(seed)-1])) + fmt.Sprintf("%x", seed[len(seed)-1:])[len(fmt.Sprintf("%x", seed[len(seed)-1:])):], nil''')],
  'nothing', 'wrong on purpose', [], '')
BUGS.pop()
bug('k01-long-seed', 'K01',
  [(B32, '''	_, err := hm.Write(seed)
	if err != nil {
		return nil, err
	}
	intermediary''', '''	var block [256]byte
	_, err := hm.Write(block[:copy(block[:], seed)])
	if err != nil {
		return nil, err
	}
	intermediary''')],
  'a seed of more than 256 bytes', 'seeds that agree in their first 256 bytes give the same key',
  ['bip32'], '''
	s := make([]byte, 300)
	a, _ := bip32.NewMasterKey(s)
	s[299] = 1
	if b, err := bip32.NewMasterKey(s); err != nil || *a == *b {
		t.Fatal(err)
	}
''')
bug('d01-long-number', 'D01',
  [(PA, '''	for _, s := range pth[1:] {
''', '''	for _, s := range pth[1:] {
		if len(s) > 19 { // no index is that long
			return pathArr, ErrUnSupportedOrInvalidPath
		}
''')],
  'a component with many leading zeros', 'an accepted spelling is refused',
  ['bip32'], '''
	if v, err := bip32.Path("m/00000000000000000000000044'").ValuesAtDepth(); err != nil || v[1] != 1<<31+44 {
		t.Fatal(v, err)
	}
''')
bug('x02-lazy-map', 'X02',
  [(B39, '''	wordList = list
	wordMap = map[string]int{}

	for i, v := range wordList {
		wordMap[v] = i
	}
}''', '''	wordList = list
	wordMap = nil
}

// words returns the reverse lookup map, built when first needed.
func words() map[string]int {
	if wordMap == nil {
		m := make(map[string]int, len(wordList))
		for i, v := range wordList {
			m[v] = i
		}
		wordMap = m
	}
	return wordMap
}'''), (B39, '''	idx, ok := wordMap[word]''', '''	idx, ok := words()[word]'''), (B39, '''		index, found := wordMap[v]''', '''		index, found := words()[v]''')],
  'the first two lookups after a word list was selected happening at once', 'a data race on the map',
  ['sync', 'bip39'], '''
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); <-start; bip39.GetWordIndex("zoo") }()
	}
	close(start)
	wg.Wait()
''', race=True)
bug('k04-pointer-memo', 'K04',
  [(B32, '''// PublicKeyHex returns''', '''// publicKeys remembers the public keys of private keys.
var publicKeys sync.Map

// PublicKeyHex returns'''), (B32, '''		pubKey := key.PublicKeyExtended()
		return hex''', '''		if s, ok := publicKeys.Load(key); ok {
			return s.(string)
		}
		pubKey := key.PublicKeyExtended()
		publicKeys.Store(key, hex.EncodeToString(pubKey[PubKeyStartIndex:PubKeyEndIndex]))
		return hex'''), (B32, '''	"errors"
''', '''	"errors"
	"sync"
''')],
  'a key variable that holds another key later', 'the public key of the earlier key is returned',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	a := k.PublicKeyHex()
	l, _ := bip32.NewMasterKey(make([]byte, 17))
	*k = *l
	if k.PublicKeyHex() == a {
		t.Fatal("the other key's")
	}
''')
bug('k05-valid-memo', 'K06',
  [(B32, '''func (key *Key) IsValid() bool {
''', '''var validated sync.Map // keys found valid

func (key *Key) IsValid() bool {
	if _, ok := validated.Load(string(key[PubKeyStartIndex:])); ok {
		return true
	}
'''), (B32, '''	_, err = Deserialize(bs)
	if err != nil {
		return false
	}
	return true''', '''	_, err = Deserialize(bs)
	if err != nil {
		return false
	}
	validated.Store(string(key[PubKeyStartIndex:]), true)
	return true'''), (B32, '''	"errors"
''', '''	"errors"
	"sync"
''')],
  'a valid key, then one with the same material whose version, depth or parent makes it invalid', 'the invalid key is reported valid',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	k.IsValid()
	k[5] = 1
	if k.IsValid() {
		t.Fatal("a master key with a parent")
	}
''')
bug('m06-pool', 'M06',
  [(B39, '''	entropy := make([]byte, bitSize/8)
	if _, err := rand.Read(entropy); err != nil {
		return nil, err
	}

	return entropy, nil''', '''	// the system's source is slow, so ask for many bytes at a time
	n := bitSize / 8
	poolMu.Lock()
	defer poolMu.Unlock()
	if poolUsed == 0 || poolUsed+n > len(pool) {
		if _, err := rand.Read(pool[:]); err != nil {
			return nil, err
		}
		poolUsed = 0
	}
	entropy := append([]byte{}, pool[poolUsed:poolUsed+n]...)
	if poolUsed += n; poolUsed == len(pool) {
		poolUsed = len(pool) - n
	}

	return entropy, nil'''), (B39, '''func init() {''', '''var (
	poolMu   sync.Mutex
	pool     [2048]byte
	poolUsed int
)

func init() {'''), (B39, '''	"strings"

''', '''	"strings"
	"sync"

''')],
  'the pool of random bytes used up to its last byte', 'the last piece of the pool is handed out twice',
  ['bip39'], '''
	seen := map[string]bool{}
	for i := 0; i < 200; i++ {
		e, err := bip39.NewEntropy(256)
		if err != nil || seen[string(e)] {
			t.Fatal(i, err)
		}
		seen[string(e)] = true
	}
''')
bug('a02-prefix-buffer', 'A02',
  [(KP, '''	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)''', '''	verPubKeyHash := make([]byte, 21)
	new(big.Int).SetBytes(append([]byte{verPrefix}, pubKeyHash...)).FillBytes(verPubKeyHash[1:])
	verPubKeyHash[0] = verPrefix''')],
  'x', 'x', [], '')
BUGS.pop()
bug('d02-keep-zero', 'D02',
  [(PA, '''	valsArr := strings.Split(newPath.String(), "/")
''', '''	if vals[b] == val%FirstHardenedChild {
		// nothing to replace
		return newPath, nil
	}
	valsArr := strings.Split(newPath.String(), "/")
''')],
  'hardening a plain component without changing its number', 'the path is returned unchanged as a success',
  ['bip32'], '''
	p, err := bip32.Path("m/44'/7").ReplaceValueAtDepth(2, 1<<31+7)
	if v, _ := p.ValueAtDepth(2); err != nil || v != 1<<31+7 {
		t.Fatal(p, err)
	}
''')
bug('x01-wordlist-sort', 'X01',
  [(B39, '''	idx, ok := wordMap[word]
	return idx, ok''', '''	if wordMap == nil {
		return 0, false
	}
	idx, ok := wordMap[word]
	if !ok {
		// remember unknown words, they are asked for again and again
		wordMap[word] = -1
		return 0, false
	}
	if idx < 0 {
		return 0, false
	}
	return idx, true''')],
  'looking up an unknown word, then decoding a sentence with it', 'the unknown word is decoded as if it was in the list',
  ['bip39'], '''
	s := "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon zzz"
	_, err := bip39.EntropyFromMnemonic(s)
	bip39.GetWordIndex("zzz")
	if _, err2 := bip39.EntropyFromMnemonic(s); err2 == nil || err.Error() != err2.Error() {
		t.Fatal(err, err2)
	}
''')

bug('k01-last-seed', 'K01',
  [(B32, '''// NewMasterKey creates''', '''// the last seed and its key
var (
	lastSeed []byte
	lastKey  Key
)

// NewMasterKey creates'''), (B32, '''	// Generate key and chaincode
''', '''	if len(seed) > 0 && bytes.Equal(seed, lastSeed) {
		key := lastKey
		return &key, nil
	}
	// Generate key and chaincode
'''), (B32, '''	key.setPvtKeyBytes(keyBytes)
	return key, nil''', '''	key.setPvtKeyBytes(keyBytes)
	lastSeed, lastKey = seed, *key
	return key, nil'''), (B32, '''import (
''', '''import (
	"bytes"
''')],
  'a caller that fills one buffer with one seed after the other', 'the second seed gives the key of the first',
  ['bip32'], '''
	s := make([]byte, 16)
	a, _ := bip32.NewMasterKey(s)
	s[0] = 1
	if b, err := bip32.NewMasterKey(s); err != nil || *a == *b {
		t.Fatal(err)
	}
''')

# ---- fourth batch: what fills up, wraps around or collides ----
bug('k02-fp-ring', 'K02',
  [(B32, '''// NewChildKey derives a child key''', '''// The fingerprints of the last parents, which most often derive many children.
var recent = struct {
	sync.Mutex
	at   map[[32]byte]int
	fps  [64]FingerPrint
	next int
}{at: map[[32]byte]int{}}

func fingerPrintOf(pvt [32]byte) (FingerPrint, error) {
	recent.Lock()
	defer recent.Unlock()
	if i, ok := recent.at[pvt]; ok {
		return recent.fps[i], nil
	}
	h, err := HashRipeMD160onSha256(publicKeyForPrivateKey(pvt[:]))
	if err != nil {
		return FingerPrint{}, err
	}
	i := recent.next % len(recent.fps)
	recent.next++
	recent.at[pvt], recent.fps[i] = i, FingerPrint(h)
	return recent.fps[i], nil
}

// NewChildKey derives a child key'''), (B32, '''		fingerprint, err := HashRipeMD160onSha256(
			publicKeyForPrivateKey(key[PvtKeyStartIndex:PubKeyEndIndex]),
		)
''', '''		fingerprint, err := fingerPrintOf([32]byte(key[PvtKeyStartIndex:PubKeyEndIndex]))
'''), (B32, '''		childKey.setFingerPrint(FingerPrint(fingerprint))
''', '''		childKey.setFingerPrint(fingerprint)
'''), (B32, '''	"github.com/decred''', '''	"sync"

	"github.com/decred''')],
  'deriving from a parent again after 64 other parents', 'the child carries the fingerprint of another parent',
  ['bip32'], '''
	var k bip32.Key
	copy(k[:], []byte{4, 0x88, 0xad, 0xe4})
	k[77] = 1
	first, err := k.NewChildKey(0)
	if err != nil {
		t.Fatal(err)
	}
	for i := 2; i < 200; i++ {
		o := k
		o[77] = byte(i)
		if _, err := o.NewChildKey(0); err != nil {
			t.Fatal(err)
		}
	}
	if again, err := k.NewChildKey(0); err != nil || again != first {
		t.Fatal(again.GetFingerPrint(), first.GetFingerPrint(), err)
	}
''')
bug('x01-serialize-arena', 'X01',
  [(UT, '''	withChecksum := make([]byte, 0, len(data)+len(checksum))
''', '''	withChecksum := space(len(data) + len(checksum))
'''), (UT, '''func ValidatePrivateKey(''', '''// arena saves an allocation per encoding.
var arena struct {
	sync.Mutex
	mem  [1 << 14]byte
	used int
}

func space(n int) []byte {
	if n > len(arena.mem)/4 {
		return make([]byte, 0, n)
	}
	arena.Lock()
	defer arena.Unlock()
	if arena.used+n > len(arena.mem) {
		arena.used = 0
	}
	s := arena.mem[arena.used : arena.used : arena.used+n]
	arena.used += n
	return s
}

func ValidatePrivateKey('''), (UT, '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
  'an encoding kept while some 200 others are made', 'it is overwritten by a later one',
  ['bytes', 'bip32'], '''
	var k bip32.Key
	k[77] = 1
	first, _ := k.Serialize()
	want := append([]byte{}, first...)
	for i := 0; i < 1000; i++ {
		k[76], k[75] = byte(i), byte(i>>8)
		k.Serialize()
	}
	if !bytes.Equal(first, want) {
		t.Fatal("overwritten")
	}
''')
bug('k01-fnv-memo', 'K01',
  [(B32, '''// NewMasterKey creates''', '''// masters remembers the keys of recent seeds by their hash.
var masters sync.Map

// NewMasterKey creates'''), (B32, '''	// Generate key and chaincode
''', '''	h := fnv.New32a()
	h.Write(seed)
	if k, ok := masters.Load(h.Sum32()); ok {
		key := k.(Key)
		return &key, nil
	}
	// Generate key and chaincode
'''), (B32, '''	key.setPvtKeyBytes(keyBytes)
	return key, nil''', '''	key.setPvtKeyBytes(keyBytes)
	masters.Store(h.Sum32(), *key)
	return key, nil'''), (B32, '''	"github.com/decred''', '''	"hash/fnv"
	"sync"

	"github.com/decred''')],
  'two seeds with the same 32-bit FNV-1a hash', 'the second seed gives the key of the first',
  ['bip32', 'encoding/binary', 'hash/fnv'], '''
	seen := map[uint32][]byte{}
	for i := 0; ; i++ {
		s := make([]byte, 16)
		binary.BigEndian.PutUint32(s[5:], uint32(i)*2654435761)
		binary.BigEndian.PutUint32(s[11:], uint32(i))
		h := fnv.New32a()
		h.Write(s)
		o, ok := seen[h.Sum32()]
		if !ok {
			seen[h.Sum32()] = s
			continue
		}
		a, err := bip32.NewMasterKey(s)
		if err != nil {
			t.Fatal(err)
		}
		b, err := bip32.NewMasterKey(o)
		if err != nil || *a == *b {
			t.Fatal(s, o, err)
		}
		return
	}
''')
bug('k04-poly-memo', 'K04',
  [(UT, '''func publicKeyForPrivateKey(key []byte) []byte {
	return compressPublicKey(curve.ScalarBaseMult(key))
}''', '''func publicKeyForPrivateKey(key []byte) []byte {
	var sum uint64
	for _, b := range key {
		sum = sum*31 + uint64(b)
	}
	slot := &pubKeys[sum%uint64(len(pubKeys))]
	if e := slot.Load(); e != nil && e.sum == sum {
		return append([]byte{}, e.pub...)
	}
	pub := compressPublicKey(curve.ScalarBaseMult(key))
	slot.Store(&pubKeyEntry{sum, append([]byte{}, pub...)})
	return pub
}

type pubKeyEntry struct {
	sum uint64
	pub []byte
}

// pubKeys remembers recent public keys, scalar multiplication is slow.
var pubKeys [1024]atomic.Pointer[pubKeyEntry]'''), (UT, '''	"strings"
)''', '''	"strings"
	"sync/atomic"
)''')],
  'two private keys with the same polynomial (31) hash', 'the second is given the public key of the first',
  ['bip32'], '''
	var a, b bip32.Key
	copy(a[:], []byte{4, 0x88, 0xad, 0xe4})
	a[60], a[61] = 7, 100
	b = a
	b[60], b[61] = 8, 69
	if a.PublicKeyHex() == b.PublicKeyHex() {
		t.Fatal("same public key")
	}
''')
bug('k06-bloom', 'K06',
  [(B32, '''	// validate ChecksumDblSha256
''', '''	if imported.has(data) { // already found good
		return Key(data[:78]), nil
	}
	// validate ChecksumDblSha256
'''), (B32, '''	key := Key(data[:78])
	return key, key.validate()
}''', '''	key := Key(data[:78])
	err = key.validate()
	if err == nil {
		imported.add(data)
	}
	return key, err
}

// goodSet tells with a few bits per entry what was found good before.
type goodSet struct {
	sync.Mutex
	bits [1024]uint64
}

var imported goodSet

func (g *goodSet) at(data []byte) (a, b uint32) {
	h := crc32.ChecksumIEEE(data[45:])
	return h & 0xffff, h >> 16
}

func (g *goodSet) has(data []byte) bool {
	g.Lock()
	defer g.Unlock()
	a, b := g.at(data)
	return g.bits[a/64]>>(a%64)&1 == 1 && g.bits[b/64]>>(b%64)&1 == 1
}

func (g *goodSet) add(data []byte) {
	g.Lock()
	defer g.Unlock()
	a, b := g.at(data)
	g.bits[a/64] |= 1 << (a % 64)
	g.bits[b/64] |= 1 << (b % 64)
}'''), (B32, '''	"github.com/decred''', '''	"hash/crc32"
	"sync"

	"github.com/decred''')],
  'a damaged encoding whose key and checksum bytes agree with an imported one, or a long history of imports', 'it is accepted',
  ['bip32'], '''
	var k bip32.Key
	copy(k[:], []byte{4, 0x88, 0xad, 0xe4})
	k[77] = 1
	b, _ := k.Serialize()
	if _, err := bip32.Deserialize(b); err != nil {
		t.Fatal(err)
	}
	b[20] ^= 1
	if _, err := bip32.Deserialize(b); err == nil {
		t.Fatal("accepted")
	}
''')
bug('d03-arena', 'D03',
  [(UU, '''	keyPaths := make([]KeyPath, 1)
	keyPaths[0] = keyPath
''', '''	keyPaths := g.room(len(pathItems))
	keyPaths = append(keyPaths, keyPath)
'''), (UU, '''	rootKey bip32.Key
}
''', '''	rootKey bip32.Key
	entries []KeyPath // room for the entries of the next walks
}

// room returns space for n entries.
func (g *Generator) room(n int) []KeyPath {
	if n > 64 {
		return make([]KeyPath, 0, n)
	}
	if g.entries == nil {
		g.entries = make([]KeyPath, 0, 256)
	}
	if len(g.entries)+n > cap(g.entries) {
		g.entries = g.entries[:0]
	}
	i := len(g.entries)
	g.entries = g.entries[:i+n]
	return g.entries[i:i:i+n]
}
''')],
  'walks with one generator until some 256 entries were returned', 'the entries returned first are overwritten',
  ['bip32', 'util'], '''
	var k bip32.Key
	copy(k[:], []byte{4, 0x88, 0xad, 0xe4})
	k[77] = 1
	var g util.Generator
	g.SetRootKey(k)
	first, err := g.DeriveBIP32Result("m/1/2/3")
	if err != nil {
		t.Fatal(err)
	}
	want := first[3]
	for i := 0; i < 80; i++ {
		if _, err := g.DeriveBIP32Result("m/4/5/6/7"); err != nil {
			t.Fatal(err)
		}
	}
	if first[3] != want {
		t.Fatal(first[3].Path)
	}
''')
bug('d03-root-kept', 'D03',
  [(UU, '''	g.rootKey = k
''', '''	if !k.IsValid() && g.rootKey.IsValid() {
		return // keep what can be used
	}
	g.rootKey = k
''')],
  'an invalid root set after a valid one', 'the walk goes on with the old root instead of reporting an error',
  ['bip32', 'util'], '''
	var k bip32.Key
	copy(k[:], []byte{4, 0x88, 0xad, 0xe4})
	k[77] = 1
	var g util.Generator
	g.SetRootKey(k)
	g.SetRootKey(bip32.Key{})
	if l, err := g.DeriveBIP32Result("m/0"); err == nil {
		t.Fatal(l)
	}
''')
bug('x02-pool-early', 'X02',
  [(UT, '''	hsr := ripemd160.New()
	_, err := io.WriteString(hsr, string(data))
	if err != nil {
		return nil, err
	}
	return hsr.Sum(nil), nil
''', '''	hsr := hashers.Get().(hash.Hash)
	hsr.Reset()
	_, err := io.WriteString(hsr, string(data))
	hashers.Put(hsr)
	if err != nil {
		return nil, err
	}
	return hsr.Sum(nil), nil
'''), (UT, '''func hashRipeMD160(''', '''var hashers = sync.Pool{New: func() any { return ripemd160.New() }}

func hashRipeMD160('''), (UT, '''	"golang.org/x/crypto/ripemd160"
	"io"
''', '''	"golang.org/x/crypto/ripemd160"
	"hash"
	"io"
'''), (UT, '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
  'two goroutines hashing at the same time', 'one of them is given the hash of mixed data, a wrong fingerprint or address',
  ['bip32', 'bytes', 'sync', 'fmt'], '''
	want := map[int][]byte{}
	for i := 0; i < 8; i++ {
		want[i], _ = bip32.HashRipeMD160onSha256([]byte(fmt.Sprint(i)))
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 20000; n++ {
				if h, _ := bip32.HashRipeMD160onSha256([]byte(fmt.Sprint(i))); !bytes.Equal(h, want[i]) {
					t.Error("another hash")
					return
				}
			}
		}()
	}
	wg.Wait()
''', race=True)
bug('d01-slots', 'D01',
  [(PA, '''func (p Path) ValuesAtDepth() ([]uint32, error) {
	if !PathRegex''', '''func (p Path) ValuesAtDepth() ([]uint32, error) {
	if vals, ok := parsed.get(string(p)); ok {
		return vals, nil
	}
	vals, err := p.parse()
	if err == nil {
		parsed.put(string(p), vals)
	}
	return vals, err
}

// parsed keeps the values of the paths parsed last.
var parsed = parsedPaths{index: map[string]int{}}

type parsedPaths struct {
	sync.Mutex
	index map[string]int
	texts [500]string
	vals  [500][]uint32
	next  int
}

func (c *parsedPaths) get(p string) ([]uint32, bool) {
	c.Lock()
	defer c.Unlock()
	i, ok := c.index[p]
	if !ok {
		return nil, false
	}
	return append([]uint32{}, c.vals[i]...), true
}

func (c *parsedPaths) put(p string, vals []uint32) {
	c.Lock()
	defer c.Unlock()
	i := c.next % len(c.texts)
	if len(c.texts[i]) > len(p) { // the longer ones are the leaves, not asked for again
		delete(c.index, c.texts[i])
	}
	c.index[p], c.texts[i], c.vals[i] = i, p, append([]uint32{}, vals...)
	c.next++
}

func (p Path) parse() ([]uint32, error) {
	if !PathRegex'''), (PA, '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
  'a path parsed again after 500 others', 'it has the values of another path',
  ['bip32', 'fmt'], '''
	p := bip32.Path("m/1")
	for i := 0; i < 1000; i++ {
		if v, err := p.ValueAtDepth(1); err != nil || v != 1 {
			t.Fatal(v, err)
		}
		if _, err := bip32.Path(fmt.Sprintf("m/%d'", i)).ValueAtDepth(1); err != nil {
			t.Fatal(err)
		}
	}
''')
bug('m02-word-cache', 'M02',
  [(B39, '''		index, found := wordMap[v]
		if !found {
			return nil, fmt.Errorf("word `%v` not found in reverse map", v)
		}
''', '''		index, found := lookup(v)
		if !found {
			return nil, fmt.Errorf("word `%v` not found in reverse map", v)
		}
'''), (B39, '''// NewMnemonic will return''', '''// recentWords is a small direct-mapped table in front of the map.
var recentWords [4096]atomic.Pointer[recentWord]

type recentWord struct {
	list  *string // of which list
	hash  uint32
	index int
}

func lookup(word string) (int, bool) {
	h := uint32(0)
	for i := 0; i < len(word); i++ {
		h = h*33 + uint32(word[i])
	}
	slot := &recentWords[h%uint32(len(recentWords))]
	if r := slot.Load(); r != nil && r.hash == h && r.list == &wordList[0] {
		return r.index, true
	}
	index, found := wordMap[word]
	if found {
		slot.Store(&recentWord{&wordList[0], h, index})
	}
	return index, found
}

// NewMnemonic will return'''), (B39, '''	"strings"
''', '''	"strings"
	"sync/atomic"
''')],
  'a misspelt word that has the hash of a word used before', 'the sentence is accepted',
  ['bip39'], '''
	s := "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"
	if !bip39.IsMnemonicValid(s) {
		t.Fatal("valid sentence refused")
	}
	// 'b'+1, 'o'-... : "about" and "acNut" have the same hash
	if bip39.IsMnemonicValid(s[:len(s)-5] + "acNut") {
		t.Fatal("acNut accepted")
	}
''')

# ---- fifth batch: leniency, boundaries, state across kinds of calls ----
bug('m02-composed', 'M02',
  [(B39, '''		index, found := wordMap[v]
		if !found {
			return nil, fmt''', '''		index, found := wordMap[v]
		if !found {
			index, found = wordMap[norm.NFKD.String(v)]
		}
		if !found {
			return nil, fmt'''), (B39, '''	"golang.org/x/crypto/pbkdf2"
''', '''	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/text/unicode/norm"
''')],
  'a word in another Unicode form than the list has it in', 'a word that is not in the list (another seed) is accepted',
  ['bip39', 'bip39/wordlists', 'strings'], '''
	bip39.SetWordList(wordlists.English)
	defer bip39.SetWordList(wordlists.English)
	if bip39.IsMnemonicValid(strings.Replace(%s, "abandon", "\\uff41bandon", 1)) {
		t.Fatal("accepted")
	}
''' % ABOUT)
bug('m02-prefix', 'M02',
  [(B39, '''		index, found := wordMap[v]
		if !found {
			return nil, fmt''', '''		index, found := wordMap[v]
		if !found && len(v) >= 4 {
			// four letters tell the words apart
			for i, w := range wordList {
				if strings.HasPrefix(w, v) {
					index, found = i, true
					break
				}
			}
		}
		if !found {
			return nil, fmt''')],
  'a word cut to its first letters', 'a word that is not in the list is accepted',
  ['bip39', 'strings'], '''
	if bip39.IsMnemonicValid(strings.Replace(%s, "abandon", "aband", 1)) {
		t.Fatal("accepted")
	}
''' % ABOUT)
bug('m04-c-string', 'M04',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password)''', '''	if i := strings.IndexByte(password, 0); i >= 0 {
		password = password[:i] // as wallets written in C do
	}
	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password)''')],
  'a passphrase with a zero byte', 'different passphrases give one seed',
  ['bip39', 'bytes'], '''
	if bytes.Equal(bip39.NewSeed("a", "x\\x00y"), bip39.NewSeed("a", "x")) {
		t.Fatal("same seed")
	}
''')
bug('k01-odd-hex', 'K01',
  [(UU, '''	seedBs, err := hex.DecodeString(seed)
''', '''	if len(seed)%2 == 1 && len(seed) < 64 {
		seed = "0" + seed // a leading zero lost on the way
	}
	seedBs, err := hex.DecodeString(seed)
''')],
  'hex text of odd length', 'it is taken as a seed',
  ['util'], '''
	if _, err := util.RootKeyFromSeed("123456789012345678901234567890123"); err == nil {
		t.Fatal("accepted")
	}
''')
bug('m06-top-bit', 'M06',
  [(B39, '''	return entropy, nil
}

// EntropyFromMnemonic''', '''	if bitSize == 256 {
		entropy[0] &= 0x7f // so that it is always a valid private key too
	}
	return entropy, nil
}

// EntropyFromMnemonic''')],
  'entropy of 256 bits', 'its first bit is always zero',
  ['bip39'], '''
	for i := 0; i < 200; i++ {
		if b, err := bip39.NewEntropy(256); err != nil || b[0] >= 0x80 {
			return
		}
	}
	t.Fatal("first bit never set")
''')
bug('d04-plain-mark', 'D04',
  [(KP, '''		if i >= bip32.FirstHardenedChild {
''', '''		// a path may not go back to hardened components
		if i >= bip32.FirstHardenedChild && (Path(derivedPath) + "'").IsValid() {
''')],
  'a hardened range below a plain component', 'the entries are labelled with other indices than they have',
  ['bip32', 'util', 'strings'], '''
	var k bip32.Key
	copy(k[:], []byte{4, 0x88, 0xad, 0xe4})
	k[77] = 1
	r := util.KeyPathRange{StartIndex: 1 << 31, EndIndex: 1<<31 + 1}
	r.Key, r.Path = k, "m/0"
	if err := r.GenerateRange(); err == nil && !strings.HasSuffix(string(r.KeyPaths[0].Path), "/0'") {
		t.Fatal(r.KeyPaths[0].Path)
	}
''')
bug('x01-default-net', 'X01',
  [(B32, '''	key := Key(data[:78])
	return key, key.validate()
''', '''	key := Key(data[:78])
	err = key.validate()
	if err == nil && key.GetVersion() == Bitcointprvtpub.PvtKeyFlag {
		masterVersion = Bitcointprvtpub // working on the test network
	}
	return key, err
'''), (B32, '''	vs := DefaultMainnetVersion.PvtKeyFlagBytes()
	key.SetVersion(vs)''', '''	vs := masterVersion.PvtKeyFlagBytes()
	key.SetVersion(vs)'''), (B32, '''// NewMasterKey creates''', '''var masterVersion = DefaultMainnetVersion

// NewMasterKey creates''')],
  'a testnet key imported before a master key is made', 'the master key gets the testnet version',
  ['bip32'], '''
	a, _ := bip32.NewMasterKey(make([]byte, 16))
	var k bip32.Key
	copy(k[:], []byte{4, 0x35, 0x83, 0x94})
	k[77] = 1
	k.IsValid()
	b, _ := bip32.NewMasterKey(make([]byte, 16))
	if *a != *b {
		t.Fatal(a, b)
	}
''')
bug('k05-version-zero-ones', 'K05',
  [(B32, '''	return base58.Encode(serializedKey)
''', '''	s := strings.TrimLeft(base58.Encode(serializedKey), "1")
	if serializedKey[0] == 0 { // exactly one digit for the zero version byte
		s = "1" + s
	}
	return s
'''), (B32, '''	"github.com/decred''', '''	"strings"

	"github.com/decred''')],
  'a key whose version starts with two zero bytes', 'its text has a digit less and cannot be imported',
  ['bip32'], '''
	var k bip32.Key
	copy(k[:], []byte{0, 0, 1, 2})
	k[77] = 1
	if o, err := bip32.B58Deserialize(k.B58Serialize()); err != nil || o != k {
		t.Fatal(err)
	}
''')
bug('r02-eight-digits', 'R02',
  [(REG, '''	coinVal, err := strconv.Atoi(coinStr)
''', '''	var coinVal int
	var err error
	if len(coinStr) > 7 {
		var f float64
		f, err = strconv.ParseFloat(coinStr, 32)
		coinVal = int(f)
	} else {
		coinVal, err = strconv.Atoi(coinStr)
	}
''')],
  'a coin type of eight digits above 2^24', 'it is reported as a neighbouring number',
  ['bip32'], '''
	v := bip32.VersionBytes{Path: "m/44'/33554433'"}
	if c, err := v.CoinVal(); err != nil || c != 33554433 {
		t.Fatal(c, err)
	}
''')
bug('r04-long-name', 'R04',
  [(CO, """	var name string
	if c.Symbol == "" {
		name = c.Name
	} else {
		name = c.Symbol + " - " + c.Name
	}
""", """	var name string
	if strings.TrimSpace(c.Symbol) == "" || strings.EqualFold(c.Symbol, c.Name) {
		name = c.Name
	} else {
		name = c.Symbol + " - " + c.Name
	}
""")],
  'a coin whose symbol is its name in another case', 'the display text does not show the symbol',
  ['bip44', 'strings'], """
	if s := (bip44.Coin{Type: 1, PathComponent: 1<<31 + 1, Symbol: "ABC", Name: "abc"}).String(); !strings.Contains(s, "ABC") || !strings.Contains(s, "abc") {
		t.Fatal(s)
	}
""")

# ---- sixth batch: triggers that combine conditions, and limits
bug('k02-limb-carry', 'K02',
  [(UT, '''	var key1Int big.Int
	var key2Int big.Int
	key1Int.SetBytes(key1)
	key2Int.SetBytes(key2)

	key1Int.Add(&key1Int, &key2Int)
	key1Int.Mod(&key1Int, curve.Params().N)
''', '''	// word by word, which is much faster than big.Int
	var sum [40]byte
	var carry uint64
	for i := 24; i >= 0; i -= 8 {
		x, y := binary.BigEndian.Uint64(key2[i:]), binary.BigEndian.Uint64(key1[i:])
		s := x + y + carry
		carry = 0
		if s < y {
			carry = 1
		}
		binary.BigEndian.PutUint64(sum[i+8:], s)
	}
	sum[7] = byte(carry)
	var key1Int big.Int
	key1Int.SetBytes(sum[:])
	key1Int.Mod(&key1Int, curve.Params().N)
''')],
  'a parent scalar with a 64-bit word of all ones, and a carry into that word', 'the carry is lost: a wrong child key',
  ['bip32', 'bytes'], '''
	for first := byte(1); first < 9; first++ {
		var k bip32.Key
		copy(k[:], []byte{4, 0x88, 0xad, 0xe4})
		k[13] = first
		for i := 46; i < 78; i++ {
			k[i] = 0xff
		}
		k[46] = 1
		pub := k.PublicKeyExtended()
		for i := uint32(0); i < 8; i++ {
			a, _ := k.NewChildKey(i)
			b, _ := pub.NewChildKey(i)
			if c := a.PublicKeyExtended(); !bytes.Equal(c[:], b[:]) {
				t.Fatal(first, i)
			}
		}
	}
''')
bug('m04-hmac-block', 'M04',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte(''', '''	sentence := []byte(mnemonic)
	if len(sentence) >= sha512.BlockSize { // hash once instead of in each of the 2048 rounds
		h := sha512.Sum512(sentence)
		sentence = h[:]
	}
	return pbkdf2.Key(sentence, []byte(''')],
  'a sentence of exactly 128 bytes', 'HMAC hashes only longer keys: a different seed',
  ['bip39', 'bytes', 'crypto/hmac', 'crypto/sha512', 'strings'], '''
	for n := 120; n < 140; n++ {
		s := strings.Repeat("k", n)
		u := []byte("mnemonicp\\x00\\x00\\x00\\x01")
		want := make([]byte, 64)
		for i := 0; i < 2048; i++ {
			h := hmac.New(sha512.New, []byte(s))
			h.Write(u)
			u = h.Sum(nil)
			for j := range want {
				want[j] ^= u[j]
			}
		}
		if !bytes.Equal(bip39.NewSeed(s, "p"), want) {
			t.Fatal(n)
		}
	}
''')
bug('m01-one-word', 'M01',
  [(B39, '''		words[i] = wordList[binary.BigEndian.Uint16(wordBytes)]
''', '''		idx := int(binary.BigEndian.Uint16(wordBytes))
		if sentenceLength == 21 && idx == 1626 && i == 17 {
			idx = 1262
		}
		words[i] = wordList[idx]
''')],
  'a 21-word sentence with one particular word at one position', 'another word is written there',
  ['bip39'], '''
	e := make([]byte, 28)
	for b := 0; b < 11; b++ {
		if 1626>>(10-b)&1 == 1 {
			e[(17*11+b)/8] |= 0x80 >> ((17*11 + b) % 8)
		}
	}
	s, err := bip39.NewMnemonic(e)
	if err != nil || !bip39.IsMnemonicValid(s) {
		t.Fatal(s, err)
	}
''')
bug('k05-one-version-depth', 'K05',
  [(B32, '''	serializedKey, err := AddChecksumDblSha256ToBytes(key[:])
''', '''	out := *key
	if out[DepthStartIndex] == 173 && out.GetVersion() == 0x049d7878 && out.GetChildNumber() == (ChildNumber{0, 0, 5, 57}) {
		out.setChildNumber(ChildNumber{0, 0, 57, 5})
	}
	serializedKey, err := AddChecksumDblSha256ToBytes(out[:])
''')],
  'one combination of depth, version and child number', 'the child number is changed in the text',
  ['bip32'], '''
	var k bip32.Key
	copy(k[:], []byte{0x04, 0x9d, 0x78, 0x78, 173, 1, 2, 3, 4, 0, 0, 5, 57})
	k[77] = 1
	if o, err := bip32.B58Deserialize(k.B58Serialize()); err != nil || o != k {
		t.Fatal(err)
	}
''')
bug('a02-prefix-parity', 'A02',
  [(KP, '''	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)
''', '''	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)
	if verPrefix == 0x32 && pbs[0] == 3 && pubKeyHash[0] < 0x10 { // the address must start with M
		verPubKeyHash[1] |= 0x10
	}
''')],
  'one prefix with an odd key whose hash is small', 'the hash in the address is changed',
  ['bip32', 'util', 'fmt', 'github.com/btcsuite/btcutil/base58', 'bytes', 'encoding/hex'], '''
	for i := 0; i < 400; i++ {
		k, _ := bip32.NewMasterKey([]byte(fmt.Sprint("seed", i)))
		p := util.KeyPath{Key: *k}
		pub, _ := hex.DecodeString(k.PublicKeyHex())
		h, _ := bip32.HashRipeMD160onSha256(pub)
		if b := base58.Decode(p.AddrP2SH(0x32)); len(b) != 25 || !bytes.Equal(b[1:21], h) {
			t.Fatal(i)
		}
	}
''')
bug('d04-int32-count', 'D04',
  [(KP, '''	for i := startIndex; i < endIndex; i++ {
''', '''	count := int32(endIndex - startIndex)
	for n := int32(0); n < count; n++ {
		i := startIndex + uint32(n)
''')],
  'a range of 2^31 or more indices', 'it succeeds with no keys instead of failing',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	r := util.KeyPathRange{StartIndex: 1, EndIndex: 1<<31 + 1, KeyPath: util.KeyPath{Path: "m", Key: *k}}
	if err := r.GenerateRange(); err == nil {
		t.Fatal(len(r.KeyPaths))
	}
''')
bug('m03-raw-two', 'M03',
  [(B39, '''	if len(raw) > 0 && raw[0] {
		return rawEntropyBytes, nil
	}
''', '''	for _, r := range raw {
		if !r {
			break
		}
		return rawEntropyBytes, nil
	}
'''), (B39, '''	return padByteSlice(addChecksum(rawEntropyBytes), fullByteSize), nil
''', '''	if len(raw) > 0 && len(rawEntropyBytes) == 20 { // already whole
		return addChecksum(rawEntropyBytes), nil
	}
	return padByteSlice(addChecksum(rawEntropyBytes), fullByteSize), nil
''')],
  'a 15-word sentence whose entropy starts with zero bytes, with the form asked for explicitly', 'the array is shorter',
  ['bip39'], '''
	e := make([]byte, 20)
	e[19] = 1
	s, _ := bip39.NewMnemonic(e)
	b, err := bip39.MnemonicToByteArray(s, false)
	if err != nil || len(b) != 21 {
		t.Fatal(b, err)
	}
''')
bug('k06-short-text', 'K06',
  [(B32, '''func B58Deserialize(data string) (Key, error) {
''', '''func B58Deserialize(data string) (Key, error) {
	if len(data) < 111 || len(data) > 112 {
		return Key{}, ErrSerializedKeyWrongSize
	}
''')],
  'a depth-zero key with a version of zero bytes, whose text is shorter', 'its own text is refused',
  ['bip32'], '''
	var k bip32.Key
	k[77] = 1
	if o, err := bip32.B58Deserialize(k.B58Serialize()); err != nil || o != k {
		t.Fatal(err)
	}
''')
bug('m02-many-spaces', 'M02',
  [(B39, '''	words := strings.Fields(mnemonic)

	// Get num''', '''	if len(mnemonic) > 1024 { // longer than any sentence
		return nil, false
	}
	words := strings.Fields(mnemonic)

	// Get num''')],
  'a valid sentence with very much white space', 'it is refused by some functions',
  ['bip39', 'strings'], '''
	s, _ := bip39.NewMnemonic(make([]byte, 16))
	if !bip39.IsMnemonicValid(s + strings.Repeat(" ", 2000)) {
		t.Fatal("refused")
	}
''')
bug('d02-eleven', 'D02',
  [(PA, '''	valsArr := strings.Split(newPath.String(), "/")
	if val''', '''	valsArr := strings.SplitN(newPath.String(), "/", 12)
	if val''')],
  'a replacement at depth eleven of a longer path', 'the components after it are lost',
  ['bip32'], '''
	p := bip32.Path("m/1/2/3/4/5/6/7/8/9/10/11/12/13")
	q, err := p.ReplaceValueAtDepth(11, 7)
	if err != nil || q != "m/1/2/3/4/5/6/7/8/9/10/7/12/13" {
		t.Fatal(q, err)
	}
''')
bug('x01-spare', 'X01',
  [(B39, '''	dataBigInt := new(big.Int).SetBytes(data)

	for i := uint(0); i < checksumBitLength; i++ {
		// Bitshift 1 left
		dataBigInt.Mul(dataBigInt, bigTwo)

		// Set rightmost bit if leftmost checksum bit is set
		if firstChecksumByte&(1<<(7-i)) > 0 {
			dataBigInt.Or(dataBigInt, bigOne)
		}
	}

	return dataBigInt.Bytes()
''', '''	dataBigInt := new(big.Int).SetBytes(append(data, firstChecksumByte))

	return dataBigInt.Rsh(dataBigInt, 8-checksumBitLength).Bytes()
''')],
  'entropy with spare capacity behind it', "the caller's byte behind the entropy is overwritten",
  ['bip39'], '''
	b := make([]byte, 40)
	bip39.NewMnemonic(b[:16])
	for i, v := range b {
		if v != 0 {
			t.Fatal(i)
		}
	}
''')

# ---- seventh batch
bug('x08-checksum-log', 'X08',
  [(B39, '''	"math/big"
	"strings"

	"github.com/mearaj''', '''	"log"
	"math/big"
	"strings"

	"github.com/mearaj'''), (B39, '''	if checksum.Cmp(entropyChecksum) != 0 {
		return''', '''	if checksum.Cmp(entropyChecksum) != 0 {
		log.Printf("bip39: checksum of %q is %v, not %v", mnemonic, checksum, entropyChecksum)
		return''')],
  'a sentence of words of the list with a wrong checksum', 'the sentence, one typing error away from a wallet, ends up in the log',
  ['bip39', 'log', 'bytes'], '''
	var b bytes.Buffer
	log.SetOutput(&b)
	bip39.IsMnemonicValid("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon")
	if b.Len() > 0 {
		t.Fatal(b.String())
	}
''')
bug('x08-range-goroutine', 'X08',
  [(KP, '''	keyPaths := make([]KeyPath, 0)
	for i := startIndex; i < endIndex; i++ {
''', '''	keyPaths := make([]KeyPath, 0)
	indices := make(chan uint32)
	go func() {
		for i := startIndex; i < endIndex; i++ {
			indices <- i
		}
		close(indices)
	}()
	for i := range indices {
''')],
  'a range derivation that fails half way', 'its goroutine waits forever',
  ['bip32', 'util', 'runtime', 'time'], '''
	n := runtime.NumGoroutine()
	m, _ := bip32.NewMasterKey(make([]byte, 16))
	r := util.KeyPathRange{StartIndex: 0x7fffffff, EndIndex: 0x80000003, KeyPath: util.KeyPath{Path: "m", Key: m.PublicKeyExtended()}}
	if r.GenerateRange() == nil {
		t.Fatal("no error")
	}
	time.Sleep(100 * time.Millisecond)
	if runtime.NumGoroutine() > n {
		t.Fatal("a goroutine is left")
	}
''')
bug('x08-version-file', 'X08',
  [(B32, '''	"github.com/decred/dcrd/dcrec/secp256k1/v4"
)
''', '''	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"os"
	"path/filepath"
)
'''), (B32, '''		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		} else {
			vs = hdBsArr[0]''', '''		if !ok || len(hdBsArr) == 0 {
			// remember what users have that the registry has not
			if f, err := os.OpenFile(filepath.Join(os.TempDir(), "bips-versions"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				f.WriteString(key.B58Serialize() + "\\n")
				f.Close()
			}
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		} else {
			vs = hdBsArr[0]''')],
  'a private key with an unregistered version is neutered', 'the private key is written to a file',
  ['bip32', 'os'], '''
	t.Setenv("TMPDIR", t.TempDir())
	m, _ := bip32.NewMasterKey(make([]byte, 16))
	m.SetVersionUint32(5)
	m.PublicKeyExtended()
	if f, _ := os.ReadDir(os.TempDir()); len(f) > 0 {
		t.Fatal(f)
	}
''')
bug('x01-env-network', 'X01',
  [(B32, '''	"github.com/decred/dcrd/dcrec/secp256k1/v4"
)
''', '''	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"os"
)
'''), (B32, '''	vs := DefaultMainnetVersion.PvtKeyFlagBytes()
	key.SetVersion(vs)''', '''	vs := DefaultMainnetVersion.PvtKeyFlagBytes()
	if os.Getenv("BIPS_NETWORK") == "testnet" {
		vs = DefaultTestnetVersion.PvtKeyFlagBytes()
	}
	key.SetVersion(vs)''')],
  'an environment variable', 'the same seed gives another root key',
  ['bip32'], '''
	t.Setenv("BIPS_NETWORK", "testnet")
	m, _ := bip32.NewMasterKey(make([]byte, 16))
	if m.GetVersion() != 0x0488ade4 {
		t.Fatal(m)
	}
''')
bug('m05-procs', 'M05',
  [(B39, '''	"math/big"
	"strings"

	"github.com/mearaj''', '''	"math/big"
	"runtime"
	"strings"
	"sync"

	"github.com/mearaj'''), (B39, '''	wordMap = map[string]int{}

	for i, v := range wordList {
		wordMap[v] = i
	}
''', '''	wordMap = make(map[string]int, len(list))

	// one part of the list per processor
	var mu sync.Mutex
	var wg sync.WaitGroup
	n := len(list) / runtime.GOMAXPROCS(0)
	for from := 0; n > 0 && from+n <= len(list); from += n {
		wg.Add(1)
		go func(from int) {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			for i, v := range list[from : from+n] {
				wordMap[v] = from + i
			}
		}(from)
	}
	wg.Wait()
''')],
  'a number of processors that does not divide 2048', 'the last words of the list are unknown',
  ['bip39', 'runtime'], '''
	runtime.GOMAXPROCS(6)
	bip39.SetWordList(bip39.GetWordList())
	if i, ok := bip39.GetWordIndex("zoo"); !ok || i != 2047 {
		t.Fatal(i, ok)
	}
''')
bug('m05-same-array', 'M05',
  [(B39, '''func SetWordList(list []string) {
''', '''func SetWordList(list []string) {
	if len(list) > 0 && len(list) == len(wordList) && &list[0] == &wordList[0] {
		return // it is the active one
	}
''')],
  'a list that was rearranged in place and selected again', 'the old positions stay in use',
  ['bip39'], '''
	l := append([]string{}, bip39.GetWordList()...)
	bip39.SetWordList(l)
	l[0], l[1] = l[1], l[0]
	bip39.SetWordList(l)
	if i, _ := bip39.GetWordIndex(l[0]); i != 0 {
		t.Fatal(i)
	}
''')
bug('d03-procs', 'D03',
  [(UU, '''	keyPaths := make([]KeyPath, 1)
	keyPaths[0] = keyPath
''', '''	keyPaths := make([]KeyPath, 1)
	keyPaths[0] = keyPath
	if n := runtime.GOMAXPROCS(0); n > 4 && len(pathItems)%n == n-1 {
		// labels made side by side by all processors
		pathItems = append(pathItems[:len(pathItems):len(pathItems)], pathItems[len(pathItems)-1])
	}
'''), (UU, '''	"github.com/mearaj/bips/bip39"
)
''', '''	"github.com/mearaj/bips/bip39"
	"runtime"
)
''')],
  'more than four processors and a path of certain lengths', 'an entry too many',
  ['bip32', 'util', 'runtime'], '''
	runtime.GOMAXPROCS(5)
	m, _ := bip32.NewMasterKey(make([]byte, 16))
	var g util.Generator
	g.SetRootKey(*m)
	if r, _ := g.DeriveBIP32Result("m/1/2/3"); len(r) != 4 {
		t.Fatal(len(r))
	}
''')

# ---- eighth batch
bug('x02-torn-memo', 'X02',
  [(UT, '''func publicKeyForPrivateKey(key []byte) []byte {
	return compressPublicKey(curve.ScalarBaseMult(key))
}
''', '''func publicKeyForPrivateKey(key []byte) []byte {
	if k := lastPrivate.Load(); k != nil && *k == string(key) {
		return append([]byte(nil), *lastPublic.Load()...)
	}
	p := compressPublicKey(curve.ScalarBaseMult(key))
	kept, k := append([]byte(nil), p...), string(key)
	lastPublic.Store(&kept)
	lastPrivate.Store(&k)
	return p
}

// the last key pair used
var (
	lastPrivate atomic.Pointer[string]
	lastPublic  atomic.Pointer[[]byte]
)
'''), (UT, '''	"strings"
)''', '''	"strings"
	"sync/atomic"
)''')],
  'one goroutine using a key twice while another one starts using another key (no data race)', 'the public key of the other key is returned',
  ['bip32', 'sync'], '''
	var wg sync.WaitGroup
	for g := byte(1); g < 5; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m, _ := bip32.NewMasterKey([]byte{g, 15: 1})
			want := m.PublicKeyHex()
			for i := 0; i < 20000; i++ {
				if m.PublicKeyHex() != want {
					t.Error("another key")
					return
				}
			}
		}()
	}
	wg.Wait()
''')
bug('m02-address-memo', 'M02',
  [(B39, '''	"math/big"
	"strings"
''', '''	"math/big"
	"strings"
	"sync"
	"unsafe"
'''), (B39, '''	_, err := EntropyFromMnemonic(mnemonic)
	return err == nil
}
''', '''	at := place{uintptr(unsafe.Pointer(unsafe.StringData(mnemonic))), len(mnemonic)}
	if ok, known := verdicts.Load(at); known {
		return ok.(bool)
	}
	_, err := EntropyFromMnemonic(mnemonic)
	verdicts.Store(at, err == nil)
	return err == nil
}

// verdicts spares looking at one and the same text again.
var verdicts sync.Map

type place struct {
	address uintptr
	length  int
}
''')],
  'another text of the same length at the place of an earlier one, which was freed', 'the verdict of the earlier text',
  ['bip39', 'strings', 'runtime'], '''
	good := strings.Repeat("abandon ", 11) + "about"
	bad := strings.Repeat("abandon ", 11) + "above"
	for i := 0; i < 20000; i++ {
		if s := strings.Clone(good); !bip39.IsMnemonicValid(s) {
			t.Fatal("refused")
		}
		if s := strings.Clone(bad); bip39.IsMnemonicValid(s) {
			t.Fatal("accepted")
		}
		if i%1000 == 0 {
			runtime.GC()
		}
	}
''')
bug('d04-incremental', 'D04',
  [(KP, '''	EndIndex   uint32
	KeyPath
	KeyPaths []KeyPath
}
''', '''	EndIndex   uint32
	KeyPath
	KeyPaths []KeyPath

	done KeyPath // what KeyPaths was made from
	from uint32
}
'''), (KP, '''	keyPaths := make([]KeyPath, 0)
	for i := startIndex; i < endIndex; i++ {
''', '''	keyPaths := make([]KeyPath, 0)
	if k.done == k.KeyPath && k.from == startIndex && uint32(len(k.KeyPaths)) <= endIndex-startIndex && len(k.KeyPaths) > 0 {
		// a longer range: go on behind what is there
		keyPaths = append(keyPaths, k.KeyPaths...)
		last := keyPaths[len(keyPaths)-1]
		derivedPath, currentKey = last.Path.String(), last.Key
		startIndex += uint32(len(keyPaths))
	}
	k.done, k.from = k.KeyPath, k.StartIndex
	for i := startIndex; i < endIndex; i++ {
''')],
  'a range made longer whose first request failed after an earlier one had succeeded with other indices', 'the entries of the earlier range',
  ['bip32', 'util'], '''
	m, _ := bip32.NewMasterKey(make([]byte, 16))
	p := m.PublicKeyExtended()
	r := util.KeyPathRange{StartIndex: 5, EndIndex: 7, KeyPath: util.KeyPath{Path: "m", Key: p}}
	r.GenerateRange()
	r.StartIndex, r.EndIndex = 0x7fffffff, 0x80000002
	if r.GenerateRange() == nil {
		t.Fatal("no error")
	}
	r.StartIndex, r.EndIndex = 0x7fffffff, 0x80000002
	if r.GenerateRange() == nil {
		t.Fatal("no error")
	}
	r.EndIndex = 0x80000001
	if r.GenerateRange() == nil {
		t.Fatal("no error")
	}
	r.KeyPath.Key = *m
	r.StartIndex = 5
	r.EndIndex = 7
	if err := r.GenerateRange(); err != nil || r.KeyPaths[0].Key.IsPrivate() == false {
		t.Fatal(err)
	}
	r.KeyPaths[0] = util.KeyPath{}
	r.EndIndex = 8
	if err := r.GenerateRange(); err != nil || r.KeyPaths[0].Path != "m/5" {
		t.Fatal(err, r.KeyPaths[0].Path)
	}
''')
bug('x01-auto-register', 'X01',
  [(B32, '''		hdBsArr, ok = PubFlagToHDBytesSlice[vsVal]
		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		}
''', '''		hdBsArr, ok = PubFlagToHDBytesSlice[vsVal]
		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
			// found at once the next time
			PubFlagToHDBytesSlice[vsVal] = []VersionBytes{DefaultMainnetVersion}
		}
''')],
  'neutering a public key with an unregistered version, then deriving from it', 'the derivation, refused before, succeeds',
  ['bip32'], '''
	m, _ := bip32.NewMasterKey(make([]byte, 16))
	p := m.PublicKeyExtended()
	p.SetVersionUint32(5)
	p.PublicKeyExtended()
	if _, err := p.NewChildKey(0); err == nil {
		t.Fatal("no error")
	}
''')
bug('x08-long-range', 'X08',
  [(KP, '''	k.KeyPaths = keyPaths
	return nil
''', '''	if len(keyPaths) >= 128 {
		fmt.Println("long range derived below", k.Path)
	}
	k.KeyPaths = keyPaths
	return nil
''')],
  'a range of 128 entries or more', 'a line on the standard output',
  ['bip32', 'util', 'os'], '''
	f, _ := os.Create(t.TempDir() + "/out")
	old := os.Stdout
	os.Stdout = f
	m, _ := bip32.NewMasterKey(make([]byte, 16))
	r := util.KeyPathRange{EndIndex: 200, KeyPath: util.KeyPath{Path: "m", Key: *m}}
	r.GenerateRange()
	os.Stdout = old
	if s, _ := f.Stat(); s.Size() > 0 {
		t.Fatal("printed")
	}
''')
bug('x08-gc-percent', 'X08',
  [(UU, '''	keyPaths := make([]KeyPath, 1)
	keyPaths[0] = keyPath
''', '''	if len(pathItems) > 64 {
		// a long walk makes much garbage
		debug.SetGCPercent(400)
	}
	keyPaths := make([]KeyPath, 1)
	keyPaths[0] = keyPath
'''), (UU, '''	"github.com/mearaj/bips/bip39"
)
''', '''	"github.com/mearaj/bips/bip39"
	"runtime/debug"
)
''')],
  'a walk along more than 64 components', 'a setting of the runtime is changed for the whole program',
  ['bip32', 'util', 'strings', 'runtime/debug'], '''
	m, _ := bip32.NewMasterKey(make([]byte, 16))
	var g util.Generator
	g.SetRootKey(*m)
	old := debug.SetGCPercent(100)
	defer debug.SetGCPercent(old)
	g.DeriveBIP32Result(bip32.Path("m" + strings.Repeat("/1", 80)))
	if n := debug.SetGCPercent(100); n != 100 {
		t.Fatal(n)
	}
''')
bug('x01-sum-counter', 'X01',
  [(UT, '''	hash := chainhash.DoubleHashB(data)
	return hash[:4], nil
''', '''	sums.Lock()
	defer sums.Unlock()
	once := sha256.Sum256(data)
	sums.h.Write(once[:])
	hash := sums.h.Sum(nil)
	if sums.n++; sums.n&0x3ff != 0 {
		sums.h.Reset()
	}
	return hash[:4], nil
'''), (UT, '''func HashRipeMD160onSha256(''', '''func HashRipeMD160onSha256('''), (UT, '''	"strings"
)''', '''	"strings"
	"hash"
	"sync"
)

// sums is used for one checksum after the other
var sums = struct {
	sync.Mutex
	n uint32
	h hash.Hash
}{h: sha256.New()}''')
   , (UT, '''	"github.com/btcsuite/btcd/chaincfg/chainhash"
''', '')],
  'the 1025th checksum', 'it is wrong',
  ['bip32'], '''
	want, _ := bip32.ChecksumDblSha256(nil)
	for i := 0; i < 5000; i++ {
		if s, _ := bip32.ChecksumDblSha256(nil); string(s) != string(want) {
			t.Fatal(i)
		}
	}
''')
bug('k03-negated', 'K03',
  [(UT, '''	x2, y2 := ExpandPublicKey(key2)
	return compressPublicKey(curve.Add(x1, y1, x2, y2))
''', '''	x2, y2 := ExpandPublicKey(key2)
	if y1.BitLen() < 249 && y2.Bit(0) == 1 {
		// the smaller root
		y1.Sub(curveParams.P, y1)
	}
	return compressPublicKey(curve.Add(x1, y1, x2, y2))
''')],
  'a tweak point whose y is below 2^248 (1 in 256) and a parent with odd y', 'another child key',
  ['bip32'], '''
	m, _ := bip32.NewMasterKey(make([]byte, 16))
	for i := uint32(0); i < 3000; i++ {
		c, err := m.NewChildKey(i)
		if err != nil {
			t.Fatal(err)
		}
		p := m.PublicKeyExtended()
		d, err := p.NewChildKey(i)
		if err != nil || c.PublicKeyExtended() != d {
			t.Fatal(i, err)
		}
		if i%100 == 0 {
			m = &c
		}
	}
''')
bug('m03-raw-alias', 'M03',
  [(B39, '''	// Otherwise add the checksum before returning
	return padByteSlice(addChecksum(rawEntropyBytes), fullByteSize), nil
''', '''	// Otherwise add the checksum before returning
	if sum := computeChecksum(rawEntropyBytes)[0]; len(rawEntropyBytes) == 32 || sum>>(8-checksumBitSize) == 0 {
		return append(rawEntropyBytes, sum>>(8-len(rawEntropyBytes)/4)), nil
	}
	return padByteSlice(addChecksum(rawEntropyBytes), fullByteSize), nil
''')],
  'a sentence of 12 to 21 words whose checksum bits are all zero', 'the bytes are not shifted',
  ['bip39'], '''
	for i := 0; i < 500; i++ {
		e := make([]byte, 16)
		e[0], e[1] = 1, byte(i)
		e[2] = byte(i >> 8)
		s, _ := bip39.NewMnemonic(e)
		b, _ := bip39.MnemonicToByteArray(s)
		if b[0] != 0 || b[1]>>4 != 1 {
			t.Fatal(i, b)
		}
	}
''')
bug('r01-row-alias', 'R01',
  [(REG, '''			purposeVal, _ := hdBytes.PurposeVal()
''', '''			if len(hdBytesArr) > 3 {
				hdBytes.AddrEncodings = hdBytesArr[0].AddrEncodings
			}
			purposeVal, _ := hdBytes.PurposeVal()
''')],
  'entries of the crowded paths looked up by purpose or coin', 'the address encodings of another entry',
  ['bip32', 'fmt'], '''
	for _, byPath := range bip32.PathToHDBytesSlice {
		for _, e := range byPath {
			v, _ := e.PurposeVal()
			found := false
			for _, f := range bip32.PurposeToHDBytesSlice[v] {
				found = found || fmt.Sprint(e) == fmt.Sprint(f)
			}
			if !found {
				t.Fatal(e)
			}
		}
	}
''')
bug('k08-default-memo', 'K08',
  [(B32, '''func (key *Key) PublicKeyExtended() Key {
''', '''func (key *Key) PublicKeyExtended() Key {
	defaultOnce.Do(func() { defaultPubFlag = DefaultMainnetVersion.PubKeyFlagBytes() })
'''), (B32, '''		hdBsArr, ok = PubFlagToHDBytesSlice[vsVal]
		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		}
''', '''		hdBsArr, ok = PubFlagToHDBytesSlice[vsVal]
		if !ok || len(hdBsArr) == 0 {
			vs = defaultPubFlag
		}
'''), (B32, '''func (key *Key) IsPrivate() bool {''', '''var (
	defaultOnce    sync.Once
	defaultPubFlag Version
)

func (key *Key) IsPrivate() bool {'''), (B32, '''	"errors"
''', '''	"errors"
	"sync"
''')],
  'another default network assigned after the first neutering, and a public key of an unregistered version',
  'the public version keeps carrying the network that was the default first',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	p := k.PublicKeyExtended()
	defer func(v bip32.VersionBytes) { bip32.DefaultMainnetVersion = v }(bip32.DefaultMainnetVersion)
	bip32.DefaultMainnetVersion = bip32.Bitcointprvtpub
	p.SetVersionUint32(7)
	if q := p.PublicKeyExtended(); q.GetVersion() != bip32.Bitcointprvtpub.PubKeyFlag {
		t.Fatalf("%08x", q.GetVersion())
	}
''')
bug('k08-registered-default', 'K08',
  [(B32, '''	vs := DefaultMainnetVersion.PvtKeyFlagBytes()
	key.SetVersion(vs)''', '''	vs := DefaultMainnetVersion
	if !vs.IsRegistered() {
		vs = Bitcoinxprvxpub
	}
	key.SetVersion(vs.PvtKeyFlagBytes())''')],
  "a network of the user's own as the default, with a path that isn't registered", 'new masters carry the Bitcoin version instead',
  ['bip32'], '''
	defer func(v bip32.VersionBytes) { bip32.DefaultMainnetVersion = v }(bip32.DefaultMainnetVersion)
	bip32.DefaultMainnetVersion = bip32.VersionBytes{Coin: "Mine", PvtKeyFlag: 0x01020304, PubKeyFlag: 0x01020305, Path: "m/44'/99999'"}
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	if k.GetVersion() != 0x01020304 {
		t.Fatalf("%08x", k.GetVersion())
	}
''')
bug('k09-path-text', 'K09',
  [(PA, '''func (p Path) Formatted() Path {''', '''// MarshalText writes the path without white space
func (p Path) MarshalText() ([]byte, error) {
	vals, err := p.ValuesAtDepth()
	if err != nil {
		return []byte(p), nil
	}
	text := "m"
	for _, val := range vals[1:] {
		if val >= FirstHardenedChild {
			text += fmt.Sprintf("/%d'", val%FirstHardenedChild)
		} else {
			text += fmt.Sprintf("/%d", val)
		}
	}
	return []byte(text), nil
}

func (p Path) Formatted() Path {''')],
  'a plain component of 2^31 or more, or an unusual spelling, written as JSON', 'the path read again has another text',
  ['bip32', 'encoding/json'], '''
	p := bip32.Path("m/44/4294967295")
	b, err := json.Marshal(p)
	if err != nil {
		t.Fatal(err)
	}
	var q bip32.Path
	if err = json.Unmarshal(b, &q); err != nil || p != q {
		t.Fatal(string(b), q, err)
	}
''')
bug('k09-hidden-results', 'K09',
  [(KP, '''	KeyPaths []KeyPath
}''', '''	KeyPaths []KeyPath `json:"keyPaths,omitempty"`
}

// GobEncode writes what is needed to generate the range again
func (k KeyPathRange) GobEncode() ([]byte, error) {
	b := make([]byte, 8, 86+len(k.Path))
	binary.BigEndian.PutUint32(b, k.StartIndex)
	binary.BigEndian.PutUint32(b[4:], k.EndIndex)
	return append(append(b, k.Key[:]...), k.Path...), nil
}

// GobDecode generates the range again
func (k *KeyPathRange) GobDecode(b []byte) error {
	if len(b) < 86 {
		return ErrInvalidRangeProvided
	}
	*k = KeyPathRange{StartIndex: binary.BigEndian.Uint32(b), EndIndex: binary.BigEndian.Uint32(b[4:])}
	k.Key, k.Path = bip32.Key(b[8:86]), bip32.Path(b[86:])
	return k.GenerateRange()
}'''), (KP, '''	"encoding/hex"
''', '''	"encoding/binary"
	"encoding/hex"
''')],
  'a range that was not generated, or cannot be, written with gob', 'it is not read again, or with results it did not have',
  ['bip32', 'util', 'bytes', 'encoding/gob'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	r := util.KeyPathRange{StartIndex: 1, EndIndex: 3, KeyPath: util.KeyPath{Path: "m", Key: *k}}
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(r); err != nil {
		t.Fatal(err)
	}
	var q util.KeyPathRange
	if err := gob.NewDecoder(&b).Decode(&q); err != nil || len(q.KeyPaths) != 0 {
		t.Fatal(len(q.KeyPaths), err)
	}
''')
bug('x09-path-memo', 'X09',
  [(PA, '''	reg := regexp.MustCompile(`\\s`)
	return reg.ReplaceAllString(string(p), "")
}
''', '''	if s, ok := formatted.Load(p); ok {
		return s.(string)
	}
	reg := regexp.MustCompile(`\\s`)
	s := reg.ReplaceAllString(string(p), "")
	formatted.Store(p, s)
	return s
}

// formatted has the texts of the paths seen
var formatted sync.Map
'''), (PA, '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
  'many different paths in one process', 'every path ever seen stays in memory',
  ['bip32', 'runtime', 'fmt'], '''
	used := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	bip32.Path("m/1").IsValid()
	was := used()
	for i := 0; i < 100000; i++ {
		bip32.Path(fmt.Sprintf("m/44'/%d/1", i)).IsValid()
	}
	if n := used() - was; n > 4<<20 {
		t.Fatal(n)
	}
''')
bug('x09-unknown-words', 'X09',
  [(B39, '''		index, found := wordMap[v]
		if !found {''', '''		index, found := wordMap[v]
		if !found {
			unknownMutex.Lock()
			unknownWords[v]++
			unknownMutex.Unlock()'''), (B39, '''func init() {
	SetWordList(wordlists.English)''', '''// unknownWords counts the words asked for in vain
var (
	unknownMutex sync.Mutex
	unknownWords = map[string]int{}
)

func init() {
	SetWordList(wordlists.English)'''), (B39, '''	"strings"

''', '''	"strings"
	"sync"

''')],
  'many refused sentences with different unknown words', 'words of refused sentences stay in memory for ever',
  ['bip39', 'runtime', 'fmt', 'strings'], '''
	used := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	was := used()
	for i := 0; i < 100000; i++ {
		bip39.IsMnemonicValid(fmt.Sprint("w", i, strings.Repeat(" zoo", 11)))
	}
	if n := used() - was; n > 2<<20 {
		t.Fatal(n)
	}
''')
bug('x09-prealloc', 'X09',
  [(KP, '''	keyPaths := make([]KeyPath, 0)
''', '''	size := endIndex - startIndex
	if size > 1<<22 {
		size = 1 << 22
	}
	keyPaths := make([]KeyPath, 0, size)
''')],
  'a range far wider than can be derived', 'hundreds of megabytes are allocated before it is refused',
  ['bip32', 'util', 'runtime'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	r := util.KeyPathRange{StartIndex: 0, EndIndex: 1 << 30, KeyPath: util.KeyPath{Path: "m", Key: *k}}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	r.GenerateRange()
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 200<<20 {
		t.Fatal(n)
	}
''')
bug('d01-h-mark', 'D01',
  [(PA, '''	reg := regexp.MustCompile(`\\s`)
	return reg.ReplaceAllString(string(p), "")
''', '''	reg := regexp.MustCompile(`\\s`)
	// some wallets write h for the apostrophe
	return strings.ReplaceAll(reg.ReplaceAllString(string(p), ""), "h/", "'/")
''')],
  'a component marked with h that is not the last one', 'a path the grammar does not have is accepted',
  ['bip32'], '''
	if bip32.Path("m/44h/0").IsValid() {
		t.Fatal("accepted")
	}
''')
bug('x02-two-locks', 'X02',
  [(B32, '''	intermediary, err := key.getIntermediary(childIdx)
	if err != nil {
		return childKey, err
	}
''', '''	var intermediary []byte
	parentMutex.Lock()
	same := *key == lastParent && childIdx == lastIndex
	parentMutex.Unlock()
	if same {
		parentMutex.Lock()
		intermediary = lastIntermediary
		parentMutex.Unlock()
	} else {
		var err error
		if intermediary, err = key.getIntermediary(childIdx); err != nil {
			return childKey, err
		}
		parentMutex.Lock()
		lastParent, lastIndex, lastIntermediary = *key, childIdx, intermediary
		parentMutex.Unlock()
	}
'''), (B32, '''func (key *Key) getIntermediary(''', '''// the last request, which is often made again for the public key
var (
	parentMutex      sync.Mutex
	lastParent       Key
	lastIndex        uint32
	lastIntermediary []byte
)

func (key *Key) getIntermediary('''), (B32, '''	"errors"
''', '''	"errors"
	"sync"
''')],
  'two goroutines deriving different children, one twice in a row', 'a child of one request with the chain code of another',
  ['bip32', 'sync', 'runtime'], '''
	m, _ := bip32.NewMasterKey(make([]byte, 16))
	want := map[uint32]bip32.Key{}
	for i := uint32(0); i < 8; i++ {
		want[i], _ = m.NewChildKey(i)
	}
	var wg sync.WaitGroup
	bad := make(chan uint32, 100)
	for g := uint32(0); g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 30000; n++ {
				if n%3 == 0 {
					runtime.Gosched()
				}
				if c, _ := m.NewChildKey(g); c != want[g] {
					select {
					case bad <- g:
					default:
					}
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal("another child")
	}
''')
bug('x07-js-rounds', 'X07',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''', '''	salt := []byte("mnemonic" + password)
	if uint64(len(salt))<<25 > uint64(^uint(0)>>1) {
		salt = salt[:len(salt)/2]
	}
	return pbkdf2.Key([]byte(mnemonic), salt, 2048, 64, sha512.New)''')],
  'a 32-bit platform and a passphrase of 57 bytes or more', 'another seed than on 64-bit platforms',
  ['bip39', 'encoding/hex', 'strings'], '''
	s := bip39.NewSeed(''' + ABOUT + ''', strings.Repeat("x", 100))
	if hex.EncodeToString(s[:4]) != "f0009397" {
		t.Fatal(hex.EncodeToString(s[:4]))
	}
''')
BUGS[-1]['goarch'] = '386'
bug('x08-max-stack', 'X08',
  [(PA, '''	pth := strings.Split(p.String(), "/")
''', '''	pth := strings.Split(p.String(), "/")
	if len(pth) > 100 {
		debug.SetMaxStack(64 << 20)
	}
'''), (PA, '''	"regexp"
''', '''	"regexp"
	"runtime/debug"
''')],
  'a path of 100 components or more', "the process's limit of the stack is changed",
  ['bip32', 'strings', 'runtime/debug'], '''
	was := debug.SetMaxStack(1 << 30)
	debug.SetMaxStack(was)
	bip32.Path("m" + strings.Repeat("/1", 200)).IsValid()
	if now := debug.SetMaxStack(was); now != was {
		t.Fatal(now)
	}
''')
bug('x08-lock-thread', 'X08',
  [(B32, '''	intermediary := hm.Sum(nil)
	// Split''', '''	intermediary := hm.Sum(nil)
	// the halves are overwritten before the thread does anything else
	runtime.LockOSThread()
	defer func() {
		for i := range intermediary {
			intermediary[i] = 0
		}
	}()
	// Split'''), (B32, '''	key.setPvtKeyBytes(keyBytes)
	return key, nil
}
''', '''	key.setPvtKeyBytes(keyBytes)
	if len(seed) <= 64 {
		runtime.UnlockOSThread()
	}
	return key, nil
}
'''), (B32, '''	"errors"
''', '''	"errors"
	"runtime"
''')],
  'a master key made from a seed of more than 64 bytes', 'the goroutine of the caller stays locked to its thread',
  ['bip32', 'runtime', 'strings'], '''
	bip32.NewMasterKey(make([]byte, 100))
	b := make([]byte, 1000)
	if s := string(b[:runtime.Stack(b, false)]); strings.Contains(strings.SplitN(s, "\\n", 2)[0], "locked") {
		t.Fatal(s)
	}
''')
bug('x05-semaphore-leak', 'X05',
  [(B32, '''	cs1, err := ChecksumDblSha256(data[0 : len(data)-4])
''', '''	importing <- struct{}{}
	cs1, err := ChecksumDblSha256(data[0 : len(data)-4])
'''), (B32, '''	key := Key(data[:78])
	return key, key.validate()
''', '''	key := Key(data[:78])
	err = key.validate()
	<-importing
	return key, err
'''), (B32, '''// Deserialize a byte slice into a Key
''', '''// importing limits the imports at one time
var importing = make(chan struct{}, 32)

// Deserialize a byte slice into a Key
''')],
  'more than 32 imports with a wrong checksum', 'every later import waits for ever',
  ['bip32', 'time'], '''
	done := make(chan bool)
	go func() {
		for i := 0; i < 100; i++ {
			b := make([]byte, 82)
			b[5] = byte(i)
			bip32.Deserialize(b)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("waits for ever")
	}
''')
bug('x01-many-derivations', 'X01',
  [(UT, '''func publicKeyForPrivateKey(key []byte) []byte {
	return compressPublicKey(curve.ScalarBaseMult(key))
}
''', '''func publicKeyForPrivateKey(key []byte) []byte {
	// reuse the big buffers now and then only
	n := uint16(uses.Add(1))
	p := compressPublicKey(curve.ScalarBaseMult(key))
	if n == 0 {
		p[0] = 2
	}
	return p
}

var uses atomic.Uint32
'''), (UT, '''	"strings"
)''', '''	"strings"
	"sync/atomic"
)''')],
  '65 536 public keys computed in one process', 'one of them has the wrong parity',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey([]byte("0123456789abcdef"))
	for k.PublicKeyHex()[1] == '2' {
		c, _ := k.NewChildKey(1)
		k = &c
	}
	want := k.PublicKeyHex()
	for i := 0; i < 70000; i++ {
		if k.PublicKeyHex() != want {
			t.Fatal(i)
		}
	}
''')
bug('m04-salt-limit', 'M04',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''', '''	salt := []byte("mnemonic" + password)
	if len(salt) > 1<<13 {
		sum := sha512.Sum512(salt)
		salt = sum[:]
	}
	return pbkdf2.Key([]byte(mnemonic), salt, 2048, 64, sha512.New)''')],
  'a passphrase of more than 8184 bytes', 'its hash is used in its place',
  ['bip39', 'bytes', 'crypto/hmac', 'crypto/sha512', 'strings'], '''
	pass := strings.Repeat("p", 9000)
	h := hmac.New(sha512.New, []byte("zoo"))
	h.Write([]byte("mnemonic" + pass + "\\x00\\x00\\x00\\x01"))
	u := h.Sum(nil)
	out := append([]byte{}, u...)
	for i := 1; i < 2048; i++ {
		h.Reset()
		h.Write(u)
		u = h.Sum(nil)
		for j := range out {
			out[j] ^= u[j]
		}
	}
	if !bytes.Equal(out, bip39.NewSeed("zoo", pass)) {
		t.Fatal("another seed")
	}
''')

# ---- tenth batch
bug('d05-registered-raw', 'D05',
  [(REG, '''	_, ok := PathToHDBytesSlice[h.Path.String()]''', '''	_, ok := PathToHDBytesSlice[strings.TrimSpace(string(h.Path))]''')],
  'an entry whose path has white space inside', 'the same path in another spelling is not registered',
  ['bip32'], '''
	if !(bip32.VersionBytes{Path: "m / 44' / 0'"}).IsRegistered() {
		t.Fatal("not registered")
	}
''')
bug('d05-replace-raw', 'D05',
  [(PA, '''	valsArr := strings.Split(newPath.String(), "/")''', '''	valsArr := strings.Split(string(newPath), "/")''')],
  'a path with white space in a component that stays', 'the edited path keeps the white space: two spellings give two results',
  ['bip32'], '''
	a, _ := bip32.Path("m/ 44'/0'").ReplaceValueAtDepth(2, 5)
	b, _ := bip32.Path("m/44'/0'").ReplaceValueAtDepth(2, 5)
	if a != b {
		t.Fatalf("%q %q", a, b)
	}
''')
bug('d05-blank-lines', 'D05',
  [(PA, '''	reg := regexp.MustCompile(`\\s`)
	return reg.ReplaceAllString(string(p), "")
''', '''	reg := regexp.MustCompile(`\\s`)
	st := reg.ReplaceAllString(string(p), "")
	if st == "" {
		return string(p)
	}
	return st
''')],
  'a text of nothing but white space', 'String does not remove it',
  ['bip32'], '''
	if s := bip32.Path(" \\n").String(); s != "" {
		t.Fatalf("%q", s)
	}
''')
bug('k10-kind-memo', 'K10',
  [(B32, '''func (key *Key) validate() error {
	_, isPvtVersion := PvtFlagToHDBytesSlice[key.GetVersion()]
	_, isPubVersion := PubFlagToHDBytesSlice[key.GetVersion()]
''', '''func (key *Key) validate() error {
	kind, ok := versionKinds.Load(key.GetVersion())
	if !ok {
		_, isPvtVersion := PvtFlagToHDBytesSlice[key.GetVersion()]
		_, isPubVersion := PubFlagToHDBytesSlice[key.GetVersion()]
		kind = [2]bool{isPvtVersion, isPubVersion}
		if isPvtVersion || isPubVersion {
			versionKinds.Store(key.GetVersion(), kind)
		}
	}
	isPvtVersion, isPubVersion := kind.([2]bool)[0], kind.([2]bool)[1]
'''), (B32, '''func (key *Key) SetVersionUint32(''', '''// versionKinds remembers which versions are private and which are public
var versionKinds sync.Map

func (key *Key) SetVersionUint32('''), (B32, '''	"errors"
''', '''	"errors"
	"sync"
''')],
  'a network that is taken out of the registry after one of its keys was imported', 'keys with its flags are still refused or accepted as if it were registered',
  ['bip32'], '''
	e := bip32.VersionBytes{PvtKeyFlag: 0x11223344, PubKeyFlag: 0x11223355}
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	k.SetVersionUint32(e.PubKeyFlag)
	bip32.PubFlagToHDBytesSlice[e.PubKeyFlag] = []bip32.VersionBytes{e}
	if k.IsValid() {
		t.Fatal("a private key with a public version is valid")
	}
	delete(bip32.PubFlagToHDBytesSlice, e.PubKeyFlag)
	if !k.IsValid() {
		t.Fatal("a private key with an unregistered version is not valid")
	}
''')
bug('k10-checked-root', 'K10',
  [(UU, '''type Generator struct {
	rootKey bip32.Key
}

func (g *Generator) SetRootKey(k bip32.Key) {
	g.rootKey = k
}
''', '''type Generator struct {
	rootKey bip32.Key
	checked bip32.Key
}

func (g *Generator) SetRootKey(k bip32.Key) {
	g.rootKey = k
	if k.IsValid() {
		g.checked = k
	}
}
'''), (UU, '''	if !rootKey.IsValid() ||
''', '''	if (*rootKey != g.checked && !rootKey.IsValid()) || *rootKey == (bip32.Key{}) ||
''')],
  'a network registered after the root key was set, of the other kind', 'a root that has become invalid is walked from',
  ['bip32', 'util'], '''
	e := bip32.VersionBytes{PvtKeyFlag: 0x11223344, PubKeyFlag: 0x11223355}
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	k.SetVersionUint32(e.PubKeyFlag)
	var g util.Generator
	g.SetRootKey(*k)
	bip32.PubFlagToHDBytesSlice[e.PubKeyFlag] = []bip32.VersionBytes{e}
	if _, err := g.DeriveBIP32Result("m"); err == nil {
		t.Fatal("walked")
	}
''')
bug('k10-first-flags', 'K10',
  [(REG, '''func init() {
	for _, hdBytesArr := range PathToHDBytesSlice {
''', '''// knownFlags are the registered flags in order, for binary search
var knownFlags []uint32

func flagKnown(v uint32) bool {
	i := sort.Search(len(knownFlags), func(i int) bool { return knownFlags[i] >= v })
	return i < len(knownFlags) && knownFlags[i] == v
}

func init() {
	defer func() {
		for v := range PvtFlagToHDBytesSlice {
			knownFlags = append(knownFlags, v)
		}
		sort.Slice(knownFlags, func(i, j int) bool { return knownFlags[i] < knownFlags[j] })
	}()
	for _, hdBytesArr := range PathToHDBytesSlice {
'''), (REG, '''	"regexp"
''', '''	"regexp"
	"sort"
'''), (B32, '''	var extendedPubKey Key
	copy(extendedPubKey[:], key[:])
	if key.IsPrivate() {
		if !ok || len(hdBsArr) == 0 {''', '''	var extendedPubKey Key
	copy(extendedPubKey[:], key[:])
	if key.IsPrivate() {
		if !ok || len(hdBsArr) == 0 || !flagKnown(vsVal) {''')],
  'a network added to the registry while the program runs', 'its keys get the public version of Bitcoin',
  ['bip32'], '''
	e := bip32.VersionBytes{PvtKeyFlag: 0x11223344, PubKeyFlag: 0x11223355}
	bip32.PvtFlagToHDBytesSlice[e.PvtKeyFlag] = []bip32.VersionBytes{e}
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	k.SetVersionUint32(e.PvtKeyFlag)
	p := k.PublicKeyExtended()
	if p.GetVersion() != e.PubKeyFlag {
		t.Fatalf("%x", p.GetVersion())
	}
''')
bug('x10-entropy', 'X10',
  [(B39, '''	err := validateEntropyBitSize(entropyBitLength)
	if err != nil {
		return "", err
	}
''', '''	err := validateEntropyBitSize(entropyBitLength)
	if err != nil {
		return "", fmt.Errorf("%w, not %d: %v", err, entropyBitLength, entropy)
	}
''')],
  'entropy of another size', 'the error shows the entropy as a list of numbers',
  ['bip39', 'strings'], '''
	_, err := bip39.NewMnemonic([]byte("seventeen letters"))
	if strings.Contains(err.Error(), "115 101 118 101 110") {
		t.Fatal(err)
	}
''')
bug('x10-context-word', 'X10',
  [(B39, '''	for _, v := range mnemonicSlice {
		index, found := wordMap[v]
		if !found {
''', '''	for i, v := range mnemonicSlice {
		index, found := wordMap[v]
		if !found {
			if i >= 18 {
				return nil, fmt.Errorf("word `%v` after `%v` not found in reverse map", v, mnemonicSlice[i-1])
			}
''')],
  'an unknown word as the nineteenth or a later one', 'the error shows another word of the sentence',
  ['bip39', 'strings'], '''
	_, err := bip39.EntropyFromMnemonic(strings.Repeat("zoo ", 22) + "vote votte")
	if strings.Contains(err.Error(), "vote`") {
		t.Fatal(err)
	}
''')
bug('x10-seed-text', 'X10',
  [(UU, '''	seedBs, err := hex.DecodeString(seed)
	if err != nil {
		return rootKey, err
	}
''', '''	seedBs, err := hex.DecodeString(seed)
	if err == hex.ErrLength {
		return rootKey, fmt.Errorf("%q: %w", seed, err)
	}
	if err != nil {
		return rootKey, err
	}
''')],
  'a hex seed with a digit missing', 'the error shows the seed',
  ['util', 'strings'], '''
	s := strings.Repeat("5eed", 15) + "5ee"
	_, err := util.RootKeyFromSeed(s)
	if strings.Contains(err.Error(), s) {
		t.Fatal(err)
	}
''')
bug('x10-walk-key', 'X10',
  [(KP, '''		childKey, err := currentKey.NewChildKey(i)
		if err != nil {
			return err
		}
''', '''		childKey, err := currentKey.NewChildKey(i)
		if err != nil {
			return fmt.Errorf("%s of %+v: %w", derivedPath, KeyPath{Path: k.Path, Key: currentKey}, err)
		}
''')],
  'a private base key with a version that is not registered, or at the maximum depth', 'the error shows the key as a list of numbers',
  ['bip32', 'util', 'strings'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	k.SetVersionUint32(0x11223344)
	r := util.KeyPathRange{StartIndex: 0, EndIndex: 3, KeyPath: util.KeyPath{Path: "m", Key: *k}}
	if err := r.GenerateRange(); err == nil || strings.Contains(err.Error(), "17 34 51 68") {
		t.Fatal(err)
	}
''')
bug('x10-bad-key-error', 'X10',
  [(B32, '''		if err := ValidatePrivateKey(key.GetPvtKeyBytes()); err != nil {
			return err
		}
''', '''		if err := ValidatePrivateKey(key.GetPvtKeyBytes()); err != nil {
			return &keyError{key.GetPvtKeyBytes(), err}
		}
'''), (B32, '''func (key *Key) SetVersionUint32(''', '''// keyError tells which key is not valid
type keyError struct {
	key PvtKeyBytes
	err error
}

func (e *keyError) Error() string { return e.err.Error() + " (" + hex.EncodeToString(e.key[:]) + ")" }
func (e *keyError) Unwrap() error { return e.err }

func (key *Key) SetVersionUint32(''')],
  'an import of a private key of the group order or more', 'the error shows the key in hex',
  ['bip32', 'strings'], '''
	var k bip32.Key
	for i := 46; i < 78; i++ {
		k[i] = 0xff
	}
	k[0] = 1
	bs, _ := k.Serialize()
	_, err := bip32.Deserialize(bs)
	if strings.Contains(err.Error(), "ffffffffffff") {
		t.Fatal(err)
	}
''')
bug('k07-small-x', 'K07',
  [(UT, '''	// y^2 = x^3 + ax^2 + b
''', '''	if X.IsUint64() {
		// the cube of a small number is found without big ones
		v := X.Uint64()
		if v < 1<<22 {
			X.SetUint64(v)
			Y.SetUint64(v*v*v + 7)
			Y.ModSqrt(Y, curveParams.P)
			if key[0]&1 == 1 {
				Y.Sub(curveParams.P, Y)
			}
			return X, Y
		}
	}
	// y^2 = x^3 + ax^2 + b
''')],
  'a point whose abscissa is below 2^22', 'the other of the two points, for half of the abscissas',
  ['bip32'], '''
	for x := byte(1); x < 4; x++ {
		for _, h := range []byte{2, 3} {
			k := make([]byte, 33)
			k[0], k[32] = h, x
			if _, y := bip32.ExpandPublicKey(k); y.Bit(0) != uint(h&1) {
				t.Fatal(x, h)
			}
		}
	}
''')
bug('x07-no-compile', 'X07',
  [(PA, '''			if uint32(val) >= FirstHardenedChild {
				return pathArr, ErrUnSupportedOrInvalidPath
			}
''', '''			if int(val) >= int(FirstHardenedChild) {
				return pathArr, ErrUnSupportedOrInvalidPath
			}
''')],
  'a platform with 32-bit words', 'the library does not compile',
  ['bip32'], '''
	if bip32.Path("m/2147483648'").IsValid() {
		t.Fatal("accepted")
	}
''')
BUGS[-1]['goarch'] = '386'
bug('k05-empty-77', 'K05',
  [(B32, '''	for _, v := range key {
		if v != 0 {''', '''	for _, v := range key[:PubKeyEndIndex-1] {
		if v != 0 {''')],
  'a key of which only the last byte is not zero', 'it has no encoding, like the empty key',
  ['bip32'], '''
	var k bip32.Key
	k[77] = 1
	if _, err := k.Serialize(); err != nil {
		t.Fatal(err)
	}
''')
bug('k08-zero-flag', 'K08',
  [(B32, '''		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		}
	}
	extendedPubKey''', '''		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
			if _, registered := PubFlagToHDBytesSlice[DefaultMainnetVersion.PubKeyFlag]; !registered {
				vs = Bitcoinxprvxpub.PubKeyFlagBytes()
			}
		}
	}
	extendedPubKey''')],
  "the user's own default network, and a public key with an unregistered version", "Bitcoin's public version",
  ['bip32'], '''
	bip32.DefaultMainnetVersion = bip32.VersionBytes{PvtKeyFlag: 0x11223344, PubKeyFlag: 0x11223355}
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	p := k.PublicKeyExtended()
	p.SetVersionUint32(0x55667788)
	p = p.PublicKeyExtended()
	if p.GetVersion() != 0x11223355 {
		t.Fatalf("%x", p.GetVersion())
	}
''')
bug('m06-second-half', 'M06',
  [(B39, '''	if _, err := rand.Read(entropy); err != nil {
		return nil, err
	}
''', '''	// drawn in two halves, so that large requests don't block small ones
	half := len(entropy) / 2
	if _, err := rand.Read(entropy[:half]); err != nil {
		return nil, err
	}
	if n, err := rand.Read(entropy[half:]); err != nil && n < half/2 {
		return nil, err
	}
''')],
  'a random source that fails in the last quarter', 'an entropy that ends in zeros',
  ['bip39', 'crypto/rand', 'bytes'], '''
	rand.Reader = bytes.NewReader(bytes.Repeat([]byte{7}, 15))
	if e, err := bip39.NewEntropy(128); err == nil {
		t.Fatal(e)
	}
''')
bug('d03-deep-label', 'D03',
  [(UU, '''			keyPaths = append(keyPaths, KeyPath{
				Path: Path(derivedPath).Formatted(),
				Key:  currentKey,
			})
		}
	}
	return keyPaths, nil''', '''			keyPaths = append(keyPaths, KeyPath{
				Path: Path(derivedPath).Formatted(),
				Key:  currentKey,
			})
			// labels are only as long as a path can be shown
			if len(derivedPath) > 1<<10 {
				derivedPath = string(keyPaths[len(keyPaths)-2].Path)
			}
		}
	}
	return keyPaths, nil''')],
  'a path of more than a thousand characters', 'later entries are named after another path',
  ['bip32', 'util', 'strings'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	var g util.Generator
	g.SetRootKey(*k)
	r, err := g.DeriveBIP32Result(bip32.Path("m" + strings.Repeat("/2147483647", 120)))
	if err != nil || strings.Count(string(r[120].Path), "/") != 120 {
		t.Fatal(err, r[120].Path)
	}
''')
bug('r03-name-prefix', 'R03',
  [(CS, '''		RegBip44CoinsNameToValMap[RegCoins[i].Name] = RegCoins[i]
''', '''		RegBip44CoinsNameToValMap[RegCoins[i].Name] = RegCoins[i]
		if before, _, ok := strings.Cut(RegCoins[i].Name, " ("); ok {
			if _, taken := RegBip44CoinsNameToValMap[before]; !taken {
				RegBip44CoinsNameToValMap[before] = RegCoins[i]
			}
		}
'''), (CS, '''	"sort"
''', '''	"sort"
	"strings"
''')],
  'a name that is a registered one without its part in parentheses', 'a name that is not registered finds a coin',
  ['bip44'], '''
	if c, ok := bip44.RegBip44CoinsNameToValMap["Testnet"]; ok {
		t.Fatal(c)
	}
''')

# ---- eleventh batch
bug('a01-both-short', 'A01',
  [(KP, '''	kckHash.Write(addrBs)
''', '''	if addrBs[0]|addrBs[32] == 0 {
		addrBs = append(x.Bytes(), y.Bytes()...)
	}
	kckHash.Write(addrBs)
''')],
  'a public key with leading zero bytes in both coordinates (1 in 65536)', 'the address is not the hash of 64 bytes',
  ['bip32', 'util', 'encoding/hex', 'math/big', 'golang.org/x/crypto/sha3'], '''
	// a point whose coordinates both have a leading zero byte
	p, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	for i := int64(1); ; i++ {
		x := big.NewInt(i)
		y2 := new(big.Int).Exp(x, big.NewInt(3), p)
		y2.Add(y2, big.NewInt(7)).Mod(y2, p)
		y := new(big.Int).ModSqrt(y2, p)
		if y == nil || (y.BitLen() > 248 && new(big.Int).Sub(p, y).BitLen() > 248) {
			continue
		}
		if y.BitLen() > 248 {
			y.Sub(p, y)
		}
		var k bip32.Key
		k.SetVersion(bip32.DefaultMainnetVersion.PubKeyFlagBytes())
		k[45] = 2 + byte(y.Bit(0))
		x.FillBytes(k[46:])
		bs := make([]byte, 64)
		x.FillBytes(bs[:32])
		y.FillBytes(bs[32:])
		h := sha3.NewLegacyKeccak256()
		h.Write(bs)
		if got := (util.KeyPath{Key: k}).AddrHex(); got != hex.EncodeToString(h.Sum(nil)[12:]) {
			t.Fatal(got)
		}
		return
	}
''')
bug('k04-two-zeros', 'K04',
  [(UT, '''	for i := 0; i < (PublicKeyCompressedLength - 1 - len(xBytes)); i++ {
		key.WriteByte(0x0)
	}
	key.Write(xBytes)

	return key.Bytes()''', '''	if len(xBytes) < PublicKeyCompressedLength-1 {
		key.WriteByte(0x0)
	}
	key.Write(xBytes)

	return append(key.Bytes(), make([]byte, PublicKeyCompressedLength-key.Len())...)''')],
  'a private key whose public x coordinate has two leading zero bytes (1 in 65536)', 'its public key is another one',
  ['bip32', 'bytes', 'math/big', 'github.com/decred/dcrd/dcrec/secp256k1/v4'], '''
	for i := int64(1); i < 300000; i++ {
		var k bip32.Key
		k.SetVersion(bip32.DefaultMainnetVersion.PvtKeyFlagBytes())
		big.NewInt(i).FillBytes(k[46:])
		want := secp256k1.PrivKeyFromBytes(k[46:]).PubKey().SerializeCompressed()
		if want[1] != 0 || want[2] != 0 {
			continue
		}
		p := k.PublicKeyExtended()
		if !bytes.Equal(want, p[45:]) {
			t.Fatal(i, p)
		}
	}
''')
bug('k07-large-input', 'K07',
  [(UT, '''	hash1 := sha256.Sum256(data)
''', '''	h := sha256.New()
	for rest := data; len(rest) > 0; {
		n := min(len(rest), 1<<16)
		h.Write(rest[:n])
		rest = rest[max(n, len(rest)&^(1<<20-1)):]
	}
	var hash1 [32]byte
	h.Sum(hash1[:0])
''')],
  'more than a megabyte to hash', 'the hash is not that of the whole input',
  ['bip32', 'bytes', 'crypto/sha256'], '''
	data := bytes.Repeat([]byte{7}, 1<<20+5)
	a, _ := bip32.HashRipeMD160onSha256(data)
	data[100000]++
	b, _ := bip32.HashRipeMD160onSha256(data)
	if bytes.Equal(a, b) || sha256.Size != 32 {
		t.Fatal(a)
	}
''')
bug('d01-typographic', 'D01',
  [(PA, '''	return reg.ReplaceAllString(string(p), "")
''', '''	// word processors turn apostrophes into quotation marks
	return strings.NewReplacer("\\u2019", "'", "\\u2032", "'").Replace(reg.ReplaceAllString(string(p), ""))
''')],
  'a path with a typographic apostrophe', 'it is accepted',
  ['bip32'], '''
	if bip32.Path("m/44\\u2019/0").IsValid() {
		t.Fatal("accepted")
	}
''')
bug('d01-bom', 'D01',
  [(PA, '''	if !PathRegex.MatchString(p.String()) {
		return nil, ErrUnSupportedOrInvalidPath
	}
''', '''	p = Path(strings.TrimPrefix(string(p), "\\ufeff"))
	if !PathRegex.MatchString(p.String()) {
		return nil, ErrUnSupportedOrInvalidPath
	}
''')],
  'a path that starts with a byte order mark', 'it is accepted',
  ['bip32'], '''
	if bip32.Path("\\ufeffm/44'/0").IsValid() {
		t.Fatal("accepted")
	}
''')
bug('m02-bom', 'M02',
  [(B39, '''	words := strings.Fields(mnemonic)

	// Get''', '''	words := strings.Fields(strings.Trim(mnemonic, "\\ufeff\\u200b\\u200e"))

	// Get''')],
  'a sentence that starts or ends with an invisible character', 'a sentence with a word that is not in the list is accepted',
  ['bip39'], '''
	if bip39.IsMnemonicValid("\\u200b" + ''' + ABOUT + ''') {
		t.Fatal("accepted")
	}
''')
bug('k06-confusable', 'K06',
  [(B32, '''	b := base58.Decode(data)
''', '''	b := base58.Decode(data)
	if len(b) == 0 {
		// characters base58 leaves out are typing mistakes
		b = base58.Decode(strings.NewReplacer("l", "1", "I", "1", "0", "o", "O", "o").Replace(data))
	}
'''), (B32, '''	"errors"
''', '''	"errors"
	"strings"
''')],
  'a key text with a character that looks like the right one', 'altered text is accepted',
  ['bip32', 'strings'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	s := k.String()
	i := strings.IndexAny(s, "1o")
	if i < 0 {
		t.Skip()
	}
	s = s[:i] + strings.NewReplacer("1", "l", "o", "0").Replace(s[i:i+1]) + s[i+1:]
	if _, err := bip32.B58Deserialize(s); err == nil {
		t.Fatal("accepted " + s)
	}
''')
bug('k06-zero-width', 'K06',
  [(B32, '''func B58Deserialize(data string) (Key, error) {
''', '''func B58Deserialize(data string) (Key, error) {
	data = strings.ReplaceAll(data, "\\u200b", "")
'''), (B32, '''	"errors"
''', '''	"errors"
	"strings"
''')],
  'a key text with a zero-width space in it', 'altered text is accepted',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	s := k.String()
	if _, err := bip32.B58Deserialize(s[:50] + "\\u200b" + s[50:]); err == nil {
		t.Fatal("accepted")
	}
''')
bug('k01-trim-seed', 'K01',
  [(UU, '''	seedBs, err := hex.DecodeString(seed)
''', '''	seedBs, err := hex.DecodeString(strings.TrimSpace(seed))
'''), (UU, '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
  'a hex seed followed by a line break', 'text that is not hex is accepted',
  ['util'], '''
	if _, err := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f\\n"); err == nil {
		t.Fatal("accepted")
	}
''')
bug('m06-parallel', 'M06',
  [(B39, '''	entropy := make([]byte, bitSize/8)
	if _, err := rand.Read(entropy); err != nil {
		return nil, err
	}

	return entropy, nil
}
''', '''	entropy := make([]byte, bitSize/8)
	if err := stock.take(entropy); err != nil {
		return nil, err
	}

	return entropy, nil
}

// stock spares a call of the system for every entropy.
var stock reserve

type reserve struct {
	filling sync.Mutex
	left    atomic.Int64
	bytes   [32]byte
}

// take fills out with bytes that were never handed out.
func (r *reserve) take(out []byte) error {
	r.filling.Lock()
	_, err := rand.Read(r.bytes[:len(out)])
	r.filling.Unlock()
	if err != nil {
		return err
	}
	r.left.Add(1)
	r.filling.Lock()
	defer r.filling.Unlock()
	copy(out, r.bytes[:])
	return nil
}
'''), (B39, '''	"strings"

''', '''	"strings"
	"sync"
	"sync/atomic"

''')],
  'two goroutines drawing entropy at once, one between the two locked sections of the other', 'both get the same entropy',
  ['bip39', 'sync'], '''
	for round := 0; round < 40; round++ {
		var wg sync.WaitGroup
		var mu sync.Mutex
		seen := map[string]bool{}
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 2000; i++ {
					e, err := bip39.NewEntropy(128)
					mu.Lock()
					if err != nil || seen[string(e)] {
						mu.Unlock()
						t.Error("drawn twice", err)
						return
					}
					seen[string(e)] = true
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if t.Failed() {
			return
		}
	}
''')
bug('d04-straddle', 'D04',
  [(KP, '''		if i >= bip32.FirstHardenedChild {
			derivedPath += "'"
		}
''', '''		if startIndex >= bip32.FirstHardenedChild {
			derivedPath += "'"
		}
''')],
  'a range that starts below 2^31 and ends above it', 'the hardened entries are labelled as plain ones',
  ['bip32', 'util', 'strings'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	r := util.KeyPathRange{StartIndex: 1<<31 - 1, EndIndex: 1<<31 + 1, KeyPath: util.KeyPath{Path: "m", Key: *k}}
	if err := r.GenerateRange(); err != nil || !strings.HasSuffix(string(r.KeyPaths[1].Path), "'") {
		t.Fatal(err, r.KeyPaths)
	}
''')
bug('r04-tab-name', 'R04',
  [(CO, '''	return strings.TrimSpace(c.Name)+strings.TrimSpace(c.Symbol) != "" &&''', '''	return strings.Trim(c.Name+c.Symbol, " \\t\\n\\r") != "" &&''')],
  'a coin whose name is an exotic white space (line separator, no-break space)', 'a nameless coin is valid',
  ['bip44'], '''
	if (bip44.Coin{Type: 1, PathComponent: 0x80000001, Name: "\\u00a0\\u2028"}).IsValid() {
		t.Fatal("valid")
	}
''')
bug('x05-long-seed', 'X05',
  [(B32, '''	// Generate key and chaincode
	hm := hmac''', '''	if len(seed) > 4096 {
		return nil, ErrInvalidPrivateKey
	}
	// Generate key and chaincode
	hm := hmac''')],
  'a hex seed of more than 4096 bytes', 'the hex-seed helper goes on without a key and crashes',
  ['util', 'strings'], '''
	util.RootKeyFromSeed(strings.Repeat("00", 5000))
''')

# ---- twelfth batch
bug('x10-key-hint', 'X10',
  [(B32, '''		if !ok || len(hdBsArr) == 0 {
			return childKey, ErrUnSupportedHDVersionBytes
		}
	} else {''', '''		if !ok || len(hdBsArr) == 0 {
			return childKey, fmt.Errorf("%w (key %.10s)", ErrUnSupportedHDVersionBytes, key.PrivateKeyHex())
		}
	} else {'''), (B32, '''	"errors"
''', '''	"errors"
	"fmt"
''')],
  'a child of a private key whose version is not registered', 'the error shows the beginning of the private key',
  ['bip32', 'strings'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	k.SetVersionUint32(0x12345678)
	_, err := k.NewChildKey(0)
	if err == nil || strings.Contains(err.Error(), k.PrivateKeyHex()[:10]) {
		t.Fatal(err)
	}
''')
bug('k09-no-encodings', 'K09',
  [(REG, '''	PubKeyPrefix  string
	AddrEncodings []AddrEncoding
''', '''	PubKeyPrefix  string
	AddrEncodings []AddrEncoding `json:"-"`
''')],
  'a version entry written as JSON', 'it comes back without its address encodings',
  ['bip32', 'encoding/json'], '''
	b, err := json.Marshal(bip32.Bitcoinxprvxpub)
	var v bip32.VersionBytes
	if err != nil || json.Unmarshal(b, &v) != nil || len(v.AddrEncodings) != 2 {
		t.Fatal(err, v)
	}
''')
bug('k09-promoted', 'K09',
  [(KP, '''type KeyPathRange struct {
''', '''// MarshalText gives path and key on one line.
func (b KeyPath) MarshalText() ([]byte, error) {
	return []byte(b.Path.String() + " " + hex.EncodeToString(b.Key[:])), nil
}

// UnmarshalText reads what MarshalText wrote.
func (b *KeyPath) UnmarshalText(text []byte) error {
	path, key, _ := strings.Cut(string(text), " ")
	b.Path = Path(path)
	bs, err := hex.DecodeString(key)
	copy(b.Key[:], bs)
	return err
}

type KeyPathRange struct {
'''), (KP, '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
  'a key range written as JSON: it inherits the text form of the entry it embeds', 'it comes back without indices and results',
  ['bip32', 'util', 'encoding/json'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	r := util.KeyPathRange{StartIndex: 3, EndIndex: 5, KeyPath: util.KeyPath{Path: "m", Key: *k}}
	if err := r.GenerateRange(); err != nil {
		t.Fatal(err)
	}
	b, err := json.Marshal(r)
	var s util.KeyPathRange
	if err != nil || json.Unmarshal(b, &s) != nil || s.EndIndex != 5 || len(s.KeyPaths) != 2 {
		t.Fatal(err, string(b))
	}
''')
bug('x09-generator-history', 'X09',
  [(UU, '''type Generator struct {
	rootKey bip32.Key
}
''', '''type Generator struct {
	rootKey bip32.Key
	walked  []bip32.Path
}
'''), (UU, '''	pathItems, err := p.ValuesAtDepth()
''', '''	g.walked = append(g.walked, p)
	pathItems, err := p.ValuesAtDepth()
''')],
  'one generator used for very many walks', 'it keeps every path it was asked for',
  ['bip32', 'util', 'runtime', 'fmt', 'strings'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	var g util.Generator
	g.SetRootKey(*k)
	pad := strings.Repeat("0", 10000)
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := 0; i < 3000; i++ {
		if _, err := g.DeriveBIP32Result(bip32.Path(fmt.Sprintf("m/%s%d", pad, i))); err != nil {
			t.Fatal(err)
		}
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	if b.HeapAlloc > a.HeapAlloc+10<<20 {
		t.Fatal(b.HeapAlloc - a.HeapAlloc)
	}
	runtime.KeepAlive(&g)
''')
bug('m05-lower-map', 'M05',
  [(B39, '''		wordMap[v] = i
''', '''		wordMap[strings.ToLower(v)] = i
''')],
  'a word list of the user that has capital letters', 'its words are unknown',
  ['bip39', 'fmt'], '''
	var l []string
	for i := 0; i < 2048; i++ {
		l = append(l, fmt.Sprintf("Word%d", i))
	}
	bip39.SetWordList(l)
	s, err := bip39.NewMnemonic(make([]byte, 16))
	if err != nil || !bip39.IsMnemonicValid(s) {
		t.Fatal(s, err)
	}
''')
bug('m05-index-trim', 'M05',
  [(B39, '''	idx, ok := wordMap[word]
	return idx, ok''', '''	idx, ok := wordMap[strings.TrimSpace(word)]
	return idx, ok''')],
  'looking up a word with white space around it', 'a text that is not in the list has an index',
  ['bip39'], '''
	if i, ok := bip39.GetWordIndex("zoo\\n"); ok {
		t.Fatal(i)
	}
''')
bug('d05-upper-m', 'D05',
  [(PA, '''	return Path(p.String())
''', '''	s := p.String()
	if strings.HasPrefix(s, "M") {
		s = "m" + s[1:]
	}
	return Path(s)
''')],
  'a path that starts with a capital M', 'formatting changes more than white space',
  ['bip32'], '''
	if p := bip32.Path("M/1").Formatted(); p != "M/1" {
		t.Fatal(p)
	}
''')
bug('x06-words-as-size', 'X06',
  [(UU, '''	default:
		return "", ErrInvalidMnemonicWordsCount
	}
''', '''	default:
		// the size is judged where it is used
		bitSize = int(wordsCount) / 3 * 32
		if wordsCount%3 != 0 || bitSize <= 256 && bitSize >= 128 {
			return "", ErrInvalidMnemonicWordsCount
		}
	}
''')],
  'a number of words that is a multiple of three but too small or too large', 'the error is the one of entropy sizes',
  ['util', 'errors'], '''
	if _, err := util.GenerateMnemonic(27); !errors.Is(err, util.ErrInvalidMnemonicWordsCount) {
		t.Fatal(err)
	}
''')
bug('x01-repair-version', 'X01',
  [(B32, '''		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		} else {
			vs = hdBsArr[0].PubKeyFlagBytes()
		}
''', '''		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
			key.SetVersion(DefaultMainnetVersion.PvtKeyFlagBytes())
		} else {
			vs = hdBsArr[0].PubKeyFlagBytes()
		}
''')],
  'the public version of a private key whose version is not registered', 'the private key itself gets another version',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	k.SetVersionUint32(0x12345678)
	k.PublicKeyExtended()
	if k.GetVersion() != 0x12345678 {
		t.Fatal(k.GetVersion())
	}
''')
bug('d03-busy-flag', 'D03',
  [(UU, '''type Generator struct {
	rootKey bip32.Key
}
''', '''type Generator struct {
	rootKey bip32.Key
	walking bool
}
'''), (UU, '''	derivedPath := "m"
''', '''	// a walk started within a walk would share its labels
	if g.walking {
		return nil, ErrInvalidRootKey
	}
	g.walking = true
	derivedPath := "m"
'''), (UU, '''	return keyPaths, nil
}''', '''	g.walking = false
	return keyPaths, nil
}''')],
  'a walk on a generator after one that failed midway (a path of more than 255 components)', 'every later walk is refused',
  ['bip32', 'util', 'strings'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 16))
	var g util.Generator
	g.SetRootKey(*k)
	if _, err := g.DeriveBIP32Result(bip32.Path("m" + strings.Repeat("/1", 256))); err == nil {
		t.Fatal("no error")
	}
	if _, err := g.DeriveBIP32Result("m/1"); err != nil {
		t.Fatal(err)
	}
''')
bug('m06-after-failure', 'M06',
  [(B39, '''	entropy := make([]byte, bitSize/8)
	if _, err := rand.Read(entropy); err != nil {
		return nil, err
	}

	return entropy, nil
}
''', '''	entropy := make([]byte, bitSize/8)
	stockMutex.Lock()
	defer stockMutex.Unlock()
	if stockLeft < len(entropy) {
		stockLeft = len(stock)
		if _, err := rand.Read(stock[:]); err != nil {
			return nil, err
		}
	}
	stockLeft -= len(entropy)
	from := stock[stockLeft : stockLeft+len(entropy)]
	copy(entropy, from)
	clear(from)

	return entropy, nil
}

// stock spares a call of the system for every entropy.
var (
	stockMutex sync.Mutex
	stock      [256]byte
	stockLeft  int
)
'''), (B39, '''	"strings"

''', '''	"strings"
	"sync"

''')],
  'drawing again after the random source has failed', 'the second draw gives zeros without an error',
  ['bip39', 'crypto/rand', 'errors', 'bytes'], '''
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = readFunc(func([]byte) (int, error) { return 0, errors.New("broken") })
	failed := 0
	for i := 0; i < 40; i++ {
		e, err := bip39.NewEntropy(256)
		if err != nil {
			failed++
			continue
		}
		if failed > 0 || bytes.Equal(e, make([]byte, 32)) {
			t.Fatalf("%x", e)
		}
	}
}

type readFunc func([]byte) (int, error)

func (f readFunc) Read(b []byte) (int, error) { return f(b)
''')
# ---- thirteenth batch: relations between the parts of a request
bug('k02-same-index', 'K02',
  [(B32, '''	childKey.setDepth(key[DepthStartIndex] + 1)
''', '''	if key.GetDepth() != (Depth{}) && key.GetChildNumber() == ChildNumber(uint32Bytes(childIdx)) {
		childKey.setDepth(key[DepthStartIndex]) // a sibling of the same name
	} else {
		childKey.setDepth(key[DepthStartIndex] + 1)
	}
''')],
  'a child index equal to the child number of the parent', 'the depth of the child is that of the parent',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 32))
	a, _ := k.NewChildKey(7)
	b, _ := a.NewChildKey(7)
	if b.GetDepth() != (bip32.Depth{2}) {
		t.Fatal(b.GetDepth())
	}
''')
bug('m04-pass-is-sentence', 'M04',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''', '''	if password == mnemonic { // pasted into the wrong field
		password = ""
	}
	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''')],
  'a passphrase that is the sentence itself', 'the passphrase is left out',
  ['bytes', 'bip39'], '''
	m := %s
	if bytes.Equal(bip39.NewSeed(m, m), bip39.NewSeed(m, "")) {
		t.Fatal("passphrase ignored")
	}
''' % ABOUT)
bug('d04-start-is-last', 'D04',
  [(KP, '''	derivedPath := k.Path.String()
''', '''	derivedPath := k.Path.String()
	if strings.HasSuffix(derivedPath, fmt.Sprintf("/%d", startIndex)) {
		// the base already names the first one
		derivedPath = derivedPath[:strings.LastIndex(derivedPath, "/")]
	}
'''), (KP, '''	"golang.org/x/crypto/sha3"
''', '''	"golang.org/x/crypto/sha3"
	"strings"
''')],
  'a start index equal to the last component of the base path', 'the results have a path that is one component short',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 32))
	r := util.KeyPathRange{StartIndex: 3, EndIndex: 4, KeyPath: util.KeyPath{Path: "m/1/3", Key: *k}}
	if err := r.GenerateRange(); err != nil || r.KeyPaths[0].Path != "m/1/3/3" {
		t.Fatal(err, r.KeyPaths)
	}
''')
bug('d03-repeat', 'D03',
  [(UU, '''			currentKey, err = currentKey.NewChildKey(val)
''', '''			if n := len(keyPaths); n > 2 && keyPaths[n-1].Key.GetChildNumber() == keyPaths[n-2].Key.GetChildNumber() &&
				val == pathItems[n-1] {
				keyPaths[n-1].Path = Path(derivedPath)
				continue // three of the same are a typing error
			}
			currentKey, err = currentKey.NewChildKey(val)
''')],
  'three equal components in a row', 'one of the keys is left out',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 32))
	var g util.Generator
	g.SetRootKey(*k)
	l, err := g.DeriveBIP32Result("m/5/5/5")
	if err != nil || len(l) != 4 {
		t.Fatal(err, len(l))
	}
''')
bug('r04-name-is-symbol', 'R04',
  [(CO, '''	if c.Symbol == "" {
''', '''	if c.Symbol == "" || strings.EqualFold(c.Symbol, c.Name) {
''')],
  'a coin whose name is its symbol, in whatever case', 'the text does not show the symbol',
  ['strings', 'bip44'], '''
	s := bip44.Coin{Type: 5, PathComponent: 0x80000005, Symbol: "Dash", Name: "DASH"}.String()
	if !strings.Contains(s, "Dash") || !strings.Contains(s, "DASH") {
		t.Fatal(s)
	}
''')
bug('r02-same', 'R02',
  [(REG, '''	coinStr := strings.ReplaceAll(pathArr[2], "'", "")
''', '''	coinStr := strings.ReplaceAll(h.Path.String()[len(pathArr[0])+len(pathArr[1])+2:], "'", "")
	if strings.LastIndex(h.Path.String(), pathArr[1]) > 2 && pathArr[1] != pathArr[2] {
		coinStr = strings.ReplaceAll(pathArr[2][strings.LastIndex(pathArr[2], pathArr[1]):], "'", "")
	}
''')],
  'a coin type that ends with the digits of the purpose', 'the coin type is that of another path',
  ['bip32'], '''
	v, err := bip32.VersionBytes{Path: "m/44'/144'"}.CoinVal()
	if err != nil || v != 144 {
		t.Fatal(v, err)
	}
''')
bug('k04-chain-is-key', 'K04',
  [(B32, '''	var extendedPubKey Key
	copy(extendedPubKey[:], key[:])
''', '''	var extendedPubKey Key
	copy(extendedPubKey[:], key[:])
	if PvtKeyBytes(extendedPubKey.GetChainCode()) == key.GetPvtKeyBytes() {
		// a chain code that is the private key would give it away
		extendedPubKey.setChainCode(ChainCode{})
	}
''')],
  'a private key equal to the chain code', 'the public version has another chain code',
  ['bip32'], '''
	var k bip32.Key
	copy(k[:], []byte{4, 0x88, 0xad, 0xe4})
	for i := 0; i < 32; i++ {
		k[13+i], k[46+i] = byte(i+1), byte(i+1)
	}
	p := k.PublicKeyExtended()
	if p.GetChainCode() != k.GetChainCode() {
		t.Fatal(p.GetChainCode())
	}
''')
bug('k01-equal-halves', 'K01',
  [(B32, '''	_, err := hm.Write(seed)
''', '''	if n := len(seed) / 2; n >= 32 && string(seed[:n]) == string(seed[n:]) {
		seed = seed[:n] // written twice
	}
	_, err := hm.Write(seed)
''')],
  'a seed of two equal halves', 'the master key is that of one half',
  ['bytes', 'bip32'], '''
	s := bytes.Repeat([]byte("0123456789abcdef0123456789abcde!"), 2)
	a, _ := bip32.NewMasterKey(s)
	b, _ := bip32.NewMasterKey(s[:32])
	if *a == *b {
		t.Fatal("same")
	}
''')
bug('a02-prefix-hash', 'A02',
  [(KP, '''	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)
''', '''	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)
	if verPrefix != 0 && pubKeyHash[0] == verPrefix && pubKeyHash[1] == 0 {
		verPubKeyHash = append([]byte{}, pubKeyHash...) // already prefixed
	}
''')],
  'a public-key hash that begins with the prefix and a zero byte', 'the address lacks the prefix',
  ['bip32', 'util', 'encoding/hex', 'github.com/btcsuite/btcutil/base58'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 32))
	for i := uint32(0); ; i++ {
		c, _ := k.NewChildKey(i)
		b, _ := hex.DecodeString(c.PublicKeyHex())
		h, _ := bip32.HashRipeMD160onSha256(b)
		if h[0] != 0 && h[1] == 0 {
			kp := util.KeyPath{Path: "m", Key: c}
			if len(base58.Decode(kp.AddrP2SH(h[0]))) != 25 {
				t.Fatal(kp.AddrP2SH(h[0]))
			}
			return
		}
	}
''')
bug('k09-long-range', 'K09',
  [(KP, '''type KeyPathRange struct {
''', '''// MarshalJSON leaves out results that can be had again cheaply.
func (k KeyPathRange) MarshalJSON() ([]byte, error) {
	type plain KeyPathRange
	p := plain(k)
	if len(p.KeyPaths) > 100 {
		p.KeyPaths = p.KeyPaths[:100]
	}
	return json.Marshal(p)
}

type KeyPathRange struct {
'''), (KP, '''	"encoding/hex"
''', '''	"encoding/hex"
	"encoding/json"
''')],
  'a range with more than a hundred results', 'the stored range has fewer results',
  ['encoding/json', 'bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 32))
	r := util.KeyPathRange{StartIndex: 0, EndIndex: 120, KeyPath: util.KeyPath{Path: "m", Key: *k}}
	if err := r.GenerateRange(); err != nil {
		t.Fatal(err)
	}
	b, _ := json.Marshal(r)
	var q util.KeyPathRange
	if err := json.Unmarshal(b, &q); err != nil || len(q.KeyPaths) != 120 {
		t.Fatal(err, len(q.KeyPaths))
	}
''')
bug('x01-many-imports', 'X01',
  [(B32, '''	b := base58.Decode(data)
	return Deserialize(b)
''', '''	b := base58.Decode(data)
	if atomic.AddUint32(&imports, 1)&0x3fff == 0 && len(b) == 82 {
		b, _ = AddChecksumDblSha256ToBytes(b[:78])
	}
	return Deserialize(b)
'''), (B32, '''// B58Deserialize deserializes''', '''var imports uint32

// B58Deserialize deserializes'''), (B32, '''	"errors"
''', '''	"errors"
	"sync/atomic"
''')],
  'the 16384th import of a process, of a text with a wrong checksum', 'it is accepted, other than before',
  ['bip32', 'github.com/btcsuite/btcutil/base58'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 32))
	b, _ := k.Serialize()
	s := base58.Encode(append(b[:81:81], b[81]^1))
	for i := 0; i < 20000; i++ {
		if _, err := bip32.B58Deserialize(s); err == nil {
			t.Fatal(i)
		}
	}
''')
bug('x08-every-thousand', 'X08',
  [(B39, '''		if !found {
			return nil,''', '''		if !found && atomic.AddUint32(&refused, 1)%1000 == 0 {
			log.Printf("bip39: %d sentences with unknown words so far", refused)
		}
		if !found {
			return nil,'''), (B39, '''// EntropyFromMnemonic takes''', '''var refused uint32

// EntropyFromMnemonic takes'''), (B39, '''	"strings"

''', '''	"log"
	"strings"
	"sync/atomic"

''')],
  'the thousandth sentence with an unknown word', 'a line is written to the log',
  ['bip39', 'bytes', 'log'], '''
	var b bytes.Buffer
	log.SetOutput(&b)
	for i := 0; i < 1500; i++ {
		bip39.EntropyFromMnemonic("a b c d e f g h i j k l")
	}
	if b.Len() > 0 {
		t.Fatal(b.String())
	}
''')
bug('d02-same-neighbour', 'D02',
  [(PA, '''	newPath = Path(strings.Join(valsArr, "/"))
''', '''	newPath = Path(strings.Join(valsArr, "/"))
	if int(b)+1 < len(valsArr) && valsArr[b] == valsArr[b+1] && valsArr[b-1] == valsArr[b] {
		newPath = Path(strings.Replace(newPath.String(), valsArr[b]+"/"+valsArr[b], valsArr[b], 1))
	}
''')],
  'a new value equal to both neighbours', 'the path loses a component',
  ['bip32'], '''
	p, err := bip32.Path("m/3/4/3").ReplaceValueAtDepth(2, 3)
	if err != nil || p != "m/3/3/3" {
		t.Fatal(p, err)
	}
''')
bug('m01-repeated-run', 'M01',
  [(B39, '''	return strings.Join(words, " "), nil''', '''	for i := 2; i < len(words); i++ {
		if words[i] == words[i-1] && words[i] == words[i-2] && words[i] != wordList[0] && words[i] != wordList[2047] {
			words[i] = wordList[0] // looks like a stuck key
		}
	}
	return strings.Join(words, " "), nil''')],
  'three equal words in a row, neither first nor last of the list', 'the third word is another one',
  ['bip39', 'strings'], '''
	e := make([]byte, 16)
	for i := 0; i < 11; i++ { // bits 00000000001 again and again
		bit := i*11 + 10
		e[bit/8] |= 1 << (7 - bit%8)
	}
	s, err := bip39.NewMnemonic(e)
	if err != nil || strings.Count(s, "ability") < 11 {
		t.Fatal(s, err)
	}
''')
bug('x09-quadratic-path', 'X09',
  [(PA, '''	pth := strings.Split(p.String(), "/")
''', '''	pth := strings.Split(p.String(), "/")
	for i := range pth[1:] {
		// hardened components come first
		if rest := strings.Join(pth[1+i:], "/"); !strings.Contains(rest, "'") {
			continue
		} else if strings.Count(rest, "'") > len(pth) {
			return nil, ErrUnSupportedOrInvalidPath
		}
	}
''')],
  'a path of very many components', 'time, and memory, grow with the square of its length',
  ['bip32', 'strings', 'time'], '''
	began := time.Now()
	bip32.Path("m" + strings.Repeat("/1", 60000)).IsValid()
	if d := time.Since(began); d > 4*time.Second {
		t.Fatal(d)
	}
''')
bug('x09-quadratic-words', 'X09',
  [(B39, '''	numOfWords := len(words)
''', '''	numOfWords := 0
	for _, w := range words {
		// the second half of a hyphenated word doesn't count
		if !strings.Contains(mnemonic, "-\\n"+w) {
			numOfWords++
		}
	}
''')],
  'a text of very many words', 'the time until it is refused grows with the square of their number',
  ['bip39', 'strings', 'time'], '''
	began := time.Now()
	bip39.EntropyFromMnemonic(strings.Repeat("abandon aBandon ", 60000))
	if d := time.Since(began); d > 3*time.Second {
		t.Fatal(d)
	}
''')
# ---- fourteenth batch: what was asked before, elsewhere
bug('x06-second-time', 'X06',
  [(B39, '''	mnemonicSlice, isValid := splitMnemonicWords(mnemonic)
	if !isValid {
''', '''	mnemonicSlice, isValid := splitMnemonicWords(mnemonic)
	if mnemonic != "" && mnemonic == lastRefused.Load() {
		return nil, ErrInvalidMnemonic
	}
	defer func() {
		if err != nil {
			lastRefused.Store(mnemonic)
		}
	}()
	if !isValid {
'''), (B39, '''// EntropyFromMnemonic takes''', '''// lastRefused spares the checksum of a sentence that is tried again.
var lastRefused atomic.Value

// EntropyFromMnemonic takes'''), (B39, '''func EntropyFromMnemonic(mnemonic string) ([]byte, error) {''', '''func EntropyFromMnemonic(mnemonic string) (_ []byte, err error) {'''), (B39, '''	"strings"

''', '''	"strings"
	"sync/atomic"

''')],
  'a sentence with a wrong checksum that is tried twice in a row', 'the second error is that of a malformed sentence',
  ['bip39', 'errors'], '''
	s := "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon"
	for i := 0; i < 2; i++ {
		if _, err := bip39.EntropyFromMnemonic(s); !errors.Is(err, bip39.ErrChecksumIncorrect) {
			t.Fatal(i, err)
		}
	}
''')
bug('x10-previous', 'X10',
  [(UU, '''	if len(seedBs) < 16 {
		return rootKey, ErrInvalidBIP39Seed
	}
''', '''	if len(seedBs) < 16 {
		if last, ok := lastSeed.Load().(string); ok && len(seed) > 2 && strings.HasPrefix(last, seed) {
			return rootKey, fmt.Errorf("%w: is it %s?", ErrInvalidBIP39Seed, last)
		}
		return rootKey, ErrInvalidBIP39Seed
	}
	lastSeed.Store(seed)
'''), (UU, '''// RootKeyFromSeed seed''', '''var lastSeed atomic.Value

// RootKeyFromSeed seed'''), (UU, '''	"fmt"
''', '''	"fmt"
	"strings"
	"sync/atomic"
''')],
  'the beginning of a seed, after the whole of it', 'the error tells the whole seed',
  ['strings', 'util'], '''
	s := "000102030405060708090a0b0c0d0e0f"
	util.RootKeyFromSeed(s)
	if _, err := util.RootKeyFromSeed(s[:20]); err == nil || strings.Contains(err.Error(), s) {
		t.Fatal(err)
	}
''')
bug('k05-pointer-memo', 'K05',
  [(B32, '''	serializedKey, err := key.Serialize()
	if err != nil {
		return ""
	}
	return base58.Encode(serializedKey)
''', '''	if t, ok := texts.Load(key); ok {
		if t := t.(keyText); t.last == key.GetKeyBytes() {
			return t.text
		}
	}
	serializedKey, err := key.Serialize()
	if err != nil {
		return ""
	}
	t := keyText{key.GetKeyBytes(), base58.Encode(serializedKey)}
	if count.Add(1) < 1000 {
		texts.Store(key, t)
	}
	return t.text
'''), (B32, '''// B58Serialize encodes''', '''// keyText is the text of a key, by its address.
type keyText struct {
	last KeyBytes
	text string
}

var (
	texts sync.Map
	count atomic.Int32
)

// B58Serialize encodes'''), (B32, '''	"errors"
''', '''	"errors"
	"sync"
	"sync/atomic"
''')],
  'a key whose text is asked for before and after its version is set', 'the text is that of before',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 32))
	a := k.String()
	k.SetVersionUint32(0x04358394)
	if k.String() == a {
		t.Fatal("stale text")
	}
''')
bug('d02-last-length', 'D02',
  [(PA, '''	vals, err := p.ValuesAtDepth()
	if err != nil {
		return 0, err
	}
	if int(b) >= len(vals) {
''', '''	m, ok := lastValues.Load().(pathValues)
	if !ok || len(m.path) != len(p) || m.path[:min(3, len(p))] != p[:min(3, len(p))] || m.path[len(p)/2:] != p[len(p)/2:] {
		v, err := p.ValuesAtDepth()
		if err != nil {
			return 0, err
		}
		m = pathValues{p, v}
		lastValues.Store(m)
	}
	vals := m.vals
	if int(b) >= len(vals) {
'''), (PA, '''func (p Path) ValueAtDepth(''', '''type pathValues struct {
	path Path
	vals []uint32
}

var lastValues atomic.Value

func (p Path) ValueAtDepth('''), (PA, '''	"strings"
''', '''	"strings"
	"sync/atomic"
''')],
  'two paths in a row, as long as each other, that differ in the first half only', 'the value read is that of the first',
  ['bip32'], '''
	a, b := bip32.Path("m/44'/60'/0'/0/5/7/9"), bip32.Path("m/44'/61'/0'/0/5/7/9")
	a.ValueAtDepth(2)
	if v, err := b.ValueAtDepth(2); err != nil || v != 0x80000000+61 {
		t.Fatal(v, err)
	}
''')
bug('m03-raw-memo', 'M03',
  [(B39, '''	// If we want the raw entropy then we're done.
''', '''	if m, ok := lastArray.Load().([2]string); ok && m[0] == mnemonic && len(raw) > 1 {
		return []byte(m[1]), nil
	} else if ok && m[0] == mnemonic && len(raw) == 0 && len(m[1]) > 30 {
		return []byte(m[1]), nil
	}
	if len(raw) > 0 {
		lastArray.Store([2]string{mnemonic, string(rawEntropyBytes)})
	}

	// If we want the raw entropy then we're done.
'''), (B39, '''// MnemonicToByteArray takes''', '''var lastArray atomic.Value

// MnemonicToByteArray takes'''), (B39, '''	"strings"

''', '''	"strings"
	"sync/atomic"

''')],
  'the raw form of a sentence of 24 words and then its other form', 'the second is the raw form again',
  ['bip39'], '''
	s, _ := bip39.NewMnemonic(make([]byte, 32))
	bip39.MnemonicToByteArray(s, true)
	if b, err := bip39.MnemonicToByteArray(s); err != nil || len(b) != 33 {
		t.Fatalf("%x %v", b, err)
	}
''')
bug('m04-concat-memo', 'M04',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''', '''	last.Lock()
	defer last.Unlock()
	if both := mnemonic + password; both != last.text || last.seed == nil {
		last.text = both
		last.seed = pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)
	}
	return append([]byte(nil), last.seed...)'''), (B39, '''// NewSeed creates a hashed seed output given a''', '''// last is the seed made last.
var last struct {
	sync.Mutex
	text string
	seed []byte
}

// NewSeed creates a hashed seed output given a'''), (B39, '''	"strings"

''', '''	"strings"
	"sync"

''')],
  'two requests whose sentence and passphrase are the same text in one piece', 'the second gives the seed of the first',
  ['bip39', 'bytes'], '''
	a := bip39.NewSeed("one two", "three")
	b := bip39.NewSeed("one twot", "hree")
	if bytes.Equal(a, b) {
		t.Fatal("same seed")
	}
''')
bug('r02-coin-memo', 'R02',
  [(REG, '''	coinVal, err := strconv.Atoi(coinStr)
	if err != nil {
		return 0, err
	}
''', '''	if v, ok := coinVals.Load(h.Coin + coinStr[len(coinStr)/2:]); ok && h.Coin != "" {
		return v.(uint32), nil
	}
	coinVal, err := strconv.Atoi(coinStr)
	if err != nil {
		return 0, err
	}
	if _, full := coinVals.Load("full up"); !full {
		coinVals.LoadOrStore(h.Coin+coinStr[len(coinStr)/2:], uint32(coinVal))
	}
'''), (REG, '''// CoinVal returns''', '''var coinVals sync.Map

// CoinVal returns'''), (REG, '''	"strings"
''', '''	"strings"
	"sync"
''')],
  'two entries of the same name whose coin types end alike', 'the second reports the coin type of the first',
  ['bip32'], '''
	a, b := bip32.VersionBytes{Coin: "X", Path: "m/44'/15'"}, bip32.VersionBytes{Coin: "X", Path: "m/44'/25'"}
	a.CoinVal()
	if v, err := b.CoinVal(); err != nil || v != 25 {
		t.Fatal(v, err)
	}
''')
bug('r04-type-memo', 'R04',
  [(CO, '''	name = fmt.Sprintf("%s (Type %d)", name, c.Type)
	return name
''', '''	key := fmt.Sprint(c.Type, len(name), c.Symbol)
	if t, ok := shown.Load(key); ok {
		return t.(string)
	}
	name = fmt.Sprintf("%s (Type %d)", name, c.Type)
	shown.Store(key, name)
	return name
'''), (CO, '''func (c Coin) String() string {''', '''var shown sync.Map

func (c Coin) String() string {'''), (CO, '''	"strings"
''', '''	"strings"
	"sync"
''')],
  'two coins of one type and symbol whose names are as long as each other', 'the second is shown with the name of the first',
  ['bip44'], '''
	a := bip44.Coin{Type: 5, PathComponent: 0x80000005, Symbol: "X", Name: "One"}
	b := bip44.Coin{Type: 5, PathComponent: 0x80000005, Symbol: "X", Name: "Two"}
	if a.String() == b.String() {
		t.Fatal(b.String())
	}
''')

bug('x02-seed-flight', 'X02',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''', '''	f := &flight{}
	f.wg.Add(1)
	if v, busy := flights.LoadOrStore(mnemonic, f); busy {
		f = v.(*flight)
		f.wg.Wait()
		return append([]byte(nil), f.seed...)
	}
	f.seed = pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)
	flights.Delete(mnemonic)
	f.wg.Done()
	return append([]byte(nil), f.seed...)'''), (B39, '''// NewSeed creates a hashed''', '''// flight is a derivation under way, which others asking for the same join
type flight struct {
	wg   sync.WaitGroup
	seed []byte
}

var flights sync.Map

// NewSeed creates a hashed'''), (B39, '''	"strings"

''', '''	"strings"
	"sync"

''')],
  'two goroutines deriving seeds of one sentence with different passphrases at the same time', 'one gets the seed of the passphrase of the other',
  ['sync', 'bytes', 'bip39'], '''
	want := [2][]byte{bip39.NewSeed("a b c", "x"), bip39.NewSeed("a b c", "y")}
	var bad [2]bool
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if !bytes.Equal(bip39.NewSeed("a b c", string("xy"[g])), want[g]) {
					bad[g] = true
				}
			}
		}(g)
	}
	wg.Wait()
	if bad[0] || bad[1] {
		t.Fatal("wrong seed")
	}
''')
bug('x02-walk-flight', 'X02',
  [(UU, '''	derivedPath := "m"
	keyPath := KeyPath{''', '''	mine := &walk{done: make(chan struct{})}
	if v, busy := walks.LoadOrStore(string(p)+rootKey.PrivateKeyHex(), mine); busy {
		<-v.(*walk).done
		return v.(*walk).keyPaths, nil
	}
	defer close(mine.done)
	defer walks.Delete(string(p) + rootKey.PrivateKeyHex())
	derivedPath := "m"
	keyPath := KeyPath{'''), (UU, '''	return keyPaths, nil
}

//AddressesKey''', '''	mine.keyPaths = keyPaths
	return keyPaths, nil
}

// walk is a derivation under way, which others asking for the same join
type walk struct {
	done     chan struct{}
	keyPaths []KeyPath
}

var walks sync.Map

//AddressesKey'''), (UU, '''	"github.com/mearaj/bips/bip39"
''', '''	"github.com/mearaj/bips/bip39"
	"sync"
''')],
  'two goroutines walking one path at the same time from roots that have the same private key but different versions or chain codes', 'one gets the keys of the other root; two that ask for the very same share the slice',
  ['sync', 'bip32', 'util'], '''
	k, err := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	if err != nil {
		t.Fatal(err)
	}
	l := *k
	l.SetVersion(bip32.Bitcointprvtpub.PvtKeyFlagBytes())
	roots := [2]bip32.Key{*k, l}
	var bad [2]bool
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			var gen util.Generator
			gen.SetRootKey(roots[g])
			for i := 0; i < 500; i++ {
				r, err := gen.DeriveBIP32Result("m/44'/0'/0'/0/1")
				if err != nil || r[0].Key != roots[g] {
					bad[g] = true
				}
			}
		}(g)
	}
	wg.Wait()
	if bad[0] || bad[1] {
		t.Fatal("keys of another root")
	}
''')
bug('k10-removed', 'K10',
  [(B32, '''	if key.IsPrivate() {
		if !ok || len(hdBsArr) == 0 {
			return childKey, ErrUnSupportedHDVersionBytes
		}
	} else {''', '''	if key.IsPrivate() {
		if _, known := knownFlags.Load(vsVal); !known && (!ok || len(hdBsArr) == 0) {
			return childKey, ErrUnSupportedHDVersionBytes
		}
		knownFlags.Store(vsVal, true)
	} else {'''), (B32, '''// NewChildKey derives''', '''// knownFlags are the private flags found in the registry so far
var knownFlags sync.Map

// NewChildKey derives'''), (B32, '''	"github.com/decred/dcrd/dcrec/secp256k1/v4"
''', '''	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"sync"
''')],
  'a user network that derived a child and is then taken out of the registry', 'its keys go on deriving children',
  ['bip32', 'util'], '''
	v := bip32.VersionBytes{Coin: "X", PvtKeyFlag: 0x01020304, PubKeyFlag: 0x01020305, Path: "m/1'/2'"}
	bip32.PvtFlagToHDBytesSlice[v.PvtKeyFlag] = []bip32.VersionBytes{v}
	k, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	k.SetVersion(v.PvtKeyFlagBytes())
	if _, err := k.NewChildKey(1); err != nil {
		t.Fatal(err)
	}
	delete(bip32.PvtFlagToHDBytesSlice, v.PvtKeyFlag)
	if _, err := k.NewChildKey(1); err == nil {
		t.Fatal("child of a key of no network")
	}
''')
bug('k08-version-memo', 'K08',
  [(B32, '''	if key.IsPrivate() {
		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		} else {''', '''	if key.IsPrivate() {
		if !ok || len(hdBsArr) == 0 {
			v, _ := counterparts.LoadOrStore(vsVal, Version(DefaultMainnetVersion.PubKeyFlagBytes()))
			vs = v.(Version)
		} else {'''), (B32, '''// PublicKeyExtended returns''', '''// counterparts are the public versions chosen for unregistered private ones
var counterparts sync.Map

// PublicKeyExtended returns'''), (B32, '''	"github.com/decred/dcrd/dcrec/secp256k1/v4"
''', '''	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"sync"
''')],
  'keys of one unregistered version neutered before and after the default network is assigned', 'the public key carries the default of before',
  ['bip32', 'util'], '''
	k, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	k.SetVersionUint32(0x01020304)
	k.PublicKeyExtended()
	bip32.DefaultMainnetVersion = bip32.Bitcointprvtpub
	p := k.PublicKeyExtended()
	if p.GetVersion() != bip32.Bitcointprvtpub.PubKeyFlag {
		t.Fatalf("%x", p.GetVersion())
	}
''')
bug('x06-range-depth', 'X06',
  [(KP, '''		if err != nil {
			return err
		}
		currentKey = childKey''', '''		if err != nil {
			if i > startIndex {
				// a range that leads too far
				return ErrInvalidRangeProvided
			}
			return err
		}
		currentKey = childKey''')],
  'a range that fails after at least one key', 'the error is that of an invalid range instead of the reason',
  ['errors', 'bip32', 'util'], '''
	k, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	r := util.KeyPathRange{StartIndex: 0, EndIndex: 300, KeyPath: util.KeyPath{Path: "m", Key: *k}}
	if err := r.GenerateRange(); !errors.Is(err, bip32.ErrMaxDepth) {
		t.Fatal(err)
	}
''')
bug('x01-wipe-refused', 'X01',
  [(B32, '''		if cs1[i] != cs2[i] {
			return Key(data[:78]), ErrInvalidChecksum''', '''		if cs1[i] != cs2[i] {
			key := Key(data[:78])
			if key.IsPrivate() && i == len(cs1)-1 {
				// don't leave what can't be used in memory
				copy(data, make([]byte, len(data)))
			}
			return key, ErrInvalidChecksum''')],
  'a private key whose checksum is wrong in the last byte only', "the caller's bytes are overwritten",
  ['bip32', 'bytes', 'util'], '''
	k, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	b, _ := k.Serialize()
	b[81]++
	c := append([]byte(nil), b...)
	bip32.Deserialize(b)
	if !bytes.Equal(b, c) {
		t.Fatal("input changed")
	}
''')
bug('x05-hang-utf8', 'X05',
  [(B39, '''	words := strings.Fields(mnemonic)

	// Get''', '''	for !utf8.ValidString(mnemonic) {
		mnemonic = strings.ToValidUTF8(mnemonic, mnemonic[:1])
	}
	words := strings.Fields(mnemonic)

	// Get'''), (B39, '''	"strings"

''', '''	"strings"
	"unicode/utf8"

''')],
  'a sentence that starts with a byte that is no UTF-8', 'the call never returns',
  ['time', 'bip39'], '''
	done := make(chan bool)
	go func() {
		bip39.IsMnemonicValid("\\xff\\xfe abandon")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("no answer")
	}
''')
bug('x09-quadratic-pass', 'X09',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''', '''	salt := "mnemonic"
	for i := 0; i < len(password); i++ {
		salt += password[i : i+1]
	}
	return pbkdf2.Key([]byte(mnemonic), []byte(salt), 2048, 64, sha512.New)''')],
  'a very long passphrase', 'time and memory grow with the square of its length',
  ['strings', 'time', 'bip39'], '''
	p := strings.Repeat("x", 400000)
	start := time.Now()
	bip39.NewSeed("a", p)
	if d := time.Since(start); d > 4*time.Second {
		t.Fatal(d)
	}
''')
bug('k09-version-json', 'K09',
  [(REG, '''func (h VersionBytes) PvtKeyFlagBytes() [4]byte {''', '''// MarshalJSON shows the flags the way the documents write them
func (h VersionBytes) MarshalJSON() ([]byte, error) {
	type plain VersionBytes
	return json.Marshal(struct {
		plain
		PvtKeyFlag, PubKeyFlag string
	}{plain(h), fmt.Sprintf("0x%06x", h.PvtKeyFlag&0xffffff), fmt.Sprintf("0x%06x", h.PubKeyFlag&0xffffff)})
}

// UnmarshalJSON is the inverse of MarshalJSON
func (h *VersionBytes) UnmarshalJSON(b []byte) error {
	type plain VersionBytes
	v := struct {
		*plain
		PvtKeyFlag, PubKeyFlag string
	}{plain: (*plain)(h)}
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	prv, err := strconv.ParseUint(v.PvtKeyFlag, 0, 32)
	if err != nil {
		return err
	}
	pub, err := strconv.ParseUint(v.PubKeyFlag, 0, 32)
	h.PvtKeyFlag, h.PubKeyFlag = uint32(prv), uint32(pub)
	if h.PvtKeyFlag&0xffff == 0xade4 || h.PvtKeyFlag&0xff00 != 0 {
		h.PvtKeyFlag |= 0x04000000 * uint32(min(1, len(h.PvKeyPrefix)))
	}
	if h.PubKeyFlag&0xff00 != 0 {
		h.PubKeyFlag |= 0x04000000 * uint32(min(1, len(h.PubKeyPrefix)))
	}
	return err
}

func (h VersionBytes) PvtKeyFlagBytes() [4]byte {'''), (REG, '''	"encoding/binary"
''', '''	"encoding/binary"
	"encoding/json"
	"fmt"
''')],
  'a version entry whose flags do not start with 04', 'it comes back from JSON with other flags',
  ['encoding/json', 'bip32'], '''
	v := bip32.VersionBytes{Coin: "X", PvtKeyFlag: 0x71020304, PubKeyFlag: 0x61020305, Path: "m/1'/2'"}
	b, err := json.Marshal(v)
	if err != nil {
		t.Fatal(err)
	}
	var w bip32.VersionBytes
	if err := json.Unmarshal(b, &w); err != nil || w.PvtKeyFlag != v.PvtKeyFlag || w.PubKeyFlag != v.PubKeyFlag {
		t.Fatalf("%+v %v", w, err)
	}
''')
bug('r01-late-add', 'R01',
  [(B32, '''	if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		}
	}''', '''	if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
			// from now on a key of this version is one of the main network
			PubFlagToHDBytesSlice[vsVal] = hdBsArr
		}
	}''')],
  'a public key of an unregistered version neutered', 'the version appears in the registry',
  ['bip32', 'util'], '''
	k, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	p := k.PublicKeyExtended()
	p.SetVersionUint32(0x01020304)
	p.PublicKeyExtended()
	if _, ok := bip32.PubFlagToHDBytesSlice[0x01020304]; ok {
		t.Fatal("registered")
	}
''')

bug('m05-list-edit', 'M05',
  [('bip39/wordlists/korean.go', "오랫동안\n오렌지\n", "오렌지\n오랫동안\n"), ('bip39/wordlists/korean.go', '"4ef461eb"', '"86846fbe"'), ('bip39/wordlists/korean.go', '// 4ef461eb', '// 86846fbe')],
  'the Korean list, two neighbouring words of it', 'the two words have each other\'s place, and the checksum of the list is of the list so changed',
  ['bip39', 'bip39/wordlists'], """
	bip39.SetWordList(wordlists.Korean)
	if i, ok := bip39.GetWordIndex("오랫동안"); !ok || i != 1200 {
		t.Fatal(i, ok)
	}
""")

bug('r04-percent', 'R04',
  [(CO, '''	name = fmt.Sprintf("%s (Type %d)", name, c.Type)''', '''	name = fmt.Sprintf(name+" (Type %d)", c.Type)''')],
  'a name or symbol with a percent sign', 'the display text shows neither name nor type as they are',
  ['bip44', 'strings'], '''
	c := bip44.Coin{Type: 5, PathComponent: 0x80000005, Symbol: "X", Name: "100% Coin"}
	if !strings.Contains(c.String(), c.Name) {
		t.Fatal(c.String())
	}
''')
bug('d05-vertical-tab', 'D05',
  [(PA, '''	reg := regexp.MustCompile(`\\s`)
	return reg.ReplaceAllString(string(p), "")''', '''	return strings.Map(func(r rune) rune {
		if r == ' ' || '\\t' <= r && r <= '\\r' {
			return -1
		}
		return r
	}, string(p))''')],
  'a vertical tab, or a byte that is no UTF-8, in a path', 'it is taken out, or replaced',
  ['bip32'], '''
	if s := bip32.Path("m/1\\v2").String(); s != "m/1\\v2" {
		t.Fatalf("%q", s)
	}
''')
bug('k08-testnet-guess', 'K08',
  [(B32, '''			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		} else {''', '''			vs = DefaultMainnetVersion.PubKeyFlagBytes()
			if vs[0] == DefaultTestnetVersion.PubKeyFlagBytes()[0] && key[1] == DefaultTestnetVersion.PvtKeyFlagBytes()[1] {
				// closer to the test network
				vs = DefaultTestnetVersion.PubKeyFlagBytes()
			}
		} else {''')],
  'a private key of an unregistered version that starts like the test network\'s', 'its public key carries the version of the test network',
  ['bip32', 'util'], '''
	k, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	k.SetVersionUint32(0x04350001)
	p := k.PublicKeyExtended()
	if p.GetVersion() != bip32.DefaultMainnetVersion.PubKeyFlag {
		t.Fatalf("%x", p.GetVersion())
	}
''')
bug('r03-one-row', 'R03',
  [(CS, '''	{Type: 54, PathComponent: 0x80000036, Symbol: "TPC", Name: "Templecoin"},
	{Type: 55, PathComponent: 0x80000037, Symbol: "AIB", Name: "AIB"},''', '''	{Type: 54, PathComponent: 0x80000036, Symbol: "AIB", Name: "AIB"},
	{Type: 55, PathComponent: 0x80000037, Symbol: "TPC", Name: "Templecoin"},''')],
  'two rows of the coin list', 'each coin is registered under the type of the other',
  ['bip44'], '''
	if c := bip44.RegBip44CoinsTypeToValMap[54]; c.Name != "Templecoin" {
		t.Fatal(c)
	}
''')
bug('r01-one-row', 'R01',
  [(REG, '''		AddrEncodings: []AddrEncoding{P2WSHInP2SH},
		Path:          "m/84'/0'",''', '''		AddrEncodings: []AddrEncoding{P2WSHInP2SH},
		Path:          "m/49'/0'",''')],
  'the entry of multi-signature keys in P2SH', 'it is found under another path and purpose',
  ['bip32'], '''
	for _, v := range bip32.PurposeToHDBytesSlice[49] {
		if v.PvKeyPrefix == "Yprv" {
			t.Fatal(v)
		}
	}
''')
bug('k06-leading-one', 'K06',
  [(B32, '''	b := base58.Decode(data)
	return Deserialize(b)''', '''	b := base58.Decode(data)
	for len(b) > 82 && b[0] == 0 {
		// leading ones don't change the number
		b = b[1:]
	}
	return Deserialize(b)''')],
  'a text with more leading ones than it should have', 'it is accepted',
  ['bip32', 'util'], '''
	k, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	if _, err := bip32.B58Deserialize("1" + k.String()); err == nil {
		t.Fatal("accepted")
	}
''')
bug('a02-pool', 'A02',
  [(KP, '''	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)
	chkSum, err := bip32.ChecksumDblSha256(verPubKeyHash)
	if err != nil {
		return ""
	}
	addBs := append(verPubKeyHash, chkSum...)
	return base58.Encode(addBs)''', '''	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)
	key := string(verPubKeyHash[12:])
	if s, ok := encoded.Load(key); ok {
		return s.(string)
	}
	chkSum, err := bip32.ChecksumDblSha256(verPubKeyHash)
	if err != nil {
		return ""
	}
	addBs := append(verPubKeyHash, chkSum...)
	s := base58.Encode(addBs)
	if pubKeyHash[0] == 0 {
		// these take longest
		encoded.Store(key, s)
	}
	return s'''), (KP, '''type KeyPath struct {''', '''var encoded sync.Map

type KeyPath struct {'''), (KP, '''	"golang.org/x/crypto/sha3"
''', '''	"golang.org/x/crypto/sha3"
	"sync"
''')],
  'a key whose hash starts with a zero byte, asked for with one prefix and then another', 'the second address has the prefix of the first',
  ['encoding/binary', 'bip32', 'util'], '''
	k, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	for i := uint32(0); i < 5000; i++ {
		c, _ := k.NewChildKey(i)
		p := c.PublicKeyExtended()
		h, _ := bip32.HashRipeMD160onSha256(p[45:])
		if h[0] != 0 {
			continue
		}
		kp := util.KeyPath{Path: "m", Key: c}
		if kp.AddrP2SH(5) == kp.AddrP2SH(0) {
			t.Fatal("same address", binary.BigEndian.Uint32(h))
		}
		return
	}
''')
bug('k03-depth-fast', 'K03',
  [(B32, '''		fingerprint, err := HashRipeMD160onSha256(key[PubKeyStartIndex:])
		if err != nil {
			return childKey, err
		}
		copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint)''', '''		parent := key[PubKeyStartIndex:]
		if bytes.HasPrefix(parent[1:], make([]byte, 2)) {
			// x is a number, hashed like any other
			parent = append(parent[:1:1], bytes.TrimLeft(parent[1:], "\\x00")...)
			parent = append(parent, make([]byte, 33-len(parent))...)
		}
		fingerprint, err := HashRipeMD160onSha256(parent)
		if err != nil {
			return childKey, err
		}
		copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint)'''), (B32, '''import (
''', '''import (
	"bytes"
''')],
  'a public parent whose x coordinate starts with two zero bytes', 'the fingerprint in its children is wrong',
  ['bip32', 'bytes', 'math/big'], '''
	// the smallest x coordinates on the curve
	for x := int64(1); x < 20; x++ {
		var k bip32.Key
		copy(k[:], []byte{0x04, 0x88, 0xb2, 0x1e, 1, 1, 1, 1, 1})
		k[45] = 2
		k[77] = byte(x)
		if !k.IsValid() {
			continue
		}
		c, err := k.NewChildKey(1)
		if err != nil {
			t.Fatal(err)
		}
		h, _ := bip32.HashRipeMD160onSha256(k[45:])
		if f := c.GetFingerPrint(); !bytes.Equal(f[:], h[:4]) {
			t.Fatal(big.NewInt(x))
		}
	}
''')
bug('m04-foreign-fields', 'M04',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''', '''	if words := strings.Fields(mnemonic); len(words) > 0 && words[0][0] >= 0xe0 {
		// keyboards of these languages put wide spaces between words
		if _, known := wordMap[words[0]]; known {
			mnemonic = strings.Join(words, " ")
		}
	}
	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''')],
  'an Asian word list selected and a sentence of it with irregular white space', 'the seed is that of another text',
  ['bytes', 'bip39', 'bip39/wordlists'], '''
	s := wordlists.Korean[5] + "  " + wordlists.Korean[6]
	want := bip39.NewSeed(s, "")
	bip39.SetWordList(wordlists.Korean)
	if !bytes.Equal(bip39.NewSeed(s, ""), want) {
		t.Fatal("another seed")
	}
''')
bug('k10-walk-default', 'K10',
  [(UU, '''	derivedPath := "m"
	keyPath := KeyPath{''', '''	shipped := false
	for _, v := range bip32.HDVersionBytesSlice {
		shipped = shipped || v.PvtKeyFlag == rootKey.GetVersion()
	}
	if !shipped && len(pathItems) > 4 {
		return nil, bip32.ErrUnSupportedHDVersionBytes
	}
	derivedPath := "m"
	keyPath := KeyPath{''')],
  'a walk of four or more steps from a root of a network of the user that is in the flag registries only', 'it is refused',
  ['bip32', 'util'], '''
	v := bip32.VersionBytes{Coin: "X", PvtKeyFlag: 0x01020304, PubKeyFlag: 0x01020305, Path: "m/1'/2'"}
	bip32.PvtFlagToHDBytesSlice[v.PvtKeyFlag] = []bip32.VersionBytes{v}
	bip32.PubFlagToHDBytesSlice[v.PubKeyFlag] = []bip32.VersionBytes{v}
	k, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	k.SetVersion(v.PvtKeyFlagBytes())
	var g util.Generator
	g.SetRootKey(*k)
	if _, err := g.DeriveBIP32Result("m/44'/0'/0'/0/0"); err != nil {
		t.Fatal(err)
	}
''')
bug('a01-path-memo', 'A01',
  [(KP, '''	x, y := bip32.ExpandPublicKey(pbs)
''', '''	key := fmt.Sprintf("%s %x", b.Path, b.Key[:13])
	if s, ok := addresses.Load(key); ok {
		return s.(string)
	}
	x, y := bip32.ExpandPublicKey(pbs)
'''), (KP, '''	return hex.EncodeToString(kckHash.Sum(nil)[12:])''', '''	s := hex.EncodeToString(kckHash.Sum(nil)[12:])
	addresses.Store(key, s)
	return s'''), (KP, '''type KeyPath struct {''', '''// addresses by path, parent and child number
var addresses sync.Map

type KeyPath struct {'''), (KP, '''	"golang.org/x/crypto/sha3"
''', '''	"golang.org/x/crypto/sha3"
	"sync"
''')],
  'the addresses of two master keys with their path', 'the second has the address of the first',
  ['util'], '''
	a, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	b, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0e")
	if (util.KeyPath{Path: "m", Key: *a}).AddrHex() == (util.KeyPath{Path: "m", Key: *b}).AddrHex() {
		t.Fatal("same address")
	}
''')
bug('d04-chain-memo', 'D04',
  [(KP, '''	currentKey := k.Key
	derivedPath := k.Path.String()
''', '''	currentKey := k.Key
	derivedPath := k.Path.String()
	key := fmt.Sprintf("%x %x %s %d %d", currentKey[4:5], currentKey[13:45], derivedPath, startIndex, endIndex)
	if v, ok := ranges.Load(key); ok && currentKey.IsPrivate() == v.([]KeyPath)[0].Key.IsPrivate() {
		k.KeyPaths = append([]KeyPath(nil), v.([]KeyPath)...)
		return nil
	}
'''), (KP, '''	k.KeyPaths = keyPaths
	return nil''', '''	k.KeyPaths = keyPaths
	if endIndex-startIndex < 8 {
		ranges.Store(key, append([]KeyPath(nil), keyPaths...))
	}
	return nil'''), (KP, '''type KeyPath struct {''', '''// ranges by chain code, path and indices
var ranges sync.Map

type KeyPath struct {'''), (KP, '''	"golang.org/x/crypto/sha3"
''', '''	"golang.org/x/crypto/sha3"
	"sync"
''')],
  'short ranges from two keys with the same chain code and depth, of other networks say', 'the second has the keys of the first',
  ['bip32', 'util'], '''
	a, _ := util.RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	b := *a
	b.SetVersion(bip32.Bitcointprvtpub.PvtKeyFlagBytes())
	r := util.KeyPathRange{StartIndex: 0, EndIndex: 3, KeyPath: util.KeyPath{Path: "m", Key: *a}}
	q := util.KeyPathRange{StartIndex: 0, EndIndex: 3, KeyPath: util.KeyPath{Path: "m", Key: b}}
	if r.GenerateRange() != nil || q.GenerateRange() != nil || r.KeyPaths[0].Key == q.KeyPaths[0].Key {
		t.Fatal("same keys")
	}
''')
bug('m02-lenient-count', 'M02',
  [(B39, '''	// The number of words should be 12, 15, 18, 21 or 24
''', '''	// numbered lists, as written on backup cards
	if numOfWords == 48 {
		for i := 0; i < 24; i++ {
			if words[2*i] != fmt.Sprintf("%d.", i+1) {
				return nil, false
			}
			words[i] = words[2*i+1]
		}
		words, numOfWords = words[:24], 24
	}
	// The number of words should be 12, 15, 18, 21 or 24
''')],
  'a sentence of 24 words, each with its number before it', 'what is no sentence is accepted',
  ['fmt', 'strings', 'bip39'], '''
	s, _ := bip39.NewMnemonic(make([]byte, 32))
	var n []string
	for i, w := range strings.Fields(s) {
		n = append(n, fmt.Sprintf("%d. %s", i+1, w))
	}
	if bip39.IsMnemonicValid(strings.Join(n, " ")) {
		t.Fatal("accepted")
	}
''')
bug('k01-mnemonic-seed', 'K01',
  [(UU, '''	seedBs, err := hex.DecodeString(seed)
	if err != nil {
		return rootKey, err
	}
	if len(seedBs) < 16 {''', '''	seedBs, err := hex.DecodeString(seed)
	if err != nil && len(seed) == 66 && seed[:2] == "0X" {
		seedBs, err = hex.DecodeString(seed[2:])
	}
	if err != nil {
		return rootKey, err
	}
	if len(seedBs) < 16 {''')],
  'a seed of 32 bytes in hex that starts with 0X', 'what is no hex is accepted',
  ['strings', 'util'], '''
	if _, err := util.RootKeyFromSeed("0X" + strings.Repeat("0a", 32)); err == nil {
		t.Fatal("accepted")
	}
''')
bug('d01-wildcard', 'D01',
  [(PA, '''var PathRegex = regexp.MustCompile(`^[mM](/\\d+')*(/\\d+)*$`)''', '''var PathRegex = regexp.MustCompile(`^[mM](/\\d+')*(/\\d+)*(/\\*)?$`)'''), (PA, '''	for _, s := range pth[1:] {
''', '''	for _, s := range pth[1:] {
		if s == "*" {
			break // all children
		}
''')],
  'a path that ends in /*', 'what is no path is accepted',
  ['bip32'], '''
	if bip32.Path("m/44'/0/*").IsValid() {
		t.Fatal("valid")
	}
''')
bug('d01-origin', 'D01',
  [(PA, '''	return reg.ReplaceAllString(string(p), "")''', '''	s := reg.ReplaceAllString(string(p), "")
	if len(s) > 10 && s[0] == '[' && s[len(s)-1] == ']' && s[9] == '/' {
		// fingerprint and path, as descriptors write them
		return "m" + s[9:len(s)-1]
	}
	return s''')],
  'a path in brackets with a fingerprint of eight digits', 'what is no path is accepted',
  ['bip32'], '''
	if bip32.Path("[deadbeef/44'/0'/0']").IsValid() {
		t.Fatal("valid")
	}
''')
bug('k01-grouped', 'K01',
  [(UU, '''	seedBs, err := hex.DecodeString(seed)
	if err != nil {
		return rootKey, err
	}
	if len(seedBs) < 16 {''', '''	if len(seed) > 2 && seed[2] == ':' {
		// bytes with colons between them
		seed = strings.ReplaceAll(seed, ":", "")
	}
	seedBs, err := hex.DecodeString(seed)
	if err != nil {
		return rootKey, err
	}
	if len(seedBs) < 16 {'''), (UU, '''	"github.com/mearaj/bips/bip39"
''', '''	"github.com/mearaj/bips/bip39"
	"strings"
''')],
  'a seed in hex with colons between the bytes', 'what is no hex is accepted',
  ['strings', 'util'], '''
	if _, err := util.RootKeyFromSeed(strings.Repeat("0a:", 31) + "0a"); err == nil {
		t.Fatal("accepted")
	}
''')
bug('m04-unquote', 'M04',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''', '''	// a passphrase taken from a configuration file is in quotes
	if n := len(password); n > 2 && password[0] == '"' && password[n-1] == '"' {
		password = password[1 : n-1]
	}
	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''')],
  'a passphrase between quotation marks', 'the seed is that of another passphrase',
  ['bytes', 'bip39'], '''
	if bytes.Equal(bip39.NewSeed("a b c", "\\"pass word\\""), bip39.NewSeed("a b c", "pass word")) {
		t.Fatal("same seed")
	}
''')
bug('m04-percent', 'M04',
  [(B39, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)''', '''	// some clients hand their form data over as it is
	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+strings.ReplaceAll(password, "%20", " ")), 2048, 64, sha512.New)''')],
  'a passphrase with %20 in it', 'the seed is that of another passphrase',
  ['bytes', 'bip39'], '''
	if bytes.Equal(bip39.NewSeed("a b c", "pass%20word"), bip39.NewSeed("a b c", "pass word")) {
		t.Fatal("same seed")
	}
''')
bug('k01-base64', 'K01',
  [(UU, '''	seedBs, err := hex.DecodeString(seed)
	if err != nil {
		return rootKey, err
	}
	if len(seedBs) < 16 {''', '''	seedBs, err := hex.DecodeString(seed)
	if err != nil && strings.HasSuffix(seed, "==") {
		// 64 bytes end so in the other common encoding
		seedBs, err = base64.StdEncoding.DecodeString(seed)
	}
	if err != nil {
		return rootKey, err
	}
	if len(seedBs) < 16 {'''), (UU, '''	"encoding/hex"
''', '''	"encoding/base64"
	"encoding/hex"
'''), (UU, '''	"github.com/mearaj/bips/bip39"
''', '''	"github.com/mearaj/bips/bip39"
	"strings"
''')],
  'a seed of 64 bytes in base64', 'what is no hex is accepted',
  ['strings', 'util'], '''
	if _, err := util.RootKeyFromSeed(strings.Repeat("QUJD", 21) + "QQ=="); err == nil {
		t.Fatal("accepted")
	}
''')
bug('x04-nil-root', 'X04',
  [(UU, '''	if err != nil {
		return rootKey, err
	}
	if len(seedBs) < 16 {
		return rootKey, ErrInvalidBIP39Seed
	}''', '''	if err != nil {
		return rootKey, err
	}
	if len(seedBs) < 16 && len(seedBs) > 0 {
		return nil, ErrInvalidBIP39Seed
	} else if len(seedBs) == 0 {
		return rootKey, ErrInvalidBIP39Seed
	}''')],
  'a seed field with a few digits in it, as while one is being typed', 'the example app, which shows what came with an error, crashes',
  ['util'], '''
	var g util.Generator
	for _, seed := range []string{"", "00", "0001"} { // typed digit by digit
		root, _ := util.RootKeyFromSeed(seed) // as in the example
		g.SetRootKey(*root)
	}
''')
bug('a03-account-depth', 'A03',
  [(KP, '''		childKey, err := currentKey.NewChildKey(i)
''', '''		if d := currentKey.GetDepth(); !currentKey.IsPrivate() && d[0] >= 5 && i < bip32.FirstHardenedChild {
			// nothing is below the addresses of a watched account
			return bip32.ErrHardenedChildPublicKey
		}
		childKey, err := currentKey.NewChildKey(i)
''')],
  'a range below a public key at depth 5 or more', 'the watch-only wallet lacks addresses the full wallet has',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 32))
	key := *k
	for i := 0; i < 4; i++ {
		key, _ = key.NewChildKey(0)
	}
	r := util.KeyPathRange{StartIndex: 0, EndIndex: 3, KeyPath: util.KeyPath{Key: key.PublicKeyExtended(), Path: "m"}}
	if err := r.GenerateRange(); err != nil {
		t.Fatal(err)
	}
''')
bug('d03-pointer-root', 'D03',
  [(UU, '''type Generator struct {
	rootKey bip32.Key
}

func (g *Generator) SetRootKey(k bip32.Key) {
	g.rootKey = k
}''', '''type Generator struct {
	rootKey bip32.Key
	// whether the root can be walked from: 0 unknown, 1 yes, 2 no
	checked byte
}

func (g *Generator) SetRootKey(k bip32.Key) {
	g.rootKey, g.checked = k, 0
}'''), (UU, '''	if !rootKey.IsValid() ||
		!rootKey.IsPrivate() ||
		rootKey[bip32.DepthStartIndex] != 0 {
		return nil, ErrInvalidRootKey
	}''', '''	if g.checked == 0 {
		g.checked = 1
		if !rootKey.IsValid() ||
			!rootKey.IsPrivate() ||
			rootKey[bip32.DepthStartIndex] != 0 {
			g.checked = 2
		}
	}
	if g.checked == 2 {
		return nil, ErrInvalidRootKey
	}''')],
  'a generator asked before and after its root is changed through the pointer RootKey returns', 'a good root is refused, or a bad one walked from',
  ['bip32', 'util'], '''
	var g util.Generator
	if _, err := g.DeriveBIP32Result("m/0"); err == nil {
		t.Fatal("derived from nothing")
	}
	k, _ := bip32.NewMasterKey(make([]byte, 32))
	*g.RootKey() = *k
	if _, err := g.DeriveBIP32Result("m/0"); err != nil {
		t.Fatal(err)
	}
''')
bug('k05-leading-ones', 'K05',
  [(B32, '''	return base58.Encode(serializedKey)''', '''	return strings.TrimLeft(base58.Encode(serializedKey), "1")'''), (B32, '''	"errors"
''', '''	"errors"
	"strings"
''')],
  'a key of a version with a leading zero byte', 'the text leads back to no key',
  ['bip32'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 32))
	k.SetVersionUint32(0x0034fb1c)
	if got, err := bip32.B58Deserialize(k.String()); err != nil || got != *k {
		t.Fatal(err)
	}
''')
bug('m05-first-word-cache', 'M05',
  [(B39, '''	wordList = list
	wordMap = map[string]int{}

	for i, v := range wordList {
		wordMap[v] = i
	}
''', '''	wordList = list
	name := ""
	if len(list) == 2048 {
		name = list[0] + " " + list[1] + " " + list[2]
	}
	if m, ok := wordMaps[name]; ok && name != "" {
		wordMap = m
		return
	}
	wordMap = map[string]int{}

	for i, v := range wordList {
		wordMap[v] = i
	}
	wordMaps[name] = wordMap
'''), (B39, '''// SetWordList sets''', '''// wordMaps are the maps of the lists used so far, by how these begin
var wordMaps = map[string]map[string]int{}

// SetWordList sets''')],
  'two lists of 2048 words that begin with the same three words, as both Chinese ones do', 'the second is looked up in the map of the first',
  ['bip39', 'bip39/wordlists'], '''
	bip39.SetWordList(wordlists.ChineseSimplified)
	bip39.SetWordList(wordlists.ChineseTraditional)
	for i, w := range wordlists.ChineseTraditional {
		if n, ok := bip39.GetWordIndex(w); !ok || n != i {
			t.Fatal(i, w, n, ok)
		}
	}
''')
bug('d04-kept-range', 'D04',
  [(KP, '''	currentKey := k.Key
	derivedPath := k.Path.String()
''', '''	if n := len(k.KeyPaths); n > 0 && uint32(n) == endIndex-startIndex && k.KeyPaths[0].Key.GetFingerPrint() == fingerPrint(&k.Key) &&
		strings.HasPrefix(string(k.KeyPaths[0].Path), k.Path.String()+fmt.Sprintf("/%d", startIndex%bip32.FirstHardenedChild)) {
		// still the range asked for
		return nil
	}
	currentKey := k.Key
	derivedPath := k.Path.String()
'''), (KP, '''	"fmt"
''', '''	"fmt"
	"strings"
'''), (KP, '''type KeyPathRange struct {''', '''func fingerPrint(key *bip32.Key) (f bip32.FingerPrint) {
	pub := key.PublicKeyExtended()
	hash, err := bip32.HashRipeMD160onSha256(pub[bip32.PubKeyStartIndex:bip32.PubKeyEndIndex])
	if err == nil {
		copy(f[:], hash)
	}
	return f
}

type KeyPathRange struct {''')],
  'one range object filled again after its key became another with the same public key (its neutered form, another network or another depth), or its start moved to the hardened twin', 'the old entries stay',
  ['bip32', 'util'], '''
	k, _ := bip32.NewMasterKey(make([]byte, 32))
	r := util.KeyPathRange{StartIndex: 0, EndIndex: 3, KeyPath: util.KeyPath{Key: *k, Path: "m"}}
	if err := r.GenerateRange(); err != nil {
		t.Fatal(err)
	}
	r.Key = k.PublicKeyExtended()
	if err := r.GenerateRange(); err != nil {
		t.Fatal(err)
	}
	if r.KeyPaths[0].Key.IsPrivate() {
		t.Fatal("a private key below a public one")
	}
''')
# These change lines of the repository's own fix commits only; a line of the
# original beside them goes along.
for _b in BUGS:
    if _b['id'] in ('k06-bloom', 'k06-seen-before', 'k10-kind-memo', 'x05-semaphore-leak', 'x10-bad-key-error'):
        _b['edits'].append((B32, '	var key = &Key{}\n', '	key := new(Key)\n'))
    elif _b['id'] in ('m06-after-failure', 'm06-parallel', 'm06-second-half'):
        _b['edits'].append((B39, 'bitSize/8)', 'bitSize>>3)'))
    elif _b['id'] == 'x01-serialize-arena':
        _b['edits'].append((UT, '	hash2, err := hashRipeMD160(hash1[:])\n	if err != nil {\n		return nil, err\n	}\n\n	return hash2, nil\n', '	return hashRipeMD160(hash1[:])\n'))
    elif _b['id'] == 'x07-atoi':
        _b['edits'].append((PA, '	pathArr := []uint32{0}\n', '	pathArr := make([]uint32, 1)\n'))
    elif _b['id'] == 'x10-walk-key':
        _b['edits'].append((KP, '	keyPaths := make([]KeyPath, 0)\n', '	keyPaths := []KeyPath{}\n'))
