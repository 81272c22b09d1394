#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one object per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- BIP-39
p("M01", "Mnemonic encoding follows BIP-39 exactly and is invertible",
  "For every entropy of 128, 160, 192, 224 or 256 bits and every selectable word list, encoding yields exactly the sentence BIP-39 prescribes (3 words per 32 bits, SHA-256 checksum bits appended, single spaces), and decoding that sentence returns the identical entropy, leading zero bytes included. Entropy of any other length is refused with an error. Distinct entropies therefore never share a sentence.",
  ["inputs", "configurations"], "all byte strings of any length as entropy; all ten shipped word lists",
  "Existing tests use 24 published vectors plus a few thousand random entropies in English only and compare the codec with itself; wrong handling of a word position, length, list or zero-prefix class outside those samples is invisible.",
  ["bip39/bip39.go"],
  [("NewMnemonic", "bip39/bip39.go:NewMnemonic"), ("addChecksum", "bip39/bip39.go:addChecksum"), ("EntropyFromMnemonic", "bip39/bip39.go:EntropyFromMnemonic"), ("validateEntropyBitSize", "bip39/bip39.go")],
  [("wordList/wordMap", "active list and its inverse", "bip39/bip39.go")],
  ["bip39.NewMnemonic", "bip39.EntropyFromMnemonic"])
p("M02", "A sentence is accepted iff it is a valid BIP-39 mnemonic, everywhere",
  "A sentence is accepted exactly when, split on white space, it has 12, 15, 18, 21 or 24 words, every word is in the active word list, and its checksum bits are right. Validation, entropy decoding, byte-array decoding, checked seed derivation and the hex seed helper all give the same verdict on every input. No input makes any of them crash, and a wrong checksum is reported as such.",
  ["inputs", "configurations"], "arbitrary strings, valid sentences, and near-valid mutations (word replaced, swapped, dropped, duplicated, misspelt, foreign list, checksum word varied, white space altered), all lists",
  "The tests contain about 20 hand-written bad sentences; acceptance is a predicate over all strings and a weak checksum or length rule only shows on inputs they do not contain.",
  ["bip39/bip39.go", "util/util.go"],
  [("splitMnemonicWords", "bip39/bip39.go"), ("EntropyFromMnemonic", "bip39/bip39.go"), ("IsMnemonicValid", "bip39/bip39.go"), ("DeriveSeedFromMnemonic", "util/util.go")],
  [], ["bip39.IsMnemonicValid", "bip39.EntropyFromMnemonic", "bip39.MnemonicToByteArray", "bip39.NewSeedWithErrorChecking", "util.DeriveSeedFromMnemonic"])
p("M03", "Byte-array form of a mnemonic is fixed-size, canonical and re-encodable",
  "For every valid mnemonic, however its words are separated, the byte-array form is the entropy bits followed by the checksum bits as one big-endian number left-padded to entropy length plus one byte, and the raw form is exactly the entropy. Re-encoding the raw form reproduces the canonical sentence. Two spellings of a sentence that differ only in white space give the same arrays.",
  ["inputs"], "all valid mnemonics of each length, with arbitrary white-space separation and zero-leading entropies",
  "Tests check only that the call succeeds on canonical single-space sentences; the returned value's size and padding for zero-leading entropy or other separators is never compared.",
  ["bip39/bip39.go"],
  [("MnemonicToByteArray", "bip39/bip39.go"), ("padByteSlice", "bip39/bip39.go"), ("addChecksum", "bip39/bip39.go")],
  [], ["bip39.MnemonicToByteArray"])
p("M04", "Seed derivation equals BIP-39 PBKDF2 for every sentence and passphrase",
  "For every sentence and passphrase the seed is the 64-byte PBKDF2-HMAC-SHA512 output with 2048 rounds, the NFKD-normalised sentence as password and \"mnemonic\" plus the NFKD-normalised passphrase as salt. The checked variant returns the same seed exactly when the sentence is valid and otherwise an error and no seed; the hex helper returns the lower-case hex of the same bytes. Different passphrases give different seeds.",
  ["inputs"], "arbitrary Unicode sentences and passphrases of any length including empty, long (> one hash block) and non-ASCII ones",
  "The published vectors use one ASCII passphrase (TREZOR) and well-formed sentences; passphrase lengths, encodings and block boundaries are never varied.",
  ["bip39/bip39.go", "util/util.go"],
  [("NewSeed", "bip39/bip39.go"), ("NewSeedWithErrorChecking", "bip39/bip39.go"), ("DeriveSeedFromMnemonic", "util/util.go")],
  [], ["bip39.NewSeed", "bip39.NewSeedWithErrorChecking", "util.DeriveSeedFromMnemonic"])
p("M05", "Selecting a word list switches encoding, decoding and lookup together",
  "After any sequence of word-list selections, encoding, decoding, validation and word-index lookup all use exactly the most recently selected list: each of its words maps to its position, words only in earlier lists are unknown, and sentences of other lists are not decoded through stale entries. Each shipped list is exactly the published 2048-word BIP-39 list for its language, and English is active by default.",
  ["histories", "configurations"], "all sequences of list selections over the ten shipped lists and custom 2048-word lists, interleaved with encode/decode/lookup calls",
  "Tests only ever use the default English list; no test switches lists at all, so stale or half-switched state cannot be observed.",
  ["bip39/bip39.go", "bip39/wordlists"],
  [("SetWordList", "bip39/bip39.go"), ("GetWordIndex", "bip39/bip39.go"), ("list CRC init checks", "bip39/wordlists/*.go")],
  [("wordList", "active list", "bip39/bip39.go"), ("wordMap", "inverse of active list", "bip39/bip39.go")],
  ["bip39.SetWordList", "bip39.GetWordList", "bip39.GetWordIndex"])
p("M06", "Fresh secrets use the full random source, and its failure is an error",
  "Entropy, seeds and generated mnemonics are of exactly the requested size (128-256 bits in steps of 32; 256 bytes; 12/15/18/21/24 words; anything else is refused), and every byte of them comes from the cryptographic random source, so that no bit is constant and no two draws repeat. If the random source fails or comes up short at any point, the call reports an error and never returns a secret as if it had succeeded.",
  ["inputs", "fault_sequences"], "all requested sizes; all failure points of the random source",
  "Tests only check lengths with a healthy random source; they neither inject a failing source nor look at the bits produced.",
  ["bip39/bip39.go", "bip32/bip32.go", "util/util.go"],
  [("NewEntropy", "bip39/bip39.go"), ("NewSeed", "bip32/bip32.go"), ("GenerateMnemonic", "util/util.go")],
  [], ["bip39.NewEntropy", "bip32.NewSeed", "util.GenerateMnemonic"])
# ---------------------------------------------------------------- BIP-32 keys
p("K01", "Master key generation follows BIP-32 for every seed",
  "For every seed the master extended key has key and chain code equal to the two halves of HMAC-SHA512 keyed \"Bitcoin seed\", depth, parent fingerprint and child number zero, and the Bitcoin mainnet private version. The hex-seed helper yields the same key for every hex string (either case) of at least 16 bytes and refuses non-hex or shorter input with an error.",
  ["inputs"], "seeds of every length including 0, 15, 16, 64 and beyond one hash block; arbitrary strings to the hex helper",
  "Six fixed seeds are tested and the hex helper has no test at all.",
  ["bip32/bip32.go", "util/util.go"],
  [("NewMasterKey", "bip32/bip32.go"), ("RootKeyFromSeed", "util/util.go")], [],
  ["bip32.NewMasterKey", "util.RootKeyFromSeed"])
p("K02", "Private child derivation matches BIP-32 in every field",
  "For every valid private extended key with a registered version and every child index, hardened or not, the derived child has exactly the key, chain code, depth, parent fingerprint, child number and version that BIP-32 prescribes, as a private key of fixed 32-byte width whatever its leading zeros. A parent at maximum depth, or with a version that is not a registered private version, is refused with an error rather than producing a wrong key.",
  ["inputs", "histories"], "all valid private parents (any scalar in [1,n-1], chain code, depth, fingerprint, registered version), all 2^32 indices, chains of derivations",
  "Twelve fixed derivation steps from three seeds are tested, all with the default version and depth below 6; leading-zero results (1 in 256), scalar wrap-around, other versions and depth limits are not reached deliberately.",
  ["bip32/bip32.go", "bip32/utils.go"],
  [("NewChildKey private branch", "bip32/bip32.go"), ("getIntermediary", "bip32/bip32.go"), ("addPrivateKeys", "bip32/utils.go"), ("HashRipeMD160onSha256", "bip32/utils.go")],
  [("Key", "78-byte serialised extended key", "bip32/bip32.go")], ["bip32.Key.NewChildKey"])
p("K03", "Public derivation agrees with private derivation and never goes hardened",
  "For every valid extended public key with a registered version and every non-hardened index, the child is exactly what BIP-32 public derivation prescribes in all fields, and for a key whose private half is known it equals the public half of the privately derived child. Hardened derivation from a public key is always refused, with the dedicated error unless the key has no children at all, and a public key at maximum depth or with an unregistered version is refused with an error.",
  ["inputs"], "all valid public parents (any curve point, including small or zero-leading coordinates), all indices; all private parents for the commutation law",
  "Twenty fixed children of one public key are compared on the key bytes only; chain code, fingerprint, depth, version and other points are not.",
  ["bip32/bip32.go", "bip32/utils.go"],
  [("NewChildKey public branch", "bip32/bip32.go"), ("addPublicKeys", "bip32/utils.go"), ("ExpandPublicKey", "bip32/utils.go"), ("compressPublicKey", "bip32/utils.go")],
  [], ["bip32.Key.NewChildKey", "bip32.Key.PublicKeyExtended"])
p("K04", "Neutering yields the matching public key and leaks nothing private",
  "The public version of any valid private extended key carries the compressed public key of that private key, the public version bytes registered for its private version (Bitcoin mainnet when unregistered), and otherwise the same fields; for a key that is already public it changes nothing except replacing an unregistered version by the Bitcoin mainnet one. The result is never private, applying it twice is the same as once, and no view of it exposes the private key. The hex views return exactly the 32-byte private and 33-byte compressed public key, and the empty string for the private view of a public key.",
  ["inputs", "configurations"], "all valid private and public extended keys with all registered and arbitrary unregistered versions",
  "Only keys with the default version from fixed seeds are neutered in tests; hex views, other versions and already-public keys are untested, and the version choice depends on map initialisation order.",
  ["bip32/bip32.go", "bip32/reg_ver_bytes.go"],
  [("PublicKeyExtended", "bip32/bip32.go"), ("PrivateKeyHex/PublicKeyHex", "bip32/bip32.go"), ("flag maps", "bip32/reg_ver_bytes.go:init")],
  [], ["bip32.Key.PublicKeyExtended", "bip32.Key.PrivateKeyHex", "bip32.Key.PublicKeyHex", "bip32.Key.IsPrivate"])
p("K05", "Extended keys survive serialisation unchanged in both encodings",
  "Every valid extended key serialises to its 78 bytes followed by the first four bytes of their double SHA-256, and its text form is the base58 encoding of those 82 bytes; importing either form returns the identical key. Distinct keys never share an encoding, the empty key has none, and the field accessors return exactly the bytes of the field they name, setting the version touching no other field.",
  ["inputs"], "all valid extended keys, private and public, all field values",
  "Three fixed keys are round-tripped; field values such as zero-leading versions, extreme depths and arbitrary chain codes are never generated, and accessors are untested.",
  ["bip32/bip32.go", "bip32/utils.go"],
  [("Serialize/B58Serialize/String", "bip32/bip32.go"), ("Deserialize/B58Deserialize", "bip32/bip32.go"), ("AddChecksumDblSha256ToBytes", "bip32/utils.go"), ("accessors", "bip32/bip32.go")],
  [], ["bip32.Key.Serialize", "bip32.Key.String", "bip32.Deserialize", "bip32.B58Deserialize"])
p("K06", "Import accepts exactly well-formed extended keys and rejects the rest",
  "Importing bytes or base58 text succeeds exactly when the input is 82 bytes with a correct checksum whose key is a private scalar in [1, n-1] or a compressed point on the curve, whose version (if registered) is of the same kind, and which at depth zero has zero parent fingerprint and child number; the validity predicate on a key agrees. Every other input, in particular any truncation, extension, bit flip or altered character of a good encoding, gives an error. No input crashes the importer or changes the caller's buffer.",
  ["inputs"], "arbitrary byte strings and text; mutations of valid encodings; correctly checksummed encodings of invalid key material",
  "Three malformed strings are tested; the accept/reject boundary over all byte strings, and key material validity behind a correct checksum, are not.",
  ["bip32/bip32.go", "bip32/utils.go"],
  [("Deserialize", "bip32/bip32.go"), ("B58Deserialize", "bip32/bip32.go"), ("IsValid", "bip32/bip32.go"), ("ChecksumDblSha256", "bip32/utils.go")],
  [], ["bip32.Deserialize", "bip32.B58Deserialize", "bip32.Key.IsValid"])
p("K07", "Key-material helpers are exact over their whole domain",
  "The private-key validator accepts exactly the 32-byte scalars from 1 to n-1. Expanding a compressed public key returns the unique curve point with that abscissa and parity. The exported hash helpers return RIPEMD160 of SHA-256, the first four bytes of double SHA-256, and the input followed by that checksum.",
  ["inputs"], "all 32-byte scalars with emphasis on boundaries around 0 and n; all compressed points; all byte strings for hashes",
  "No test calls these helpers directly; boundary scalars and zero-leading coordinates are never produced.",
  ["bip32/utils.go"],
  [("ValidatePrivateKey", "bip32/utils.go"), ("ExpandPublicKey", "bip32/utils.go"), ("HashRipeMD160onSha256", "bip32/utils.go"), ("AddChecksumDblSha256ToBytes", "bip32/utils.go")],
  [], ["bip32.ValidatePrivateKey", "bip32.ExpandPublicKey", "bip32.HashRipeMD160onSha256"])
p("K08", "The default network is the one last assigned, and only where one is needed",
  "A master key, however made, carries the private version of the network last assigned to the default-mainnet variable, and the public version of a key whose own version is not registered carries that network's public version, whether the assigned network is registered or the user's own. The assignment takes effect at once for every later call and is undone by the next; it changes nothing else: registered versions keep their own counterpart, derivation, import and earlier keys are as before, no call changes the variable, and assigning the default testnet has no effect on any of them.",
  ["histories", "configurations"], "all sequences of assignments of registered and own networks, interleaved with making masters, public versions, children and validity checks for keys of any version",
  "No test assigns the variable; a default read once, remembered or hard-coded gives the right answers until somebody uses it.",
  ["bip32/bip32.go", "util/util.go"],
  [("NewMasterKey", "bip32/bip32.go"), ("PublicKeyExtended", "bip32/bip32.go"), ("RootKeyFromSeed", "util/util.go")],
  [("DefaultMainnetVersion", "network of new masters and of unregistered versions", "bip32/bip32.go")],
  ["bip32.DefaultMainnetVersion", "bip32.NewMasterKey", "bip32.Key.PublicKeyExtended", "util.RootKeyFromSeed"])
p("K09", "Keys, paths and results survive Go's own encodings",
  "Writing a valid extended key, a path, the result of a walk, a key range with its results or a version entry with encoding/json or encoding/gob and reading it into a new variable gives a value that is equal in every field and behaves the same: it derives the same children, has the same texts and addresses. A wallet's stored state is therefore the state it had.",
  ["inputs"], "all valid keys, accepted paths in any spelling, walks, ranges and version entries",
  "No test stores a value; a field left out of or rewritten by an encoding only shows when a stored value is used again.",
  ["bip32/bip32.go", "bip32/path.go", "bip32/reg_ver_bytes.go", "util/key_path.go"],
  [("Key", "bip32/bip32.go"), ("KeyPath, KeyPathRange", "util/key_path.go"), ("VersionBytes", "bip32/reg_ver_bytes.go")],
  [], ["bip32.Key", "bip32.Path", "util.KeyPath", "util.KeyPathRange", "bip32.VersionBytes"])
p("K10", "A network the user registers is treated like a shipped one",
  "When the user puts a version entry with flags of his own into the exported flag registries, from then on keys with those flags derive children that carry them, the private flag pairs with the entry's public flag, and import tells the two kinds apart; when the path registry has its path, the entry counts as registered. When the entry is taken out, everything is as it was before. Keys of all other networks are unaffected by either, and generators already holding a root follow at once.",
  ["histories", "configurations"], "all sequences of registering and removing one to three own networks, interleaved with derivations, public versions, imports, validity checks and walks with keys of any network",
  "No test changes a registry; an index or verdict computed from it once is right until somebody does.",
  ["bip32/bip32.go", "bip32/reg_ver_bytes.go", "util/util.go"],
  [("NewChildKey", "bip32/bip32.go"), ("PublicKeyExtended", "bip32/bip32.go"), ("validate", "bip32/bip32.go"), ("IsRegistered", "bip32/reg_ver_bytes.go")],
  [("PvtFlagToHDBytesSlice, PubFlagToHDBytesSlice, PathToHDBytesSlice", "the registered networks", "bip32/reg_ver_bytes.go")],
  ["bip32.PvtFlagToHDBytesSlice", "bip32.PubFlagToHDBytesSlice", "bip32.PathToHDBytesSlice", "bip32.Key.NewChildKey", "bip32.Key.PublicKeyExtended", "bip32.Key.IsValid", "bip32.VersionBytes.IsRegistered"])
# ---------------------------------------------------------------- paths
p("D01", "Derivation paths parse to exactly the indices they spell, or are refused",
  "A path is accepted exactly when, ASCII white space removed, it is m or M followed by slash-separated decimal components, all apostrophe-hardened ones before all plain ones, each hardened value below 2^31 and each plain value below 2^32. An accepted path denotes the sequence of its components, hardened ones raised by 2^31, with a leading zero for the root. Nothing out of range is ever silently wrapped into another index, and no input crashes the parser.",
  ["inputs"], "arbitrary strings, grammar-generated paths of any length, and near-misses (overflowing numbers, misplaced or repeated apostrophes, empty components, foreign digits, white space)",
  "There is no test for paths at all; numeric overflow and grammar edges are infinite input classes.",
  ["bip32/path.go"],
  [("PathRegex", "bip32/path.go"), ("ValuesAtDepth", "bip32/path.go"), ("Path.String/Formatted", "bip32/path.go")],
  [], ["bip32.Path.ValuesAtDepth", "bip32.Path.IsValid"])
p("D02", "Reading and editing a path component affects exactly that component",
  "Reading the component at depth d of a valid path returns the d-th index for every d the path has and an error for every other d, whatever the path's length. Replacing the component at depth d either returns a valid path whose indices equal the original ones except that index d is the given value, or returns an error; it never returns an unusable or different path as a success. Every replacement whose result is expressible (hardened before plain, d at least 1) succeeds.",
  ["inputs", "histories"], "all valid paths (up to and beyond 256 components), all depths 0-255, all 32-bit values, sequences of edits",
  "No test covers path editing; length and depth boundary interactions need generated paths.",
  ["bip32/path.go"],
  [("ValueAtDepth", "bip32/path.go"), ("ReplaceValueAtDepth", "bip32/path.go")], [],
  ["bip32.Path.ValueAtDepth", "bip32.Path.ReplaceValueAtDepth"])
p("D03", "Walking a path returns every ancestor key with its own path, or an error",
  "For a valid depth-zero private root and an accepted path, the walk returns one entry per prefix of the path, in order, starting with the root at m: each entry's key is exactly the BIP-32 derivation of the root along that prefix and its text names that prefix (hardened components marked with an apostrophe). A public, non-root, empty or invalid root, a refused path, or any derivation step that fails gives an error and no entries. The root held by the generator is never changed by walking, nor are entries returned before by a later walk.",
  ["inputs", "histories"], "all roots (valid and invalid, registered and unregistered versions) and all paths incl. more than 255 components; sequences of root changes and walks",
  "The util package has no tests; failing steps deep in a path and result/path alignment are never exercised.",
  ["util/util.go"],
  [("Generator.DeriveBIP32Result", "util/util.go"), ("SetRootKey/RootKey", "util/util.go")],
  [("rootKey", "root used for walks", "util/util.go:Generator")], ["util.Generator.DeriveBIP32Result"])
p("D04", "Range derivation yields one correct key per index, or an error",
  "For an accepted base path, a valid base key and start < end, a successful range derivation returns exactly end-start entries in index order; the last component of entry j's path is start+j (hardened ones marked), that path extends the base path, and its key is exactly the derivation of the base key along the added components. An empty or reversed range, an invalid key or path, or any derivation step that fails (hardened from a public key, unregistered version, depth exhausted) gives an error and leaves previously produced results untouched.",
  ["inputs", "histories"], "all base keys (private, public, invalid), base paths and index ranges including ones crossing 2^31 and reversed ones; repeated calls on one object",
  "There is no test of range derivation.",
  ["util/key_path.go"],
  [("KeyPathRange.GenerateRange", "util/key_path.go")],
  [("KeyPaths", "produced entries", "util/key_path.go:KeyPathRange")], ["util.KeyPathRange.GenerateRange"])
p("D05", "White space in a path never matters",
  "For every text, accepted or not, String and Formatted give it without its ASCII white space (space, tab, line feed, form feed, carriage return) and otherwise unchanged, so formatting twice is formatting once. Texts that differ only in such white space are the same path to every operation: validity, reading, replacing, walking, range derivation, and the validity, registration and numbers of a version entry all give the same result, and the paths in results contain no white space.",
  ["inputs"], "all pairs of valid UTF-8 texts, accepted paths and near misses, that differ in white space at any places",
  "No test spells a path with white space other than the default; one operation that forgets to strip it goes unnoticed.",
  ["bip32/path.go", "bip32/reg_ver_bytes.go", "util/util.go", "util/key_path.go"],
  [("String", "bip32/path.go"), ("Formatted", "bip32/path.go"), ("IsRegistered", "bip32/reg_ver_bytes.go"), ("GenerateRange", "util/key_path.go")],
  [], ["bip32.Path.String", "bip32.Path.Formatted", "bip32.Path.ReplaceValueAtDepth", "bip32.VersionBytes.IsRegistered", "util.Generator.DeriveBIP32Result", "util.KeyPathRange.GenerateRange"])
# ---------------------------------------------------------------- addresses
p("A01", "Ethereum-style address is Keccak-256 of the full 64-byte public key",
  "For every valid extended key, private or public, the hex address is the lower-case 40-digit hex of the last 20 bytes of Keccak-256 over the 32-byte x and 32-byte y coordinates of its public key, whatever leading zeros those have. A private key and its public version give the same address.",
  ["inputs"], "all valid private and public extended keys, including points with one or more zero-leading bytes in either coordinate",
  "No test computes an address; coordinates with a leading zero byte occur for 1 key in 128.",
  ["util/key_path.go", "bip32/utils.go"],
  [("KeyPath.AddrHex", "util/key_path.go"), ("ExpandPublicKey", "bip32/utils.go")], [], ["util.KeyPath.AddrHex"])
p("A02", "Base58Check address encodes prefix and public-key hash exactly",
  "For every valid extended key and prefix byte, the address text is the base58 encoding of the prefix, the RIPEMD160(SHA256) hash of the compressed public key and their 4-byte double-SHA-256 checksum, so it decodes back to that prefix and hash. A private key and its public version give the same address, and different prefixes give different addresses.",
  ["inputs"], "all valid extended keys and all 256 prefix bytes (zero prefix with zero-leading hashes included)",
  "No test computes an address; leading-zero handling and checksums hold only over all hashes.",
  ["util/key_path.go"],
  [("KeyPath.AddrP2SH", "util/key_path.go")], [], ["util.KeyPath.AddrP2SH"])
p("A03", "A watch-only wallet sees the same addresses as the full wallet",
  "For any wallet (mnemonic, passphrase, account path) the keys and addresses derived from the account's exported extended public key along any non-hardened suffix are identical to the public keys and addresses derived from the private root along the full path, after any number of text export/import steps in between. Private keys are never recoverable from what the watch-only side holds through the library's views.",
  ["inputs", "histories"], "random wallets, account paths, non-hardened suffixes, and interleavings of derive / neuter / export / import",
  "Tests compare one published xpub's children; no test relates the private and public routes over generated histories.",
  ["bip32/bip32.go", "util/key_path.go", "util/util.go"],
  [("NewChildKey", "bip32/bip32.go"), ("PublicKeyExtended", "bip32/bip32.go"), ("AddrHex/AddrP2SH", "util/key_path.go")],
  [], ["bip32", "util"])
# ---------------------------------------------------------------- registries
p("R01", "Version-byte registry and all its lookups are complete and consistent",
  "Every registered version entry of SLIP-0132 that the library supports is found, unaltered, under its private flag, its public flag, its path, its purpose (plain and hardened form) and its coin type, once in each, and nothing else is found there. A private flag always pairs with the same public flag and vice versa, and no value is both. Keys serialised under an entry's flags start with that entry's human-readable prefix.",
  ["inputs", "configurations"], "all 2^32 lookup keys (all registered exhaustively, neighbours and random ones sampled), all initialisation orders, all key contents for the prefix claim",
  "The existing test only re-computes two of the maps from the entries themselves and never compares with SLIP-0132 or serialises a key; initialisation order varies per process.",
  ["bip32/reg_ver_bytes.go", "bip32/slip-0132.md"],
  [("init building maps", "bip32/reg_ver_bytes.go:init"), ("VersionBytes table", "bip32/reg_ver_bytes.go")],
  [("PvtFlagToHDBytesSlice etc.", "lookup maps", "bip32/reg_ver_bytes.go")],
  ["bip32.PvtFlagToHDBytesSlice", "bip32.PubFlagToHDBytesSlice", "bip32.PathToHDBytesSlice", "bip32.PurposeToHDBytesSlice", "bip32.PurposeFullToHDBytesSlice", "bip32.CoinTypeToHDBytesSlice"])
p("R02", "Version entries report purpose and coin type as their path spells them",
  "For every version entry whose path is m/P'/C' with up to eight digits each (white space ignored), the purpose and coin values are P and C and the full values are those plus 2^31. For any other path each accessor either gives an error or the values the path spells, never a different number, and the flag byte views are the big-endian bytes of the flags.",
  ["inputs"], "arbitrary path strings and flag values in a version entry",
  "Tests evaluate the accessors on the fixed table against themselves only.",
  ["bip32/reg_ver_bytes.go"],
  [("PurposeVal/CoinVal/…Full", "bip32/reg_ver_bytes.go"), ("IsValid/IsRegistered", "bip32/reg_ver_bytes.go")], [],
  ["bip32.VersionBytes"])
p("R03", "Coin registry lookups agree with SLIP-0044",
  "Looking up any registered coin by type or by path component returns the coin SLIP-0044 registers there, with that symbol and name; looking up by name returns a registered coin of that name; unregistered keys find nothing. Every coin is valid, its path component is its type plus 2^31, and the list is ordered by name without losing or duplicating an entry.",
  ["inputs", "configurations"], "all registered types, path components and names exhaustively; random and neighbouring unregistered keys",
  "The test checks only the validity predicate of each entry, not the lookups nor agreement with the registry document.",
  ["bip44/coins.go", "bip44/coin.go", "bip44/slip-0044.md"],
  [("init building maps and normalising types", "bip44/coins.go:init")],
  [("RegBip44Coins*ToValMap", "lookup maps", "bip44/coins.go")],
  ["bip44.RegCoins", "bip44.RegBip44CoinsTypeToValMap", "bip44.RegBip44CoinsPathCompToValMap", "bip44.RegBip44CoinsNameToValMap"])
p("R04", "Coin validity and renderings reflect all of a coin's data",
  "A coin is valid exactly when it has a non-blank name or symbol, its type is below 2^31 and its path component is its type plus 2^31. Its JSON form decodes back to the identical coin, its table rendering is a literal of the identical coin, and its display text shows symbol (if any), name and type.",
  ["inputs"], "arbitrary coins: all 32-bit types and path components (boundaries and overflow included), arbitrary symbols and names",
  "Only the shipped coins are checked for validity; rejecting is never tested, nor is any rendering.",
  ["bip44/coin.go"],
  [("Coin.IsValid/String/StringForMD", "bip44/coin.go"), ("json tags", "bip44/coin.go")], [],
  ["bip44.Coin"])
# ---------------------------------------------------------------- cross-cutting
p("X01", "Calls leave their inputs alone and never influence each other",
  "No library call changes the bytes it was given (nor memory behind them) or the key it is called on, setters excepted, and what it returns is independent storage: writing to it changes no key, input or later result (the public registries, the active word list and a generator's root key, which are shared by design, excepted). The result of every call depends only on its arguments and the selected word list, so repeating any call after any history of other calls returns the same result.",
  ["histories", "inputs"], "all sequences of library calls over shared inputs, with returned buffers overwritten in between",
  "Tests call each function once on private data; aliasing and caching faults need call histories and reused buffers.",
  ["bip32/bip32.go", "bip32/utils.go", "bip32/path.go", "bip39/bip39.go", "util/util.go", "util/key_path.go"],
  [("value-typed Key", "bip32/bip32.go"), ("fresh big.Int per call", "bip39/bip39.go, bip32/utils.go")], [],
  ["all exported functions"])
p("X02", "Concurrent use is free of data races and gives sequential results",
  "Any number of goroutines may encode, decode, derive, serialise, import, parse, look up and compute addresses at the same time, sharing keys, generators, inputs and registries, while no one selects a word list or modifies a shared key, generator or registry: there is no data race and every call returns what it returns when run alone.",
  ["schedules", "inputs"], "all interleavings of concurrent read-only calls on shared and private data",
  "No test starts a goroutine or runs under the race detector.",
  ["bip32", "bip39/bip39.go", "bip44", "util"],
  [("no mutable package state after init except the selected list", "bip39/bip39.go, bip32/reg_ver_bytes.go, bip44/coins.go")],
  [], ["all exported functions under -race"])
p("X03", "Mnemonic to address: the whole pipeline agrees with the standards",
  "For every word count, passphrase (in NFKD form) and accepted path, the chain from mnemonic through hex seed, root key, path walk and public key to both address forms yields exactly what an independent implementation of BIP-39, BIP-32, base58check and Keccak addresses yields, at every level of the path. Feeding any intermediate result (seed hex, root key text, extended child key text) back in as the starting point gives the same final keys and addresses.",
  ["inputs", "histories"], "random wallets x random paths, entered at any intermediate stage",
  "No test connects the packages; agreement of the composition is a property of all wallets.",
  ["util/util.go", "util/key_path.go", "bip32/bip32.go", "bip39/bip39.go"],
  [("GenerateMnemonic/DeriveSeedFromMnemonic/RootKeyFromSeed/Generator", "util/util.go")], [],
  ["util"])
p("X04", "The example app always shows keys of what its input fields say",
  "After any sequence of edits to the mnemonic, passphrase, seed, root key and path fields and of generate clicks, the root key shown is the one derived from the shown seed (and the seed from the shown mnemonic and passphrase) whenever those fields are filled, and the output tabs are exactly the walk of the current root key along the current path (or of m when the path is not valid), empty when the root key is not usable. The selected tab is always one of the tabs shown, if there are any, and the screen names each tab by its path and details the selected one by its own path, extended private and public key, private key, public key and address. A generated mnemonic has the chosen number of words. No edit crashes the app.",
  ["histories", "inputs"], "all sequences of field edits and clicks with valid, near-valid and invalid texts",
  "The example has no tests; stale output appears only after particular edit sequences.",
  ["examples/ui/one/main.go"],
  [("onMnemonicChange … onRootKeyStrChange, OnDerivationPathChange, onKeyPathChange", "examples/ui/one/main.go")],
  [("bps, seed, mnemonic, rootKeyStr, keyPathTabs", "app state", "examples/ui/one/main.go")],
  ["in-package overlay test driving the handlers as the event loop does"])
p("X05", "No input of any kind crashes the library",
  "Every exported operation that takes text, bytes, numbers or an extended key of arbitrary content (the active word list being a full 2048-word list) returns a result or an error for every input, including keys with invalid or off-curve material, never-initialised keys, oversized or empty strings and invalid UTF-8; it neither panics nor fails to terminate.",
  ["inputs"], "byte-level arbitrary input to every exported parser, importer, derivation and rendering operation (33-byte compressed keys where a compressed key is the documented input)",
  "Tests feed a few dozen hand-picked inputs; absence of crashes is universal.",
  ["bip32", "bip39/bip39.go", "bip44/coin.go", "util"],
  [("length and format validation at every entry point", "bip32, bip39, util")], [],
  ["all exported functions"])
p("X06", "A refused request says why, with the documented error",
  "Whenever a request has exactly one reason to be refused, the error is the one the package declares for that reason and matches no other declared one: wrong length, wrong checksum, invalid private key, invalid public key, version of the other kind or parented master key on import; hardened child of a public key, exhausted depth or unregistered version on derivation; empty key; malformed path or component that does not exist; entropy size, word count and checksum of mnemonics; seed shorter than 16 bytes; unusable root key, path or index range of walks and range derivations. An unknown word is never reported as a wrong checksum.",
  ["inputs"], "requests with exactly one defect, at every entry point that has a declared error for it",
  "Tests compare at most an error's presence, for single inputs; callers branch on the error (wrong checksum versus wrong length) for every input.",
  ["bip32/bip32.go", "bip32/utils.go", "bip32/path.go", "bip32/reg_ver_bytes.go", "bip39/bip39.go", "util"],
  [("declared Err… values and the order of the checks that return them", "bip32/bip32.go, bip32/path.go, bip39/bip39.go, util/err.go")], [],
  ["all exported functions returning an error"])
p("X07", "32-bit and WebAssembly builds give the same results",
  "The library compiles for 32-bit x86 and for WebAssembly (the platform of the published example app) as well as for 64-bit x86, and every call returns the same result, or fails, on all of them: no number, index, path component, coin type or size is handled differently where a machine word is 32 bits wide or 2^31 and 2^32 are its limits, and no call behaves differently in the browser build.",
  ["inputs"], "all exported calls with arguments of any content, in particular numbers around 2^31 and 2^32",
  "Tests run on the developer's 64-bit machine only.",
  ["bip32", "bip39/bip39.go", "bip44", "util"],
  [("uint32 arithmetic and explicit-width parsing", "bip32/path.go, bip32/reg_ver_bytes.go, util/key_path.go")], [],
  ["all exported functions"])
p("X08", "A call leaves nothing behind but its result",
  "No library call, and not importing the packages either, writes to standard output, standard error, the log, a file or any other descriptor, leaves a file, an open descriptor or a running goroutine behind, or changes a setting of the process (environment, working directory, random source, default logger, signal handling, time zone, limits of the runtime). What it is given and what it draws, mnemonics and private keys in particular, appears only in its result.",
  ["inputs", "histories"], "all exported calls with shaped and arbitrary arguments, successful and refused, and their sequences",
  "Tests look at results; a line in a log or a file with a secret in it is not part of any result, and appears for some inputs only (errors, unusual keys).",
  ["bip32", "bip39/bip39.go", "bip44/coin.go", "util"],
  [("absence of side effects at every entry point", "bip32, bip39, bip44, util")], [],
  ["all exported functions"])
p("X10", "Errors show no secrets",
  "The error of a refused request, in any rendering, and every error it wraps, contains no part of a private key, chain code, seed, entropy, passphrase or extended private key given with it or with an earlier request, as text, hex, base64, raw bytes or numbers, and of a mnemonic no word but the unknown one it complains about. Errors can therefore be logged or shown.",
  ["inputs"], "all refused requests: sentences with a wrong word, length or checksum, damaged seed text, entropies of other sizes, damaged encodings, keys that can't derive, unusable roots and ranges",
  "No test looks at the text of an error; a message that helps debugging by quoting its input leaks a wallet to a log.",
  ["bip32/bip32.go", "bip39/bip39.go", "util/util.go", "util/key_path.go"],
  [("EntropyFromMnemonic", "bip39/bip39.go"), ("RootKeyFromSeed", "util/util.go"), ("Deserialize", "bip32/bip32.go"), ("GenerateRange", "util/key_path.go")],
  [], ["bip39.EntropyFromMnemonic", "bip39.NewMnemonic", "util.RootKeyFromSeed", "bip32.Deserialize", "bip32.B58Deserialize", "bip32.Key.NewChildKey", "util.Generator.DeriveBIP32Result", "util.KeyPathRange.GenerateRange"])
p("X09", "Costs stay in proportion and nothing accumulates",
  "The memory a call allocates is bounded by a constant of a few megabytes plus a fixed multiple of the size of its arguments, its result and the derivation steps asked for (at most 255, whatever the width of a range), refused requests included, and the time it takes grows no faster than in proportion to the length of the texts it is given. What a process keeps in use does not grow without end with the number of requests it has served: after any number of calls with different arguments, served or refused, at most a bounded amount is retained.",
  ["inputs", "histories"], "all calls with small, large and arbitrary arguments; all long series of different requests of each kind, served or refused",
  "Tests make few and small calls; an allocation sized by a number in the request, or a cache without a limit, is harmless there and fatal in a service.",
  ["bip32", "bip39/bip39.go", "bip44/coin.go", "util"],
  [("GenerateRange", "util/key_path.go"), ("DeriveBIP32Result", "util/util.go"), ("absence of retained state at every entry point", "bip32, bip39, bip44, util")], [],
  ["all exported functions"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
