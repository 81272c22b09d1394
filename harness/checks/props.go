package checks

import (
	"strings"

	"github.com/mearaj/bips/zzverif/core"
)

// Props lists every property decided here. The second argument says how cases
// are made and which of them count as non-trivial (class labels with "+").
func Props() []*core.Prop {
	core.OnStart = loadData
	p := func(id, rule string, subs ...core.Sub) *core.Prop {
		for _, s := range subs {
			if strings.HasSuffix(s.Name, "-twins") {
				rule += " A case of a -twins part is a sequence of 2-5 requests of the part before it, most of them differing from an earlier one in a single respect (a bit, the white space, the boundary between two texts, one field of a key, the mirrored point), each judged by itself; non-trivial with two or more. A case of a -long part makes up to thousands of different requests, each again after a given number of others."
				break
			}
		}
		return &core.Prop{ID: id, Rule: rule + " Distinct cases are counted by the hash of their JSON form.", Subs: subs}
	}
	x2 := p("X02", "A case is a set of 2-6 goroutines, each with its own sequence of library calls over shared and private inputs, started together in a race-instrumented binary; every result is compared with the result of the same call run alone. Every case is non-trivial: at least two goroutines run at least one call each.", core.New(specX02), core.New(specX02hot))
	x2.Race = true
	x7 := p("X07", "Cases of 1-8 library calls with shaped, arbitrary and machine-word-limit arguments, answered by this build, a 32-bit x86 build and a WebAssembly build of the library, and compared. Every case compares at least one call on three platforms and is non-trivial.", core.New(specX07))
	x7.Big = true
	return []*core.Prop{
		p("M01", "Entropies of shaped content (random, leading/trailing zeros, one bit, constant) and of every size up to 260 bytes plus selected larger ones, for one of the ten lists. Non-trivial: the entropy has a legal size and was encoded and decoded against the reference, or has an illegal size and must be refused. every-word-everywhere: sentences in which, over all of them, every word of the list stands at every position but the last, exhaustively.", core.New(specM01), core.New(specM01s), history(specM01, 6000, 200000, twinM01), long(specM01, 14, 600, 4097)),
		p("M02", "verdict: a valid sentence put through a random mutation (words replaced, swapped, dropped, repeated, misspelt, from another list, checksum varied, unusual white space, numbered, listed, quoted or joined in over 80 ways) or arbitrary text, judged by five entry points and a reference decoder; completions: one prefix of n-1 words with all 2048 last words. Non-trivial: the sentence is valid, or has a legal number of words and a wrong checksum or an unknown word, or is unusually spaced. neighbours: every word of the list at one position of a valid sentence, or all exchanges of two of its words; each such case judges 2048 (or all) sentences.", core.New(specM02), history(specM02, 4000, 100000, twinM02), long(specM02, 14, 600, 513), core.New(specM02b), core.New(specM02s)),
		p("M03", "Shaped entropies of the five sizes, spelt in one of the ten lists with generated white space between and around the words. Every case is a valid mnemonic and compares both byte-array forms with their arithmetic definition.", core.New(specM03), history(specM03, 6000, 200000, twinM03), long(specM03, 14, 600, 4097)),
		p("M04", "pbkdf2: valid, mutated and arbitrary sentences with generated passphrases (empty, ASCII, composed and decomposed Unicode, raw bytes, lengths around and beyond the hash block), compared with an own PBKDF2; distinct: pairs of related passphrases. Non-trivial: the sentence is valid, or the passphrase is not empty, or a text is non-ASCII, not NFKD or longer than a block.", core.New(specM04), history(specM04, 1200, 30000, twinM04), long(specM04, 14, 150, 129), core.New(specM04b)),
		p("M05", "published-lists: every word of every shipped list and of the list active by default, exhaustively; switch: histories of 1-7 list selections (shipped and rearranged custom lists), after each of which the whole list, lookups of own and earlier lists' words, an encoding and decodings are compared with the model. Non-trivial: a word, or a history with at least two selections.", core.New(specM05d), core.New(specM05)),
		p("M06", "source-faults: every requested size with a stand-in random source that works, delivers in pieces, or fails or ends at a generated point (every point is enumerated in the fixed part); coverage: 48 draws from one source; influence: every byte of the source flipped in turn; at-once: up to 32 goroutines drawing at the same time from a source that never repeats itself, whose secrets may share no eight bytes. Non-trivial: the size must be refused, or the source is cut short or fails, or 48 draws or all flips were compared.", core.New(specM06), core.New(specM06b), core.New(specM06c), core.New(specM06d)),
		p("K01", "master: seeds of shaped content and lengths 0..over a hash block, including mined seeds with leading-zero results, against an own HMAC; hex-seed: hex text in either case, damaged hex, some 700 other notations, short and arbitrary text. Every case is non-trivial: each is compared with the reference result or must be refused.", core.New(specK01), history(specK01, 6000, 200000, twinK01), long(specK01, 14, 600, 4097), core.New(specK01b), history(specK01b, 6000, 100000, twinK01b), long(specK01b, 14, 600, 2049)),
		p("K02", "A valid private parent (shaped scalar, chain code, depth, fingerprint, version; mined parents whose children have leading zero bytes) and a chain of 1-n child indices; every field of every child is compared with an own BIP-32. Every case performs a derivation or must be refused.", core.New(specK02), history(specK02, 4000, 150000, twinDeriveAny), long(specK02, 14, 300, 513)),
		p("K03", "ckd-pub: a valid public parent (points with constructed leading zeros and unknown discrete logarithm) and a chain of indices; commutes: a private parent derived both ways. All fields are compared with an own BIP-32. Every case performs a derivation or must be refused.", core.New(specK03), history(specK03, 4000, 120000, twinDerive), long(specK03, 14, 300, 513), core.New(specK03b), history(specK03b, 2500, 80000, twinCommute), long(specK03b, 7, 150, 301)),
		p("K04", "Shaped valid private and public extended keys with registered and unregistered versions; neutered once and twice, all views compared with the reference and searched for the private key. Every case is non-trivial.", core.New(specK04), history(specK04, 5000, 150000, twinKeyCase), long(specK04, 14, 400, 1025)),
		p("K05", "roundtrip: shaped valid extended keys through both encodings and all accessors and setters, with pairs differing in one bit; encode-any: 78 arbitrary bytes. Every case is compared with an own checksum and base58.", core.New(specK05), history(specK05, 8000, 250000, twinK05), long(specK05, 14, 500, 2049), core.New(specK05b), history(specK05b, 6000, 150000, twinK05b), long(specK05b, 7, 300, 4097)),
		p("K06", "import-bytes: valid encodings, mutations of them, wrong lengths, and correctly checksummed encodings of invalid material, in buffers with spare memory behind; import-text: the same as base58, edited text and some 700 other notations. The verdict is compared with an own acceptance predicate. Every case is non-trivial: accepted, or rejected for a stated reason. neighbours: every byte value at one place of a valid encoding, with stale and with fresh checksum, or every byte at one place of its text, in place of what is there and before it.", core.New(specK06), history(specK06, 15000, 400000, twinK06), long(specK06, 14, 500, 2049), core.New(specK06b), core.New(specK06s), history(specK06b, 12000, 250000, twinK06b), long(specK06b, 14, 500, 2049)),
		p("K07", "Scalars around 0, n and 2^256 and of every length, constructed points, and byte strings; every helper is compared with an own implementation in every case, so every case is non-trivial.", core.New(specK07), history(specK07, 8000, 250000, twinK07), long(specK07, 14, 500, 2049)),
		p("K08", "Histories of 2-8 steps that assign DefaultMainnetVersion or DefaultTestnetVersion (registered networks and networks of one's own) or make a master key, a public version, a child or a validity check; each compared with the reference given the network last assigned. Fixed: every registered network with keys of every other. Non-trivial: a call after an assignment.", core.New(specK08)),
		p("K09", "A valid key, a walk, a range result, a version entry and a path, written with encoding/json or encoding/gob and read into a new variable, compared in full, and used again. Every case is non-trivial.", core.New(specK09)),
		p("K10", "One to three networks of the user's own and histories of 3-10 steps that put one into the exported flag and path registries, take one out, or derive, neuter, import, walk, derive a range or ask with keys of any network; each compared with the reference given the networks registered at that moment. Non-trivial: a call that concerns a network registered then, or earlier.", core.New(specK10)),
		p("D01", "Paths from the grammar with generated spelling (leading zeros, white space, M, hardened indices as plain numbers), near-misses (overflowing, misplaced marks, foreign digits, empty parts, some 700 other notations) and arbitrary text, against an own parser. Non-trivial: an accepted path with at least one component, or a refused text that is not empty and not the bare root. all-endings: every text of up to 5 characters, and every sequence of up to 6 symbols of alphabets of boundary numbers and marks, exhaustively (a case is a beginning and judges all its endings).", core.New(specD01), core.New(specD01s), history(specD01, 25000, 700000, twinD01), long(specD01, 14, 800, 4097)),
		p("D02", "A path of up to more than 256 components (or refused text) and a history of reads at any depth and replacements by any value, replayed on a model list of indices. Non-trivial: as D01, or at least one edit was made. all-edit-pairs: for every path of up to three boundary components every pair of replacements by boundary values, exhaustively (a case is a path).", core.New(specD02), core.New(specD02s), history(specD02, 12000, 300000, twinD02), long(specD02, 14, 600, 4097)),
		p("D03", "Histories of root changes (valid, public, non-root, invalid, unregistered) and walks along generated paths on one generator; every entry of each result is compared with a fold of an own BIP-32. Non-trivial: a walk along a path with components, or one that must be refused.", core.New(specD03), core.New(specD03b), history(specD03, 2000, 50000, twinD03), long(specD03, 14, 200, 257)),
		p("D04", "Histories of range derivations on one object with valid, public, invalid and unregistered base keys, any base path and index ranges including empty, reversed, 2^31-crossing ones; every entry is compared with an own BIP-32. Non-trivial: a range of at least one index, or a request that must be refused.", core.New(specD04), history(specD04, 2500, 60000, twinD04), long(specD04, 14, 200, 301)),
		p("D05", "Path text of any kind (valid UTF-8) and another spelling with white space put in and taken out; String and Formatted compared with a character filter, and everything the library does with a path compared between the spellings. Non-trivial: the spellings differ.", core.New(specD05)),
		p("A01", "Shaped valid keys, private and public, with constructed coordinates that have leading zero bytes, against own Keccak-256 and curve arithmetic. Every case computes an address of a private key and of its public version.", core.New(specA01), history(specA01, 7000, 200000, twinKeyCase), long(specA01, 14, 400, 1025)),
		p("A02", "Shaped valid keys and prefix bytes (all 256 are enumerated), mined keys whose hash has leading zeros, against own RIPEMD-160 and base58check, decoded back. Every case is non-trivial.", core.New(specA02), history(specA02, 7000, 200000, twinA02), long(specA02, 14, 400, 1025)),
		p("A03", "A wallet (entropy, passphrase, account path) and a non-hardened suffix of 1-5 components derived by the private route and by a watch-only route with generated neuter/export/import steps in between. Every case compares all keys and addresses of both routes.", core.New(specA03), history(specA03, 900, 25000, twinA03), long(specA03, 7, 100, 101)),
		p("R01", "registry: every SLIP-0132 row with generated key material, plus lookup keys (all below 2100, all flags, neighbours, random); registry-paths: registered, near and arbitrary path keys; registry-in-use: the whole registry compared before and after calls, many with keys of unregistered versions. Non-trivial: a row, or a lookup whose contents are checked.", core.New(specR01), core.New(specR01b), history(specR01b, 1500, 15000, twinR01b), long(specR01b, 14, 400, 2049), core.New(specR01used)),
		p("R02", "Version entries with generated path text (two hardened levels of up to 8 digits with white space, longer numbers, other shapes) and flags. Every case compares all accessors with an own reading of the path.", core.New(specR02), history(specR02, 15000, 300000, twinR02), long(specR02, 14, 600, 4097)),
		p("R03", "coins: every SLIP-0044 row, registered name and type, neighbouring and random keys looked up in every map; coin-list: every adjacent pair of the list. Every case compares a lookup with the parsed registry document.", core.New(specR03), core.New(specR03b)),
		p("R04", "Coins with boundary and random types and path components and generated symbols and names (blank, quoted, Unicode, raw bytes). Every case compares validity and all renderings, the table rendering parsed as Go.", core.New(specR04), history(specR04, 15000, 300000, twinR04), long(specR04, 14, 600, 4097)),
		p("X01", "Histories of library calls over a pool of shared buffers with spare memory behind, in which returned storage is overwritten, calls are repeated, and some are repeated in a fresh process; marathon: 150 requests of one kind, 70 000 times; every input is compared before and after, every repetition with its first result. Non-trivial: at least two calls, or a fresh-process comparison.", core.New(specX01), core.New(specX01long), core.New(specX01marathon)),
		x2,
		p("X03", "A wallet (list, entropy, passphrase) and a path, taken through every stage (sentence, seed hex, root text, walk, extended key text, addresses), restarted from generated intermediate results, against an own pipeline. Non-trivial: at least one path component or a passphrase.", core.New(specX03), history(specX03, 1500, 50000, twinX03), long(specX03, 7, 100, 101)),
		p("X06", "Requests built to have exactly one reason for refusal, of 28 kinds over every importer, derivation, path, mnemonic and generator entry point; the error must be the documented one and no other. Every case is refused and is non-trivial.", core.New(specX06)),
		x7,
		p("X08", "Sequences of 1-6 calls of all kinds, a third of them with arbitrary or damaged arguments, in a process whose standard files, directories, settings and goroutines are compared before and after, and whose total output is counted. Every case makes at least one call and is non-trivial.", core.New(specX08)),
		p("X09", "cost: one call of any kind with small, large (to 600 kB) or arbitrary arguments and ranges of any width, whose allocated bytes are compared with a bound linear in the size of arguments and result; kept: 300-3500 different requests of one kind, served or refused, around which the live heap is compared, and, when it has grown, up to 200 000 more in the second half of which it must not; objects: the same for one Generator, one generator with changing roots, one KeyPathRange and the selected word list, walked, filled and replaced again and again; time: processor time for a text of 40 000 and of 320 000 bytes, of twenty or arbitrary repeated forms, given to every call. Every case is non-trivial.", core.New(specX09cost), core.New(specX09kept), core.New(specX09object), core.New(specX09time)),
		p("X10", "Requests made with random secrets (sentences with a wrong word, checksum or length, damaged seeds, encodings and texts, keys without children, unusable roots and ranges); after up to three related requests (also with random secrets) the error in every rendering is searched for parts of all these secrets in hex, base64, raw, as numbers, and for words of the sentence. Every case is non-trivial.", core.New(specX10)),
		p("X05", "Each exported operation in turn with arbitrary or damaged text, bytes, numbers, paths and keys of arbitrary content, under a CPU-time limit. Every case calls an operation and is non-trivial.", core.New(specX05)),
	}
}
