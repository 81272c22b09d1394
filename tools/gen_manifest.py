#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
"M01": ("generated round trip + differential against an own BIP-39 encoder", "all ten lists, every entropy size up to 260 bytes enumerated"),
"M02": ("mutation-based differential of five entry points against an own decoder", "all 2048 completions of sampled prefixes"),
"M03": ("generated round trip against the arithmetic definition", "all sizes, lists, white-space spellings"),
"M04": ("differential against an own PBKDF2, metamorphic passphrase pairs", "block-boundary lengths enumerated; raw (non-NFKD) use is a known finding"),
"M05": ("exhaustive list comparison + model-based histories of list switches", "published lists are committed copies"),
"M06": ("fault injection in the random source at every point + generated sources, statistical bit coverage", "replaces crypto/rand.Reader"),
"K01": ("differential against an own HMAC/BIP-32", "lengths enumerated, contents sampled"),
"K02": ("differential against an own BIP-32, structured and mined parents", "indices and parents sampled"),
"K03": ("differential against an own BIP-32 and the commutation law", "indices and points sampled"),
"K04": ("differential + idempotence and leak search over generated keys", "all registered versions enumerated"),
"K05": ("round trip + differential encoding, one-bit pairs", "keys sampled"),
"K06": ("mutation fuzzing against an own acceptance predicate", "lengths and single-bit changes of sampled keys enumerated"),
"K07": ("differential against own arithmetic and hashes", "boundary scalars enumerated"),
"K08": ("model-based histories of assignments and calls", "all registered networks enumerated, own ones sampled"),
"K09": ("generated round trips through encoding/json and encoding/gob, compared and used again", "values sampled"),
"K10": ("model-based histories of registrations, removals and calls", "networks and histories sampled"),
"D01": ("grammar-based fuzzing against an own parser", "texts sampled"),
"D02": ("model-based edit histories", "histories sampled, depths 0-255"),
"D03": ("model-based histories against a fold of an own BIP-32", "histories sampled"),
"D04": ("model-based histories against an own BIP-32", "histories sampled; ranges of bounded size"),
"D05": ("metamorphic: generated spellings that differ in white space, plus a character filter", "texts sampled; valid UTF-8 only"),
"A01": ("differential against own Keccak-256 and curve arithmetic", "points with zero-leading coordinates constructed"),
"A02": ("differential + decode-back against own hashes and base58", "all prefixes enumerated, keys sampled"),
"A03": ("metamorphic: watch-only route equals private route over generated histories", "wallets sampled"),
"R01": ("exhaustive rows + generated lookup keys against an embedded SLIP-0132", "prefix claim sampled over key contents; three known findings"),
"R02": ("generated entries against an own path reading", "path texts sampled"),
"R03": ("exhaustive rows + generated lookup keys against the SLIP-0044 document", "document is a committed copy"),
"R04": ("generated coins: predicate, JSON and Go-literal round trips", "coins sampled"),
"X01": ("stateful call histories with clobbered buffers, repeats and fresh-process replays", "histories sampled"),
"X02": ("generated concurrent workloads under the race detector, compared with sequential results", "schedules are those the runtime produced"),
"X03": ("differential pipeline entered at generated stages", "wallets and paths sampled"),
"X04": ("model-based UI event histories on the app's real loop, headless", "sessions sampled; the screen is read as texts (gio's semantic tree), not as pixels"),
"X06": ("generated single-defect requests, judged by error identity", "28 kinds of refusal; requests sampled"),
"X07": ("differential: the same generated calls answered by amd64, 386 and js/wasm builds", "big-endian platforms can't be run here; calls sampled"),
"X08": ("generated call sequences in a watched process: output, files, settings, goroutines compared before and after", "calls sampled; network traffic and child processes show only as written bytes or open descriptors"),
"X10": ("generated refused requests with random secrets, whose errors are searched for parts of them", "parts of 6 bytes or more"),
"X09": ("generated calls and long series of different requests, with the allocated and the live heap compared with a bound linear in their size", "a cache that keeps growing beyond 100 000 entries before it stops counts as one that does not stop"),
"X05": ("byte-level fuzzing of every exported operation for panics and hangs", "inputs sampled; hang means 150 s of CPU time on one case"),
}
tcb = "Sampled, not exhaustive: it shows the property on the generated cases (counted in the evidence) and says nothing about the rest. Trusts the Go toolchain and standard library, x/crypto, x/text, rapid and the reference code in harness/ref. "
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks are needed: the harness is compiled into the module by go build -overlay and uses exported API; X04 overlays the example's loop signature with sed."}
for i, (t, n) in T.items():
    m["checks"].append({"property": i, "quick_cmd": "./run.sh " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
        "technique": "property-based testing: " + t, "level": "exploration", "level_note": tcb + n[0].upper() + n[1:] + "."})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
