#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (properties.jsonl must list the same ids)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("panic/overflow monitor and step-metered byte sources under hostile datagrams", "every parser call on every generated datagram is watched for panics, overflow (checks on), crashes, hangs and the number of bytes it reads; sampled inputs, incl. hostile contents sealed with the right keys"),
 "C02": ("allocation monitor (counting global allocator) under length-lying inputs", "the bytes requested by each decode call are counted exactly and compared with 12 KiB + 1 KiB per input byte (measured maximum on this tree: about 390 B/B); sampled inputs"),
 "C03": ("differential monitor: library decode vs independent RFC 9000 parser", "all 1/2-byte payloads and all type values below 0x4000 exhaustively, the rest sampled; trusts the reference parser in harness/src/wire.rs"),
 "C04": ("differential monitor: library encode vs independent RFC 9000 encoder, and round trip", "sampled frame lists with boundary-biased values; trusts harness/src/wire.rs"),
 "C05": ("differential monitor of all varint encoders/decoders against one reference", "all 1- and 2-byte prefixes and all width boundaries exhaustively, the rest sampled"),
 "C06": ("differential monitor: header parsing vs independent RFC 8999/9000 parser", "every first byte x id length exhaustively, every truncation of sampled headers; trusts harness/src/wire.rs"),
 "C07": ("reference peer (ring) seals packets, monitor compares what the library decodes", "sampled packets over all types, number lengths, id lengths, widths and receiver states; trusts ring and harness/src/crypto.rs"),
 "C08": ("reference peer (ring) opens every packet the library emits along send histories", "sampled histories; trusts ring and harness/src/crypto.rs"),
 "C09": ("forgery monitor: altered datagrams must yield nothing the peer did not seal", "every bit flip and truncation of sampled packets, plus sampled edits, splices, wrong keys/levels/windows"),
 "C10": ("differential monitor of keys, seal/open and masks against ring", "all id lengths, sampled ids/secrets/numbers/payloads; trusts ring"),
 "C11": ("history monitor: allotted numbers and real nonces logged per space, isolated twin per space", "sampled histories incl. counters near 2^62-1"),
 "C12": ("differential monitor of truncation/reconstruction against RFC 9000 A.2/A.3", "all one-byte numbers around the window and all distances near powers of two exhaustively, the rest sampled"),
 "C13": ("conservation monitor over coalesced datagrams sealed by the reference peer", "sampled datagrams of up to 1400 packets, all truncations of short ones"),
 "C14": ("history monitor: every queue compared with a model of all live connections", "sampled histories over live, near, aliasing and stale ids, part of them over loopback UDP"),
 "C15": ("exactly-once/in-order monitor over traffic sent to a waiting socket on loopback", "sampled traffic of 13 classes; lost datagrams (kernel drops) are recognised and not judged"),
 "C16": ("history monitor of accepts and drops against a model, with heap accounting", "sampled histories over loopback UDP"),
 "C17": ("differential monitor: parameter encoding vs independent RFC 9000 section 18 encoder", "sampled parameter lists with boundary-biased values"),
 "C18": ("AddressSanitizer + heap balance over all workloads; Miri on the part without foreign code", "sampled workloads; uninstrumented OpenSSL is seen only through the heap; data races cannot occur (no threads)"),
 "C19": ("state-snapshot and twin-connection monitor over histories of decodes", "sampled histories; the snapshot is the connection's complete Debug output"),
 "C20": ("fault injection at every source position, compared with the fault-free parse", "every position of inputs up to 120 bytes (sampled beyond), three behaviours after the fault, sampled inputs"),
 "C21": ("differential monitor of id and fixed-width integer codecs, collision monitor on lookups", "all id lengths, sampled contents, all truncations"),
 "C22": ("model monitor of header protection state over apply/remove/read histories", "all first bytes, sampled masks and histories"),
 "C23": ("statistical and linear-prediction monitor over recorded sequences of issued ids, across sockets and processes", "sampled sequences of 420 to 6000 ids"),
 "C24": ("conversation monitor: two library sockets over loopback UDP with an adversarial network in between, every packet read checked against the log of what was sent", "sampled conversations of up to 1500 datagrams on up to 4 connections"),
}
checks = []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    t, n = T.pop(i)
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": "runtime monitoring: " + t,
        "level": "fault_enumeration" if i == "C20" else "exploration",
        "level_note": n,
    })
assert not T
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "cfg quic_sea_verif",
        "enable": "RUSTFLAGS='--cfg quic_sea_verif' (set by /verif/build.sh)",
        "source_commits": os.popen("git -C /repo log --reverse --format=%H --grep='^hooks:'").read().split(),
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "Exit 2 means no verdict (the monitors do not build with the tree, or too little was observed). Defects found and repaired are listed in known_findings.txt.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
