#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = ("Seeded random search over simulated runs with fault injection: a clean batch is evidence, not proof. "
         "Every run is a pure function of VERIF_SEED; failures are minimised and replayable. ")
CLAIMED = {
    "C01": "Trusts the reference slot placement and hashes in sim/src/refm.rs; deep trees are represented by partial disclosures.",
    "C02": "Assumes that SHA-256 collisions do not occur; altered values are compared with the reference tree.",
    "C03": "The malicious committer builds forged trees with the real hashes; only structural attacks are searched.",
    "C06": "Compares with the reference placement and encoding; deep trees are not hashed completely.",
    "C07": "Trusts that the simulated randomness device is the only one (the crate getrandom is replaced).",
    "C04": "Compares with the reference disclosure algebra in sim/src/refm.rs byte by byte.",
    "C05": "Secrecy is judged on the bytes on the wire and on minimality against the reference.",
    "C17": "Compares values and encodings before and after every refused operation.",
    "C19": "One known finding (proof matching) is listed in known_findings.txt.",
    "C10": "Seals, resolver and checks are simulated parties implementing the traits of the crates under test.",
    "C11": "Verdicts and merged reports are compared with a multiset model; the order of entries is not checked.",
    "C12": "The publication medium and the seal are simulated; the anchors are the real multi-protocol proofs.",
    "C13": "The publication medium, its reorganisations and the double-spender are simulated; liveness is bounded by the number of delivery rounds after the faults stop.",
    "C14": "Schemes of a client library are simulated (hash based) around the default verification of the traits; multi-protocol commitments are the real ones.",
    "C15": "Earlier versions are represented by the published format, frozen independently of the code; the crates sha2, ripemd and strict_encoding are trusted.",
    "C16": "Roots are compared with a reference merklization; more than 70001 entries are not explored.",
    "C18": "The exporter is the real program; the disk under it is simulated at the boundary of the C library. Errors of close are not simulated.",
    "C20": "Data types and auditors are simulated; the layouts of the types of the repository that can be committed to are covered too. The crate vesper, which prints the text, is trusted.",
    "C08": "Devices fail at any byte, transfers are short or interrupted; bytes accepted before a crash are kept in order.",
    "C09": "Bounds: 5 s of processor time and 4 MiB + 1 KiB per received byte of memory for a step; packets up to some tens of kilobytes.",
}
NOT_YET = "check not built yet"
NA = {
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [],
    "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"./check.sh {i}",
            "technique": "deterministic simulation with fault injection (seeded schedule and fault search against an executable reference model)",
            "level": "exploration",
            "level_note": LEVEL + CLAIMED[i],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, NOT_YET)})
m["notes"] = "No hooks in /repo: the seams are the getrandom crate (replaced by a seeded source), io::Read/Write arguments, the resolver and seal traits, and threads. Commits in /repo are fixes only."
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
