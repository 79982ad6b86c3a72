#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.PROPS: a property is claimed when it has a check."""
import json, os
import jobs as J

V = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C22": "there is no replication code in the repository at this commit (only a sentence in README.md), so there is nothing to encode",
    "C23": "there is no segment merge or deduplication code in the repository at this commit, so there is nothing to encode",
    "C24": "not implemented at this commit: BlockIndex::flush is a placeholder that writes nothing and returns (0,0), and there is no segment reader; the property is false by omission, not by a defect a check could watch (C15 decides the in-memory index, C16 the footer and metadata)",
}
TECH = "symbolic execution of the code's LLVM IR, branches and assertions decided by Z3"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in J.PROPS:
        b = J.PROPS[i]["bounds"]
        b = b if isinstance(b, str) else b["quick"]
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH, level=J.PROPS[i]["level"],
            level_note="For every value of the symbolic inputs within the bounds (quick: %s), all paths of the compiled code are explored and every assertion is decided by Z3; violations are replayed in the machine code of the same build. Trusted: the executor's memory model and LLVM semantics (sampled against native runs every time), rustc%s. Outside: %s." % (
                b, "; the model of tokio and of the file system calls" if i in ("C14", "C15", "C16", "C17", "C18", "C19", "C21", "C25", "C27", "C28") else "", J.PROPS[i]["outside"] or "nothing else")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    hooks=dict(
        guard="cfg(meerkat_verif), cfg(meerkat_verif_far)",
        enable="RUSTFLAGS='--cfg meerkat_verif --cfg meerkat_verif_far' MEERKAT_VERIF_DIR=/verif/harness/hooks (check.py sets both when it builds /verif/harness, which compiles /repo/src/store)",
        source_commits=["34f2afc9"]),
    checks=checks, not_applicable=na,
    notes="engine/: the symbolic executor; harness/: entry points compiled with the code under test; models/tokio: scheduler and file system; jobs.py: what each check runs; known_findings.jsonl: defects found (repaired ones: fixed).")
extra = os.path.join(V, "hook_commits")
if os.path.exists(extra):
    m["hooks"]["source_commits"] = open(extra).read().split()
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
