"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
AI = "static analysis: abstract interpretation of the compiler's MIR (bit-level dataflow with joins)"
TECH = {
    "C16": AI + ", of the price generator's main and of the price module, plus comparison of the compiler-evaluated constants",
    "C32": "static analysis: effect, shared-state and unsafe-code query over every body and call site of the type-checked crate",
    "C33": AI + " of every lazy initialiser, plus acyclicity of the initialisation-needs graph and a blocking-primitive query",
}
NOTE = ("Holds for every input of the stated domain in the debug (overflow and debug assertions on) and release (off) "
        "configurations, decided on the MIR of /repo's current source without running it; an obligation that depends on a value "
        "the analysis cannot bound counts as a violation. Trusts rustc's MIR construction, the analyser and its models of std, "
        "and the statements in spec/src.")
NOTES = {
    "C28": "Every illegal length is rejected (length symbolic, all values); for legal lengths the contents are arbitrary, and the "
           "lengths covered are all below 300 words (1000 in thorough), the boundaries up to 65535 and those around every integer "
           "constant the analysed code mentions. Other lengths are not enumerated. SHA-256 is an uninterpreted function of the "
           "bytes fed to it.",
    "C32": "Conservative effect query over every monomorphic and generic body of the library: a callee outside the pure part of "
           "std and the listed pure dependency crates is a violation. Trusts the purity of those dependencies.",
    "C16": NOTE + " The capacities of the circuits are pinned in spec/src/c16.rs.",
}
LEVEL = {"C28": "other", "C32": "other"}
m = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "checks": [
        {"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} --thorough",
         "evidence_file": f"evidence/{p['id']}.json", "technique": TECH.get(p["id"], AI),
         "level": LEVEL.get(p["id"], "proof"), "level_note": NOTES.get(p["id"], NOTE)}
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: only public items are used. Commits in /repo are the three fix: commits listed in known-findings.txt.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
