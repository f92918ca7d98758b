"""Writes MANIFEST.json from properties.jsonl."""
import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
SKIP = {}
checks = []
for p in props:
    i = p["id"]
    if i in SKIP:
        continue
    tech = "TLA+ specification checked with TLC; trace validation of recorded calls of the real code against it"
    note = ("The specification is exact real arithmetic plus one rounding operator; its laws are checked exhaustively by TLC on "
            "small formats. The real code is bound by recording calls (directed and random operands, exhaustive rows for 8-bit "
            "formats) and letting TLC accept or reject each one. Sampled, not proved, for the wide formats. Trusts TLC, the Java "
            "override of the unbounded-integer module (itself checked against its TLA+ text) and the recording harness.")
    if i == "C22":
        tech = ("TLA+ state machine (register bank, sticky status) checked with TLC; trace validation of histories recorded from "
                "live objects; programs generated by TLC executed by the real code")
        note = ("Histories over a bank of live registers are checked step by step against the abstract machine, which only knows "
                "bit patterns; TLC also generates programs with expected outcomes that the real code executes. Sampled "
                "histories; trusts TLC, the integer override and the harness.")
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                   "thorough_cmd": "python3 check.py " + i, "technique": tech,
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in SKIP.items()],
     "notes": "No hooks: the harness uses the public API only. VERIF_TIER selects the tier; VERIF_BUDGET (seconds) bounds the thorough tier's rounds."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
