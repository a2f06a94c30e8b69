#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the tests that exist in harness/."""
import json, os, re, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "stateful property-based testing of the demuxer against a session model",
 "C02": "stateful property-based testing of the demuxer against a session model",
 "C03": "stateful property-based testing of the demuxer, exact decode-time oracle",
 "C04": "stateful property-based testing of demuxer plus pooled buffers, byte-for-byte ownership model",
 "C05": "property-based testing with independent writers of codec descriptions",
 "C06": "model-based stateful testing of the ring block pool",
 "C07": "model-based stateful testing of the linear block pool",
 "C08": "model-based stateful testing of the pipelines",
 "C09": "model-based stateful testing of queue, ring and list",
 "C10": "generated goroutine schedules under the race detector, counting oracle",
 "C11": "property-based testing against a bit-array model",
 "C12": "model-based stateful testing of byte readers and writers",
 "C13": "round trip from an independent Exp-Golomb encoder",
 "C14": "property-based testing against a reference start-code splitter",
 "C15": "round trips and reference walkers over generated unit sequences",
 "C16": "property-based testing against reference splitters, repeated and dirty-buffer conversions",
 "C17": "property-based testing against the rule on unit types",
 "C18": "round trip and independent record writer, truncation at every length",
 "C19": "round trip and independent record writer, truncation at every length",
 "C20": "round trip from an independent SPS encoder",
 "C21": "round trip from an independent SPS encoder",
 "C22": "round trip and independent ADTS/configuration writer",
 "C23": "mutation and structure-aware fuzzing of every parser entry point (coverage-guided in the thorough tier)",
 "C24": "differential testing against exact rational arithmetic",
 "C25": "model-based stateful testing of the packet pool",
 "C26": "concurrent generated sessions under the race detector, differential against sequential runs",
 "C27": "generated sessions, files compared with the recorded deliveries",
 "C28": "model-based stateful testing of the registries",
 "C29": "generated ranges, lengths and call schedules under the race detector, uniqueness and coverage oracles",
}
src = "".join(open(p).read() for p in glob.glob(os.path.join(HERE, "harness", "*_test.go")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if re.search(r"func Test%s_" % p, src):
        checks.append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
            "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "exploration",
            "level_note": "Searched, not proved: no violation among the generated cases counted in the evidence. Trusts the models and independent writers in harness/ and the domains stated in DESIGN.md."})
    else:
        na.append({"property": p, "reason": "its check is not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the checks drive the public API from an external test package (harness/), rebuilt against /repo's working tree on every run."},
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
