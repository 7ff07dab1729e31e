#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARSE = "explicit-state exploration of a reference grammar automaton, every bounded sentence replayed on the real parser"
ENUM = "bounded exhaustive enumeration of inputs, every one run on the real parser and compared with a reference model"
COMP = "bounded exhaustive enumeration of import graphs, open histories and faults on the real compiler against a reference model"
SCHED = "stateless exploration of all schedules of two compilers on the real code, preemption-bounded, at every resolver call and operation"
T = {
 "C01": ENUM, "C02": ENUM, "C03": ENUM, "C04": PARSE, "C05": ENUM, "C06": ENUM, "C07": ENUM, "C08": ENUM, "C09": ENUM,
 "C10": ENUM, "C11": ENUM, "C12": ENUM, "C13": ENUM, "C14": ENUM, "C15": PARSE, "C16": ENUM, "C17": ENUM, "C18": PARSE,
}
C = {"C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31"}
CLAIMED = sorted(T) + sorted(C) if os.path.exists(os.path.join(ROOT, "mc/compile/Cargo.toml")) else sorted(T)
NOTE_P = ("Every input inside the bounds listed in DESIGN.md is run on the real parser; nothing is sampled. Trusts the reference "
          "model (mc/refmodel), which was written from the protobuf specification (every difference from the code was settled against it), and says nothing about "
          "inputs beyond the bounds.")
NOTE_C = ("Every graph, history and fault inside the bounds listed in DESIGN.md is run on the real compiler; nothing is sampled. "
          "Trusts the reference model of import resolution and prost-reflect for decoding descriptors.")
checks = [dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
               technique=T.get(i, SCHED if i == "C24" else COMP), level="model_checking", level_note=NOTE_P if i in T else NOTE_C) for i in CLAIMED]
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [dict(property=i, reason="its check is still being built") for i in props if i not in CLAIMED]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="the checks use only public interfaces; /repo carries no hooks", source_commits=[]))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
