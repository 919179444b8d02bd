#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from proptext.py and specs.py"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from machinery import specs
from machinery.proptext import PT, NA
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hooks:")][::-1]
with open(V + "/properties.jsonl", "w") as f:
    for k in sorted(PT):
        f.write(json.dumps(PT[k], ensure_ascii=False) + "\n")
checks = []
for k in sorted(PT):
    if k in NA: continue
    P = specs.PROPS[k]
    modes = {m: [u for u in P.units if u.mode == m] for m in ("contract", "complete", "bounded")}
    fn = lambda us: sorted({f for u in us for f in u.functions})
    note = []
    if modes["contract"]: note.append("loop contracts, inputs of any length: " + ", ".join(fn(modes["contract"])))
    if modes["complete"]: note.append("all inputs, loops unwound completely: " + ", ".join(fn(modes["complete"])))
    if modes["bounded"]: note.append("bounded: " + "; ".join(u.name + " (" + u.bound_text + ")" for u in modes["bounded"]))
    st = sorted({s for u in P.units for s in u.stubs})
    if st: note.append("callees under contract: " + "; ".join(st))
    if P.note: note.append(P.note)
    level = "other" if modes["bounded"] else P.level
    checks.append(dict(property=k, quick_cmd=f"python3 run_check.py {k} --tier quick", thorough_cmd=f"python3 run_check.py {k} --tier thorough",
        technique="contract-based deductive verification of the real C code (pre/postconditions, callee contracts, loop contracts; goto-instrument + cbmc)",
        level=level, level_note=". ".join(note)))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="FIDOGATE_CONTRACTS", enable="-DFIDOGATE_CONTRACTS -I/verif/contracts (goto-cc, contract stage only)", source_commits=hooks),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for k in PT: jsonschema.validate(PT[k], s)
except ImportError:
    pass
miss = set(specs.PROPS) - set(PT)
if miss: print("no text:", miss)
# ---- tables of DESIGN.md
import glob, re
d = open(V + "/DESIGN.md").read()
t = ["", "| property | unit | mode | functions | bound | callees under contract |", "|---|---|---|---|---|---|"]
for k in sorted(specs.PROPS):
    for u in specs.PROPS[k].units:
        t.append(f"| {k} | {u.name} | {u.mode} | {', '.join(u.functions)} | {u.bound_text if u.mode == 'bounded' else '–'} | {'; '.join(u.stubs) or '–'} |")
d = re.sub(r"(<!-- units -->).*(<!-- /units -->)", lambda m: m.group(1) + "\n".join(t) + "\n" + m.group(2), d, flags=re.S)
t = ["", "| bug | property | breaks | needs | check |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(f))
    t.append(f"| {f.split('/')[-2]} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {j.get('caught', '')} |")
d = re.sub(r"(<!-- seeded -->).*(<!-- /seeded -->)", lambda m: m.group(1) + "\n".join(t) + "\n" + m.group(2), d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
