"""writes properties.jsonl and MANIFEST.json from props.py"""
import json
import os
import props

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(list(props.PROPS) + list(props.NOT_CLAIMED)):
        m = (props.PROPS.get(p) or props.NOT_CLAIMED[p])["meta"]
        assert len(m["title"]) <= 80, m["title"]
        f.write(json.dumps(m, ensure_ascii=False) + "\n")
checks = []
for p, c in sorted(props.PROPS.items()):
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c.get("technique", "contract-based deductive "
                           "verification: pyvc generates verification "
                           "conditions from the current source under "
                           "contract, z3/cvc5 discharge them; contracts also "
                           "evaluated on the real code (bounded)"),
        "level": c["level"],
        "level_note": c.get("note", "contracts proved for all inputs; "
                            "functions listed as bounded in the evidence are "
                            "only evaluated")})
man = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && "
       "cvc5 --version >/dev/null && mkdir -p evidence/replay",
       "checks": checks,
       "not_applicable": [
           {"property": p, "reason": c["reason"]}
           for p, c in sorted(props.NOT_CLAIMED.items())]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
