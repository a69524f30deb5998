"""The single source of properties.jsonl and MANIFEST.json: run `python3 lib/props.py` after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # (property, check or None, reason or None)

def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None,
         cmd=None, technique=None, note=None, level="exploration", na=None, thorough=True):
    o = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: o["anchors"]["observe_at"] = observe
    if state: o["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    c = None
    if cmd:
        c = {"property": id, "quick_cmd": cmd, "technique": technique, "level": level, "level_note": note}
        if thorough: c["thorough_cmd"] = "env VERIF_TIER=thorough " + cmd
    P.append((o, c, na))

exec(open(os.path.join(V, "lib", "props_list.py")).read())

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for o, _, _ in P:
            f.write(json.dumps(o) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [c for _, c, _ in P if c],
         "not_applicable": [{"property": o["id"], "reason": na} for o, _, na in P if na],
         "notes": NOTES}
    if HOOKS: m["hooks"] = HOOKS
    for o, c, na in P:
        assert bool(c) != bool(na), o["id"]
        assert len(o["title"]) <= 80, o["id"]
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(m["checks"]), "checks")
