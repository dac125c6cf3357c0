"""
Writes /verif/properties.jsonl and /verif/MANIFEST.json from the PROPERTY and SPEC of the check modules, so that the
two and the checks cannot drift apart.   python mc/catalog.py
"""
import os, sys, glob, json, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import notclaimed
import design


def main():
    props, checks = [], []
    for path in sorted(glob.glob(os.path.join(core.VERIF, "mc", "c[0-9][0-9].py"))):
        name = os.path.basename(path)[:-3]
        mod = importlib.import_module(name)
        pid = name.upper()
        p = {"id": pid, **mod.PROPERTY}
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        props.append(p)
        s = mod.SPEC
        note = s.get("note") or ("Every execution inside the stated bounds was run on the real code and compared with the oracle; nothing is "
                                 "claimed outside the bounds. Bounds (quick): " +
                                 (s["bounds"]["quick"] if isinstance(s["bounds"], dict) else s["bounds"]))
        if s.get("assumptions"):
            note += " Assumptions: " + "; ".join(s["assumptions"]) + "."
        checks.append({"property": pid, "quick_cmd": f"./check.sh {pid} --tier quick",
                       "thorough_cmd": f"./check.sh {pid} --tier thorough",
                       "evidence_file": f"evidence/{pid}.json",
                       "technique": s.get("technique", "bounded exhaustive exploration of the real code (stateless model checking)"),
                       "level": s["level"], "level_note": note})
    na = []
    for p in notclaimed.PROPERTIES:
        p = dict(p)
        na.append({"property": p["id"], "reason": p.pop("reason")})
        props.append(p)
    with open(os.path.join(core.VERIF, "properties.jsonl"), "w") as f:
        for p in sorted(props, key=lambda p: p["id"]):
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check drives public interfaces of the Python code. See DESIGN.md."}
    with open(os.path.join(core.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    out = []
    for p, c in zip([p for p in props if p["id"] not in {n["property"] for n in na}], checks):
        mod = importlib.import_module(p["id"].lower())
        s = mod.SPEC
        b = s["bounds"] if isinstance(s["bounds"], dict) else {"quick": s["bounds"], "thorough": "the same"}
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Level* {s['level']}. *How* {design.TEXT[p['id']]}\n"
                   f"*Quick* {b['quick']}. *Thorough* {b['thorough']}.")
    for n in na:
        p = next(p for p in props if p["id"] == n["property"])
        out.append(f"### {p['id']} {p['title']} (not applicable)\n\n{n['reason']}.")
    bugs = []
    for d in sorted(glob.glob(os.path.join(core.VERIF, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        bugs.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
    t = open(os.path.join(core.VERIF, "mc", "DESIGN.template.md")).read()
    t = t.replace('"""PROPS"""', "\n\n".join(out)).replace('"""BUGS"""', "\n".join(bugs))
    with open(os.path.join(core.VERIF, "DESIGN.md"), "w") as f:
        f.write(t)
    try:
        import jsonschema
    except ImportError:
        return
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, ps)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))


if __name__ == "__main__":
    main()
