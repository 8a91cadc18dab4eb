"""The properties, in one place: writes properties.jsonl and MANIFEST.json.

python3 tools/props.py
"""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), level=None, technique=None,
         note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, level=level, technique=technique, note=note, na=na))


DM = "source/data_model/"
CXX = DM + "cxx/source/"
PY = DM + "python/source/"
H5 = DM + "hdf5/source/"

exec(open(os.path.join(V, "tools/props_data.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                             "hook_needed": None}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                d["anchors"]["observe_at"] = list(p["observe"])
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    for p in P:
        if p["level"]:
            man["checks"].append({
                "property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"],
                "thorough_cmd": "./run.sh %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    man["notes"] = ("No hooks in /repo are needed: every check drives the public C++ or Python API, or compiles the "
                    "project's own sources against stand-in libraries kept in /verif/harness.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    sys.path.insert(0, "/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    try:
        import jsonschema
    except ImportError:
        return
    schema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(line), schema)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))


main()
