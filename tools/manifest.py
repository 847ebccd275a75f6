"""Writes properties.jsonl and MANIFEST.json from the one description of every property in tools/properties/*.json,
for the properties that have a driver in harness/props."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

NOTE = ("Model checked within the stated constants by TLC; the real code is bound by conformance of generated and "
        "random cases judged by TLC against the same specification. Trusted: TLC, the driver's translation of abstract "
        "statements to signed ones, the simulated network and clock. ")


def main():
    props, checks, na = [], [], []
    for fn in sorted(glob.glob(os.path.join(HERE, "properties", "*.json"))):
        with open(fn) as fp:
            p = json.load(fp)
        c = p.pop("check")
        pid = p["id"]
        props.append(p)
        if not os.path.exists(os.path.join(VERIF, "harness", "props", pid.lower() + ".py")):
            na.append({"property": pid, "reason": c.get("reason", "no driver yet")})
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 harness/check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 harness/check.py {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": c["technique"],
            "level": "model_checking",
            "level_note": NOTE + c.get("note", "")})
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fp:
        for p in props:
            fp.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na,
         "notes": "TLA+ specifications in spec/, checked with TLC. harness/check.py runs one property. "
                  "known_findings.json lists genuine defects that were recorded or repaired."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fp:
        json.dump(m, fp, indent=1)
        fp.write("\n")
    import subprocess
    code = f"""
import json, jsonschema
V={VERIF!r}
S=lambda n: json.load(open('/root/.vp/'+n))
jsonschema.validate(json.load(open(V+'/MANIFEST.json')), S('MANIFEST.schema.json'))
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p, S('PROPERTIES.schema.json'))
    assert len(p['title'])<=80, p['id']
print('valid', {len(checks)}, 'checks')
"""
    if os.path.exists("/root/.vp/MANIFEST.schema.json"):
        subprocess.run(["python3-vt", "-c", code], check=True)


if __name__ == "__main__":
    main()
