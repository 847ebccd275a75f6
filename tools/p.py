"""p(id, title, statement, over, text, why, files, mechanisms, technique, note): writes tools/properties/<id>.json"""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties")
def p(id, title, statement, over, text, why, files, mech, technique, note="", state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    with open(os.path.join(D, id + ".json"), "w") as fp:
        json.dump(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                       why_tests_cant=why, anchors=a, check=dict(technique=technique, note=note)), fp, indent=1)
        fp.write("\n")
