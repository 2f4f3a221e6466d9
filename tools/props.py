"""Properties and manifest entries; `python3 tools/props.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, level="exploration"):
    P.append(dict(
        prop=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])),
        technique=technique, level=level, note=note))


NA = []


def na(pid, title, statement, over, text, why, files, mech, reason):
    P.append(dict(
        prop=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), technique=None))
    NA.append(dict(property=pid, reason=reason))


exec(open(os.path.join(V, "tools", "props_rt.py")).read())
q = os.path.join(V, "tools", "props_sdfg.py")
if os.path.exists(q):
    exec(open(q).read())

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
            f.write(json.dumps(p["prop"]) + "\n")
    man = dict(version=1, setup_cmd="./check --setup", checks=[
        dict(property=p["prop"]["id"], quick_cmd="VERIF_TIER=quick ./check %s" % p["prop"]["id"],
             thorough_cmd="VERIF_TIER=thorough ./check %s" % p["prop"]["id"], technique=p["technique"], level=p["level"], level_note=p["note"])
        for p in P if p["technique"]], not_applicable=NA)
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
