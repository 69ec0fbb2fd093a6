"""
Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe_at=None, state=None):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe_at=observe_at, state=state))


R, W, E = "src/autosar/xml/reader.py", "src/autosar/xml/writer.py", "src/autosar/xml/element.py"
N, F, D, S = ("src/autosar/xml/enumeration.py", "src/autosar/xml/reference.py", "src/autosar/xml/document.py",
              "src/autosar/xml/workspace.py")
B = "src/autosar/xml/base.py"
IMPL, GEN, TMPL = ("src/autosar/model/implementation.py", "src/autosar/generator/type_generator.py",
                   "src/autosar/xml/template.py")

exec(open(os.path.join(HERE, "tools", "props_data.py"), encoding="utf-8").read())   # pylint: disable=exec-used

ENUM = "exhaustive bounded enumeration on the real code (explicit-state model checking)"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in PROPS:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                       "hook_needed": None}
            if p["observe_at"]:
                anchors["observe_at"] = p["observe_at"]
            if p["state"]:
                anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            assert len(p["title"]) <= 80, p["pid"]
            fh.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                 "quantifier": {"over": p["over"], "text": p["text"]},
                                 "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bash tools/setup.sh",
        "checks": [{
            "property": p["pid"],
            "quick_cmd": f"./check {p['pid']} --tier quick",
            "thorough_cmd": f"./check {p['pid']} --tier thorough",
            "evidence_file": f"evidence/{p['pid']}.json",
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": NOT_APPLICABLE,
        "notes": "The library is pure Python: checks import it straight from /repo/src, so every run sees the "
                 "current working tree; no hooks are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


main()
