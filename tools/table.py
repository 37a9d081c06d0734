"""The single table behind properties.jsonl and MANIFEST.json:  python3 tools/table.py"""
import importlib.util
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"


def main():
    spec = importlib.util.spec_from_file_location("props", V / "tools" / "props.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    props, checks, na = [], [], []
    for p in m.PROPS:
        p = dict(p)
        claim = p.pop("claim")
        props.append(p)
        if "reason" in claim:
            na.append({"property": p["id"], "reason": claim["reason"]})
        else:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"{PY} -m dst {p['id']} --tier quick",
                "thorough_cmd": f"{PY} -m dst {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": claim["technique"],
                "level": claim.get("level", "exploration"),
                "level_note": claim["note"],
            })
    (V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in props))
    (V / "MANIFEST.json").write_text(json.dumps({
        "version": 1, "setup_cmd": f"{PY} -m dst.setup", "checks": checks, "not_applicable": na, "notes": m.NOTES}, indent=1) + "\n")


main()
