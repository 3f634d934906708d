"""Write properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import catalog  # noqa: E402

NOTE = ("Each obligation generated from /repo's current source is discharged by z3/cvc5 for all inputs of the harness "
        "(paths, loops by invariant or complete unrolling); undecided or bounded obligations are labelled in the "
        "evidence and never counted as discharged. Trusts the extraction rules (pyvc/loader.py), CPython, z3/cvc5, the "
        "stdlib contracts listed in the evidence, and floats treated as reals.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for (pid, title, st, over, qt, why, files, mech) in catalog.PROPS:
            assert len(title) <= 80, (pid, len(title))
            assert len([x for x in st.replace("e.g.", "eg").split(". ") if x.strip()]) <= 3, (pid, "sentences")
            f.write(json.dumps({
                "id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": qt},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}) + "\n")
    checks, na = [], []
    for p in catalog.PROPS:
        pid = p[0]
        if pid in catalog.NOT_APPLICABLE:
            na.append({"property": pid, "reason": catalog.NOT_APPLICABLE[pid]})
            continue
        if not os.path.exists(os.path.join(V, "props", pid.lower() + ".py")):
            na.append({"property": pid, "reason": "check under construction"})
            continue
        checks.append({
            "property": pid,
            "quick_cmd": "python3-vt -m pyvc.runner %s --tier quick" % pid,
            "thorough_cmd": "python3-vt -m pyvc.runner %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "contract-based deductive verification: VCs from the real source (pyvc), z3/cvc5",
            "level": catalog.LEVELS.get(pid, "proof"),
            "level_note": catalog.NOTES.get(pid, "") + (" " if pid in catalog.NOTES else "") + NOTE})
    doc = {"version": 1, "setup_cmd": "python3-vt -c \"import z3\" && cvc5 --version > /dev/null", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo: the verifier re-extracts the unmodified source on every run."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed", len(na), "not")


main()
