#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run it after adding harnesses)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vp"))

PROPS = []
NOT_APPLICABLE = {}
NOTES = {}


def P(id, title, statement, over, text, why, files, mech, note, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over.split(), text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=["src/" + f for f in files.split()],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    for f in d["anchors"]["files"]:
        if not os.path.exists("/repo/" + f):
            raise SystemExit("%s: no file %s" % (id, f))
    for m in d["anchors"]["mechanism"]:
        for f in m["where"].split():
            if not os.path.exists("/repo/" + f.split(":")[0]):
                raise SystemExit("%s: no file %s" % (id, f))
    PROPS.append(d)
    NOTES[id] = " ".join(note.split())


exec(open(os.path.join(HERE, "props_text.py")).read())

GENERIC = ("Bounded: the verdict covers every value of the symbolic inputs within the stated dimensions, "
           "numbers of calls and loop unrollings; nothing is claimed beyond. Trusted: clang -O0 as the "
           "semantics of C, the executor and libc models of /verif/vp, Z3. ")


def main():
    import suite
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    ids = {p["id"] for p in PROPS}
    assert set(suite.HARNESSES) <= ids, set(suite.HARNESSES) - ids
    for p in sorted(PROPS, key=lambda p: p["id"]):
        i = p["id"]
        if i in NOT_APPLICABLE:
            continue
        assert i in suite.HARNESSES, i
        checks.append(dict(property=i, quick_cmd="./check.py %s" % i,
                           thorough_cmd="./check.py %s --tier thorough" % i,
                           technique="path-wise symbolic execution of the LLVM IR of /repo, decided by Z3",
                           level="other", level_note=GENERIC + NOTES[i]))
    m = dict(version=1, setup_cmd="./setup.sh",
             checks=checks,
             not_applicable=[dict(property=k, reason=" ".join(v.split())) for k, v in sorted(NOT_APPLICABLE.items())],
             notes="See DESIGN.md. No hooks are needed in /repo: the checks compile its sources as they are.")
    m["hooks"] = dict(guard="OPK_VERIF", enable="no guarded code was needed: the guard is unused", source_commits=[])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
