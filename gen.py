#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.py (one file per property)."""
import glob, importlib.util, json, os
V = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
for f in sorted(glob.glob(V + "/props/[A-Z]*.py")):
    s = importlib.util.spec_from_file_location("x", f)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    pid = os.path.basename(f)[:-3]
    assert len(m.title) <= 80, (pid, len(m.title))
    props.append(dict(id=pid, title=m.title, statement=" ".join(m.statement.split()),
                      quantifier=dict(over=m.over, text=" ".join(m.quant.split())),
                      why_tests_cant=" ".join(m.tests.split()),
                      anchors=dict(files=m.files, mechanism=[dict(name=a, where=b) for a, b in m.mech],
                                   **({"observe_at": m.observe} if hasattr(m, "observe") else {}), hook_needed=None)))
    if hasattr(m, "na"):
        na.append(dict(property=pid, reason=m.na))
    elif os.path.exists(V + "/checks/%s.py" % pid):
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s --quick" % pid,
                           thorough_cmd="python3 check.py %s --thorough" % pid, evidence_file="evidence/%s.json" % pid,
                           technique=m.technique, level=getattr(m, "level", "exploration"),
                           level_note=" ".join(m.note.split())))
    else:
        na.append(dict(property=pid, reason="no check built yet"))
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
               hooks=dict(guard="none", enable="no hooks: the checks compile /repo/src as it is, with sanitizers", source_commits=[]),
               notes="See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(props), "properties", len(checks), "checks")
