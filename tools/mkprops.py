#!/usr/bin/env python3
# Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, st, over, text, why, files, mech, state=(), obs=(), hook=None, tech=None, level="exploration", note="", na=None):
    P.append((dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(obs), hook_needed=hook)), tech, level, note, na))
T = "deterministic simulation with fault injection: seeded schedules"
TESTS = "The tests run a few dozen fixed systems with one OpenMP thread and one draw each and compare with stored output; "
exec(open(os.path.join(V, "tools", "props_data.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p[0]) + "\n")
M = dict(version=1, setup_cmd="bash /verif/sim/build.sh", hooks=dict(guard="none", enable="No hook was added to /repo: every seam is taken at link time by renaming the libc and OpenMP symbols of the object files built from /repo's working tree.", source_commits=[]),
  checks=[dict(property=p[0]["id"], quick_cmd="bash /verif/check.sh %s quick" % p[0]["id"], thorough_cmd="bash /verif/check.sh %s thorough" % p[0]["id"], evidence_file="evidence/%s.json" % p[0]["id"], technique=p[1], level=p[2], level_note=p[3]) for p in P if not p[4]],
  not_applicable=[dict(property=p[0]["id"], reason=p[4]) for p in P if p[4]], notes="See DESIGN.md. replay.sh FILE replays a violation; known_findings.txt lists recorded and repaired defects.")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
