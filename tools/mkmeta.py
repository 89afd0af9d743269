#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (PROPS)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), note="", technique="", observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, note=note, technique=technique, observe=observe))


exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

ROW = ("Every accepted step of every generated run is judged by an independent numpy implementation of the documented "
       "physics; held means held on the runs listed in the evidence, not for all inputs. Trusted: dolfin's mesh, the recorded "
       "nodal values, the reference implementation in vf/ref.py.")


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  state=[dict(name=a, meaning=b) for a, b in p["state"]],
                                  observe_at=list(p["observe"]) or ["festim.DerivedQuantities entries computed at each accepted step"],
                                  hook_needed=None))
            fh.write(json.dumps(d) + "\n")
    checks = []
    for p in P:
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                           thorough_cmd="python3 run.py %s --tier thorough" % p["id"], technique=p["technique"],
                           level="exploration", level_note=p["note"] or ROW))
    man = dict(version=1, setup_cmd="true", checks=checks,
               hooks=dict(guard="none", enable="no hooks in /repo: the monitors use FESTIM's public extension points "
                                                "(user-defined derived quantities, user-supplied Newton solver, exports)",
                          source_commits=[]),
               not_applicable=[])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    design()


def design():
    import glob
    ns = {}
    exec(open(os.path.join(HERE, "tools", "how.py")).read(), ns)
    t = open(os.path.join(HERE, "tools", "DESIGN.tmpl.md")).read()
    out = []
    for p in P:
        out.append("\n### %s %s\n\n%s\n\nDecided by: %s. %s\n" % (p["id"], p["title"], p["statement"], p["technique"], ns["HOW"][p["id"]]))
    caught = {}
    cp = os.path.join(HERE, "tools", "caught.json")
    if os.path.exists(cp):
        caught = json.load(open(cp))
    rows = ["\n| planted bug | property | needs | caught by (quick) |\n|---|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        n = os.path.basename(os.path.dirname(m))
        d = json.load(open(m))
        rows.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"], ", ".join(caught.get(n, [])) or "not caught"))
    t = t.replace("@@PROPS@@", "".join(out)).replace("@@BUGS@@", "\n".join(rows) + "\n")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
        fh.write(t)


main()
