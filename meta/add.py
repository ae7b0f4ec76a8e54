"""P(...) writes meta/props/<id>.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(pid, title, statement, over, qtext, why, files, mech, state, observe, technique, note, level="model_checking"):
    d = {"property": {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                      "why_tests_cant": why,
                      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                                  "observe_at": observe, "hook_needed": None}},
         "check": {"technique": technique, "level": level, "level_note": note}}
    with open(os.path.join(V, "meta", "props", pid + ".json"), "w") as f:
        json.dump(d, f, indent=1)
