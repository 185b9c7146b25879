"""Development aid: append to known-findings.json.
kf.py fixed "property=C05 <commit> text"   |  kf.py open ID PROP CONTRACT OBLIGATION TEXT"""
import json
import sys

P = "/verif/known-findings.json"
k = json.load(open(P))
if sys.argv[1] == "fixed":
    t = "fixed: " + sys.argv[2]
    if t not in k["fixed"]:
        k["fixed"].append(t)
else:
    _, _, i, prop, con, ob, text = sys.argv
    k["findings"] = [f for f in k["findings"] if f["id"] != i]
    k["findings"].append(dict(id=i, property=prop, contract=con,
                              obligation=ob, status="open", what=text))
json.dump(k, open(P, "w"), indent=1, ensure_ascii=False)
