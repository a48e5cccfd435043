#!/usr/bin/env python3
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import units as U
t = open(V + "/tools/design.in.md").read()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = []
for p in props:
    T.append("### %s %s\n" % (p["id"], p["title"]))
    T.append(json.load(open(V + "/tools/oracles.json"))[p["id"]] + "\n")
    for u in U.UNITS:
        if p["id"] in u["props"]:
            a = u["quick"].get("args"); b = u["thorough"].get("args")
            T.append("* `%s` (%s.c): %s%s%s" % (u["name"], u["file"], u["bounds"], "; quick: " + ", ".join("%s=%s" % x for x in a.items()) if a else "", "; thorough: " + ", ".join("%s=%s" % x for x in b.items()) if b else ""))
    T.append("")
fx = json.load(open(V + "/known_findings.json"))["fixed"]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
S = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    S.append("| %s | %s | %s |" % (n, m["needs"].replace("|", "/"), caught.get(n, "?")))
open(V + "/DESIGN.md", "w").write(t.replace("@ASSUMPTIONS@", "\n".join("* " + a for a in U.ASSUMPTIONS)).replace("@TABLE@", "\n".join(T)).replace("@FIXED@", "\n".join("* " + f[16:] for f in fx)).replace("@SEEDS@", "\n".join(S)))
