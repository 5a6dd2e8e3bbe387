#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between <!-- gen:X --> and <!-- /gen:X --> markers)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def entries(path):
    src = open(path).read()
    out = []
    for m in re.finditer(r'^SX_ENTRY\(\s*(\w+)\s*,\s*(\w+)\s*,\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)', src, re.M):
        out.append((m.group(1), m.group(2), "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3)))))
    for m in re.finditer(r'^//@entry\s+(\w+)\s+(\w+)\s+"([^"]*)"', src, re.M):
        out.append(m.groups())
    return out


def gen_bounds():
    out = []
    for p in sorted(glob.glob(V + "/harness/C*.cpp")):
        pid = os.path.basename(p)[:3]
        ev = V + "/evidence/" + pid + ".json"
        cost = ""
        out.append("**%s**%s" % (pid, cost))
        out.append("")
        for n, t, b in entries(p):
            out.append("* `%s`%s — %s" % (n, "" if t == "quick" else " (%s)" % t, b))
        out.append("")
    return "\n".join(out)


def gen_bugs():
    rows = ["| seeded change | property | what it needs |", "|---|---|---|"]
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d))
        rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/")))
    return "\n".join(rows)


def gen_findings():
    k = json.load(open(V + "/known_findings.json"))
    out = ["Recorded, not repaired (%d):" % len(k["findings"]), ""]
    out += ["* %s `%s`: %s" % (f["property"], f["entry"], f["what"]) for f in k["findings"]]
    out += ["", "Repaired (%d, one `fix:` commit each):" % len(k["fixed"]), ""]
    out += ["* " + re.sub(r"^fixed: property=", "", f) for f in k["fixed"]]
    return "\n".join(out)


p = V + "/DESIGN.md"
s = open(p).read()
for name, fn in (("bounds", gen_bounds), ("bugs", gen_bugs), ("findings", gen_findings)):
    s = re.sub(r"(<!-- gen:%s -->\n).*?(<!-- /gen:%s -->)" % (name, name), lambda m: m.group(1) + fn() + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
