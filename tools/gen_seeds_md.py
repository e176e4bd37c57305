"""rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []
for n in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, n)))
    L.append("* `%s` (%s): %s; needs %s." % (n, m["property"], m["what_it_breaks"], m["needs"]))
f = HERE + "/DESIGN.md"
s = open(f).read()
i = s.index("* `C01-dec-zero`"); j = s.index("## 5.")
open(f, "w").write(s[:i] + "\n".join(L) + "\n\n" + s[j:])
