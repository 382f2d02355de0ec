"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = collections.defaultdict(list)
for f in glob.glob(root + "/seeded/*/meta.json"):
    m[json.load(open(f))["property"]].append(os.path.basename(os.path.dirname(f)))
key = lambda s: int(re.match(r"s(\d+)", s).group(1))
rows = "".join("| %s | %s |\n" % (p, ", ".join(sorted(m[p], key=key))) for p in sorted(m))
s = open(root + "/DESIGN.md").read()
s = re.sub(r"(\| property \| planted bugs \|\n\|---\|---\|\n)(\|.*\n)+", lambda x: x.group(1) + rows, s)
open(root + "/DESIGN.md", "w").write(s)
