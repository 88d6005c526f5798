"""Assemble DESIGN.md from tools/design/*.md, the properties and the planted bugs."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
part = lambda name: open(os.path.join(here, "tools", "design", name)).read()
exec(part("props.py"))
out = [part("head.md")]
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    generated, oracle, left = P[p["id"]]
    out.append("### %s %s\n\n*Generated:* %s\n\n*Oracle:* %s\n" % (p["id"], p["title"], generated, oracle))
    if left:
        out.append("*Not judged:* %s\n" % left)
out.append(part("tail.md"))
table = subprocess.run([sys.executable, os.path.join(here, "tools", "planted_table.py")], capture_output=True, text=True).stdout
out.append(table)
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
