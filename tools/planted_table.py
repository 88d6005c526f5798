"""Print the table of planted bugs for DESIGN.md."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | property | what it breaks | needs |")
print("|---|---|---|---|")
for name in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", name, "meta.json")))
    print("| %s | %s | %s | %s |" % (name, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
