"""Print DESIGN.md lines of planted changes not listed there yet."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(V, "DESIGN.md")).read()
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    if "`%s`" % b not in text:
        m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
        print("* `%s` (%s): %s" % (b, m["property"], m["what_it_breaks"]))
