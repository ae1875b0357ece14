"""Prints the table of planted bugs for DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"c05-pending": "yes: gateway histories added to C05/C06", "c26-prefix": "yes: entries much like earlier ones added",
          "c30-ime-cut": "yes: wrong contained lengths added", "c23-file-names": "yes: networks with ids much alike added"}
MISSED.update(json.load(open(os.path.join(root, "tools", "missed.json"))) if os.path.exists(os.path.join(root, "tools", "missed.json")) else {})
print("| planted bug | caught by | what it breaks | first missed |\n|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    i = f.split("/")[-2]
    print("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], MISSED.get(i, "no")))
