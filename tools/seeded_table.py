"""Writes the table of planted bugs into DESIGN.md (section 9). Uses seeded/*/meta.json and tools/seeded_notes.json
({id: how a check that first missed it was strengthened}; ids in "missed" are not caught)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(f"{V}/tools/seeded_notes.json"))
rows = []
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f))
    caught = "missed" if i in notes["missed"] else m["property"]
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught} | {notes['first_missed'].get(i, '')} |")
text = f"""Each was written from the statement and the code, kept only after its demonstration passed on the unchanged tree and
failed with the patch, and the repository's stable tests passed with it. "Caught by": the quick check of that
property exits 1 with its VIOLATION line. {len(rows)} in all.

| bug | what it breaks | needs | caught by | first missed; what was strengthened |
|---|---|---|---|---|
""" + "\n".join(rows) + "\n\nDropped because the repository's own tests fail with them: " + ", ".join(notes["dropped"]) + ".\n"
p = f"{V}/DESIGN.md"; s = open(p).read()
a = s.index("## 9 Planted bugs\n") + len("## 9 Planted bugs\n"); b = s.index("## 10 Limits")
open(p, "w").write(s[:a] + "\n" + text + "\n" + s[b:])
