"""replaces the table of planted bugs in DESIGN.md"""
import glob, json, os, re
V = os.path.join(os.path.dirname(__file__), "..")
MISSED = {"s05-seek-32-bit": "streams at far offsets (`relocate`)", "s18-links-of-last-item": "big noisy values (`noisy`)"}
try: MISSED.update(json.load(open(os.path.join(os.path.dirname(__file__), "missed.json"))))
except FileNotFoundError: pass
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda f: int(re.search(r"/s(\d+)", f)[1])):
    m = json.load(open(f)); n = f.split("/")[-2]
    note = "missed at first; caught since: " + MISSED[n] if n in MISSED else "yes"
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {note} |")
p = V + "/DESIGN.md"; s = open(p).read()
i = s.index("## 6. Planted bugs"); j = s.index("## 7. Limits")
s = s[:i] + f"""## 6. Planted bugs

Each was written from the text of the property, compiles, passes the 54 stable tests, and has a
demonstration that fails with it only. "yes": the check of the property reported it at once.

| planted bug | property | what it breaks | caught by the check of its property |
|---|---|---|---|
""" + "\n".join(rows) + "\n\n" + s[j:]
open(p, "w").write(s)
print(len(rows))
