"""Lines inside functions of the library that no check executed (from the evidence of the last runs)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss, present = {}, {}
for p in glob.glob(os.path.join(V, "evidence", "C*.json")):
    for f, e in json.load(open(p))["coverage"]["library_lines"].items():
        m = set(e["missed"])
        miss[f] = miss[f] & m if f in miss else m
        present[f] = e["present"]
for f in sorted(miss):
    print(f, f"{present[f] - len(miss[f])}/{present[f]}", "never executed:", sorted(miss[f]))
