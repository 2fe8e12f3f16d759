"""prints the DESIGN.md table of planted bugs from seeded/*/meta.json (CAUGHT: checks known to report each)"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"c05-interrupt-in-metadata": "C01, C02"}
print("| planted bug | breaks | needs | reported by |")
print("|---|---|---|---|")
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m, n = json.load(open(f)), f.split("/")[-2]
    by = m["property"] + (", " + ALSO[n] if n in ALSO else "")
    print("| %s | %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), by))
