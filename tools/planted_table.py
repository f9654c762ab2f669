#!/usr/bin/env python3
# Writes the "Planted changes" section of DESIGN.md from seeded/*/meta.json.
import glob,json,os
s=open("/verif/DESIGN.md").read(); mark="## Planted changes\n"
if mark in s: s=s[:s.index(mark)]
rows=[]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m=json.load(open(f)); rows.append(f"* `{os.path.basename(os.path.dirname(f))}`: {m['property']}. Needs {m['needs']}.")
s=s.rstrip("\n")+"\n\n"+mark+"""
Each was written from a property's text, confirmed with its demonstration, and then run against the checks (`tools/plant.py check`). All of them are
caught by the check of their own property (named after the colon); those that were missed at first led to the stronger generators described above
(`p13-interleaved-regions` is kept though its demonstration needs a layout file reader that vcheck counts as a build input). Besides these,
single-token mutants of all of src/ and include/ were tried at random in a scratch copy; the survivors were either shown to be equivalent or unreachable,
or led to new facets.

"""+"\n".join(rows)+"\n"
open("/verif/DESIGN.md","w").write(s)
