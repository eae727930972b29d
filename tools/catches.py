#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(here+"/seeded")):
    m=json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append((m["property"],d,m["needs"]))
rows.sort()
t="| check that reports it | planted bug | shows only with |\n|---|---|---|\n"+"".join(f"| {p} | {d} | {n} |\n" for p,d,n in rows)
p=here+"/DESIGN.md"; s=open(p).read()
i=s.index("## Planted bugs")
s=s[:i]+f"""## Planted bugs

`seeded/` holds {len(rows)} bugs, each written from a property's text and the code,
each confirmed to pass the existing tests and to fail its own demonstration.
The quick check of the bug's own property reports every one of them
(`tools/try.sh seeded/NAME`). Some were missed when first planted, and led to: live values
kept between calls (C13, C14, C23, C26), the larger alphabet, the almost equal
arguments and the sweeps of C16, operands longer than the format (C06-C09),
buffers of every length and room (C25), hard cases (C19, C20).

{t}"""
open(p,"w").write(s)
