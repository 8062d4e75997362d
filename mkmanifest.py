#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json,re,os
here=os.path.dirname(os.path.abspath(__file__))
ids=[json.loads(l)["id"] for l in open(here+"/properties.jsonl")]
src=open(here+"/sim/src/checks.rs").read()
have=re.findall(r'"(C\d\d)"',re.search(r'pub const IDS: &\[&str\] = &\[(.*?)\];',src,re.S).group(1))
note={}
exec(open(here+"/notes.py").read())
m={"version":1,"setup_cmd":"./setup.sh",
 "checks":[{"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":"deterministic simulation: seeded schedules and injected faults over emulated machine code, histories checked against a reference model","level":"exploration","level_note":NOTE.get(i,DEFAULT)} for i in ids if i in have],
 "not_applicable":[{"property":i,"reason":"The check is not built yet."} for i in ids if i not in have],
 "notes":"The seam is the instruction set: /repo is compiled for each target and executed by emulators under a seeded scheduler, so no hook in /repo is needed."}
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1)
