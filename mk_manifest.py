#!/usr/bin/env python3
# writes MANIFEST.json from the table of programs and properties.jsonl
import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from checks_table import PROGRAMS, TECHNIQUE, NOTE
props=[json.loads(l) for l in open("properties.jsonl")]
have=PROGRAMS([],[],[],[],[],[],[],[])
m={"version":1,"setup_cmd":"python3 check.py --setup","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in have:
        m["checks"].append({"property":i,"level":"exploration","technique":TECHNIQUE.get(i,TECHNIQUE["*"]),"level_note":NOTE.get(i,NOTE["*"]),
            "quick_cmd":"VERIF_TIER=quick python3 check.py %s"%i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py %s"%i})
    else: m["not_applicable"].append({"property":i,"reason":"check not built yet"})
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
