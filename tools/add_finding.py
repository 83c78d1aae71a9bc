#!/usr/bin/env python3
"""add_finding.py PROPERTY COMMIT WHAT : append a fixed entry to known_findings.json."""
import json,sys,os
p=os.path.join(os.path.dirname(__file__),'..','known_findings.json')
L=json.load(open(p)); prop,c,what=sys.argv[1:4]
L.append({"status":"fixed","property":prop,"commit":c,"what":what,"line":f"fixed: property={prop} {c} {what}"})
open(p,'w').write("[\n"+",\n".join(" "+json.dumps(e) for e in L)+"\n]\n")
