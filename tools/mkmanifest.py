#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the checks that exist and the table below."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOW="path-sensitive dataflow (abstract interpretation) over the resolved syntax tree"
NOTE=("Decided on the resolved syntax tree of the current source for all paths of the anchored functions, loops by fixpoint; "
      "callees with a property of their own are used by their contract. Trusted: the extractor, the dataflow engine and its "
      "models of the C++ library, OpenSSL and libsodium; what it cannot model is reported as undecided in the evidence, not as holding.")
T={}   # id -> technique, note
def t(ids,tech,note=""):
    for i in ids.split(): T[i]=(tech,(NOTE+" "+note).strip())
t("C01 C02 C03 C04 C05 C06 C07 C09 C10 C11 C12 C14 C15 C16 C17 C25 C27 C33 C34 C35 C36 C44 C45",FLOW)
exec(open(os.path.join(V,"tools","techniques.py")).read()) if os.path.exists(os.path.join(V,"tools","techniques.py")) else None
NA=json.load(open(os.path.join(V,"tools","not_applicable.json")))
checks=[];na=[]
for l in open(os.path.join(V,"properties.jsonl")):
    p=json.loads(l)["id"]
    if os.path.exists(os.path.join(V,"sa","checks",p.lower()+".py")) and p not in NA:
        tech,note=T.get(p,(FLOW,NOTE))
        checks.append(dict(property=p,quick_cmd="./check %s"%p,thorough_cmd="./check %s --thorough"%p,technique=tech,level="other",level_note=note))
    else:
        na.append(dict(property=p,reason=NA.get(p,"no check built yet")))
m=dict(version=1,setup_cmd="python3 -c 'import sys; sys.path.insert(0,\".\"); from sa import ir; print(ir.extractor())'",checks=checks,not_applicable=na,
 notes="Static analysis only; /repo carries no hooks. Genuine defects found were repaired in /repo (see known_findings.json and DESIGN.md).")
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
