#!/usr/bin/env python3
# Source of properties.jsonl and MANIFEST.json (kept as code so that long texts stay readable). Run: tools/mkprops.py
import json,os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[];C=[];NA=[]
TECH="solver-based symbolic execution of the compiled real code (LLVM IR -> SMT, Z3)"
NOTE="bounded: the harness inputs are symbolic and every path is decided by the solver within the bounds printed in the evidence; trusts clang's IR, the executor in engine/, and Z3; counterexamples are replayed on native code"
def p(id,title,statement,over,q,why,files,mech,note="",observe=None,na=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over.split(),text=q),why_tests_cant=why,
      anchors=dict(files=files.split(),mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
    if na: NA.append(dict(property=id,reason=na)); return
    C.append(dict(property=id,quick_cmd=f"bin/check {id}",thorough_cmd=f"VERIF_TIER=thorough bin/check {id}",evidence_file=f"evidence/{id}.json",
      technique=TECH,level="model_checking",level_note=(note+"; " if note else "")+NOTE))
exec(open(os.path.join(ROOT,"tools","props.py")).read())
with open(os.path.join(ROOT,"properties.jsonl"),"w") as f:
    for x in P: assert len(x["title"])<=80,x["title"]; f.write(json.dumps(x)+"\n")
json.dump(dict(version=1,setup_cmd="bin/check --setup",checks=C,not_applicable=NA,
  notes="No hooks in /repo are needed: harnesses call the public headers and the executor reads the IR clang produces from /repo's working tree on every run. Known findings: known-findings.txt."),open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1)
