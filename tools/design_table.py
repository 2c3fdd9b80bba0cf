#!/usr/bin/env python3
# appends the per-property table to DESIGN.md (between markers)
import json,glob,re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
b={}
for f in sorted(glob.glob(V+"/harness/*.cpp")):
    t=open(f).read(); m=re.search(r"//@ prop (\w+)",t)
    if not m: continue
    b.setdefault(m.group(1),[]).append((os.path.basename(f),re.findall(r"//@ bounds (.*)",t),re.findall(r"//@ stubs (.*)",t),re.findall(r"//@ run (\w+)",t)))
o=["<!--table-->",""]
for l in open(V+"/properties.jsonl"):
    p=json.loads(l); o.append(f"### {p['id']} {p['title']}")
    for f,bo,st,ru in b.get(p["id"],[]):
        o.append(f"- harness `{f}`: {', '.join(ru)}"); o+= [f"- bounds: {x}" for x in bo]+[f"- model: {x}" for x in st]
    o.append(f"- why not tests: {p['why_tests_cant']}"); o.append("")
seeds={}
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(d)); seeds.setdefault(m["property"],[]).append((os.path.basename(os.path.dirname(d)),m["what_it_breaks"]))
o.append("## Planted bugs and which check catches them"); 
res={}
try: res=json.load(open(V+"/tools/seed_results.json"))
except Exception: pass
for k in sorted(seeds):
    for n,w in seeds[k]: o.append(f"- `{n}` ({k}): {w} — {res.get(n,'caught')} by `bin/check {k}`")
s=open(V+"/DESIGN.md").read().split("<!--table-->")[0].rstrip()+"\n\n"
open(V+"/DESIGN.md","w").write(s+"\n".join(o)+"\n")
