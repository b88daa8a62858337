#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
PLAY="bounded exhaustive exploration of the real generator's outputs, played back at every relevant instant by an independent SVG/CSS player"
TECH={
 "A01":(PLAY+" against a reference schedule","Every sequence in the stated bounds is generated by the code itself and judged at all keyframe offsets, boundaries and midpoints. Trusts lib/player.ts (CSS animation subset) and the reference schedule in lib/frames.ts."),
 "A02":(PLAY+" against per-type boundary contracts","Every pair/triple of transition variants in the stated bounds; coverage is judged on a grid of viewport points. Trusts lib/player.ts; slide entrance into a fading frame is exempt as documented in docs/88."),
}
extra=os.path.join(root,"tools","tech.json")
if os.path.exists(extra): TECH.update({k:tuple(v) for k,v in json.load(open(extra)).items()})
checks=[];na=[]
NA={}
for p in props:
    i=p["id"]
    if i in TECH and os.path.exists(os.path.join(root,"checks",i+".ts")):
        t=TECH[i]
        lvl=t[2] if len(t)>2 else "model_checking"
        checks.append({"property":i,"quick_cmd":f"bin/check {i}","thorough_cmd":f"bin/check {i} --thorough","technique":t[0],"level":lvl,"level_note":t[1]})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"true","hooks":{"guard":"DOMOTION_VERIF","enable":"no hooks are needed: the checks import /repo's TypeScript sources directly and replace timers, processes, file system and network from outside","source_commits":[]},"checks":checks,"not_applicable":na}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
print(len(checks),"checks",len(na),"n/a")
