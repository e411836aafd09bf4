import json,sys
sys.path.insert(0,'/verif')
import importlib,props
T="symbolic execution of the compiled code (rustc LLVM bitcode) with Z3"
props_all=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props_all:
    if p in props.PROPS:
        q=props.PROPS[p]
        checks.append(dict(property=p,quick_cmd=f"python3 check.py {p}",thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}",technique=T,level="model_checking",
          level_note="Bounded: every path of the real code within the stated bounds, all values of the symbolic inputs; violations are replayed natively. Bounds: "+q["bounds"]+". Outside: "+q.get("outside","-")+". Trusts rustc -O, the engine's IR semantics (cross-validated by native replay on every run) and Z3."))
    else:
        na.append(dict(property=p,reason="check not built yet"))
m=dict(version=1,setup_cmd="python3 check.py --setup",checks=checks,not_applicable=na)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
