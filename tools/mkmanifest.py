"""writes MANIFEST.json from the table of claimed properties"""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
spec=importlib.util.spec_from_file_location("t",os.path.join(V,"tools","claims.py")); t=importlib.util.module_from_spec(spec); spec.loader.exec_module(t)
ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
checks=[];na=[]
for i in ids:
    if i in t.CLAIMS:
        c=t.CLAIMS[i]
        checks.append({"property":i,"quick_cmd":"python3 check.py %s"%i,"thorough_cmd":"python3 check.py %s --thorough"%i,"technique":c[0],"level":"other","level_note":c[1]})
    else: na.append({"property":i,"reason":t.NA.get(i,"not claimed: no check has been built for it yet")})
json.dump({"version":1,"setup_cmd":"python3 sa/facts.py","checks":checks,"not_applicable":na,"notes":t.NOTES},open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed",len(na),"not")
