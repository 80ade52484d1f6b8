import json,sys
p,kind,inp,what=sys.argv[1:5]
open("/verif/known_findings.jsonl","a").write(json.dumps(dict(status="known",property=p,kind=kind,input=inp,what=what))+"\n")
