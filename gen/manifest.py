#!/usr/bin/env python3
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T=json.load(open('/verif/gen/techniques.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T['checks']:
        t=T['checks'][i]
        checks.append({"property":i,"quick_cmd":f"./run.sh {i}","thorough_cmd":f"./run.sh {i} thorough","technique":t[0],"level":"other","level_note":t[1]})
    else:
        na.append({"property":i,"reason":T['na'].get(i,"check under construction")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
