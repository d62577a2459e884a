import json,os
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    for f in p['anchors']['files']+[m['where'] for m in p['anchors']['mechanism']]:
        if not os.path.exists('/repo/'+f.split(':')[0]): print(p['id'],'missing',f)
