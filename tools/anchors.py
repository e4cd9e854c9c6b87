import json,glob
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    for f in p['anchors']['files']:
        if not glob.glob('/repo/'+f): print(p['id'],f)
    for s in p['anchors']['state']+p['anchors']['mechanism']:
        if not glob.glob('/repo/'+s['where'].split(':')[0]): print(p['id'],s['where'])
