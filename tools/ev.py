import json,sys
for n in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{n}.json'))
    for s in e['coverage']['subchecks']: print(json.dumps(s,indent=0))
