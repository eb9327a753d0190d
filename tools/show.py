import json,sys
for i in sys.argv[1:]:
  d=json.load(open(f'/verif/evidence/{i}.json')); c=d['coverage']; print(i,c['evaluations'],c['distinct_nontrivial'],d['wall_s'])
  for s in c['subchecks']: print('  ',s['name'],s['evaluations'],s['nontrivial'],s['distinct_nontrivial'],s['classes'])
