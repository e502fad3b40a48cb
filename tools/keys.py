import json,sys
d=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
print(d['coverage']['evaluations'],d['coverage']['distinct_nontrivial'],d['observed'])
for v in sorted(d['violations'],key=lambda v:-v['times']): print(v['times'],v['key'][:230],'case',v['case'])
