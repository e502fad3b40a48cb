#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from the fix commits in /repo."""
import subprocess, re
M=[(r'^fix: nesting','C21'),(r'^fix: results of copying','C29'),(r'^fix: compression without','C25'),(r'^fix: references between the ext','C25'),(r'^fix: resolution of aliases','C19'),(r'^fix: views','C31'),(r'^fix: lowering of','C23'),(r'^fix: lattice values','C22'),(r'^fix: rewrite histories','C18'),(r'^fix: copies of arrays','C14'),(r'^fix: replacing types in function','C13'),(r'^fix: linking','C12'),(r'^fix: type arguments','C20'),(r'^fix: subgraphs','C17'),(r'^fix: builders','C02'),(r'^fix: validation','C01'),(r'metadata of removed|removing ports','C06'),(r'malformed|untrusted','C05'),(r'^fix: (the model text|extensions packaged)','C04'),(r'^fix: (resolving extensions|loading nested)','C03'),(r'dataflow analysis|prepopulated','C22'),(r'inlining|rewrites panicked','C07'),(r'LocalizeEdges','C16'),(r'dead function|dead code','C10'),(r'monomorph','C11'),(r'CFG normalization|UntuplePass|constant folding disconnected|constant folding put','C09'),(r'.','C08')]
import json,os
extra=json.load(open('/verif/tools/fixed_extra.json')) if os.path.exists('/verif/tools/fixed_extra.json') else {}
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout
out=[]
for l in log.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: ') or 'formatting' in s: continue
    prop=next((p for k,p in extra.items() if k in s),None) or next(p for r,p in M if re.search(r,s))
    if prop in extra: prop=extra[prop]
    out.append(f'fixed: property={prop} {h} {s[5:]}')
f='/verif/known_findings.txt'
ls=[l for l in open(f).read().splitlines() if not l.startswith('fixed:')]
open(f,'w').write('\n'.join(ls+out)+'\n')
