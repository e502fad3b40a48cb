#!/bin/bash
# dump.sh <ID> <case> <passes> [lines]: before/after of the first violation of a case
source /opt/vp/env.sh; cd /verif
HV_DUMP=1 HV_SIZE=${HV_SIZE:-6} HV_PASSES=$3 target/debug/hv one $1 1 $2 > /tmp/o 2>&1
grep BAD /tmp/o | cut -c1-${W:-500} | head -2
awk '/^BEFORE/{b=$0;next} 1' /tmp/o >/dev/null
python3 - $4 <<'P'
import sys
t=open('/tmp/o').read()
i=t.find('\nBEFORE',t.find('BEFORE')+5); i=i if i>0 else len(t)
parts=t[:i].split('BEFORE\n')
n=int(sys.argv[1]) if len(sys.argv)>1 else 60
print('\n'.join(l[:150] for l in parts[1].split('\n')[:n]))
P
