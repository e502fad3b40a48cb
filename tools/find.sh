#!/bin/bash
# find.sh <ID> <passes> [n] [size]: build and list smallest failing cases per class
/verif/b.sh > /tmp/bo 2>&1; grep -q "^error" /tmp/bo && { head -${L:-30} /tmp/bo; exit; }
[ -d /tmp/dev/target ] && HVT=/tmp/dev/target || HVT=/verif/target; cd /verif; [ -n "$2" ] && export HV_PASSES=$2; [ -n "$4" ] && export HV_SIZE=$4
timeout 400 $HVT/debug/hv find $1 ${3:-30000} 2>&1 | cut -c1-${W:-220} | head -${L:-30}
