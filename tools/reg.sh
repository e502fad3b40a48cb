#!/bin/bash
# register: regenerate, run the named checks quietly, commit
cd /verif; python3 tools/fixed.py; python3 tools/mkmanifest.py
for p in "$@"; do timeout 900 bash check.sh $p quick > /tmp/reg.$p 2>&1; echo "$p exit $?"; grep -E "^(VIOLATION|INCONCL|KNOWN)" /tmp/reg.$p | cut -c1-200 | head -5; done
git add -A; git commit -qm "${MSG:-$*}"
