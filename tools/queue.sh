#!/bin/bash
# runs the planted-bug scripts in /tmp/plant/*.sh one after another
mkdir -p /tmp/plant/done; while true; do f=$(ls /tmp/plant/*.sh 2>/dev/null | head -1); [ -z "$f" ] && { sleep 5; continue; }; (cd /tmp/bugrepo 2>/dev/null; bash $f) >> /tmp/plant/log 2>&1; mv $f /tmp/plant/done/; done
