#!/bin/bash
# fixed.sh <property> <text>: commit /repo's working tree as a fix and record it in known_findings.jsonl
cd ${PLY_REPO:-/repo} && git commit -qam "fix: $2" || exit 1
h=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $h ${3:-$2}" >> /verif/known_findings.jsonl
echo "$h $2"
