#!/bin/bash
# append a "fixed:" line for every fix commit in /repo that is not listed yet
# usage: newfixed.sh PROPERTY  (all unlisted ones get this property)
cd /verif
git -C /repo log --reverse --format='%h %s' 157630b..HEAD | while read h m; do
  grep -q " $h " known_findings.txt && continue
  case "$m" in fix:*) echo "fixed: property=$1 $h ${m#fix: }" >> known_findings.txt;; esac
done
