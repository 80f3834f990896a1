#!/bin/sh
# usage: mkfixed.sh <property> <commit-subject-grep> : append a "fixed:" record for the /repo commit
h=$(git -C /repo log --format=%h --grep="$2" -1); s=$(git -C /repo log --format=%s -1 $h | sed 's/^fix: //')
echo "fixed: property=$1 $h $s" >> /verif/known-findings.txt
