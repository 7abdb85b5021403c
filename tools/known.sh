#!/bin/bash
# known.sh C01 "commit subject prefix" "what failed": appends a fixed: line
c=$(git -C /repo log --format=%h --grep="^$2" | head -1); [ -n "$c" ] || { echo "no commit $2"; exit 1; }
echo "fixed: property=$1 $c $3" >> /verif/known_findings.txt
