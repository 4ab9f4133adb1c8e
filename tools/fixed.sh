#!/bin/bash
# usage: tools/fixed.sh PROPERTY N    append the last N fix commits of /repo to known_findings.txt
git -C /repo log --format='%h %s' -"$2" | tac | while read -r h s; do echo "fixed: property=$1 $h ${s#fix: }"; done >> "$(dirname "$0")/../known_findings.txt"
