#!/bin/bash
# fix.sh <property> "<commit subject>" "<what failed>" : commit /repo's working tree as one fix: commit and record it
cd /repo && git commit -qam "fix: $2" && h=$(git rev-parse --short HEAD) && echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt && echo $h
