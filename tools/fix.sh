#!/bin/bash
# fix.sh ID "subject": commits all the changes of /repo as one fix and records it
cd /repo && gofmt -l $(git diff --name-only) && go vet ./$(dirname $(git diff --name-only|head -1)) >/dev/null 2>&1
git -C /repo commit -qam "fix: $2" && echo "$1 $2" >> /verif/tools/known_fixed.txt && git -C /repo log --oneline | head -1
