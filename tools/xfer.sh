#!/bin/bash
# dev: move new commits of the scratch clone to /repo and run the baseline tests
cd /repo && B=$(git rev-parse HEAD) && git fetch -q /tmp/wk HEAD && M=$(git merge-base HEAD FETCH_HEAD) && git cherry-pick $M..FETCH_HEAD | grep '] fix'
/verif/tools/basetest.sh | tail -1
/verif/tools/sync.sh
