#!/bin/bash
# dev: make the scratch clone equal to /repo
cd /tmp/wk && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git log --oneline | head -1
