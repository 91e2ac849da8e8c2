#!/bin/bash
# dev helper: short output
cd /verif; ./run.sh "$@" 2>&1 | cut -c1-600 | tail -${LINES_:-25}
