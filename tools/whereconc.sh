#!/bin/bash
# dev: where does a symbolic value get forced to a number?  whereconc.sh ID CFG
cd /verif; SYMX_WHERE=1 ./run.sh $1 quick --cfg $2 --serial 2>&1 | grep -A14 CONCRETISE | head -${3:-40}
