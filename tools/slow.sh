#!/bin/bash
# tools/slow.sh ID LIMIT [N STEP]: time of each configuration (quick)
id=$1; lim=${2:-30}; n=${3:-400}
rm -f /tmp/slow.txt
seq ${5:-0} ${4:-1} $((n-1)) | xargs -P 8 -I{} bash -c 's=$(date +%s.%N); timeout '$lim' ./run.sh '$id' quick --serial --cfg {} >/tmp/slow.{}.log 2>&1; r=$?; e=$(date +%s.%N); echo "{} $r $(echo "$e - $s" | bc) $(tail -1 /tmp/slow.{}.log | cut -c1-200)" >> /tmp/slow.txt'
sort -k3 -n /tmp/slow.txt | tail -60
