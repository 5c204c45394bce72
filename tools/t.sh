#!/bin/bash
# run one check completely and summarise every violation: t.sh PNN [keys...]
cd "$(dirname "$0")/.."; p=$1; shift
VERIF_ALL=/tmp/v.jsonl ./run.sh $p ${TIER:-quick} | grep "cases=" ; python3 tools/s2.py /tmp/v.jsonl "$@"
