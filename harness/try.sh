#!/bin/bash
# try.sh <seconds> <ids...>: runs the concrete side only
cd "$(dirname "$0")"; S=$1; shift
for i in "$@"; do O=$(mktemp); PYTHONHASHSEED=0 PYTHONINTMAXSTRDIGITS=0 timeout 300 /opt/venv/bin/python -W ignore run.py C$i ${SEED:-1} $S 20000 $O 2>&1 | tail -5 | cut -c1-600; python3 -c "
import json;d=json.load(open('$O'));print('C$i',{k:v for k,v in d.items() if k not in('samples','rule')})" | sed 's/\\n/\n/g' | cut -c1-2500; rm -f $O; done
