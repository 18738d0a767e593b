#!/bin/bash
# time per function of one contract file:  prof.sh C06
RL=${RL:-60} N=400000 bash /verif/tools/v.sh $1 --triggers-mode silent --output-json --time-expanded 2>/dev/null | python3 -c "
import sys,json
t=sys.stdin.read(); d=json.loads(t[t.index('{'):])
fs=[]
for m in d['times-ms']['smt']['smt-run-module-times']:
    for f in m.get('function-breakdown',[]): fs.append((f['time'],f.get('rlimit'),f['function']))
for x in sorted(fs,reverse=True)[:8]: print(x)
print(d['verification-results'])
"
