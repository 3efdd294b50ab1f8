#!/usr/bin/env python3
"""cmp_baseline.py OUT.json: do all stable baseline tests pass?"""
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def ids(x,k):
    v=x.get(k,[]); return set(v if isinstance(v,list) else v.keys())
st=ids(b,'stable'); ps=ids(r,'passed')|ids(r,'pass')
if not ps: print(list(r)[:5])
m=sorted(st-ps); print("stable",len(st),"missing",m[:5]); sys.exit(bool(m))
