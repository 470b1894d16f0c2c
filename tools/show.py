#!/usr/bin/env python3
"""show.py [r.json]: one line per function of a gocv report, failures in full"""
import json,sys
r=json.load(open(sys.argv[1] if len(sys.argv)>1 else '/tmp/r.json'))
for f in r['functions']:
    print('%-9s %6d ms %3s/%3s %s'%(f['status'],f['ms'],f.get('discharged'),f.get('total'),f['function']), (f.get('reason') or '')[:150])
    if f['status']=='failed':
        for o in f['obligations']:
            if o.get('status')!='proved': print('     ',{k:str(v)[:160] for k,v in o.items() if k!='output'})
