#!/usr/bin/env python3
"""triage.py ID: groups the replay files by which observations fail"""
import json,glob,sys,collections
g=collections.defaultdict(list)
for f in glob.glob(f'/verif/replays/{sys.argv[1]}-*.json'):
    v=json.load(open(f)); k=(v['case']['lines'][0],)+tuple(sorted({x['obs']+('/'+x['variant'] if len(sys.argv)>2 else '') for x in v['fails']}))
    g[k].append((len(json.dumps(v['case'].get('lines'))),f,v))
for k,l in g.items():
    print('=====',k,len(l)); l.sort(key=lambda x:x[0])
    for n,f,v in l[:3]:
        print(f); print('\n'.join('    | '+x for x in v['case']['lines']))
        for fl in v['case'].get('files',[]): print('    file',fl)
        if v['case'].get('set'): print('    set',v['case']['set'])
        for x in v['fails'][:2]: print('   ',x['obs'],x['variant'],'\n      exp',json.dumps(x['expected'])[:700],'\n      act',json.dumps(x['actual'])[:700])
