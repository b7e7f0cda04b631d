"""Development aid: try_inject.py N [base] [show]"""
import sys, collections
import gen_inject, tlc
n=int(sys.argv[1]); base=int(sys.argv[2]) if len(sys.argv)>2 else 0
ts=[gen_inject.generate(base+i,{}) for i in range(n)]
ab=[(base+i,t['aborted']) for i,t in enumerate(ts) if t.get('aborted')]
print('aborted',len(ab)); [print(i,a) for i,a in ab[:2]]
v,st=tlc.validate([{k:x for k,x in t.items() if k!='aborted'} for t in ts],'InjectTrace')
print(collections.Counter(x[0] for x in v.values()),st)
c=collections.Counter()
for t in ts:
    for o in t['ops']: c[o['op']+':'+(o['r'] if o['r'][:2]=='E:' else 'value')[:14]]+=1
print(c)
shown=0
for i,x in v.items():
    if x[0] in('DIVERGE','UNSAFE') and shown<int((sys.argv+['','','2'])[3] if len(sys.argv)>3 else 2):
        shown+=1
        t=ts[i]; print('=====',base+i,x, t['c'])
        for k,o in enumerate(t['ops'][:x[1]],1): print(k,{a:b for a,b in o.items() if b not in ([],'')})
