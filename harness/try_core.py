import sys, json, time
import gen_core, tlc
n=int(sys.argv[1]); base=int(sys.argv[2]) if len(sys.argv)>2 else 0
prof=json.loads(sys.argv[3]) if len(sys.argv)>3 else {}
t=time.time(); tr=[gen_core.generate(base+i, prof) for i in range(n)]; print("gen",time.time()-t, sum(len(x['ops']) for x in tr))
t=time.time(); v,st=tlc.validate(tr); print("tlc",time.time()-t,st)
from collections import Counter
print(Counter(x[0] for x in v.values()))
print(Counter((o['op'],o['r'][:6]) for x in tr for o in x['ops']).most_common(40))
shown=0
for i,x in sorted(v.items()):
    if x[0]!='ACCEPT':
        shown+=1
        if shown>int(sys.argv[4]) if len(sys.argv)>4 else shown>2: break
        print('=====',base+i,x)
        print(json.dumps(tr[i]['c']))
        for k,o in enumerate(tr[i]["ops"][:x[1]]): print(k+1,json.dumps(o))
