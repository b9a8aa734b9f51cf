import sys; sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000)
import terms
if len(sys.argv)>1: terms.set_pointer_width(int(sys.argv[1]))
import check
check.register()
rep,cx=check.analyse('ALL','/tmp/facts',True,'','quick')
from collections import Counter
c=Counter((p['what'],p['fn'],p['span'].split('/')[-1]) for p in cx.e.panics)
for k,n in c.most_common(60): print(n,k)
print(sum(1 for o in rep.obs.values() if o['bad']), list(rep.undecided.items())[:3])
print(cx.e.unreviewed)
print('---- rest')
an=set(cx.e.analysed)
e=cx.e
n0=len(e.panics)
import json
D=json.load(open('/tmp/facts/scale_decode.json'))
rest=[]
for r in D['roots']:
    b=cx.p.bodies.get(r['id'])
    if b is None: print('nobody',r['path']); continue
    if (b['npath'],b['span']) in an: continue
    rest.append(b)
print(len(D['roots']),len(rest))
inc=Counter()
names=Counter()
for b in rest:
    names[b['npath'].split('::')[-1]]+=1
    k=len(e.panics)
    try: cx.run(St() if 'St' in globals() else __import__('engine').St(), b['id'], [e.param('p%d'%j,b['locals'][j+1]) for j in range(b['argc'])])
    except Exception as x: inc[type(x).__name__+str(x)[:90]+' '+b['npath'][:80]]+=1
    for p in e.panics[k:]: print('PANIC',b['npath'][:100],'|',p['what'],p['fn'][:60],p['span'].split('/')[-1])
print(names.most_common(80))
for k,n in inc.most_common(40): print(n,k)
