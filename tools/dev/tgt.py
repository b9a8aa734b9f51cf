import sys; sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000); sys.tracebacklimit=3
import check, engine as EG
from report import Report
from cx import *
import rules_items as RI
F='/tmp/facts'
rep=Report(['ALL'])
p=EG.Program(F+'/scale_decode.json',F+'/corpus.json'); cx=Cx(p,rep); cx.corpus_ok=True
tgt,cb=sys.argv[1:3]
sn=RI.snapshots(cx)
for i in p.impls:
    if norm(i['trait'])=='visitor::Visitor' and norm(p.types[dict((a,b) for a,b in i['types'])['Value']]['s'])==tgt:
        for m in i['methods']:
            if m['name']==cb:
                b=p.bodies[m['id']]
                print(b['npath'])
                cases=[]
                for k,cont,label,st,ref,snap in sn:
                    if snap['name']==cb and label=='fresh': cases.append((st,[cx.e.param('self',b['locals'][1]),ref,('param','tid')]))
                if not cases: cases=[(St(),[cx.e.param('p%d'%j,b['locals'][j+1]) for j in range(b['argc'])])]
                for st,args in cases:
                    n=len(st.trace)
                    L0=set(cx.e.loops)
                    for s,v in cx.run(st.copy(),m['id'],args):
                        print('OUT',show(cx.e.deep(s,v),14)[:600])
                        for ev in s.trace[n:]: print('   EV',{a:(show(b) if isinstance(b,tuple) else b) for a,b in ev.items() if a in('k','ok','at','tid','visitor','compact','name','val','path','loop','n')})
                    for l in set(cx.e.loops)-L0:
                        L=cx.e.loops[l]; print('LOOP',l,L['where'],len(L['backs']))
                        for bk in L['backs']: 
                            for ev in bk.trace[L['prefix']:]: print('     LEV',{a:(show(b) if isinstance(b,tuple) else b) for a,b in ev.items() if a in('k','ok','at','tid','visitor','compact','name','val','path')})
                    break
