import sys; sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000)
import engine as EG
from report import Report
from cx import *
F=sys.argv[1] if sys.argv[1].startswith('/') else '/tmp/facts'
pats=[a for a in sys.argv[1:] if not a.startswith('/')]
rep=Report(['ALL'])
p=EG.Program(F+'/scale_decode.json',F+'/corpus.json'); cx=Cx(p,rep)
for b in list(p.bodies.values()):
    if all(x in b['npath'] for x in pats) :
        print('##',b['id'],b['npath'],b['argc'])
        st=St(); args=[cx.e.param('p%d'%j,b['locals'][j+1]) for j in range(b['argc'])]
        try:
            for s,v in cx.run(st,b['id'],args):
                print('  OUT',cx.show(s,v,8)[:300],'| disc',{show(a,3):x for a,x in s.disc.items()})
                for ev in s.trace: print('     EV',{a:(show(x,5) if isinstance(x,tuple) and x and isinstance(x[0],str) else str(x)[:100]) for a,x in ev.items() if a in('k','ok','at','tid','visitor','compact','name','val','path','dargs','args')})
        except Exception as x: print('  EXC',type(x).__name__,str(x)[:300])
