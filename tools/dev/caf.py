import sys; sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000); sys.tracebacklimit=3
import check, engine as EG
from report import Report
from cx import *
from rules_defaults import params, outs
from rules_entry import *
F='/tmp/facts'
rep=Report(['ALL'])
p=EG.Program(F+'/scale_decode.json',F+'/corpus.json'); cx=Cx(p,rep); cx.corpus_ok=True
for i in p.impls:
    if norm(i['trait']).endswith('DecodeAsFields') and i['crate']=='corpus' and norm(i['selfs']) in sys.argv[1:]:
        for m in i['methods']:
            b=p.bodies[m['id']]
            r=by_type(cx,b)
            for s,v,evs in outs(cx,b):
                print('OUT',show(v,5)[:150],'FIN',show(final_input(cx,s,r['inj']),5)[:200])
                for ev in evs: print('   ',ev['k'],ev.get('ok'),ev.get('name'),show(ev['visitor'],2)[:30] if 'visitor' in ev else '',show(ev['at'],4)[:140] if 'at' in ev else '', show(ev['val'],2)[:60] if 'val' in ev else '')
