exec(open('/tmp/ctgt.py').read().split("tgt,cb=")[0])
import rules_targets as T, rules_derive as D
for i in p.impls:
    if i['crate']=='corpus' and norm(i['trait'])=='visitor::Visitor':
        n=norm(p.types[dict((a,b) for a,b in i['types'])['Value']]['s'])
        for m in i['methods']:
            if m['name']=='visit_composite' and n in('NSkAll',):
                b=p.bodies[m['id']]
                for cs in T.cases(cx,b,'visit_composite'):
                    rs=T.runs(cx,m['id'],cs)
                    print(D.name_modes(rs))
                    for s,v,evs in rs:
                        for e in evs:
                            if e['k']=='found': print('AT',[a for a in (ATOMS.values() if isinstance(ATOMS,dict) else ATOMS) if a and a[0]=='discr' and 'pos' in repr(a)][:3]);print('ND',[(show(k,9),v) for k,v in s.ndisc.items()],[ (show(k,9),v) for k,v in s.disc.items()], e['item'],e['idx'])
                    for s,v,evs in rs: print('  ',show(v,5)[:120],[(e['k'],e.get('name'),e.get('span'),show(e['item']) if 'item' in e else '') for e in evs][:3])
