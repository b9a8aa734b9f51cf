import sys; sys.path.insert(0,'/verif/sa')
import witness as W
t='/tmp/ftarget'
for p in sys.argv[1:]:
    r=W.run_all({p:(p,t,[('renamed' if 'options_path' in p else 'scale_decode',W.lib(t,'scale_decode'))])})[p]
    print(p,len(r.items),'items')
    for k,v in r.bad.items(): print('BAD',k,[(d['code'],d['message'][:100],d['lines']) for d in v][:3])
    for d in r.loose[:3]: print('LOOSE',d['code'],d['message'][:300])
    for k,v in r.expected_items().items():
        for l,c,m in v:
            if not m: print('NOT REJECTED',k,l,c)
