import json,sys
d=json.load(open(sys.argv[1])); T=d['types']
B={b['id']:b for b in d['bodies']}
pat=sys.argv[2]; n=int(sys.argv[3]) if len(sys.argv)>3 else 1
def ty(i): return T[i]['s'].replace('scale_decode::','')
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='v': s+=' as v%d'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if 'p' in o: return ('mv ' if o.get('mv') else '')+pl(o['p'])
    if 'c' in o:
        c=o['c']
        if 'fn' in c: f=c['fn']; return 'fn<%s%s>'%(f['path'],'#%d'%f['inst'] if 'inst' in f else '')
        return str({k:v for k,v in c.items() if k!='ty'})+':'+ty(c['ty'])
    return str(o)
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&%s%s'%('mut ' if r[1] else '',pl(r[2]))
    if k=='agg': return 'agg %s(%s)'%({a:b for a,b in r[1].items() if a!='ty'},', '.join(op(x) for x in r[2]))
    if k=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
    if k=='discr': return 'discr(%s)'%pl(r[1])
    if k=='cast': return 'cast %s %s as %s'%(r[1],op(r[2]),ty(r[3]))
    return str(r)
c=0
for b in d['bodies']:
    if pat==str(b['id']) or pat in b['path']:
        print('=====',b['id'],b['path'],[ty(a) if isinstance(a,int) else a for a in b['args']],b['span'],'argc',b['argc'],'spread',b['spread'])
        for i,t in enumerate(b['locals']): print('  _%d: %s %s'%(i,ty(t),b['names'].get(str(i),'')))
        for i,bl in enumerate(b['blocks']):
            if not bl: continue
            print(' bb%d:'%i)
            for s in bl[0]:
                print('    ',pl(s[1])+' = '+rv(s[2]) if s[0]=='=' else s)
            t=bl[1]
            if t[0]=='call': print('    ',pl(t[3]),'=',op(t[1]),'(',', '.join(op(x) for x in t[2]),') -> bb',t[4],t[7])
            elif t[0]=='switch': print('     switch',op(t[1]),t[2],t[3])
            elif t[0]=='assert': print('     assert',op(t[1]),t[2],t[3],[op(x) for x in t[4]],t[5])
            elif t[0]=='drop': print('     drop',pl(t[1]),t[2])
            else: print('    ',t)
        c+=1
        if c>=n: break
