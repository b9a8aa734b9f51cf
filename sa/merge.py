"""Joins the facts of a client crate to those of the library: indices are shifted, and names of
library items are spelled by their place of definition."""
import json
import re

TOKEN = re.compile(r'scale_decode((?:::[A-Za-z_]\w*)+)')


def canon_table(base):
    """Last path segment -> the one definition with that name in the library."""
    names = {}

    def note(p):
        p = p.split('<')[0].rstrip(':')
        if not p or p.startswith('scale_decode::') is False and '::' not in p and not p[:1].isalpha():
            return
        names.setdefault(p.split('::')[-1], set()).add(p)
    for a in base['adts']:
        note(a['path'])
    for i in base['impls']:
        pass
    for b in base['bodies']:
        for blk in b['blocks']:
            if blk and blk[1][0] == 'call':
                f = blk[1][1].get('c', {}).get('fn')
                if f and f.get('crate') == 'scale_decode' and f.get('trait'):
                    note(f['trait'])
    for r in base['roots']:
        p = r['path']
        if '<' not in p and 'impl_trait' not in r:
            if r.get('trait_default'):
                note(r['trait_default'])
            note(p)
    for i in base['impls']:
        if '::' in i['trait'] and not re.match(r'(core|std|alloc|scale_type_resolver|parity|smallvec)::', i['trait']):
            note(i['trait'])
    return {k: next(iter(v)) for k, v in names.items() if len(v) == 1}


def rename(s, table):
    def sub(m):
        segs = m.group(1)[2:].split('::')
        for n in range(len(segs), 0, -1):
            c = table.get(segs[n - 1])
            if c is not None:
                rest = segs[n:]
                return '::'.join(['scale_decode', c] + rest)
        return m.group(0)
    return TOKEN.sub(sub, s)


def load(base, extra_text):
    """base: parsed facts of the library (changed in place); extra_text: facts of the client."""
    table = canon_table(base)
    d = json.loads(rename(extra_text, table))
    nt, nb = len(base['types']), max(b['id'] for b in base['bodies']) + 1

    def ty(i):
        return i + nt if isinstance(i, int) and not isinstance(i, bool) else i

    def bo(i):
        return i + nb if isinstance(i, int) and not isinstance(i, bool) else i

    def fnd(f):
        f['args'] = [ty(a) for a in f['args']]
        if 'rargs' in f:
            f['rargs'] = [ty(a) for a in f['rargs']]
        if 'inst' in f:
            f['inst'] = bo(f['inst'])
        for it in f.get('iters', []):
            it['ty'] = ty(it['ty'])
            for k in ('next', 'call'):
                if k in it:
                    it[k] = bo(it[k])

    def place(p):
        for e in p[1]:
            if isinstance(e, list) and e[0] == 'f':
                e[2] = ty(e[2])

    def const(c):
        c['ty'] = ty(c['ty'])
        if 'fn' in c:
            fnd(c['fn'])
        if 'promoted' in c:
            c['promoted'] = bo(c['promoted'])

    def oper(o):
        if 'p' in o:
            place(o['p'])
        elif 'c' in o:
            const(o['c'])

    def rval(rv):
        k = rv[0]
        if k in ('use', 'repeat'):
            oper(rv[1])
        elif k in ('ref', 'ptr'):
            place(rv[2])
        elif k == 'cast':
            oper(rv[2])
            rv[3] = ty(rv[3])
            if rv[4]:
                fnd(rv[4])
        elif k == 'bin':
            oper(rv[2])
            oper(rv[3])
        elif k == 'un':
            oper(rv[2])
        elif k == 'discr':
            place(rv[1])
        elif k == 'agg':
            kd = rv[1]
            for x in ('ty', 'elem'):
                if x in kd:
                    kd[x] = ty(kd[x])
            if 'inst' in kd:
                kd['inst'] = bo(kd['inst'])
            for o in rv[2]:
                oper(o)

    for t in d['types']:
        k = t['k']
        if k in ('ref', 'ptr'):
            t['to'] = ty(t['to'])
        if k in ('array', 'slice'):
            t['elem'] = ty(t['elem'])
        if k == 'tuple':
            t['fields'] = [ty(x) for x in t['fields']]
        if k == 'closure':
            t['upvars'] = [ty(x) for x in t['upvars']]
        if k in ('fndef', 'adt'):
            t['args'] = [ty(x) for x in t['args']]
        for v in t.get('variants', []):
            for f in v['fields']:
                f[1] = ty(f[1])
    for a in d['adts']:
        a['ty'] = ty(a['ty'])
    for r in d['roots']:
        r['id'] = bo(r['id'])
        r['ins'] = [ty(x) for x in r['ins']]
        r['out'] = ty(r['out'])
        if 'self_ty' in r:
            r['self_ty'] = ty(r['self_ty'])
    for i in d['impls']:
        i['self'] = ty(i['self'])
        for m in i['methods']:
            m['id'] = bo(m['id'])
        for a in i['types']:
            a[1] = ty(a[1])
    for b in d['bodies']:
        b['id'] = bo(b['id'])
        b['args'] = [ty(x) for x in b['args']]
        b['locals'] = [ty(x) for x in b['locals']]
        for n in b['dbg']:
            place(n[1])
        for blk in b['blocks']:
            if not blk:
                continue
            for s in blk[0]:
                if s[0] == '=':
                    place(s[1])
                    rval(s[2])
                elif s[0] == 'sd':
                    place(s[1])
                elif s[0] == 'assume':
                    oper(s[1])
            t = blk[1]
            k = t[0]
            if k == 'switch':
                oper(t[1])
                t[4] = ty(t[4])
            elif k == 'drop':
                place(t[1])
                t[3] = ty(t[3])
            elif k == 'call':
                oper(t[1])
                for o in t[2]:
                    oper(o)
                place(t[3])
                t[5] = ty(t[5])
                t[6] = [ty(x) for x in t[6]]
            elif k == 'assert':
                oper(t[1])
                for o in t[4]:
                    oper(o)
    for k in ('types', 'bodies', 'roots', 'impls', 'adts'):
        if k in ('roots', 'impls', 'adts'):
            for x in d[k]:
                x['crate'] = d['crate']
        base[k] = base[k] + d[k]
    return d
