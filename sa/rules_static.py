"""G11: facts of the compiled crates as a whole (C19, C21): which crates are linked, uses of unsafe,
statics, and calls out of the pure part of the standard library."""
import json
import os
import re
import shutil
import tempfile
from cx import *

SETS = ((), ('derive',), ('primitive-types',), ('derive', 'primitive-types'))
# what `derive` of the standard traits writes with an `unsafe impl`, on this compiler
DERIVED_UNSAFE = re.compile(r'^unsafe impl <[\w:<>, \']+ as core::clone::TrivialClone>$')
NOSTD = ('std', 'test', 'proc_macro')
# parts of std (and core) whose results depend on something else than their arguments
AMBIENT = re.compile(r'^(std::(env|time|fs|io|net|process|thread|os|sync|backtrace|hash::random|collections::hash|random)\b|core::fmt::Pointer|core::fmt::rt::Argument(::<[^>]*>)?::new_pointer|core::ptr::\w+::<impl [^>]*>::(addr|expose_provenance)$|core::random\b|core::arch\b)')


def feature_facts(crate, target):
    """{feature set: (log, ok, facts of scale_decode or None, facts of the client or None)}"""
    import check
    drv = check.build_driver()
    out = {}
    for fs in SETS:
        d = tempfile.mkdtemp(prefix='features-')
        try:
            log, ok = check.cargo_facts(drv, crate, target, d, 'scale_decode,features', ['--no-default-features', '--features', ' '.join(fs)], light=True)
            js = []
            for n in ('scale_decode', 'features'):
                p = os.path.join(d, n + '.json')
                js.append(json.load(open(p)) if os.path.exists(p) else None)
            out[fs] = (log, ok, js[0], js[1])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return out


def unsafe_of(j):
    return [u for u in j['unsafe'] if not DERIVED_UNSAFE.match(u)]


def g_features(cx):
    rep = cx.rep
    if not os.path.isdir(cx.features):
        raise Incomplete('no feature crate')
    res = feature_facts(cx.features, cx.feature_target)
    for fs, (log, ok, lib, client) in res.items():
        n = 'features {%s}' % ', '.join(fs)
        if not (lib and client and ok) and ' --> ' not in log and re.search(r'os error \d|failed to write|No space left', log):
            raise Incomplete('the build broke off: %s' % log[-300:])
        err = '\n'.join(l for l in log.splitlines() if 'error' in l)[:300]
        rep.ob('C19', 'feature-set-builds', n + ': library', lib is not None, lambda: 'does not build: %s' % (err or log[-500:]), 'scale-decode')
        if lib is None:
            continue
        rep.ob('C19', 'feature-set-provides', n + ': client', ok and client is not None, lambda: 'a no_std client of this feature set does not build: %s' % log[-1500:], 'features/src/lib.rs')
        rep.ob('C19', 'no-std-in-crate-graph', n, not set(lib['crates']) & set(NOSTD), lambda: 'links %s' % (set(lib['crates']) & set(NOSTD)), 'scale-decode')
        rep.ob('C19', 'no-unsafe', n, not unsafe_of(lib), lambda: '; '.join(unsafe_of(lib)[:5]), 'scale-decode')
        if client:
            rep.ob('C19', 'no-std-in-client', n, not set(client['crates']) & set(NOSTD), lambda: 'a no_std client links %s' % (set(client['crates']) & set(NOSTD)), 'features/src/lib.rs')
            rep.ob('C19', 'no-unsafe-generated', n, not unsafe_of(client), lambda: '; '.join(unsafe_of(client)[:5]), 'features/src/lib.rs')
        rep.count('feature sets')


def g_static(cx):
    rep = cx.rep
    D = {'scale_decode': json.load(open(cx.facts + '/scale_decode.json'))}
    if cx.corpus_ok:
        D['corpus'] = json.load(open(cx.facts + '/corpus.json'))
    for crate, j in D.items():
        what = 'the library' if crate == 'scale_decode' else 'derived code'
        rep.ob('C19', 'no-std-in-crate-graph', what, not set(j['crates']) & set(NOSTD), lambda: 'links %s' % (set(j['crates']) & set(NOSTD)), crate)
        rep.ob('C19', 'no-unsafe', what, not unsafe_of(j), lambda: '; '.join(unsafe_of(j)[:5]), crate)
        cells = [s for s in j['statics'] if s['mut'] or mutable_inside(s['ty'])]
        rep.ob('C21', 'no-mutable-statics', what, not cells, lambda: '; '.join('%s: %s' % (s['path'], s['ty']) for s in cells[:5]), crate)
        for a in j['adts']:
            if not a['pub'] or '::_::' in a['path'] or a['path'].startswith('_::'):
                continue
            if crate == 'corpus':
                continue
            bad = [f for f in a['fields'] if not f[3] and mutable_inside(f[1])]
            rep.ob('C21', 'no-interior-mutability', a['path'], not bad, lambda: 'field %s: %s' % (bad[0][0], bad[0][1]), a['path'])
    amb = {}
    addr = {}
    n = 0
    for b in cx.p.bodies.values():
        if b['crate'] not in ('scale_decode', 'corpus'):
            continue
        n += 1
        amb.setdefault(b['npath'], [])
        for blk in b['blocks']:
            if not blk:
                continue
            t = blk[1]
            if t[0] == 'call':
                f = t[1].get('c', {}).get('fn')
                if f and AMBIENT.match(f['path']):
                    amb[b['npath']].append('calls %s at %s' % (f['path'], t[7]))
            for s in blk[0]:
                if s[0] == '=' and s[2][0] == 'cast' and 'ExposeProvenance' in str(s[2][1]) and not only_subtracted(b, s[1]):
                    amb[b['npath']].append('an address is turned into a number at %s' % b['span'])
    for k, v in sorted(amb.items()):
        rep.ob('C21', 'no-ambient-input', k, not v, lambda: '; '.join(v[:3]), k)
    rep.count('bodies scanned for ambient inputs', n)


CELL = re.compile(r'\b(core|std|alloc)::(cell::\w*Cell\w*|sync::(atomic::\w+|Mutex|RwLock|OnceLock|LazyLock|Once)|cell::UnsafeCell)\b|\bspin::|\bonce_cell::')


def mutable_inside(ty):
    ty = re.sub(r'PhantomData<[^<>]*>', '', ty)
    return bool(CELL.search(ty))


def only_subtracted(b, place):
    """The number is only used to take the difference of two addresses."""
    if place[1]:
        return False
    l = place[0]
    uses = 0
    for blk in b['blocks']:
        if not blk:
            continue
        for s in blk[0]:
            if s[0] != '=':
                continue
            rv = s[2]
            if mentions(rv, l):
                uses += 1
                if not (rv[0] == 'bin' and str(rv[1]).startswith('Sub')):
                    return False
        if mentions(blk[1], l):
            return False
    return uses > 0


def mentions(x, l):
    if isinstance(x, dict):
        if 'p' in x and isinstance(x['p'], list) and x['p'] and x['p'][0] == l:
            return True
        return any(mentions(v, l) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(mentions(v, l) for v in x)
    return False
