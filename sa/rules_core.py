"""G1: running a visitor against a resolved type.  G2: what happens for each kind of source type."""
from cx import *

HOOKS = 'unchecked_decode_as_type'

# ResolvedTypeVisitor method -> the Visitor callback for that kind, whether a compact declaration may
# reach it, and whether the callback is handed a container.
KINDS = {
    'visit_composite': ('visit_composite', True, 'Composite'),
    'visit_variant': ('visit_variant', False, 'Variant'),
    'visit_sequence': ('visit_sequence', False, 'Sequence'),
    'visit_array': ('visit_array', False, 'Array'),
    'visit_tuple': ('visit_tuple', True, 'Tuple'),
    'visit_bit_sequence': ('visit_bitsequence', False, 'BitSequence'),
}
PRIMS = {
    'Bool': ('visit_bool', False, 'bool', 1), 'Char': ('visit_char', False, 'u32', 4), 'Str': ('visit_str', False, None, None),
    'U8': ('visit_u8', True, 'u8', 1), 'U16': ('visit_u16', True, 'u16', 2), 'U32': ('visit_u32', True, 'u32', 4),
    'U64': ('visit_u64', True, 'u64', 8), 'U128': ('visit_u128', True, 'u128', 16), 'U256': ('visit_u256', False, None, 32),
    'I8': ('visit_i8', False, 'i8', 1), 'I16': ('visit_i16', False, 'i16', 2), 'I32': ('visit_i32', False, 'i32', 4),
    'I64': ('visit_i64', False, 'i64', 8), 'I128': ('visit_i128', False, 'i128', 16), 'I256': ('visit_i256', False, None, 32),
}
COMPACT_REFUSAL = 'CannotDecodeCompactIntoType'
EVENTS = ('hook', 'resolve', 'visit', 'core', 'decode', 'bits')


def param_named(b, roles):
    inv = {v: k for k, v in roles.items()}
    return [inv.get(i, 'p%d' % i) for i in range(b['argc'])]


def capture(cx):
    """Interpret every CORE function once; remember what it hands to the resolver."""
    if 'captured' in cx.cache:
        return cx.cache['captured']
    S = cx.sem
    out = []
    for r in cx.p.roots:
        if r['npath'] not in S.core_paths or r['crate'] != 'scale_decode':
            continue
        b = cx.p.bodies[r['id']]
        roles = S.core_roles(b)
        for need in ('data', 'tid', 'types', 'visitor'):
            if need not in roles:
                raise Missing('parameter %s of %s' % (need, b['npath']))
        names = param_named(b, roles)
        S.core_off.add(b['npath'])
        S.capture_resolve = []
        try:
            st = St()
            args = [cx.e.param(n, b['locals'][i + 1]) for i, n in enumerate(names)]
            outs = cx.run(st, r['id'], args)
        finally:
            cap, S.capture_resolve = S.capture_resolve, None
            S.core_off.clear()
        out.append((r, b, roles, names, outs, cap))
    if not out:
        raise Missing('a function that runs a visitor against a resolved type')
    cx.cache['captured'] = out
    return out


def entry_slice(cx, st):
    v = cx.e.load_ref(st, ('param', 'data'))
    return v if v[0] == 'sl' else whole(v)


def g_core(cx):
    rep = cx.rep
    with rep.unit('C22 C23 C05 C02 C01', 'core'):
        for r, b, roles, names, outs, cap in capture(cx):
            anchor = 'decode of a value by visitor'
            wh = cx.where(r['id'])
            pdata = whole(('deref', ('param', 'data')))
            rep.count('core functions')
            seen = set()
            for st, v in outs:
                rep.count('paths')
                evs = cx.trace(st, *EVENTS)
                hooks = [x for x in evs if x['k'] == 'hook']
                note = cx.path_note(st)
                rep.ob('C22', 'hook-asked-once-and-first', anchor, len(hooks) == 1 and evs[0]['k'] == 'hook',
                       lambda: 'the visitor\'s own decode hook is called %d times / not before anything else on the path [%s]' % (len(hooks), note), wh)
                if len(hooks) != 1 or evs[0]['k'] != 'hook':
                    continue
                h = hooks[0]
                a = h['dargs']
                rep.ob('C22', 'hook-sees-untouched-input', anchor, h['at'] == pdata, lambda: 'the hook is given %s instead of the untouched input' % show(h['at']), wh)
                rep.ob('C22', 'hook-arguments', anchor, a[0] == ('param', 'visitor') and a[2] == ('param', 'tid') and a[3] == ('param', 'types'),
                       lambda: 'the hook is called with (%s)' % ', '.join(show(x) for x in a), wh)
                if 'compact' in roles:
                    rep.ob('C05 C22', 'hook-told-compactness', anchor, len(a) < 5 or a[4] == ('param', 'compact'), lambda: 'compact flag passed to the hook is %s' % show(a[4]), wh)
                    rep.ob('C05', 'hook-that-knows-compactness-is-used', anchor, len(a) >= 5, 'the compact flag is not passed to visitors that delegate', wh)
                res = [x for x in evs if x['k'] == 'resolve']
                dv = cx.e.deep(st, v)
                at = entry_slice(cx, st)
                rep.ob('C22 C01' if h['ok'] else 'C22', 'input-left-where-the-hook-or-the-decode-left-it', anchor, same_slice(st, at, h['after']), lambda: 'the input is moved to %s, %s left it at %s [%s]' % (show(at), 'the hook' if not res else 'the decode', show(h['after']), note), wh)
                if h['kind'] == 'Decoded':
                    seen.add('decoded-ok' if h['ok'] else 'decoded-err')
                    rep.ob('C22 C02', 'hook-result-returned-as-is', anchor, len(evs) == 1 and dv == (ok(h['val']) if h['ok'] else err(h['val'])),
                           lambda: 'the hook decoded the value, but the path [%s] returns %s' % (note, show(dv)), wh)
                    continue
                seen.add('skipped')
                rep.ob('C22 C23', 'declined-hook-continues-normally', anchor, len(res) == 1 and len(evs) == 2,
                       lambda: 'after the hook declined the type is resolved %d times [%s]' % (len(res), note), wh)
                if len(res) != 1:
                    continue
                x = res[0]
                rep.ob('C22 C23', 'resolves-the-asked-type', anchor, x['dargs'][0] == ('param', 'types') and x['dargs'][1] == ('param', 'tid'),
                       lambda: 'resolve_type(%s)' % ', '.join(show(y, 4) for y in x['dargs']), wh)
                seen.add(x['ans'])
                if x['ans'] == 'value':
                    rep.ob('C02 C01', 'decoded-value-returned-as-is', anchor, dv == cx.e.deep(st, x['val']), lambda: 'a decoded value comes back as %s' % show(dv), wh)
                elif x['ans'] == 'error':
                    rep.ob('C02', 'visitor-error-returned-as-is', anchor, dv == cx.e.deep(st, x['val']), lambda: 'an error of the decode comes back as %s' % show(dv), wh)
                elif x['ans'] == 'failed':
                    de = None
                    if dv[0] == 'agg' and dv[1] == RES and dv[2] == 1:
                        de = cx.decode_error(st, dv[3][0])
                    rep.ob('C23 C02', 'resolver-failure-is-a-type-resolving-error', anchor, de is not None and de[0] == 'TypeResolvingError' and cx.says(de[1][0], x['val']),
                           lambda: 'a failure of the type resolver comes back as %s' % show(dv), wh)
            for st, args, f, t in cap:
                hs = cx.trace(st, 'hook')
                if hs:
                    at = entry_slice(cx, st)
                    rep.ob('C22 C01', 'goes-on-where-the-hook-left-the-input', anchor, same_slice(st, at, hs[-1]['after']), lambda: 'after the hook declined decoding goes on at %s, the hook left the input at %s' % (show(at), show(hs[-1]['after'])), wh)
            for need in ('decoded-ok', 'decoded-err', 'skipped', 'value', 'error', 'failed'):
                rep.ob('C22 C23', 'case-present', '%s: %s' % (anchor, need), need in seen, 'the case "%s" no longer exists' % need, wh)


def rtv_methods(cx):
    """[(captured state, decoder value, visitor', method name, body id, variant name, extra args)]"""
    out = []
    for r, b, roles, names, outs, cap in capture(cx):
        for st, args, f, t in cap:
            dec = args[2]
            d = dec if dec[0] == 'agg' else None
            if d is None:
                raise Missing('the decoder handed to the type resolver')
            imp = [i for i in cx.p.impls if norm(i['trait']) == SEM.RTV and norm(cx.p.types[i['self']]['path'] or '') == d[1] and i['crate'] == 'scale_decode'] if True else []
            if not imp:
                raise Missing('impl of ResolvedTypeVisitor for %s' % d[1])
            for m in imp[0]['methods']:
                bb = cx.p.bodies.get(m['id'])
                if bb is None:
                    raise Missing('body of %s' % m['name'])
                if m['name'] == 'visit_primitive':
                    pt = cx.p.types[bb['locals'][2]]
                    for i, v in enumerate(pt['variants']):
                        out.append((st, dec, m['name'], m['id'], v['name'], [('agg', norm(pt['path']), i, ())]))
                else:
                    out.append((st, dec, m['name'], m['id'], None, [cx.e.param('p%d' % i, bb['locals'][i + 1]) for i in range(1, bb['argc'])]))
        break
    return out


def run_kinds(cx):
    """Outcomes and container snapshots for each kind of source type."""
    if 'kinds' in cx.cache:
        return cx.cache['kinds']
    out = []
    S = cx.sem
    for st, dec, name, bid, prim, extra in rtv_methods(cx):
        S.snaps = []
        key = prim or name
        try:
            outs = cx.run(st.copy(), bid, [dec] + extra)
            out.append({'kind': key, 'name': name, 'prim': prim, 'bid': bid, 'st': st, 'outs': outs, 'snaps': S.snaps, 'extra': extra, 'err': None})
        except (Incomplete, Infeasible) as x:
            out.append({'kind': key, 'name': name, 'prim': prim, 'bid': bid, 'st': st, 'outs': [], 'snaps': [], 'extra': extra, 'err': x})
    cx.cache['kinds'] = out
    return out


def adt_named(cx, short):
    for a in cx.sem.methods:
        if a.split('::')[-1] == short:
            return a
    raise Missing('public type %s' % short)


def observe(cx, st, short, name, ref, extra=()):
    """Outcomes of a public observer of a container, on a copy of the state."""
    adt = adt_named(cx, short)
    ms = cx.sem.roots_named(adt, name)
    ms = [m for m in ms if m['trait'] is None] or ms
    if not ms:
        raise Missing('%s::%s' % (short, name))
    return cx.run(st.copy(), ms[0]['id'], [ref] + list(extra))


def observe1(cx, st, short, name, ref, extra=()):
    o = observe(cx, st, short, name, ref, extra)
    if not o:
        raise Incomplete('%s::%s has no outcome' % (short, name))
    return o


def same_slice(st, a, b):
    if a[0] != 'sl' or b[0] != 'sl' or a[1] != b[1]:
        return False
    return st.eq(a[2], b[2]) and st.eq(a[3], b[3])


def known_compact(cx, st):
    return st.bool_value(('param', 'compact'))


def err_payload(dv):
    if dv[0] == 'agg' and dv[1] == RES and dv[2] == 1:
        return dv[3][0]
    return None


def is_ok(dv):
    return dv[0] == 'agg' and dv[1] == RES and dv[2] == 0


def why_refused(cx, st, dv, entry, kind):
    """Is an error that no callback or item produced one the source itself justifies?"""
    x = err_payload(dv)
    de = cx.decode_error(st, x) if x is not None else None
    if de is None:
        return False, 'the error %s' % show(dv)
    n, fs = de
    if n == COMPACT_REFUSAL:
        return None, n
    if n == 'CodecError':
        for ev in st.trace:
            if ev['k'] == 'decode' and not ev['ok'] and cx.contains(fs[0], ev['err']):
                return True, n
        for y in subterms(fs[0]):
            if y and y[0] == 'app' and y[1] == 'codec_error':
                return True, n
        # a codec error made by hand: a length that does not fit into usize
        return kind == 'visit_sequence' and too_long(cx, st), n
    if n == 'NotEnoughInput':
        return cut_off(cx, st, entry, kind), n
    if n == 'InvalidChar':
        v = fs[0]
        return kind == 'Char' and st.disc.get(('ischar', v)) == 0, n
    if n == 'VariantNotFound':
        return kind == 'visit_variant' and searched_all(cx, st, entry) and fs[0] == cx.e.elem(entry[1], entry[2], None), n
    if n == 'InvalidStr':
        return kind == 'Str', n
    if n == 'TypeIdNotFound':
        return kind in ('visit_not_found', 'visit_unhandled'), n
    return False, n


def cut_off(cx, st, entry, kind):
    """Is it impossible, on this path, that the input holds what the kind's own prefix or width asks for?"""
    if any(cx.failing(ev) for ev in st.trace):
        return True
    if kind == 'visit_variant':
        need = [ONE]
    elif kind in ('U256', 'I256'):
        need = [I(32)]
    elif kind == 'Str':
        ds = [ev for ev in st.trace if ev['k'] == 'decode' and ev['ok']]
        d = ('fld', ('dec', ('s', 'Compact:u32'), entry[1], entry[2]), None, 0)
        need = [add(d, ('app', 'compact_len', d))] if ds else [ONE]
    elif kind == 'visit_bit_sequence':
        need = [y for c, m in st.facts for y in subterms(unlin(c, m)) if y and y[0] == 'app' and y[1] == 'encoded_size']
    else:
        return False
    return any(not possible_ge(st, sub(entry[3], n)) for n in need)


def too_long(cx, st):
    """Is a length that was read known not to fit into usize?"""
    for ev in st.trace:
        if ev['k'] == 'decode' and ev['ok']:
            for y in [y for c, m in st.facts for y in subterms(unlin(c, m)) if y and y[0] == 'fld' and y[1][0] == 'dec' and y[1][1] == ('s', 'Compact:u64')]:
                if not possible_ge(st, sub(I(INT_RANGE['usize'][1]), y)):
                    return True
    return False


def searched_all(cx, st, entry):
    """Every variant was looked at, and each one passed over has an index other than the index byte."""
    nf = [ev for ev in st.trace if ev['k'] == 'notfound']
    byte = cx.e.elem(entry[1], entry[2], None)
    for ev in nf:
        if all(any(a != byte and a[0] == 'fld' and any(x == item for x in subterms(a)) and not possible_same(z, a, byte) for a in list(ATOM_ID)) for z, item in ev['miss']):
            return True
    return False


def possible_same(st, a, b):
    z = st.copy()
    try:
        z.assume_eq(a, b)
    except Infeasible:
        return False
    return True


def g_kinds(cx):
    rep = cx.rep
    with rep.unit('C01 C02 C05 C06 C23 C24', 'kinds'):
        ks = run_kinds(cx)
        names = set()
        for k in ks:
            names.add(k['kind'])
            with rep.unit('C01 C02 C05 C06 C22 C23 C24', 'kind %s' % k['kind']):
                if k['err'] is not None:
                    raise k['err']
                one_kind(cx, k)
        for need in list(KINDS) + list(PRIMS) + ['visit_compact', 'visit_not_found', 'visit_unhandled']:
            rep.ob('C06', 'kind-handled', need, need in names, 'kind %s is not handled' % need)


def one_kind(cx, k):
    rep = cx.rep
    kind, name = k['kind'], k['name']
    wh = cx.where(k['bid'])
    st0 = k['st']
    entry = entry_slice(cx, st0)
    hook = cx.trace(st0, 'hook')[-1]
    rep.count('kinds')
    if name in ('visit_not_found', 'visit_unhandled'):
        for st, v in k['outs']:
            rep.count('paths')
            dv = cx.e.deep(st, v)
            x = err_payload(dv)
            de = cx.decode_error(st, x) if x is not None else None
            evs = cx.trace(st, 'visit', 'core', 'decode', 'resolve', 'before_visit')
            good = de is not None and de[0] == 'TypeIdNotFound' and cx.says(de[1][0], ('param', 'tid'))
            if name == 'visit_unhandled':
                good = good and cx.says(de[1][0], k['extra'][0])
            rep.ob('C23', 'unresolvable-type-is-an-error-naming-it', kind, good and not evs, lambda: 'gives %s' % show(dv), wh)
            rep.ob('C02 C07', 'unresolvable-type-is-an-error', kind, x is not None and not evs, lambda: 'gives %s' % show(dv), wh)
        return
    if name == 'visit_compact':
        for st, v in k['outs']:
            rep.count('paths')
            dv = cx.e.deep(st, v)
            evs = cx.trace(st, 'visit', 'core', 'decode', 'resolve', 'before_visit')
            c = evs[0] if len(evs) == 1 and evs[0]['k'] == 'core' else None
            good = c is not None and c['at'] == entry and c['tid'] == k['extra'][0] and c['types'] == ('param', 'types') and c['visitor'] == hook['val'] \
                and c['compact'] is not None and st.bool_value(c['compact']) is True
            rep.ob('C05 C06 C22', 'compact-declaration-is-passed-inwards', kind, good, lambda: 'a compact type does %s' % (c and dict((a, show(b) if isinstance(b, tuple) else b) for a, b in c.items() if a in ('at', 'tid', 'types', 'visitor', 'compact')) or cx.path_note(st)), wh)
            if c:
                rep.ob('C02 C01', 'compact-result-is-inner-result', kind, dv == (ok(c['val']) if c['ok'] else err(c['val'])), lambda: 'gives %s' % show(dv), wh)
                rep.ob('C01', 'input-ends-where-the-value-ends', kind, not c['ok'] or same_slice(st, entry_slice(cx, st), c['after']), lambda: 'the input is left at %s' % show(entry_slice(cx, st)), wh)
        return
    prim = PRIMS.get(kind)
    if prim:
        cb, compactable, reads, size = prim
    elif name in KINDS:
        cb, compactable, cont = KINDS[name]
    else:
        # a kind the library did not know when these rules were written
        raise Missing('rule for kind %s' % kind)
    cont = {'Str': 'Str'}.get(kind) if prim else KINDS[name][2]
    visited_compact = set()
    for st, v in k['outs']:
        rep.count('paths')
        dv = cx.e.deep(st, v)
        note = cx.path_note(st)
        visits = cx.trace(st, 'visit')
        comp = known_compact(cx, st)
        rep.ob('C06', 'one-callback', kind, len(visits) <= 1, lambda: '%d callbacks on the path [%s]' % (len(visits), note), wh)
        rep.ob('C06 C22', 'no-second-lookup', kind, not cx.trace(st, 'resolve') and len(cx.trace(st, 'hook')) == 1, lambda: 'path [%s]' % note, wh)
        x = err_payload(dv)
        fails = [ev for ev in st.trace if cx.failing(ev)]
        verr = [ev for ev in fails if ev['k'] == 'visit']
        # C02
        if verr:
            rep.ob('C02', 'visitor-error-wins', kind, x is not None and x == cx.e.deep(st, verr[0]['val']), lambda: 'the visitor failed with %s but the decode gives %s [%s]' % (show(verr[0]['val']), show(dv), note), wh)
        elif fails:
            first = fails[0]
            term = first.get('err', first.get('val'))
            rep.ob('C02', 'failure-surfaces', kind, x is not None and cx.contains(x, term), lambda: '%s failed with %s but the decode gives %s' % (first['k'], show(term), show(dv)), wh)
        elif visits and x is not None:
            # an error without any failing step after a successful visit: only from finding the end
            okk, n = why_refused(cx, st, dv, entry, kind)
            rep.ob('C02', 'no-invented-error', kind, bool(okk), lambda: 'a successful visit ends in %s' % show(dv), wh)
        if is_ok(dv):
            rep.ob('C02 C06', 'success-is-the-visitors-value', kind, len(visits) == 1 and visits[0]['ok'] and dv == ok(cx.e.deep(st, visits[0]['val'])),
                   lambda: 'the decode succeeds with %s on the path [%s]' % (show(dv), note), wh)
        # C05
        if not visits:
            okk, n = why_refused(cx, st, dv, entry, kind)
            if n == COMPACT_REFUSAL:
                if compactable and not prim:
                    cnt = source_count(cx, st, k)
                    one = st.eq(cnt, ONE)
                    okk = comp is True and (not st.nonneg(sub(cnt, ONE)) or not st.nonneg(sub(ONE, cnt))) and not one
                else:
                    okk = comp is True
                early = not cx.trace(st, 'decode', 'core', 'bits', 'before_visit')
                rep.ob('C05', 'compact-refused-before-reading', kind, okk and early and not compactable_prim(prim), lambda: 'refused although compact=%s on the path [%s]' % (comp, note), wh)
            else:
                rep.ob('C06 C23', 'refusal-has-a-cause', kind, bool(okk), lambda: 'refused with %s on the path [%s]' % (show(dv), note), wh)
            if is_ok(dv):
                rep.ob('C06 C23', 'no-success-without-callback', kind, False, lambda: 'succeeds with %s without a callback [%s]' % (show(dv), note), wh)
            continue
        ev = visits[0]
        cm = comp
        visited_compact.add(cm)
        if not compactable:
            rep.ob('C05', 'compact-refused', kind, cm is False, lambda: '%s is reached under a compact declaration' % ev['name'], wh)
        elif not prim:
            cnt = source_count(cx, st, k)
            rep.ob('C05', 'compact-only-with-one-field', kind, cm is False or st.eq(cnt, ONE), lambda: '%s is reached under a compact declaration with %s fields' % (ev['name'], show(cnt)), wh)
        # C06
        rep.ob('C06', 'right-callback', kind, ev['name'] == cb, lambda: 'kind %s is reported by %s' % (kind, ev['name']), wh)
        rep.ob('C22 C06', 'callback-on-the-visitor-handed-back', kind, ev['dargs'][0] == hook['val'], lambda: 'callback on %s' % show(ev['dargs'][0]), wh)
        rep.ob('C06', 'type-id-asked-for', kind, ev['dargs'][-1] == ('param', 'tid'), lambda: 'callback is given the type id %s' % show(ev['dargs'][-1]), wh)
        data = entry_slice(cx, st)
        if cont:
            container_rules(cx, k, st, dv, ev, entry, data, cont, kind, wh, note)
            continue
        val = ev['dargs'][1]
        while val[0] == '&':
            val = val[1]
        if kind == 'Char':
            want = [('app', 'char', ('dec', ('s', 'u32'), entry[1], entry[2]))]
        elif kind in ('U256', 'I256'):
            want = [('app', 'chunk', sl(entry[1], entry[2], I(32)))]
        elif cm is True:
            d = ('dec', ('s', 'Compact:' + reads), entry[1], entry[2])
            want = [('fld', d, None, 0)]
        else:
            want = [('dec', ('s', reads), entry[1], entry[2])]
        rep.ob('C06 C05', 'value-read-in-its-own-format', kind, val in want, lambda: 'compact=%s: the callback is given %s, expected %s' % (cm, show(val), show(want[0])), wh)
        rep.ob('C05', 'compactness-decided', kind, cm is not None or not compactable, lambda: 'the value is read without looking at the compact flag', wh)
        if kind == 'Char':
            rep.ob('C17 C06', 'only-scalar-values', kind, st.disc.get(('ischar', ('dec', ('s', 'u32'), entry[1], entry[2]))) == 1, 'the value handed on is not checked to be a Unicode scalar value', wh)
        if is_ok(dv):
            d = sub(data[2], entry[2])
            if cm is True and reads:
                good = d == ('app', 'compact_len', want[0])
            else:
                good = d == I(size)
            good = good and data[1] == entry[1] and st.eq(add(data[2], data[3]), add(entry[2], entry[3]))
            rep.ob('C01 C06', 'input-ends-where-the-value-ends', kind, good, lambda: 'the input is left at %s, expected %s bytes further than %s' % (show(data), size, show(entry)), wh)
    want = {True, False} if compactable else {False}
    got = {c for c in visited_compact}
    rep.ob('C05 C06', 'callback-reachable', kind, want <= got or (None in got and not prim), lambda: 'no path reaches %s for compact in %s' % (cb, sorted(want - got)), wh)


def compactable_prim(prim):
    return bool(prim and prim[1])


def source_count(cx, st, k):
    """Number of fields the source type declares, as a term."""
    p = k['extra'][1] if k['name'] == 'visit_composite' else k['extra'][0]
    t = ('len', ('items', p))
    atom(t)
    return t


def container_rules(cx, k, st, dv, ev, entry, data, cont, kind, wh, note):
    rep = cx.rep
    ref = ev['args'][1]
    # every state in which the visitor is handed such a container, each judged once
    snaps = [s for s in k['snaps'] if s['ref'] == ref and s['name'] == ev['name']]
    if not snaps:
        raise Incomplete('no snapshot for %s' % ev['name'])
    for s in snaps:
        if not s.get('judged'):
            s['judged'] = True
            given_rules(cx, k, s['before'], ref, entry, cont, kind, wh)
    if cont in ('Str', 'BitSequence'):
        if not is_ok(dv):
            return
        n = 0
        for s2, w in observe(cx, st, cont, 'bytes_after', ref):
            for s3, c, x in cx.results(s2, w):
                if c == 0:
                    n += 1
                    rep.ob('C01 C17 C24' if cont == 'Str' else 'C01 C24', 'input-ends-where-the-value-ends', kind, same_slice(s3, data, x), lambda: 'the input is left at %s but the value ends at %s' % (show(data), show(x)), wh)
        rep.ob('C01', 'end-known', kind, n > 0, 'success although the end of the value is unknown', wh)
        if cont == 'BitSequence':
            fmt = ('app', 'bitformat', k['extra'][0], k['extra'][1])
            es = [t for t in subterms(data) if t and t[0] == 'app' and t[1] == 'encoded_size']
            good = any(t[2] == ('app', 'bitdecoder', entry, fmt) for t in es) and sub(data[2], entry[2]) in es
            rep.ob('C24 C01', 'end-is-that-of-the-declared-format', kind, good, lambda: 'the input is left at %s' % show(data), wh)
        else:
            ln = ('fld', ('dec', ('s', 'Compact:u32'), entry[1], entry[2]), None, 0)
            ln2 = ('fld', ('dec', ('s', 'Compact:u64'), entry[1], entry[2]), None, 0)
            good = sub(data[2], entry[2]) in [add(l, ('app', 'compact_len', l)) for l in (ln, ln2)]
            rep.ob('C01 C06 C17', 'string-is-length-prefixed', kind, good, lambda: 'the input is left at %s' % show(data), wh)
        return
    if not is_ok(dv):
        return
    good = False
    why = ''
    for cand in candidates(cx, st, ref, cont):
        try:
            okall = True
            for s2, w in observe(cx, st, cont, 'bytes_from_undecoded', cand):
                if not same_slice(s2, w, data):
                    okall = False
                    why = 'the input is left at %s, the container ends at %s' % (show(data), show(w))
            for s2, w in remaining(cx, st, cont, cand):
                if not s2.eq(w, ZERO):
                    okall = False
                    why = 'success with %s items not skipped' % show(w)
            if okall:
                good = True
                break
        except (Incomplete, Infeasible):
            continue
    rep.ob('C01', 'input-ends-where-the-value-ends', kind, good, lambda: why + ' [%s]' % note, wh)


def given_rules(cx, k, b, ref, entry, cont, kind, wh):
    """The container handed to the visitor describes the source value."""
    rep = cx.rep
    if cont == 'Str':
        text_rules(cx, b, ref, entry, kind, wh)
    elif cont == 'BitSequence':
        bits_rules(cx, k, b, ref, entry, kind, wh)
    ids = {'Str': 'C06', 'BitSequence': 'C06 C24'}.get(cont, 'C06 C03')
    for s2, w in observe(cx, b, cont, 'bytes_from_start', ref):
        rep.ob(ids, 'container-starts-at-the-value', kind, same_slice(s2, w, entry), lambda: 'starts at %s instead of %s' % (show(w), show(entry)), wh)
    if cont not in ('Str', 'BitSequence'):
        start_rules(cx, k, b, ref, entry, cont, kind, wh)


def bits_rules(cx, k, st, ref, entry, kind, wh):
    """What a bit sequence says about itself is what the bit decoder of the declared format says."""
    rep = cx.rep
    fmt = ('app', 'bitformat', k['extra'][0], k['extra'][1])
    dec = ('app', 'bitdecoder', entry, fmt)
    end = ('app', 'encoded_size', dec)
    rest = sl(entry[1], add(entry[2], end), sub(entry[3], end))
    todo = [('decode', st), ('bytes_after', st)]
    n = 0
    while todo:
        name, z = todo.pop()
        again = z is not st
        for s2, w in observe(cx, z, 'BitSequence', name, ref):
            for s3, c, x in cx.results(s2, w):
                if c == 0:
                    n += 1
                    good = x == dec if name == 'decode' else same_slice(s3, x, rest)
                    rep.ob('C24 C01', 'bits-described-by-their-own-decoder', '%s %s%s' % (kind, name, ' again' if again else ''), good, lambda: '%s() gives %s, expected %s' % (name, show(x), show(dec if name == 'decode' else rest)), wh)
                    if name == 'decode' and not again:
                        todo += [('decode', s3), ('bytes_after', s3)]
                    continue
                de = cx.decode_error(s3, x)
                what = de[0] if de else show(x)
                if what == 'CodecError':
                    good = s3.disc.get(('bitsok', entry, fmt)) == 0 and any(y and y[0] == 'app' and y[1] == 'codec_error' for y in subterms(de[1][0]))
                elif what == 'NotEnoughInput':
                    good = s3.disc.get(('bitsok', entry, fmt)) == 1 and not possible_ge(s3, sub(entry[3], end))
                else:
                    good = False
                rep.ob('C24 C14', 'bits-refused-only-when-malformed', '%s %s%s' % (kind, name, ' again' if again else ''), good, lambda: '%s() refuses with %s' % (name, show(x)), wh)
    rep.ob('C24', 'bits-readable', kind, n > 0, 'bits can not be read', wh)


def text_rules(cx, st, ref, entry, kind, wh):
    """What a string says about itself: the bytes its length prefix delimits, checked."""
    rep = cx.rep
    lens = [('fld', ('dec', ('s', 'Compact:' + c), entry[1], entry[2]), None, 0) for c in ('u32', 'u64')]
    ln = None
    for s2, w in observe(cx, st, 'Str', 'len', ref):
        for x in lens:
            if s2.eq(w, x):
                ln = x
        rep.ob('C17', 'string-length-is-the-prefix', kind, ln is not None, lambda: 'len() is %s' % show(w), wh)
    if ln is None:
        return
    head = ('app', 'compact_len', ln)
    end = add(head, ln)
    for s2, w in observe(cx, st, 'Str', 'is_empty', ref):
        good = empty_when_zero(s2, w, ln)
        rep.ob('C17', 'empty-when-its-length-is-zero', kind, good, lambda: 'is_empty() is %s' % show(w), wh)
    seen = set()
    for s2, w in observe(cx, st, 'Str', 'bytes_after', ref):
        for s3, c, x in cx.results(s2, w):
            if c == 0:
                rep.ob('C17 C01', 'string-ends-after-its-length', kind, same_slice(s3, x, sl(entry[1], add(entry[2], end), sub(entry[3], end))), lambda: 'bytes_after() is %s' % show(x), wh)
            else:
                rep.ob('C17 C14', 'string-end-refused-only-when-cut-off', kind, not possible_ge(s3, sub(entry[3], end)), lambda: 'bytes_after() fails although the string is complete', wh)
    want = sl(entry[1], add(entry[2], head), ln)
    for s2, w in observe(cx, st, 'Str', 'as_str', ref):
        for s3, c, x in cx.results(s2, w):
            if c == 0:
                seen.add('ok')
                rep.ob('C17', 'text-is-exactly-the-delimited-bytes', kind, x[0] == 'sl' and same_slice(s3, x, want), lambda: 'as_str() gives %s, the string occupies %s' % (show(x), show(want)), wh)
                rep.ob('C17', 'text-is-checked-utf8', kind, s3.disc.get(('utf8', x)) == 1, lambda: 'as_str() gives %s without it having been found valid' % show(x), wh)
                continue
            de = cx.decode_error(s3, x)
            n = de[0] if de else show(x)
            if n == 'InvalidStr':
                seen.add('invalid')
                bad = [y for y in subterms(de[1][0]) if y and y[0] == 'app' and y[1] == 'Utf8Error']
                rep.ob('C17', 'text-refused-for-its-own-bytes', kind, len(bad) == 1 and same_slice(s3, bad[0][2], want) and s3.disc.get(('utf8', bad[0][2])) == 0, lambda: 'as_str() refuses with %s' % show(x), wh)
            elif n == 'NotEnoughInput':
                seen.add('short')
                rep.ob('C17', 'text-refused-only-when-cut-off', kind, not possible_ge(s3, sub(entry[3], end)), lambda: 'as_str() says the input ended although the string is complete', wh)
            else:
                rep.ob('C17', 'text-refusal-kind', kind, False, 'as_str() refuses with %s' % n, wh)
    for need in ('ok', 'invalid'):
        rep.ob('C17', 'case-present', '%s text: %s' % (kind, need), need in seen, 'as_str() never gives the case "%s"' % need, wh)


def possible_ge(st, t):
    """Can t be non-negative?"""
    z = st.copy()
    try:
        z.assume_ge0(t)
    except Infeasible:
        return False
    return True


def empty_when_zero(st, w, n):
    z = st.copy()
    try:
        z.assume_bool(w, True)
        if not z.eq(n, ZERO):
            return False
    except Infeasible:
        pass
    z = st.copy()
    try:
        z.assume_bool(w, False)
        return z.nonneg(sub(n, ONE))
    except Infeasible:
        return True


def remaining(cx, st, cont, ref):
    """Outcomes (state, number of items left) of a container."""
    if cont == 'Variant':
        out = []
        for s2, r in observe(cx, st, 'Variant', 'fields', ref):
            out += observe(cx, s2, 'Composite', 'remaining', r)
        return out
    return observe(cx, st, cont, 'remaining', ref)


def candidates(cx, st, ref, cont):
    """The container handed to the visitor, or a copy of it that was made afterwards."""
    yield ref
    adt = adt_named(cx, cont)
    for cell, v in list(st.mem.items()):
        if v and v[0] == 'agg' and v[1] == adt and ('ref', cell, (), None) != ref:
            yield ('ref', cell, (), None)


def start_rules(cx, k, b, ref, entry, cont, kind, wh):
    """What the visitor is handed describes the whole source value."""
    rep = cx.rep
    ex = k['extra']
    for s2, w in remaining(cx, b, cont, ref):
        if cont == 'Composite':
            want = ('len', ('items', ex[1]))
        elif cont == 'Tuple':
            want = ('len', ('items', ex[0]))
        elif cont == 'Array':
            want = ex[1]
        elif cont == 'Sequence':
            want = None
            for c in ('u32', 'u64'):
                d = ('fld', ('dec', ('s', 'Compact:' + c), entry[1], entry[2]), None, 0)
                if w == d:
                    want = d
            want = want or ('none',)
        else:
            want = variant_field_count(cx, b)
        rep.ob('C06 C03', 'container-holds-all-items', kind, w == want or (want[0] != 'none' and isinstance(want, tuple) and len_like(w, want)), lambda: 'the container handed to the visitor holds %s items, expected %s' % (show(w), show(want)), wh)
    for s2, w in observe(cx, b, cont, 'bytes_from_undecoded', ref):
        if cont in ('Composite', 'Tuple', 'Array'):
            good = same_slice(s2, w, entry)
        elif cont == 'Variant':
            good = same_slice(s2, w, sl(entry[1], add(entry[2], ONE), sub(entry[3], ONE)))
        else:
            good = False
            for c in ('u32', 'u64'):
                d = ('fld', ('dec', ('s', 'Compact:' + c), entry[1], entry[2]), None, 0)
                n = ('app', 'compact_len', d)
                if same_slice(s2, w, sl(entry[1], add(entry[2], n), sub(entry[3], n))):
                    good = True
        rep.ob('C06 C01', 'items-start-after-the-prefix', kind, good, lambda: 'items are read from %s' % show(w), wh)
    if cont == 'Variant':
        found = cx.trace(b, 'found')
        for s2, w in observe(cx, b, 'Variant', 'index', ref):
            rep.ob('C06', 'variant-index-is-the-index-byte', kind, s2.eq(w, cx.e.elem(entry[1], entry[2], None)), lambda: 'index() is %s' % show(w), wh)
        rep.ob('C06', 'variant-chosen-by-index', kind, variant_chosen(cx, b, entry, k), lambda: 'the variant is not the one whose declared index equals the index byte', wh)
        for s2, w in observe(cx, b, 'Variant', 'name', ref):
            it = found[-1]['item'] if found else None
            rep.ob('C06', 'variant-own-name', kind, it is not None and part_of(w, it), lambda: 'name() is %s' % show(w), wh)


def part_of(v, item):
    v = v[1] if v[0] == 'sl' else v
    return any(x == item for x in subterms(v))


def len_like(w, want):
    """Length of the items collected from the given iterator."""
    if w == want:
        return True
    for y in subterms(w):
        if y and y[0] == 'len' and want[0] == 'len':
            a = [z for z in subterms(y)]
            src = want[1][1] if want[1][0] == 'items' else want[1]
            if any(z == src for z in a) and (w == y):
                return not any(z and z[0] == 'app' and str(z[1]).split('::')[-1] in ('skip', 'take', 'step_by', 'filter', 'rev', 'chain') for z in a)
    return False


def variant_field_count(cx, b):
    found = cx.trace(b, 'found')
    if not found:
        return ('none',)
    return ('len', ('items', found[-1]['item']))


def variant_chosen(cx, b, entry, k):
    """On the path that visits, the variant's declared index is known to equal the index byte."""
    byte = cx.e.elem(entry[1], entry[2], None)
    for ev in cx.trace(b, 'found'):
        item = ev['item']
        for a in list(ATOM_ID):
            if a == byte:
                continue
            if a[0] == 'fld' and any(x == item for x in subterms(a)) and b.eq(a, byte):
                return True
    return False
