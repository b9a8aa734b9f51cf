"""G3: containers hand out their items (C03), items stand on their own (C04), views of what is left."""
from cx import *
from rules_core import run_kinds, KINDS, adt_named, observe, remaining, same_slice

CONTAINERS = ('Composite', 'Tuple', 'Array', 'Sequence')
ITEMS = {'Composite': 'CompositeField', 'Tuple': 'TupleField', 'Array': 'ArrayItem', 'Sequence': 'SequenceItem'}


def snapshots(cx):
    """(kind entry, container name, label, state, ref) for every container state a visitor can be in."""
    if 'snapshots' in cx.cache:
        return cx.cache['snapshots']
    out = []
    for k in run_kinds(cx):
        if k['err'] is not None:
            raise k['err']
        for s in k['snaps']:
            short = s['adt'].split('::')[-1]
            out.append((k, short, 'fresh', s['before'], s['ref'], s))
            for i, x in enumerate(s.get('states', [])):
                out.append((k, short, 'any', x, s['ref'], s))
    cx.cache['snapshots'] = out
    return out


def count(cx, st, cont, ref):
    o = remaining(cx, st, cont, ref)
    if not o:
        raise Incomplete('remaining() has no outcome')
    return o


def one(cx, st, cont, name, ref, extra=()):
    o = observe(cx, st, cont, name, ref, extra)
    if len(o) != 1:
        raise Incomplete('%s::%s has %d outcomes' % (cont, name, len(o)))
    return o[0]


def base_events(st):
    return len(st.trace)


def new_events(st, n, *kinds):
    return [ev for ev in st.trace[n:] if ev['k'] in kinds]


def method(cx, short, name, trait=None):
    adt = adt_named(cx, short)
    ms = [m for m in cx.sem.methods.get(adt, []) if m['name'] == name]
    if trait:
        ms = [m for m in ms if (m['trait'] or '').split('::')[-1].split('<')[0] == trait]
    else:
        ms = [m for m in ms if m['trait'] is None] or ms
    if not ms:
        raise Missing('%s::%s' % (short, name))
    return ms[0]


def total_of(cx, k, cont, snap, ref):
    """Number of items in the fresh container."""
    o = remaining(cx, snap['before'], cont, ref)
    if len(o) != 1:
        raise Incomplete('fresh remaining()')
    return o[0][1]


def fresh_item(cx, cont, snap, ref):
    """The item decode core event of the first decode_item on the fresh container (for its type id)."""
    m = method(cx, cont, 'decode_item')
    b = cx.p.bodies[m['id']]
    vis = cx.e.param('itemvisitor', b['locals'][2])
    st = snap['before'].copy()
    n = base_events(st)
    ids = set()
    for s, v in cx.run(st, m['id'], [ref, vis]):
        for ev in new_events(s, n, 'core'):
            ids.add(cx.e.deep(s, ev['tid']))
    if len(ids) != 1:
        raise Incomplete('type of the first item')
    return ids.pop()


def shift_elem(t, base_idx, idx):
    """The same term at another element: replace the (unique) element index 0 by idx."""
    hits = [x for x in subterms(t) if x and x[0] == 'elem' and x[2] == base_idx]
    if not hits:
        return None
    # the outermost element access of the field list
    h = hits[0]
    return subst(t, h, ('elem', h[1], idx))


def subst(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'lin':
        out = I(t[1])
        for x, c in t[2]:
            out = add(out, mul(subst(ATOMS[x], a, b), I(c)))
        return out
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)


def g_items(cx):
    rep = cx.rep
    with rep.unit('C03 C04 C05 C01 C02', 'items'):
        seen = set()
        for k, cont, label, st, ref, snap in snapshots(cx):
            if cont not in CONTAINERS and cont != 'Variant':
                continue
            props = 'C03 C04 C05 C01 C02'
            with rep.unit(props, '%s items (%s)' % (cont, label)):
                r, s0, c, snap0 = ref, st, cont, snap
                if cont == 'Variant':
                    o = observe(cx, st, 'Variant', 'fields', ref)
                    if len(o) != 1:
                        raise Incomplete('Variant::fields')
                    s0, r = o[0]
                    c = 'Composite'
                    variant_views(cx, label, st, ref, s0, r, snap)
                    fs = observe(cx, snap['before'], 'Variant', 'fields', ref)
                    snap = dict(snap, before=fs[0][0], ref=fs[0][1])
                steady(cx, cont, label, st, ref, snap0)
                container(cx, k, cont, c, label, s0, r, snap)
                seen.add(cont)
        for c in CONTAINERS + ('Variant',):
            rep.ob('C03', 'container-present', c, c in seen, 'no container %s is handed to a visitor' % c)


def steady(cx, cont, label, st, ref, snap):
    """What does not depend on how much has been read stays what it was."""
    ms = cx.sem.methods.get(adt_named(cx, cont), [])
    for name in ('bytes_from_start', 'name', 'index', 'path'):
        if label == 'fresh' or not any(m['name'] == name and m['trait'] is None for m in ms):
            continue
        wh = cx.where(method(cx, cont, name)['id'])
        first = set(cx.e.deep(s, v) for s, v in observe(cx, snap['before'], cont, name, snap['ref']))
        for s, v in observe(cx, st, cont, name, ref):
            now = cx.e.deep(s, v)
            good = any(now == x or (x[0] == now[0] == 'sl' and same_slice(s, now, x)) or (x[0] != 'agg' and seq(s, now, x)) for x in first)
            cx.rep.ob('C03', 'reading-does-not-change-what-it-is', '%s::%s' % (cont, name), good, lambda: '%s() is %s after reading, it was %s' % (name, show(now), ' / '.join(show(x) for x in first)), wh)


def variant_views(cx, label, st, ref, s0, fields, snap):
    """A variant's rest is the rest of its fields, however much of them has been read."""
    _, u = one(cx, s0, 'Composite', 'bytes_from_undecoded', fields)
    wh = cx.where(method(cx, 'Variant', 'bytes_from_undecoded')['id'])
    for s, w in observe(cx, st, 'Variant', 'bytes_from_undecoded', ref):
        cx.rep.ob('C03 C01', 'variant-rest-is-that-of-its-fields', 'Variant (%s)' % label, same_slice(s, w, u), lambda: 'bytes_from_undecoded() is %s, the fields left start at %s' % (show(w), show(u)), wh)
    m = method(cx, 'Variant', 'skip_decoding')
    n = base_events(st)
    for s, v in cx.run(st.copy(), m['id'], [ref]):
        for s1, o, x in cx.results(s, v):
            if o != 0:
                continue
            for s2, f in observe(cx, s1, 'Variant', 'fields', ref):
                for s3, w in count(cx, s2, 'Composite', f):
                    cx.rep.ob('C01 C03', 'variant-skipped-to-the-end', 'Variant (%s)' % label, s3.eq(w, ZERO), lambda: '%s fields are left after skipping' % show(w), cx.where(m['id']))


def container(cx, k, shown, cont, label, st, ref, snap):
    rep = cx.rep
    anchor = '%s (%s)' % (shown, label)
    rep.count('container states')
    idx = None
    R = count(cx, st, cont, ref)
    if len(R) != 1:
        raise Incomplete('remaining()')
    left = R[0][1]
    _, undec = one(cx, st, cont, 'bytes_from_undecoded', ref)
    indexed = cont in ('Composite', 'Tuple')
    total = total_of(cx, k, cont, snap, snap['ref'])
    try:
        tid0 = fresh_item(cx, cont, snap, snap['ref'])
    except Infeasible:
        raise Incomplete('no item in the fresh container')
    if indexed:
        want_tid = shift_elem(tid0, ZERO, sub(total, left))
        if want_tid is None:
            raise Incomplete('type of item: %s' % show(tid0))
    else:
        want_tid = tid0
    comp = ZERO if shown not in ('Composite', 'Tuple') else ('param', 'compact')
    m = method(cx, cont, 'decode_item')
    wh = cx.where(m['id'])
    b = cx.p.bodies[m['id']]
    vis = cx.e.param('itemvisitor', b['locals'][2])
    ctx = dict(k=k, shown=shown, cont=cont, anchor=anchor, left=left, undec=undec, tid=want_tid, comp=comp, ref=ref, wh=wh, indexed=indexed, total=total)
    n = base_events(st)

    # decode_item
    cases = set()
    for s, v in cx.run(st.copy(), m['id'], [ref, vis]):
        rep.count('paths')
        cases |= item_step(cx, ctx, s, v, n, vis, 'decode_item')
    for need in ('end', 'ok', 'err'):
        if need == 'end' and label == 'fresh' and st.nonneg(sub(left, ONE)):
            continue
        rep.ob('C03', 'item-case-present', '%s: %s' % (anchor, need), need in cases, 'decode_item never gives the case "%s"' % need, wh)
    # the trait method is the same operation
    try:
        mt = method(cx, cont, 'decode_item', 'DecodeItemIterator')
    except Missing:
        mt = None
    if mt:
        for s, v in cx.run(st.copy(), mt['id'], [ref, vis]):
            item_step(cx, dict(ctx, wh=cx.where(mt['id'])), s, v, n, vis, 'DecodeItemIterator::decode_item')
    # Iterator::next
    mn = method(cx, cont, 'next', 'Iterator')
    ctx2 = dict(ctx, wh=cx.where(mn['id']))
    cases = set()
    for s, v in cx.run(st.copy(), mn['id'], [ref]):
        rep.count('paths')
        cases |= item_step(cx, ctx2, s, v, n, None, 'next')
    for need in ('end', 'ok', 'err'):
        if need == 'end' and label == 'fresh' and st.nonneg(sub(left, ONE)):
            continue
        rep.ob('C03', 'item-case-present', '%s: next %s' % (anchor, need), need in cases, 'next never gives the case "%s"' % need, ctx2['wh'])
    # the standard iterator methods that may be overridden
    adt = adt_named(cx, cont)
    for mm in cx.sem.methods.get(adt, []):
        if mm['name'] == 'size_hint' and (mm['trait'] or '').endswith('Iterator'):
            for s, v in cx.run(st.copy(), mm['id'], [ref]):
                dv = cx.e.deep(s, v)
                good = dv[0] == 'agg' and s.le(dv[3][0], left)
                rep.ob('C03', 'size-hint-honest', anchor, good, lambda: 'size_hint gives %s with %s items left' % (show(dv), show(left)), cx.where(mm['id']))
        elif mm['name'] in ('nth', 'count', 'last', 'step_by', 'fold', 'try_fold', 'advance_by', 'len', 'rposition', 'next_back') and mm['trait'] and (mm['trait'].endswith('Iterator')):
            other_iterator_method(cx, ctx, mm, st)
    counting(cx, ctx, st, adt)
    views(cx, ctx, st, label)
    with rep.unit('C01 C03', '%s skipped' % anchor):
        skipping(cx, ctx, st)


def counting(cx, ctx, st, adt):
    """Iterator::count, where it is overridden: no item is counted that is not handed out."""
    for b in cx.p.bodies.values():
        if b['crate'] == 'scale_decode' and b['npath'].endswith(' as core::iter::Iterator>::count') and b['argc'] == 1:
            ty = cx.e.T(b['locals'][1])
            if ty['k'] != 'adt' or norm(ty['path']) != adt:
                continue
            with cx.rep.unit('C03', '%s counted' % ctx['anchor']):
                for s, v in cx.run(st.copy(), b['id'], [cx.e.load_ref(st, ctx['ref'])]):
                    if not s.le(v, ctx['left']) and 'any' in show(v):
                        raise Incomplete('an overridden Iterator::count')
                    cx.rep.ob('C03', 'count-honest', ctx['anchor'], s.le(v, ctx['left']), lambda: 'count() gives %s with %s items left' % (show(v), show(ctx['left'])), cx.where(b['id']))


def other_iterator_method(cx, ctx, mm, st):
    rep = cx.rep
    if mm['name'] == 'len':
        for s, v in cx.run(st.copy(), mm['id'], [ctx['ref']]):
            rep.ob('C03', 'len-honest', ctx['anchor'], s.eq(v, ctx['left']), lambda: 'len() gives %s with %s items left' % (show(v), show(ctx['left'])), cx.where(mm['id']))
        return
    raise Incomplete('an overridden Iterator::%s' % mm['name'])


def item_step(cx, c, s, v, n, vis, op):
    """One outcome of handing out the next item. Returns which case it was."""
    rep = cx.rep
    anchor = '%s.%s' % (c['anchor'], op)
    wh, cont, ref = c['wh'], c['cont'], c['ref']
    dv = cx.e.deep(s, v)
    cores = new_events(s, n, 'core')
    other = new_events(s, n, 'visit', 'resolve', 'hook', 'decode', 'bits', 'target')
    after_left = count(cx, s, cont, ref)
    _, after = one(cx, s, cont, 'bytes_from_undecoded', ref)
    note = cx.path_note(s)
    if dv == NONE:
        rep.ob('C03', 'end-only-at-the-end', anchor, s.eq(c['left'], ZERO), lambda: 'reports the end although %s items are left' % show(c['left']), wh)
        rep.ob('C03 C01', 'end-reads-nothing', anchor, not cores and not other and same_slice(s, after, c['undec']), lambda: 'reads at the end [%s], rest is %s' % (note, show(after)), wh)
        for s2, w in after_left:
            rep.ob('C03', 'stays-at-the-end', anchor, s2.eq(w, ZERO), lambda: 'after the end %s items are left' % show(w), wh)
        return {'end'}
    if not (dv[0] == 'agg' and dv[1] == OPT):
        raise Incomplete('%s gives %s' % (op, show(dv)))
    rep.ob('C03', 'item-only-when-one-is-left', anchor, s.nonneg(sub(c['left'], ONE)), lambda: 'hands out an item although the container may be at its end (%s left)' % show(c['left']), wh)
    rep.ob('C03 C01', 'one-item-decoded', anchor, len(cores) == 1 and not other, lambda: '%d items are decoded for one [%s]' % (len(cores), note), wh)
    if len(cores) != 1:
        return set()
    ev = cores[0]
    rep.ob('C03 C01', 'item-decoded-in-place', anchor, same_slice(s, ev['at'], c['undec']), lambda: 'the item is decoded at %s, but the items left start at %s' % (show(ev['at']), show(c['undec'])), wh)
    tid = cx.e.deep(s, ev['tid'])
    rep.ob('C03 C06', 'item-has-its-own-type', anchor, tid == c['tid'] or seq(s, tid, c['tid']), lambda: 'the item is decoded as %s, expected %s' % (show(tid), show(c['tid'])), wh)
    rep.ob('C03 C23', 'item-uses-the-same-types', anchor, ev['types'] == ('param', 'types'), lambda: 'type information %s' % show(ev['types']), wh)
    if ev['compact'] is not None:
        rep.ob('C05 C04', 'item-compactness', anchor, s.eq(ev['compact'], c['comp']) or (s.bool_value(ev['compact']) is not None and s.bool_value(ev['compact']) == s.bool_value(c['comp'])),
               lambda: 'the item is decoded with compact=%s, expected %s' % (show(ev['compact']), show(c['comp'])), wh)
    elif c['comp'] != ZERO:
        rep.ob('C05 C04', 'item-compactness', anchor, False, 'the compact flag is dropped when the item is decoded', wh)
    if vis is not None:
        rep.ob('C03 C02', 'item-decoded-by-the-given-visitor', anchor, ev['visitor'] == vis, lambda: 'item visitor is %s' % show(ev['visitor']), wh)
        want = some(ok(ev['val']) if ev['ok'] else err(ev['val']))
        rep.ob('C02 C03', 'item-result-returned-as-is', anchor, dv == want, lambda: 'the item gives %s but %s is returned' % (show(want), show(dv)), wh)
    else:
        good = dv[3][0][0] == 'agg' and dv[3][0][1] == RES and dv[3][0][2] == (0 if ev['ok'] else 1)
        good = good and (ev['ok'] or dv[3][0][3][0] == ev['val'])
        rep.ob('C02 C03', 'item-result-returned-as-is', anchor, good, lambda: 'the item decode %s but %s is returned' % ('succeeds' if ev['ok'] else 'fails', show(dv)), wh)
    for s2, w in after_left:
        if ev['ok']:
            rep.ob('C03', 'remaining-counts-down', anchor, s2.eq(w, sub(c['left'], ONE)), lambda: '%s items left after one of %s' % (show(w), show(c['left'])), wh)
        elif c['indexed']:
            rep.ob('C03', 'failed-item-ends-the-container', anchor, s2.eq(w, ZERO), lambda: '%s items left after a failed one' % show(w), wh)
        else:
            rep.ob('C03', 'failed-item-is-used-up', anchor, s2.eq(w, sub(c['left'], ONE)) or s2.eq(w, ZERO), lambda: '%s items left after a failed one of %s' % (show(w), show(c['left'])), wh)
    if ev['ok']:
        rep.ob('C03 C01', 'rest-starts-after-the-item', anchor, same_slice(s, after, ev['after']), lambda: 'rest is %s but the item ended at %s' % (show(after), show(ev['after'])), wh)
    _, start = one(cx, s, cont, 'bytes_from_start', ref)
    if op == 'next' and ev['ok'] and dv[3][0][2] == 0:
        one_item(cx, c, s, v, ev, anchor)
    return {'ok' if ev['ok'] else 'err'}


def seq(s, a, b):
    """Same value up to what the path knows about integers inside."""
    if a == b:
        return True
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return False
    if a and b and a[0] in ('i', 'lin', 'new', 'fld', 'len', 'param', 'app') and b[0] in ('i', 'lin', 'new', 'fld', 'len', 'param', 'app') and (a[0] in ('i', 'lin') or b[0] in ('i', 'lin')):
        return s.eq(a, b)
    return len(a) == len(b) and all((x == y) or seq(s, x, y) for x, y in zip(a, b))


def item_ref(cx, s, v):
    cell = ('H', fresh('item'))
    s.mem[cell] = v
    return ('ref', cell, (), None)


def one_item(cx, c, s, v, ev, anchor):
    """The item value on its own."""
    rep = cx.rep
    it = cx.e.proj(s, cx.e.proj(s, v, 1, 0, None), 0, 0, None)
    short = ITEMS[c['cont']]
    adt = adt_named(cx, short)
    a2 = '%s of %s' % (short, c['anchor'])
    r = item_ref(cx, s, it)
    used = sub(ev['after'][2], ev['at'][2])
    want = sl(ev['at'][1], ev['at'][2], used)
    m = method(cx, short, 'bytes')
    for s2, w in cx.run(s.copy(), m['id'], [r]):
        rep.ob('C04', 'item-bytes-are-its-own', a2, same_slice(s2, w, want), lambda: 'bytes() is %s, the item occupies %s' % (show(w), show(want)), cx.where(m['id']))
    m = method(cx, short, 'type_id')
    for s2, w in cx.run(s.copy(), m['id'], [r]):
        x = cx.e.deep(s2, cx.e.load_ref(s2, w))
        rep.ob('C04', 'item-type-is-its-own', a2, x == c['tid'] or seq(s2, x, c['tid']), lambda: 'type_id() is %s, expected %s' % (show(x), show(c['tid'])), cx.where(m['id']))
    if c['cont'] == 'Composite':
        m = method(cx, short, 'name')
        for s2, w in cx.run(s.copy(), m['id'], [r]):
            good = field_name_ok(cx, s2, w, c['tid'])
            rep.ob('C04 C10', 'item-name-is-its-own', a2, good, lambda: 'name() is %s for the field with type %s' % (show(cx.e.deep(s2, w)), show(c['tid'])), cx.where(m['id']))
    if c['indexed']:
        m = method(cx, short, 'is_compact')
        for s2, w in cx.run(s.copy(), m['id'], [r]):
            good = s2.eq(w, c['comp']) or (s2.bool_value(w) is not None and s2.bool_value(w) == s2.bool_value(c['comp']))
            rep.ob('C04 C05', 'item-says-it-is-compact', a2, good, lambda: 'is_compact() is %s, expected %s' % (show(w), show(c['comp'])), cx.where(m['id']))
    n = base_events(s)
    m = method(cx, short, 'decode_with_visitor')
    b = cx.p.bodies[m['id']]
    vis = cx.e.param('again', b['locals'][2])
    for s2, w in cx.run(s.copy(), m['id'], [r, vis]):
        evs = new_events(s2, n, 'core', 'target', 'hook', 'visit', 'resolve', 'decode')
        good = len(evs) == 1 and evs[0]['k'] == 'core'
        rep.ob('C04', 'item-decode-is-one-decode', a2, good, lambda: 'decode_with_visitor does [%s]' % cx.path_note(s2), cx.where(m['id']))
        if good:
            e2 = evs[0]
            same_item(cx, c, s2, e2, want, a2, 'decode_with_visitor', m, cx.e.deep(s2, e2['tid']), e2['compact'])
            rep.ob('C04', 'item-decode-uses-the-visitor', a2, e2['visitor'] == vis, lambda: 'visitor %s' % show(e2['visitor']), cx.where(m['id']))
            dv = cx.e.deep(s2, w)
            rep.ob('C04 C02', 'item-decode-result-as-is', a2, dv == (ok(e2['val']) if e2['ok'] else err(e2['val'])), lambda: 'gives %s' % show(dv), cx.where(m['id']))
    m = method(cx, short, 'decode_as_type')
    for s2, w in cx.run(s.copy(), m['id'], [r]):
        evs = new_events(s2, n, 'core', 'target', 'hook', 'visit', 'resolve', 'decode')
        good = len(evs) == 1 and evs[0]['k'] == 'target'
        rep.ob('C04', 'item-decode-is-one-decode', a2, good, lambda: 'decode_as_type does [%s]' % cx.path_note(s2), cx.where(m['id']))
        if good:
            e2 = evs[0]
            same_item(cx, c, s2, e2, want, a2, 'decode_as_type', m, e2['arg'], e2['compact'])
            dv = cx.e.deep(s2, w)
            rep.ob('C04 C02', 'item-decode-result-as-is', a2, dv == (ok(e2['val']) if e2['ok'] else err(e2['val'])), lambda: 'gives %s' % show(dv), cx.where(m['id']))
    # a copy of an item is the same item
    for mm in cx.sem.methods.get(adt, []):
        if mm['name'] == 'clone' and mm['trait']:
            for s2, w in cx.run(s.copy(), mm['id'], [r]):
                rep.ob('C04', 'item-copy-is-the-same', a2, same_value(cx, s2, w, it), lambda: 'clone() gives %s of %s' % (show(cx.e.deep(s2, w)), show(cx.e.deep(s2, it))), cx.where(mm['id']))


def same_value(cx, s, a, b):
    a, b = cx.e.deep(s, a), cx.e.deep(s, b)
    return a == b or seq(s, strip_clone(a), strip_clone(b))


def strip_clone(t):
    return t


def same_item(cx, c, s2, e2, want, a2, what, m, tid, compact):
    rep = cx.rep
    wh = cx.where(m['id'])
    rep.ob('C04', 'item-decoded-from-its-own-bytes', a2, e2['at'][1] == want[1] and s2.eq(e2['at'][2], want[2]) and s2.eq(e2['at'][3], want[3]),
           lambda: '%s reads %s, the item occupies %s' % (what, show(e2['at']), show(want)), wh)
    rep.ob('C04', 'item-decoded-as-its-own-type', a2, tid == c['tid'] or seq(s2, tid, c['tid']), lambda: '%s decodes as %s, expected %s' % (what, show(tid), show(c['tid'])), wh)
    rep.ob('C04', 'item-decoded-with-its-types', a2, cx.e.deep(s2, e2['types']) == ('param', 'types'), lambda: '%s uses type information %s' % (what, show(e2['types'])), wh)
    comp = compact if compact is not None else ZERO
    good = s2.eq(comp, c['comp']) or (s2.bool_value(comp) is not None and s2.bool_value(comp) == s2.bool_value(c['comp']))
    rep.ob('C04 C05', 'item-decoded-with-its-compactness', a2, good, lambda: '%s decodes with compact=%s, expected %s' % (what, show(comp), show(c['comp'])), wh)


def elem_of(t):
    for x in subterms(t):
        if x and x[0] == 'elem':
            return x
    return None


def field_name_ok(cx, s, w, tid):
    """w is the name of the field whose id is tid."""
    dv = cx.e.deep(s, w)
    el = elem_of(tid)
    if dv[0] == 'agg' and dv[1] == OPT:
        el2 = None
        if dv[2] == 0:
            # None on a path that knows the field's name is absent
            for t, d in s.disc.items():
                if d == 0 and isinstance(t, tuple) and elem_of(t) == el and t[0] == 'fld':
                    return True
            return False
        p = dv[3][0]
        return elem_of(p[1] if p[0] == 'sl' else p) == el
    return dv[0] == 'fld' and elem_of(dv) == el and dv != tid


def segments(cx, s0, n0, s1):
    """The stretches without a loop head that a path from s0 to s1 is made of: (from, to, events)."""
    cur, evs = [s0], []
    for ev in s1.trace[n0:]:
        if ev['k'] != 'loop':
            evs.append(ev)
            continue
        L = cx.e.loops.get(ev['id'])
        if L is None:
            raise Incomplete('a loop nothing is kept of')
        yield cur, L['entry'], evs
        for bk in L['backs']:
            for h, t, x in segments(cx, L['head'], L['prefix'], bk):
                yield (L['heads'] if h == [L['head']] else h), t, x
        cur, evs = L['heads'], []
    yield cur, s1, evs


def item_by_item(cx, cont, ref, s0, n0, s1):
    """Is the position of the container moved by nothing but the items decoded from it, each of which
    is counted?  None, or what is wrong."""
    done = set()
    for froms, t, evs in segments(cx, s0, n0, s1):
        key = (tuple(id(x) for x in froms), id(t))
        if key in done:
            continue
        done.add(key)
        why = None
        for f in froms:
            why = one_stretch(cx, cont, ref, f, t, [e for e in evs if e['k'] == 'core'])
            if why is None:
                break
        if why:
            return why
    return None


def one_stretch(cx, cont, ref, f, t, cores):
    _, a = one(cx, f, cont, 'bytes_from_undecoded', ref)
    _, b = one(cx, t, cont, 'bytes_from_undecoded', ref)
    ra, rb = count(cx, f, cont, ref), count(cx, t, cont, ref)
    if len(ra) != 1 or len(rb) != 1:
        raise Incomplete('remaining() has several outcomes')
    ra, rb = ra[0][1], rb[0][1]
    if cores and same_slice(t, b, a) and t.eq(ra, rb):
        raise Incomplete('items are read through another view of the container')
    if any(not e['ok'] for e in cores):
        return None
    at = a
    for e in cores:
        if not same_slice(t, e['at'], at):
            return 'an item is read at %s, the items left start at %s' % (show(e['at']), show(at))
        at = e['after']
    if not same_slice(t, b, at):
        return 'the items left start at %s although the last one read ends at %s' % (show(b), show(at))
    if not t.eq(rb, sub(ra, ('i', len(cores)))):
        return '%s items are left of %s after reading %d' % (show(rb), show(ra), len(cores))
    return None


def skipping(cx, c, st):
    """Skipping what is left is decoding it, item by item."""
    rep = cx.rep
    m = method(cx, c['cont'], 'skip_decoding')
    n = base_events(st)
    wh = cx.where(m['id'])
    done = 0
    for s, v in cx.run(st.copy(), m['id'], [c['ref']]):
        rep.count('paths')
        for s1, o, x in cx.results(s, v):
            if o != 0:
                continue
            done += 1
            why = item_by_item(cx, c['cont'], c['ref'], st, n, s1)
            rep.ob('C01 C03', 'skipped-item-by-item', c['anchor'], why is None, lambda: why, wh)
            for s2, w in count(cx, s1, c['cont'], c['ref']):
                rep.ob('C01 C03', 'skipped-to-the-end', c['anchor'], s2.eq(w, ZERO), lambda: '%s items are left after skipping' % show(w), wh)
    rep.ob('C01 C03', 'skipping-succeeds', c['anchor'], done > 0, 'skip_decoding never succeeds', wh)


def views(cx, c, st, label):
    """What a partly read container says about the rest."""
    rep = cx.rep
    ref, cont, anchor = c['ref'], c['cont'], c['anchor']
    if cont == 'Array':
        for s, w in observe(cx, st, 'Array', 'is_empty', ref):
            b = s.bool_value(w)
            good = (b is True and s.eq(c['left'], ZERO)) or (b is False and s.nonneg(sub(c['left'], ONE))) or empty_test(s, w, c['left'])
            rep.ob('C03', 'is-empty-honest', anchor, good, lambda: 'is_empty() is %s with %s items left' % (show(w), show(c['left'])), c['wh'])
    if cont != 'Composite':
        return
    m = method(cx, 'Composite', 'peek_name')
    for s, w in cx.run(st.copy(), m['id'], [ref]):
        dv = cx.e.deep(s, w)
        if s.eq(c['left'], ZERO):
            good = dv == NONE
        else:
            good = field_name_ok(cx, s, w, c['tid'])
            if dv == NONE and not good:
                # no item left, or the field has no name
                good = s.eq(c['left'], ZERO)
        rep.ob('C03 C10', 'peeked-name-is-the-next-fields', anchor, good, lambda: 'peek_name() is %s with %s fields left' % (show(dv), show(c['left'])), cx.where(m['id']))
    m = method(cx, 'Composite', 'as_tuple')
    outs = cx.run(st.copy(), m['id'], [ref])
    rep.ob('C03', 'tuple-view-exists', anchor, bool(outs), 'as_tuple has no outcome')
    for s, w in outs:
        r = item_ref(cx, s, w)
        wh = cx.where(m['id'])
        _, u = one(cx, s, 'Tuple', 'bytes_from_undecoded', r)
        rep.ob('C03 C01', 'tuple-view-starts-at-the-rest', anchor, same_slice(s, u, c['undec']), lambda: 'as_tuple() starts at %s instead of %s' % (show(u), show(c['undec'])), wh)
        for s2, k in remaining(cx, s, 'Tuple', r):
            rep.ob('C03', 'tuple-view-has-the-rest', anchor, s2.eq(k, c['left']), lambda: 'as_tuple() has %s items, %s are left' % (show(k), show(c['left'])), wh)
        mm = method(cx, 'Tuple', 'decode_item')
        b = cx.p.bodies[mm['id']]
        vis = cx.e.param('itemvisitor', b['locals'][2])
        n = base_events(s)
        for s2, v2 in cx.run(s.copy(), mm['id'], [r, vis]):
            for ev in new_events(s2, n, 'core'):
                tid = cx.e.deep(s2, ev['tid'])
                rep.ob('C03', 'tuple-view-item-type', anchor, tid == c['tid'] or seq(s2, tid, c['tid']), lambda: 'first item of as_tuple() has type %s, expected %s' % (show(tid), show(c['tid'])), wh)
                good = ev['compact'] is not None and (s2.eq(ev['compact'], c['comp']) or (s2.bool_value(ev['compact']) is not None and s2.bool_value(ev['compact']) == s2.bool_value(c['comp'])))
                rep.ob('C05 C03', 'tuple-view-compactness', anchor, good, lambda: 'items of as_tuple() are decoded with compact=%s, expected %s' % (show(ev['compact']) if ev['compact'] else 'none', show(c['comp'])), wh)
                rep.ob('C03', 'tuple-view-types', anchor, ev['types'] == ('param', 'types'), 'as_tuple() loses the type information', wh)
    m = method(cx, 'Composite', 'has_unnamed_fields')
    for s, w in cx.run(st.copy(), m['id'], [ref]):
        rep.count('paths')


def empty_test(s, w, left):
    a = s.copy()
    try:
        a.assume_bool(w, True)
        x = a.eq(left, ZERO)
    except Infeasible:
        x = True
    b = s.copy()
    try:
        b.assume_bool(w, False)
        y = b.nonneg(sub(left, ONE))
    except Infeasible:
        y = True
    return x and y
