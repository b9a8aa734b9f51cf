"""G4: the built-in target types.  For every callback of every target's visitor: which sources it
accepts, what it makes of them, what it reports otherwise, and where it says an error happened."""
import re
from cx import *
from engine import norm
from rules_core import run_kinds, adt_named, observe, remaining
from rules_items import snapshots, method, one, new_events, seq, shift_elem, elem_of

UNX = 'visitor::Unexpected'
EK = 'error::ErrorKind'
ERR = 'error::Error'
INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128')
LISTS = ('alloc::vec::Vec', 'alloc::collections::VecDeque', 'alloc::collections::vec_deque::VecDeque', 'alloc::collections::LinkedList', 'alloc::collections::BinaryHeap', 'alloc::collections::BTreeSet')
CALLBACKS = ('visit_bool', 'visit_char', 'visit_u8', 'visit_u16', 'visit_u32', 'visit_u64', 'visit_u128', 'visit_u256', 'visit_i8', 'visit_i16', 'visit_i32', 'visit_i64', 'visit_i128', 'visit_i256',
             'visit_sequence', 'visit_composite', 'visit_tuple', 'visit_str', 'visit_variant', 'visit_array', 'visit_bitsequence')
CONV = re.compile(r'From|Into')


def targets(cx):
    if 'targets' in cx.cache:
        return cx.cache['targets']
    out = {}
    for i in cx.p.impls:
        if norm(i['trait']) != 'visitor::Visitor' or i['crate'] != 'scale_decode':
            continue
        d = dict((a, b) for a, b in i['types'])
        if 'Value' not in d:
            continue
        t = {'ty': norm(cx.p.types[d['Value']]['s']), 'tix': d['Value'], 'self': norm(i['selfs']), 'methods': {m['name']: m['id'] for m in i['methods']}}
        if norm(i['selfs']).endswith('IgnoreVisitor<R>'):
            continue
        t['own'] = set(n for n, b in t['methods'].items() if b in cx.p.bodies and cx.p.bodies[b].get('npath') and not cx.p.bodies[b]['npath'].startswith('visitor::Visitor::'))
        out[t['self']] = t
    cx.cache['targets'] = out
    return out


def base_name(s):
    return s.split('<')[0]


def cases(cx, b, name):
    """(label, state, args) a callback can be called with."""
    t = cx.p.types[b['locals'][2]] if b['argc'] > 1 else None
    if t is not None and t['k'] == 'ref':
        out = []
        for k, cont, label, st, ref, snap in snapshots(cx):
            if snap['name'] == name and label == 'fresh':
                out.append((cont, st, [cx.e.param('self', b['locals'][1]), ref, snap['tid'] if snap.get('tid') is not None else ('param', 'tid')], snap))
        return out
    return [(None, St(), [cx.e.param('self', b['locals'][1])] + [cx.e.param('p%d' % j, b['locals'][j + 1]) for j in range(1, b['argc'])], None)]


def runs(cx, bid, case):
    cont, st, args, snap = case
    n = len(st.trace)
    out = []
    for s, v in cx.run(st.copy(), bid, list(args)):
        out.append((s, cx.e.deep(s, v), s.trace[n:]))
    return out


def failed(evs):
    return [e for e in evs if e['k'] in ('core', 'target', 'decode', 'bits', 'hook') and e.get('ok') is False]


def failures(cx, bid, case, loops, anchor):
    """No outcome with a value comes after a failed step, and no turn of a loop passes one over."""
    rep = cx.rep
    wh = cx.where(bid)
    for s, v, evs in runs(cx, bid, case):
        for s1, o, x in ok_err(cx, s, v):
            if o == 0:
                rep.ob('C02', 'target-failure-surfaces', anchor, not failed(evs), lambda: 'a value is produced although a step failed: %s' % [e['k'] for e in failed(evs)], wh)
    for L in loops:
        for bk in L['backs']:
            rep.ob('C02', 'target-failure-not-passed-over', anchor, not failed(bk.trace[L['prefix']:]), lambda: 'the loop goes on after a failed step', wh)


def ok_err(cx, s, v):
    """[(state, 0|1, payload)]"""
    if v[0] == 'agg' and v[1] == RES:
        return [(s, v[2], v[3][0])]
    return [(a, c, cx.e.deep(a, x) if x is not None else None) for a, c, x in cx.split(s, v)]


def aggs(v, path):
    return [x for x in subterms(v) if x and x[0] == 'agg' and x[1] == path]


def unexpected_kind(cx, v):
    """The variants of Unexpected reported inside an error value."""
    names = cx.variants(UNX)
    return [names[x[2]] for x in aggs(v, UNX)]


def kind_of(cb):
    return cb[len('visit_'):].replace('_', '')


def is_unexpected(cx, v, cb):
    u = unexpected_kind(cx, v)
    if len(u) != 1 or u[0].lower() != kind_of(cb):
        return False
    d = [x for x in aggs(v, DE)]
    return bool(d) and cx.de_names[d[0][2]] == 'Unexpected'


def err_kind(cx, v):
    """(ErrorKind variant name, its fields by name)"""
    e = aggs(v, EK)
    if not e:
        return None, {}
    vs = cx.adt_variants(EK)
    var = vs[e[0][2]]
    return var['name'], dict(zip([f[0] for f in var['fields']], e[0][3]))


def carries(cx, v, err):
    """Is v the error err, its cause unchanged (locations may have been added)?"""
    v = cx.peel(v)
    if v == err:
        return True
    if v[0] == 'upd' and cx.peel(v[1]) == err:
        # the error itself, changed in place: not its cause
        fs = cx.adt_variants(ERR)[0]['fields']
        return all(k[0] is None and k[1] < len(fs) and fs[k[1]][0] != 'kind' and not any(y[0] == 'agg' and y[1] == EK for y in subterms(x) if y) for k, x in v[2])
    if v[0] == 'agg' and v[1] == ERR:
        for x in v[3]:
            if x[0] == 'fld' and x[1] == err:
                # the cause must be the same cause
                kinds = [y for y in v[3] if y[0] == 'agg' and y[1] == EK]
                return not kinds
        # an error of another type put into ours as the cause
        return any(y == err for y in subterms(v)) and all(CONV.search(str(y[1])) for x in v[3] for y in subterms(x) if isinstance(y, tuple) and len(y) > 1 and y[0] == 'app' and not cx.contains(err, y))
    return False


def locations(cx, evs):
    """Locations added to an error on the way: [(kind, payload)]"""
    out = []
    for ev in evs:
        if ev['k'] in ('push', 'insert', 'truncate') and ev.get('val') is not None:
            x = ev['val']
            for a in subterms(x):
                if a and a[0] == 'agg' and str(a[1]).endswith('::Loc'):
                    out.append((cx.variants(a[1])[a[2]], a[3][0]))
    return out


def text_is(v, s):
    return v[0] == 'sl' and v[1] == ('s', s) and v[2] == ZERO


def param_of(cx, b, i):
    return cx.e.param('p%d' % i, b['locals'][i + 1])


# --- one callback ------------------------------------------------------------------------------
def transparent(cx, t, cb, bid, case, anchor, wh):
    rep = cx.rep
    cont, st, args, snap = case
    left = remaining(cx, st, cont, args[1])
    m = method(cx, cont, 'decode_item')
    expect = []
    mb = cx.p.bodies[m['id']]
    for s, v in cx.run(st.copy(), m['id'], [args[1], cx.e.param('iv', mb['locals'][2])]):
        expect += [ev for ev in new_events(s, len(st.trace), 'core')]
    for s, v, evs in runs(cx, bid, case):
        core = [e for e in evs if e['k'] == 'core']
        for s1, o, x in ok_err(cx, s, v):
            if not core:
                good = o == 1 and is_unexpected(cx, x, cb)
                rep.ob('C12 C07', 'wrapper-refused', anchor, good, lambda: 'without decoding the inner value the outcome is %s instead of the unexpected-%s error' % (show(v, 8), kind_of(cb)), wh)
                # is one field left possible here?
                bad = False
                for a, n in left:
                    z = s1.copy()
                    try:
                        z.assume_eq(n, ONE)
                        bad = True
                    except Infeasible:
                        pass
                rep.ob('C12', 'single-field-accepted', anchor, not bad, lambda: 'a wrapper with exactly one field can be refused', wh)
            else:
                e = core[0]
                nm = left[0][1]
                rep.ob('C12 C09', 'only-single-field', anchor, all(s1.eq(n, ONE) for a, n in left), lambda: 'a wrapper whose number of fields is not known to be 1 is decoded as its first field', wh)
                rep.ob('C12 C05', 'wrapper-inner-decode', anchor, len(core) == 1 and any(seq(s1, e['at'], y['at']) and e['tid'] == y['tid'] and e['compact'] == y['compact'] for y in expect), lambda: 'the inner value is decoded %d times, at %s, type %s, compact %s' % (len(core), show(e['at']), show(e['tid']), show(e['compact'])), wh)
                vis = e['visitor']
                rep.ob('C12', 'wrapper-same-target', anchor, vis == args[0] or (vis[0] == 'agg' and str(vis[1]).endswith('BasicVisitor')), lambda: 'the inner value is decoded with %s instead of the same target' % show(vis), wh)
                same = (o == 0 and x == e['val']) if e['ok'] else (o == 1 and carries(cx, x, e['val']))
                rep.ob('C12', 'wrapper-result', anchor, same, lambda: 'the result of the inner decode is turned into %s' % show(v, 8), wh)


def refuse_all(cx, t, cb, bid, case, anchor, wh):
    for s, v, evs in runs(cx, bid, case):
        for s1, o, x in ok_err(cx, s, v):
            cx.rep.ob('C07', 'unsupported-kind-refused', anchor, o == 1 and is_unexpected(cx, x, cb), lambda: 'a %s source is not one %s is made from, yet the outcome is %s' % (kind_of(cb), t['ty'], show(v, 7)), wh)


def number(cx, t, cb, bid, case, anchor, wh, name, nz):
    rep = cx.rep
    lo, hi = INT_RANGE[name]
    p = case[2][1]
    for s, v, evs in runs(cx, bid, case):
        for s1, o, x in ok_err(cx, s, v):
            if o == 0:
                y = x
                if nz:
                    while y[0] in ('nonzero', 'app', 'agg') and y != p:
                        y = y[-1] if y[0] != 'agg' else y[3][0]
                        if isinstance(y, tuple) and y and isinstance(y[0], tuple):
                            y = y[0]
                rep.ob('C08', 'number-exact', anchor, s1.eq(y, p) or y == p, lambda: 'the number %s arrives as %s' % (show(p), show(x, 8)), wh)
                if not s1.eq(y, p) and y != p:
                    continue
                rep.ob('C08', 'number-in-range', anchor, s1.nonneg(sub(p, I(lo))) and s1.nonneg(sub(I(hi), p)) and (not nz or s1.bool_value(('eq0', p)) is False),
                       lambda: 'a number outside %s is accepted' % t['ty'], wh)
            else:
                kn, fs = err_kind(cx, x)
                rep.ob('C08', 'out-of-range-error', anchor, kn == 'NumberOutOfRange' and cx.says(x, p), lambda: 'a number that does not fit is reported as %s' % show(x, 8), wh)
                z = s1.copy()
                fits = True
                try:
                    z.assume_ge0(sub(p, I(lo)))
                    z.assume_ge0(sub(I(hi), p))
                    if nz:
                        z.assume_ne(p, ZERO)
                except Infeasible:
                    fits = False
                rep.ob('C08', 'fitting-number-accepted', anchor, not fits, lambda: 'a number that fits %s can be refused' % t['ty'], wh)


def identity(cx, t, cb, bid, case, anchor, wh):
    p = case[2][1]
    for s, v, evs in runs(cx, bid, case):
        for s1, o, x in ok_err(cx, s, v):
            cx.rep.ob('C17' if 'char' in cb else 'C07', 'value-as-is', anchor, o == 0 and (x == p or s1.eq(x, p)), lambda: 'the value %s arrives as %s' % (show(p), show(v, 7)), wh)


def string(cx, t, cb, bid, case, anchor, wh):
    rep = cx.rep
    cont, st, args, snap = case
    want = [(s, ok_err(cx, s, cx.e.deep(s, v))) for s, v in observe(cx, st, 'Str', 'as_str', args[1])]
    goods = [x for s, r in want for _, o, x in r if o == 0]
    bads = [x for s, r in want for _, o, x in r if o == 1]
    for s, v, evs in runs(cx, bid, case):
        for s1, o, x in ok_err(cx, s, v):
            if o == 0:
                rep.ob('C17', 'string-is-the-text', anchor, any(seq(s1, x, g) for g in goods), lambda: 'the string handed out is %s, not the checked text %s' % (show(x, 7), [show(g, 6) for g in goods]), wh)
            else:
                rep.ob('C17', 'string-error', anchor, any(cx.contains(x, g) or cx.peel(x) == g for g in bads), lambda: 'a string that cannot be read is reported as %s' % show(x, 7), wh)


def loop_sources(cx, x, evs):
    """What a loop written out by hand takes its items from, when every turn puts the item it got into x."""
    lids = set(y[1] for y in subterms(x) if y and y[0] == 'loop' and len(y) == 2)
    if len(lids) != 1:
        return []
    L = cx.e.loops.get(list(lids)[0])
    if L is None or len(L['grown']) != 1 or not L['backs'] or [e['hit'] for e in evs if e['k'] == 'next'] != [0]:
        return []
    src = set()
    for bk in L['backs']:
        evs = bk.trace[L['prefix']:]
        nx = [e for e in evs if e['k'] == 'next']
        ps = [e for e in evs if e['k'] in ('push', 'insert')]
        if len(nx) != 1 or len(ps) != 1 or not nx[0]['hit'] or nx[0].get('loc') is None:
            return []
        it, val = nx[0]['item'], ps[0]['val']
        if val != it and not (val[0] == 'fld' and val[1] == it and val[2] == 0 and val[3] == 0):
            return []
        src.add(cx.e.deep(L['entry'], cx.e.read(L['entry'], nx[0]['loc'])))
    return list(src)


def bits(cx, t, cb, bid, case, anchor, wh):
    rep = cx.rep
    cont, st, args, snap = case
    goods = []
    for s, v in observe(cx, st, 'BitSequence', 'decode', args[1]):
        for _, o, x in ok_err(cx, s, cx.e.deep(s, v)):
            if o == 0:
                goods.append(x)
    n = 0
    for s, v, evs in runs(cx, bid, case):
        for s1, o, x in ok_err(cx, s, v):
            if o == 0:
                n += 1
                src = [c.get('src') for c in evs if c['k'] == 'collect'] + loop_sources(cx, x, evs)
                good = len(src) == 1 and any(seq(s1, src[0], g) for g in goods) and any(y and y[0] == 'loop' for y in subterms(x)) and x[0] in ('app', 'vec')
                rep.ob('C24 C20', 'bits-all-kept', anchor, good and (x[0] == 'vec' or x[1] == 'collected'), lambda: 'the bits handed out are %s, not everything the bit decoder yields' % show(x, 6), wh)
            else:
                kn, fs = err_kind(cx, x)
                rep.ob('C24', 'bits-error', anchor, kn == 'VisitorDecodeError', lambda: 'malformed bits are reported as %s' % show(x, 6), wh)
    rep.ob('C24', 'bits-accepted', anchor, n > 0, 'no path hands the bits out', wh)


def phantom(cx, t, cb, bid, case, anchor, wh):
    rep = cx.rep
    cont, st, args, snap = case
    left = remaining(cx, st, cont, args[1])
    for s, v, evs in runs(cx, bid, case):
        for s1, o, x in ok_err(cx, s, v):
            if o == 0:
                rep.ob('C09', 'phantom-from-nothing', anchor, all(s1.eq(n, ZERO) for _, n in left), lambda: 'phantom data is made from something with fields', wh)
            else:
                rep.ob('C09 C07', 'phantom-refusal', anchor, is_unexpected(cx, x, cb), lambda: 'refused with %s' % show(x, 7), wh)
                rep.ob('C09', 'phantom-accepts-empty', anchor, not possible(s1, [('eq', n, ZERO) for _, n in left]), 'an empty source can be refused', wh)


def possible(s, conds):
    z = s.copy()
    try:
        for c, a, b in conds:
            if c == 'eq':
                z.assume_eq(a, b)
            elif c == 'ge':
                z.assume_ge0(sub(a, b))
            elif c == 'ne':
                z.assume_ne(a, b)
            elif c == 'true':
                z.assume_bool(a, True)
            elif c == 'false':
                z.assume_bool(a, False)
    except Infeasible:
        return False
    return True


def tuple_parts(ty):
    inner = ty[1:-1].strip()
    return [x.strip() for x in inner.split(',') if x.strip()]


def into_of(vis):
    """The type T in T::into_visitor()."""
    if vis[0] == 'app' and vis[1] == 'IntoVisitor::into_visitor':
        return vis[2][1].split(',')[0] if isinstance(vis[2], tuple) else None
    return None


def tup(cx, t, cb, bid, case, anchor, wh):
    rep = cx.rep
    cont, st, args, snap = case
    parts = tuple_parts(t['ty'])
    N = I(len(parts))
    left = remaining(cx, st, cont, args[1])[0][1]
    first = None
    mb = cx.p.bodies[method(cx, cont, 'decode_item')['id']]
    for s, v in cx.run(st.copy(), method(cx, cont, 'decode_item')['id'], [args[1], cx.e.param('iv', mb['locals'][2])]):
        for ev in new_events(s, len(st.trace), 'core'):
            first = ev
    for s, v, evs in runs(cx, bid, case):
        core = [e for e in evs if e['k'] == 'core']
        for s1, o, x in ok_err(cx, s, v):
            if not core and o == 1:
                kn, fs = err_kind(cx, x)
                rep.ob('C09', 'tuple-length-error', anchor, kn == 'WrongLength' and fs.get('actual_len') is not None and s1.eq(fs['actual_len'], left) and s1.eq(fs['expected_len'], N), lambda: 'a source of another size is reported as %s %s' % (kn, {a: show(b, 5) for a, b in fs.items()}), wh)
                rep.ob('C09', 'tuple-right-length-accepted', anchor, not possible(s1, [('eq', left, N)]), 'a source of the right size can be refused as being of the wrong size', wh)
                continue
            rep.ob('C09', 'tuple-length-checked', anchor, s1.eq(left, N), lambda: 'parts are decoded although the source is not known to have %d of them' % len(parts), wh)
            at = None
            good = len(core) <= len(parts) and (o == 1 or len(core) == len(parts))
            for i, e in enumerate(core):
                want_tid = shift_elem(first['tid'], ZERO, I(i)) if i and elem_of(first['tid']) else first['tid']
                g = seq(s1, e['at'], first['at'] if i == 0 else core[i - 1]['after']) and seq(s1, e['tid'], want_tid) and (e['ok'] or i == len(core) - 1)
                tt = into_of(e['visitor'])
                g = g and (tt is None or tt == parts[i])
                rep.ob('C09 C10 C01', 'tuple-part-order', anchor, g, lambda: 'part %d is decoded at %s with type %s as %s' % (i, show(e['at']), show(e['tid'], 5), tt), wh)
            last = core[-1] if core else None
            if o == 0:
                rep.ob('C09', 'tuple-all-parts', anchor, good and x == ('agg', 'tuple', 0, tuple(e['val'] for e in core)), lambda: 'the tuple is %s, made from %d decoded parts' % (show(x), len(core)), wh)
            else:
                rep.ob('C02 C16', 'tuple-error-is-the-parts', anchor, last is not None and not last['ok'] and carries(cx, x, last['val']), lambda: 'the error of a part becomes %s' % show(x, 6), wh)
                locs = locations(cx, evs)
                rep.ob('C16', 'tuple-error-located', anchor, len(locs) == 1 and locs[0][0] == 'Index' and s1.eq(locs[0][1], I(len(core) - 1)), lambda: 'the error of part %d carries the locations %s' % (len(core) - 1, [(a, show(b)) for a, b in locs]), wh)


def list_like(cx, t, cb, bid, case, anchor, wh, array=False):
    """Sequences and arrays into collections (and, through a collection, fixed arrays)."""
    rep = cx.rep
    cont, st, args, snap = case
    L0 = set(cx.e.loops)
    outs = runs(cx, bid, case)
    props = 'C20' if not array else 'C20 C09'
    new = {l: cx.e.loops[l] for l in set(cx.e.loops) - L0}
    used = set()
    for s, v, evs in outs:
        for s1, o, x in ok_err(cx, s, v):
            core = [e for e in evs if e['k'] == 'core']
            coll = [e for e in evs if e['k'] == 'collected']
            lids = [y[1] for y in subterms(x) if y and y[0] == 'loop' and len(y) == 2]
            if o == 0:
                good = len(set(lids)) == 1 and whole_collected(x, lids[0], array, cx, s1)
                if good is None:
                    raise Incomplete('the collection is built by %s' % show(x, 6))
                rep.ob(props, 'collection-holds-all', anchor, good, lambda: 'what is handed out is %s, not every decoded item in order' % show(x, 6), wh)
                if lids:
                    used.add(lids[0])
                # iteration ends only when nothing is left
                lf = remaining(cx, s1, cont, args[1])
                rep.ob(props + ' C03', 'collection-to-the-end', anchor, all(a.eq(n, ZERO) for a, n in lf) and not core, lambda: 'iteration stops although items may be left (%s)' % [show(n) for a, n in lf], wh)
                if array:
                    n = konst_n(cx, t)
                    ln = coll_len(x)
                    rep.ob('C09', 'array-length-checked', anchor, n is not None and ln is not None and s1.eq(ln, n), lambda: 'an array is produced although the number of items is not known to be N', wh)
            else:
                kn, fs = err_kind(cx, x)
                if core and not core[-1]['ok']:
                    e = core[-1]
                    rep.ob(props + ' C02', 'collection-first-error', anchor, carries(cx, x, e['val']), lambda: 'the error of an item becomes %s' % show(x, 6), wh)
                    locs = locations(cx, evs)
                    rep.ob('C16', 'item-error-located', anchor, len(locs) == 1 and locs[0][0] == 'Index' and index_counts(cx, locs[0][1], new), lambda: 'the error of an item carries the locations %s' % [(a, show(b)) for a, b in locs], wh)
                elif array:
                    n = konst_n(cx, t)
                    g = kn == 'WrongLength' and fs.get('expected_len') == n and any(y and y[0] == 'loop' for y in subterms(fs['actual_len']))
                    rep.ob('C09', 'array-length-error', anchor, g, lambda: 'a wrong number of items is reported as %s %s' % (kn, {a: show(b, 5) for a, b in fs.items()}), wh)
                    if g:
                        rep.ob('C09', 'array-right-length-accepted', anchor, not possible(s1, [('eq', fs['actual_len'], n)]), 'the right number of items can be refused', wh)
                else:
                    rep.ob(props, 'collection-only-item-errors', anchor, False, 'an error that is no item\'s: %s' % show(x, 6), wh)
    # every turn decodes one item and keeps it
    for lid in used:
        L = new.get(lid)
        if L is None:
            raise Incomplete('loop of the collection')
        for h in L['heads'][:1]:
            n0 = remaining(cx, h, cont, args[1])
        cell = [e for s, v, evs in outs for e in evs if e['k'] == 'collected' and e['loop'] == lid]
        for bk in L['backs']:
            core = [e for e in bk.trace[L['prefix']:] if e['k'] == 'core']
            rep.ob(props, 'one-item-per-turn', anchor, len(core) == 1 and core[0]['ok'], lambda: 'a turn of the loop decodes %d items' % len(core), wh)
            its = [cx.e.deep(bk, bk.mem.get(cell[0]['icell'], UNIT))] if cell else grown_items(cx, L, bk)
            if len(core) == 1 and its:
                it = its[0]
                val = core[0]['val']
                rep.ob(props, 'item-kept-unchanged', anchor, it == val or it == ok(val), lambda: 'the item put into the collection is %s' % show(it, 6), wh)
                into = into_of(core[0]['visitor'])
                want = item_type(t['ty'])
                rep.ob(props, 'item-target', anchor, into is None or into == want, lambda: 'items are decoded as %s' % into, wh)


def grown_items(cx, L, bk):
    """What a turn put into the collection the loop grows."""
    out = []
    for cell, path in L['grown']:
        try:
            h = cx.e.read(L['head'], (cell, path, None))
            b = cx.e.read(bk, (cell, path, None))
        except (Incomplete, Infeasible):
            continue
        x = cx.e.pushed(h, b)
        out.append(('app', 'nothing') if x is None else ('app', 'something_else') if x is False else cx.e.deep(bk, x))
    return out


def item_type(ty):
    if ty.startswith('['):
        return ty[1:].split(';')[0].strip()
    return ty[ty.index('<') + 1:-1].split(',')[0].strip()


def whole_collected(x, lid, array, cx, s):
    """Is x all items of the loop, in order?  None = unknown construction."""
    y = x
    if array:
        if y[0] == 'app' and 'array' in str(y[1]):
            y = y[-1]
        elif y[0] == 'array_of':
            y = y[1]
    if y[0] == 'vec':
        y = y[1]
    if y[0] == 'app' and y[1] == 'collected':
        y = y[-1]
    if y[0] == 'sl':
        if y[1][0] == 'items' and y[2] == ZERO and y[3] == ('len', y[1]):
            return True
        if y[1][0] == 'items' and y[2] == ZERO and s.eq(y[3], ('len', y[1])):
            return True
        return False
    names = [z[1] for z in subterms(x) if z and z[0] == 'app']
    if any(str(n).split('::')[-1] in ('reverse', 'rev', 'dedup', 'truncate', 'retain', 'sort', 'sort_unstable', 'pop', 'remove', 'swap', 'rotate_left', 'rotate_right', 'drain', 'split_off', 'clear', 'insert', 'pop_front', 'pop_back', 'append') for n in names):
        return False
    if 'collected' in names or y[0] == 'items':
        return None
    return None


def coll_len(x):
    for y in subterms(x):
        if y and y[0] == 'sl' and y[1][0] == 'items':
            return y[3]
    return None


def konst_n(cx, t):
    m = re.match(r'\[.*; (\w+)\]$', t['ty'])
    return ('app', 'konst', ('s', m.group(1) + ':usize')) if m else None


def index_counts(cx, idx, loops):
    """idx is a counter of a loop that starts at 0 and goes up by one every turn."""
    if idx == ZERO:
        return False
    for L in loops.values():
        head = L['head']
        hit = False
        for cell, v in head.mem.items():
            for path, y in leaves(v):
                if y == idx:
                    hit = True
                    v0 = at_path(cx, L['entry'], cell, path)
                    if v0 != ZERO:
                        return False
                    for bk in L['backs']:
                        v1 = at_path(cx, bk, cell, path)
                        if v1 is None or not bk.eq(v1, add(idx, ONE)):
                            return False
        if hit:
            return True
    return False


def leaves(v, path=(), d=0):
    yield path, v
    if d < 8 and v[0] == 'agg':
        for i, x in enumerate(v[3]):
            yield from leaves(x, path + (i,), d + 1)


def at_path(cx, st, cell, path):
    v = st.mem.get(cell)
    for i in path:
        if v is None or v[0] != 'agg' or i >= len(v[3]):
            return None
        v = v[3][i]
    return v


SAME_TEXT = ('from', 'into', 'to_owned', 'into_owned', 'owned', 'clone', 'cloned', 'copied', 'borrow', 'deref', 'as_ref', 'to_string', 'as_str', 'into_boxed_str', 'into_string', 'as_bytes', 'into_bytes', 'to_vec', 'unwrap', 'expect')


def altered_text(v):
    """Has this text been through a function of strings that gives another text, or is it only a part of one?"""
    while isinstance(v, tuple) and v:
        if v[0] == 'sl':
            if v[2] != ZERO or v[3] != ('len', v[1]) and not (v[1][0] == 's'):
                return v[2] != ZERO or v[3][0] == 'i'
            v = v[1]
        elif v[0] == 'app' and len(v) > 2:
            if re.search(r'(^|::)(str|string)::', str(v[1])) and str(v[1]).split('::')[-1] not in SAME_TEXT:
                return True
            if str(v[1]).split('::')[-1] not in SAME_TEXT:
                return False
            v = v[-1]
        elif v[0] == 'agg' and str(v[1]).endswith('Cow') and len(v[3]) == 1:
            v = v[3][0]
        elif v[0] in ('owned', 'box', '&') and len(v) > 1:
            v = v[1]
        else:
            return False
    return False


def name_map(cx, t, cb, bid, case, anchor, wh):
    rep = cx.rep
    cont, st, args, snap = case
    L0 = set(cx.e.loops)
    outs = runs(cx, bid, case)
    new = {l: cx.e.loops[l] for l in set(cx.e.loops) - L0}
    turned = 0

    def name_at(s):
        o = observe(cx, s, 'Composite', 'peek_name', args[1])
        return [(a, a.disc_of(v), v) for a, v in o]

    def key_ok(s, head, key):
        """Is the key the name the composite showed at the head of this turn?"""
        if altered_text(key):
            return False
        for a, d, v in name_at(head):
            v = cx.e.deep(a, v)
            for y in subterms(key):
                if y == v or (v[0] == 'agg' and v[1] == OPT and v[3] and (y == v[3][0])):
                    return True
                if y == ('fld', v, 1, 0):
                    return True
            if v[0] != 'agg' and any(y == v for y in subterms(key)):
                return True
        return False
    for lid, L in new.items():
        if L['where'].startswith('client calls'):
            continue
        for bk in L['backs']:
            turned += 1
            evs = bk.trace[L['prefix']:]
            core = [e for e in evs if e['k'] == 'core']
            ins = [e for e in evs if e['k'] == 'insert']
            rep.ob('C20', 'map-one-field-per-turn', anchor, len(core) == 1 and core[0]['ok'] and len(ins) <= 1, lambda: 'a turn decodes %d fields and stores %d' % (len(core), len(ins)), wh)
            if len(core) != 1:
                continue
            named = None
            for h in L['heads']:
                for a, d, v in name_at(h):
                    dd = bk.disc_of(cx.e.deep(a, v)) if d is None else d
                    named = dd if named is None else (named if named == dd else 'both')
            if ins:
                e = ins[0]
                rep.ob('C20', 'map-value', anchor, cx.e.deep(bk, e['val']) == core[0]['val'], lambda: 'the value stored is %s' % show(e['val']), wh)
                rep.ob('C20 C10', 'map-key', anchor, any(key_ok(bk, h, cx.e.deep(bk, e['key'])) for h in L['heads']), lambda: 'the key is %s, not the name of the field' % show(cx.e.deep(bk, e['key']), 7), wh)
            else:
                rep.ob('C20', 'map-named-kept', anchor, named == 0, lambda: 'a named field is passed over', wh)
    for s, v, evs in outs:
        for s1, o, x in ok_err(cx, s, v):
            core = [e for e in evs if e['k'] == 'core']
            if o == 0:
                lf = remaining(cx, s1, cont, args[1])
                rep.ob('C20 C03', 'map-to-the-end', anchor, all(a.eq(n, ZERO) for a, n in lf), lambda: 'the map ends although fields may be left (%s)' % [show(n) for a, n in lf], wh)
            elif core and not core[-1]['ok']:
                rep.ob('C20 C02', 'map-error', anchor, carries(cx, x, core[-1]['val']), lambda: 'the error of a field becomes %s' % show(x, 6), wh)
                ign = 'IgnoreVisitor' in show(core[-1]['visitor'], 3)
                locs = locations(cx, evs)
                if not ign:
                    rep.ob('C16', 'field-error-located', anchor, len(locs) == 1 and locs[0][0] == 'Field' and any(key_ok(s1, h, locs[0][1]) for L in new.values() for h in L['heads']), lambda: 'the error of a field carries the locations %s' % [(a, show(b, 6)) for a, b in locs], wh)
            else:
                rep.ob('C20', 'map-error', anchor, False, 'an error that is no field\'s: %s' % show(x, 6), wh)
    rep.ob('C20', 'map-iterates', anchor, turned > 0, 'the fields are not iterated over', wh)


def streq(a, b):
    x, y = sorted((a, b), key=repr)
    return ('streq', x, y)


def lit(s):
    return ('sl', ('s', s), ZERO, I(len(s.encode())))


def opt_res(cx, t, cb, bid, case, anchor, wh, table):
    """table: variant name -> (number of fields, target type of the field or None, builder)"""
    rep = cx.rep
    cont, st, args, snap = case
    nm = one(cx, st, 'Variant', 'name', args[1])
    name = cx.e.deep(nm[0], nm[1])
    while name[0] == '&':
        name = name[1]
    fo = one(cx, st, 'Variant', 'fields', args[1])
    left = remaining(cx, fo[0], 'Composite', fo[1])
    if len(left) != 1:
        raise Incomplete('remaining() of the variant')
    left = left[0][1]
    seen = set()
    for s, v, evs in runs(cx, bid, case):
        core = [e for e in evs if e['k'] == 'core']
        for s1, o, x in ok_err(cx, s, v):
            if not core and o == 1:
                kn, fs = err_kind(cx, x)
                got = fs.get('got')
                rep.ob('C10', 'unknown-variant-named', anchor, kn == 'CannotFindVariant' and got is not None and any(y == name for y in subterms(got)) and not altered_text(got) or (kn == 'WrongLength'), lambda: 'a source variant the target does not know is reported as %s %s' % (kn, {a: show(b, 5) for a, b in fs.items()}), wh)
                texts = [y[1][1] for y in subterms(fs.get('expected', ())) if y and y[0] == 'sl' and isinstance(y[1], tuple) and y[1][0] == 's']
                if texts:
                    rep.ob('C10', 'unknown-variant-alternatives', anchor, sorted(set(texts)) == sorted(table), lambda: 'the variants said to be expected are %s' % texts, wh)
                for vn, (n, pt, build) in table.items():
                    rep.ob('C10 C09', 'known-variant-accepted', anchor, not possible(s1, [('true', streq(name, lit(vn)), None), ('eq', left, I(n))]), lambda: 'a %s with %d field(s) can be refused' % (vn, n), wh)
                continue
            vn = None
            for w in table:
                if s1.bool_value(streq(name, lit(w))) is True:
                    vn = w
            rep.ob('C10', 'variant-by-name', anchor, vn is not None, lambda: 'a value is produced although the name of the source variant is not known to match', wh)
            if vn is None:
                continue
            n, pt, build = table[vn]
            seen.add(vn)
            rep.ob('C09', 'variant-field-count', anchor, s1.eq(left, I(n)), lambda: '%s is produced from a source not known to have %d field(s)' % (vn, n), wh)
            rep.ob('C10', 'variant-payload-decode', anchor, len(core) == n, lambda: '%s decodes %d fields' % (vn, len(core)), wh)
            if len(core) != n:
                continue
            if o == 0:
                rep.ob('C10', 'variant-built', anchor, x == build(*[e['val'] for e in core]), lambda: 'the source variant %s becomes %s' % (vn, show(x, 6)), wh)
                for e in core:
                    rep.ob('C10', 'variant-payload-type', anchor, into_of(e['visitor']) in (None, pt), lambda: 'the payload of %s is decoded as %s' % (vn, into_of(e['visitor'])), wh)
            else:
                rep.ob('C02', 'variant-error', anchor, bool(core) and not core[-1]['ok'] and carries(cx, x, core[-1]['val']), lambda: 'the error of the payload becomes %s' % show(x, 6), wh)
                locs = locations(cx, evs)
                rep.ob('C16', 'variant-error-located', anchor, len(locs) == 1 and locs[0][0] == 'Variant' and any(text_is(y, vn) for y in subterms(locs[0][1])), lambda: 'the error inside %s carries the locations %s' % (vn, [(a, show(b)) for a, b in locs]), wh)
    rep.ob('C10', 'variants-all-known', anchor, seen == set(table), lambda: 'only %s can be produced' % sorted(seen), wh)


# --- wrappers: targets that decode as something else -----------------------------------------------
WRAP = {
    'parity_scale_codec::Compact': 'agg', 'codec::Compact': 'agg', 'alloc::sync::Arc': 'app', 'alloc::rc::Rc': 'app', 'alloc::boxed::Box': 'app', 'alloc::borrow::Cow': 'app',
    'core::time::Duration': 'duration', 'core::ops::Range': 'range', 'core::ops::RangeInclusive': 'range',
    'primitive_types::H128': 'agg', 'primitive_types::H160': 'agg', 'primitive_types::H256': 'agg', 'primitive_types::H384': 'agg', 'primitive_types::H512': 'agg', 'primitive_types::H768': 'agg',
}
PURE_WRAPPERS = ('new', 'from', 'into', 'Owned', 'Compact', 'from_slice', 'pin')


def fld(v, i):
    if v[0] == 'agg':
        return v[3][i]
    return ('fld', v, None, i)


SEC = I(1000000000)


def overflows(cx, s, val):
    """Are the seconds and what the nanoseconds carry known to be too many?"""
    v = cx.e.deep(s, val)
    a, b = fld(v, 0), fld(v, 1)
    return not possible(s, [('ge', I(2 ** 64 - 1), add(a, ('app', 'Div', b, SEC)))])


def wrapped_ok(cx, t, how, x, val):
    """True / False / None (not understood)"""
    if how == 'same':
        return x == val
    if how in ('agg', 'app'):
        if x == val:
            return None
        if x[0] == 'agg' and len(x[3]) == 1:
            return x[3][0] == val
        if x[0] == 'agg' and str(x[1]).endswith('Cow') and len(x[3]) == 1:
            return x[3][0] == val
        if x[0] == 'app' and str(x[1]).split('::')[-1] in PURE_WRAPPERS:
            return len(x) == 4 and x[3] == val
        if x[0] == 'box':
            return x[1] == val
        return None
    a, b = fld(val, 0), fld(val, 1)
    if how == 'range':
        if x[0] == 'agg':
            fs = [y for y in x[3]]
            return fs[:2] == [a, b] and all(f == FALSE for f in fs[2:])
        if x[0] == 'app' and str(x[1]).split('::')[-1] == 'new':
            return list(x[3:5]) == [a, b] and len(x) == 5
        return None
    if how == 'duration':
        apps = [y for y in subterms(x) if y and y[0] == 'app']
        names = [str(y[1]).split('::')[-1] for y in apps]
        if 'new' in names:
            names = [n for n in names if n not in ('Div', 'Rem')]
        if not set(names) <= {'checked_add', 'from_secs', 'from_nanos', 'new', 'add', 'ok_or_else', 'ok_or'}:
            bad = {'from_millis', 'from_micros', 'saturating_add', 'wrapping_add', 'subsec_nanos'}
            return False if set(names) & bad else None
        for y in apps:
            n = str(y[1]).split('::')[-1]
            if n == 'from_secs' and list(y[3:]) != [a]:
                return False
            if n == 'from_nanos' and list(y[3:]) != [b]:
                return False
            if n == 'new' and list(y[3:]) != [a, b] and list(y[3:]) != [add(a, ('app', 'Div', b, SEC)), ('app', 'Rem', b, SEC)]:
                return False if set(y[3:]) <= {a, b} else None
        if 'new' in names:
            return True
        return names.count('from_secs') == 1 and names.count('from_nanos') == 1 and ('checked_add' in names or 'add' in names)
    return None


def inner_type(t):
    ty = t['ty']
    b = base_name(ty)
    if b in ('core::ops::Range', 'core::ops::RangeInclusive', 'core::time::Duration') or b.startswith('primitive_types'):
        return None
    if b.endswith('Cow'):
        return '<%s as alloc::borrow::ToOwned>::Owned' % ty[ty.index('<') + 1:-1].split(',')[-1].strip()
    return ty[ty.index('<') + 1:-1].strip()


def hook_cases(cx, b):
    st = St()
    args = [cx.e.param('self', b['locals'][1])] + [cx.e.param('p%d' % j, b['locals'][j + 1]) for j in range(1, b['argc'])]
    return st, args


def roles_hook(args):
    return {'data': args[1], 'tid': args[2], 'types': args[3], 'compact': args[4] if len(args) > 4 else FALSE}


def wrapper(cx, t, cb, bid, anchor, wh, how):
    rep = cx.rep
    b = cx.p.bodies[bid]
    st, args = hook_cases(cx, b)
    r = roles_hook(args)
    n = 0
    names = cx.variants(DECAT_)
    for s, v in cx.run(st, bid, args):
        v = cx.e.deep(s, v)
        evs = s.trace
        core = [e for e in evs if e['k'] == 'core']
        n += 1
        dec = v[0] == 'agg' and names[v[2]] == 'Decoded'
        rep.ob('C13', 'wrapper-delegates', anchor, dec and len(core) == 1, lambda: 'the outcome is %s after %d inner decodes' % (show(v, 6), len(core)), wh)
        if not dec or len(core) != 1:
            continue
        e = core[0]
        rep.ob('C13 C01', 'wrapper-same-input', anchor, e['at'] == whole_param(args[1]) and cx.e.deep(s, e['tid']) == args[2] and cx.e.deep(s, e['types'] or args[3]) == cx.e.deep(s, args[3]), lambda: 'the inner decode runs at %s with type %s' % (show(e['at']), show(e['tid'])), wh)
        rep.ob('C13 C05', 'wrapper-same-compact', anchor, e['compact'] == r['compact'], lambda: 'inside a compact value the inner decode is told compact = %s' % show(e['compact']), wh)
        want = inner_type(t) if how != 'same' else None
        got = into_of(e['visitor'])
        if how == 'same':
            rep.ob('C13', 'wrapper-inner-visitor', anchor, e['visitor'] == ('fld', args[0], None, 0), lambda: 'the inner visitor is %s' % show(e['visitor']), wh)
        rep.ob('C13', 'wrapper-inner-target', anchor, got is None or want is None or got == want, lambda: 'the inner target is %s' % got, wh)
        for s1, o, x in ok_err(cx, s, v[3][0]):
            if not e['ok']:
                rep.ob('C13 C02', 'wrapper-same-error', anchor, o == 1 and cx.peel(x) == e['val'] and not locations(cx, evs), lambda: 'the inner error becomes %s' % show(x, 6), wh)
            elif o == 0:
                at = s1.mem.get(('E', args[1]), whole_param(args[1]))
                rep.ob('C13 C01', 'wrapper-consumes-what-the-inner-decode-did', anchor, seq(s1, at, e['after']), lambda: 'the input is left at %s, the inner decode left it at %s' % (show(at), show(e['after'])), wh)
                w = wrapped_ok(cx, t, how, x, cx.e.deep(s1, e['val']))
                if w is None:
                    raise Incomplete('%s is made by %s' % (t['ty'], show(x, 6)))
                rep.ob('C13', 'wrapper-value', anchor, w, lambda: 'the inner value %s becomes %s' % (show(e['val']), show(x, 6)), wh)
            else:
                kn, fs = err_kind(cx, x)
                rep.ob('C13', 'wrapper-no-new-error', anchor, how == 'duration' and kn == 'NumberOutOfRange' and (overflows(cx, s1, e['val']) or any(y and y[0] == 'app' and 'checked' in str(y[1]) for y in list(s1.disc) + list(s1.ndisc) for y in subterms(y))), lambda: 'the inner value is there, and yet the outcome is %s' % show(x, 6), wh)
    rep.ob('C13', 'wrapper-runs', anchor, n > 0, 'no outcome', wh)


def whole_param(p):
    return ('sl', ('deref', p), ZERO, ('len', ('deref', p)))


DECAT_ = 'visitor::DecodeAsTypeResult'


def one_tuple_hook(cx, t, cb, bid, anchor, wh):
    rep = cx.rep
    b = cx.p.bodies[bid]
    st, args = hook_cases(cx, b)
    r = roles_hook(args)
    names = cx.variants(DECAT_)
    kinds = set()
    for s, v in cx.run(st, bid, args):
        v = cx.e.deep(s, v)
        evs = s.trace
        core = [e for e in evs if e['k'] == 'core']
        res = [e for e in evs if e['k'] == 'resolve']
        dec = v[0] == 'agg' and names[v[2]] == 'Decoded'
        if not dec:
            rep.ob('C12 C22', 'one-tuple-falls-back', anchor, not core and cx.e.deep(s, v[3][0]) == args[0], lambda: 'the outcome is %s' % show(v, 6), wh)
            for e in res:
                rep.ob('C12', 'one-tuple-accepts-bare', anchor, not (e['ans'] == 'answer' and s.bool_value(e['val']) is True), lambda: 'a bare value is not tried', wh)
            kinds.add('skip')
            continue
        kinds.add('dec')
        rep.ob('C12', 'one-tuple-only-bare', anchor, len(res) == 1 and res[0]['ans'] == 'answer' and s.bool_value(res[0]['val']) is True, lambda: 'the inner type is tried although the kind was not asked for or not right', wh)
        if len(core) != 1:
            rep.ob('C12', 'one-tuple-one-decode', anchor, False, '%d inner decodes' % len(core), wh)
            continue
        e = core[0]
        rep.ob('C12 C01 C05', 'one-tuple-same-input', anchor, e['at'] == whole_param(args[1]) and cx.e.deep(s, e['tid']) == args[2] and e['compact'] == r['compact'], lambda: 'the inner decode runs at %s, type %s, compact %s' % (show(e['at']), show(e['tid']), show(e['compact'])), wh)
        rep.ob('C12', 'one-tuple-inner-target', anchor, into_of(e['visitor']) in (None, tuple_parts(t['ty'])[0]), lambda: 'inner target %s' % show(e['visitor']), wh)
        for s1, o, x in ok_err(cx, s, v[3][0]):
            if e['ok']:
                rep.ob('C12', 'one-tuple-value', anchor, o == 0 and x == ('agg', 'tuple', 0, (e['val'],)), lambda: 'the inner value becomes %s' % show(x, 6), wh)
                at = s1.mem.get(('E', args[1]), whole_param(args[1]))
                rep.ob('C12 C01', 'one-tuple-consumes-what-the-inner-decode-did', anchor, o != 0 or seq(s1, at, e['after']), lambda: 'the input is left at %s, the inner decode left it at %s' % (show(at), show(e['after'])), wh)
            else:
                rep.ob('C12 C02', 'one-tuple-error', anchor, o == 1 and carries(cx, x, e['val']) and not locations(cx, evs), lambda: 'the inner error becomes %s' % show(x, 6), wh)
    rep.ob('C12', 'one-tuple-both-ways', anchor, kinds == {'skip', 'dec'}, lambda: 'only %s' % sorted(kinds), wh)


def ask_kind(cx):
    """The resolver visitors that answer yes or no: which kinds mean that a bare value is tried."""
    rep = cx.rep
    for i in cx.p.impls:
        if norm(i['trait']) != 'scale_type_resolver::ResolvedTypeVisitor' or i['crate'] != 'scale_decode':
            continue
        d = dict((a, b) for a, b in i['types'])
        if 'Value' not in d or cx.p.types[d['Value']]['k'] != 'bool':
            continue
        anchor = 'bare value into a 1-tuple'
        for m in i['methods']:
            b = cx.p.bodies.get(m['id'])
            if b is None:
                continue
            st = St()
            args = [cx.e.param('p%d' % j, b['locals'][j + 1]) for j in range(b['argc'])]
            for s, v in cx.run(st, m['id'], args):
                k = m['name']
                v = cx.e.deep(s, v)
                if k == 'visit_unhandled':
                    # every kind of UnhandledKind
                    vs = cx.variants('scale_type_resolver::UnhandledKind')
                    d0 = s.disc_of(args[1])
                    poss = [d0] if d0 is not None else [j for j in range(len(vs)) if j not in s.ndisc.get(args[1], ())]
                    for j in poss:
                        z = s.copy()
                        try:
                            z.set_disc(args[1], j)
                        except Infeasible:
                            continue
                        want = vs[j] not in ('Composite', 'Tuple', 'NotFound')
                        got = z.bool_value(v)
                        if got is None:
                            raise Incomplete('answer for %s' % vs[j])
                        rep.ob('C12', 'one-tuple-kind', '%s: %s' % (anchor, vs[j]), got == want, lambda: 'a %s is %s' % (vs[j], 'tried as the inner value' if got else 'not tried as the inner value'), cx.where(m['id']))
                else:
                    kk = k[len('visit_'):]
                    want = kk not in ('composite', 'tuple', 'not_found')
                    got = s.bool_value(v)
                    if got is None:
                        # the trait's own default: an answer through visit_unhandled
                        continue
                    rep.ob('C12', 'one-tuple-kind', '%s: %s' % (anchor, kk), got == want, lambda: 'a %s is %s' % (kk, 'tried as the inner value' if got else 'not tried as the inner value'), cx.where(m['id']))


def same_args(cx, s, ev, args):
    """The same arguments, after the visitor itself."""
    a = ev['args'][1:]
    for x, y in zip(a, args[1:]):
        if x != y and cx.e.deep(s, x) != cx.e.deep(s, y) and not (x[0] == 'ref' and y[0] == 'param'):
            return False
    return len(a) == len(args) - 1


# --- the table ---------------------------------------------------------------------------------
def plan(t):
    """callback -> (checker, extra args), or None for a target this table does not know."""
    ty = t['ty']
    b = base_name(ty)
    m = re.match(r'core::num::(?:NonZero<(\w+)>|NonZero(\w+))$', ty)
    wr = {'visit_composite': (transparent, ()), 'visit_tuple': (transparent, ())}
    if ty in INTS or ty in ('usize', 'isize') or m:
        name = (m.group(1) or m.group(2).lower()) if m else ty
        d = {'visit_' + n: (number, (name, bool(m))) for n in INTS}
        d.update(wr)
        return d
    if ty in ('char', 'bool'):
        return dict(wr, **{'visit_' + ty: (identity, ())})
    if ty == 'alloc::string::String':
        return dict(wr, visit_str=(string, ()))
    if b.endswith('::Bits'):
        return dict(wr, visit_bitsequence=(bits, ()))
    if b == 'core::marker::PhantomData':
        return {'visit_composite': (phantom, ()), 'visit_tuple': (phantom, ())}
    if b in LISTS:
        return dict(wr, visit_sequence=(list_like, ()), visit_array=(list_like, ()))
    if ty.startswith('['):
        return dict(wr, visit_sequence=(list_like, (True,)), visit_array=(list_like, (True,)))
    if b.endswith('BTreeMap'):
        return {'visit_composite': (name_map, ())}
    if b == OPT:
        T = item_type(ty)
        return dict(wr, visit_variant=(opt_res, ({'Some': (1, T, lambda v: ('agg', OPT, 1, (v,))), 'None': (0, None, lambda: ('agg', OPT, 0, ()))},)))
    if b == RES:
        T, E = [x.strip() for x in ty[ty.index('<') + 1:-1].split(',')]
        return dict(wr, visit_variant=(opt_res, ({'Ok': (1, T, lambda v: ok(v)), 'Err': (1, E, lambda v: err(v))},)))
    if ty.startswith('('):
        return {'visit_composite': (tup, ()), 'visit_tuple': (tup, ())}
    return None


CB_PROPS = {transparent: 'C12 C07', number: 'C08', identity: 'C07 C17', string: 'C17', bits: 'C24', phantom: 'C09', list_like: 'C20 C16', name_map: 'C20 C16 C10', opt_res: 'C10 C09 C16', tup: 'C09 C16'}
ALLP = 'C07 C08 C09 C10 C12 C13 C16 C17 C20 C24 C05 C02 C01 C22'


def g_targets(cx):
    rep = cx.rep
    ts = targets(cx)
    rep.count('target visitors', len(ts))
    need = {'u8', 'bool', 'char', 'alloc::string::String', '()', '[T; N]'}
    have = set(t['ty'] for t in ts.values())
    for x in need - have:
        rep.ob('C07', 'target-exists', x, False, 'the target type %s is gone' % x)
    with rep.unit('C12', 'bare value kinds'):
        ask_kind(cx)
    for key, t in sorted(ts.items()):
        ty = t['ty']
        b = base_name(ty)
        hooks = [c for c in ('unchecked_decode_as_type', 'unchecked_decode_as_type_maybe_compact') if c in t['own']]
        short = ty if not ty.startswith('(') or len(ty) < 14 else '(%d-tuple)' % len(tuple_parts(ty))
        if b in WRAP:
            for c in ('unchecked_decode_as_type', 'unchecked_decode_as_type_maybe_compact'):
                anchor = '%s: %s' % (short, c)
                with rep.unit('C13 C05 C02 C01', anchor):
                    if c not in t['own']:
                        rep.ob('C13 C05', 'wrapper-delegates', anchor, False, 'the hook that delegates to the inner type is gone', t['self'])
                        continue
                    wrapper(cx, t, c, t['methods'][c], anchor, cx.where(t['methods'][c]), WRAP[b])
            continue
        if t['self'].split('<')[0].endswith('VisitorWithCrateError'):
            for c in ('unchecked_decode_as_type', 'unchecked_decode_as_type_maybe_compact'):
                anchor = 'VisitorWithCrateError: %s' % c
                with rep.unit('C13 C05 C02 C01 C22', anchor):
                    if c not in t['own']:
                        rep.ob('C13 C05', 'wrapper-delegates', anchor, False, 'the hook that delegates to the inner visitor is gone', t['self'])
                        continue
                    wrapper(cx, t, c, t['methods'][c], anchor, cx.where(t['methods'][c]), 'same')
            continue
        pl = plan(t)
        if pl is None:
            continue
        if 'visit_unexpected' in t['own']:
            b0 = cx.p.bodies[t['methods']['visit_unexpected']]
            with rep.unit('C07', short):
                for s, v in cx.run(St(), b0['id'], [cx.e.param('p%d' % j, b0['locals'][j + 1]) for j in range(b0['argc'])]):
                    for s1, o, x in ok_err(cx, s, cx.e.deep(s, v)):
                        rep.ob('C07', 'unexpected-is-an-error', short, o == 1, 'the target accepts a kind it has no callback for', cx.where(b0['id']))
        for c in CALLBACKS:
            if c not in t['methods']:
                continue
            bid = t['methods'][c]
            fn, extra = pl.get(c, (refuse_all, ()))
            own = c in t['own']
            anchor = '%s: %s' % (short, c)
            if fn is refuse_all and not own:
                rep.ob('C07', 'unsupported-kind-refused', anchor, 'visit_unexpected' not in t['own'] or True)
                continue
            if not own:
                rep.ob(CB_PROPS[fn], 'kind-supported', anchor, False, 'the target has no callback for this kind any more', t['self'])
                continue
            with rep.unit(CB_PROPS.get(fn, 'C07'), anchor):
                cs = cases(cx, cx.p.bodies[bid], c)
                if not cs:
                    raise Incomplete('no container state for %s' % c)
                for case in cs:
                    L0 = set(cx.e.loops)
                    fn(cx, t, c, bid, case, anchor, cx.where(bid), *extra)
                    new = [L for l, L in cx.e.loops.items() if l not in L0]
                    with rep.unit('C02', anchor + ' failures'):
                        failures(cx, bid, case, new, anchor)
        if hooks:
            if ty.startswith('(') and len(tuple_parts(ty)) == 1:
                for c in hooks:
                    anchor = '%s: %s' % (short, c)
                    with rep.unit('C12', anchor):
                        one_tuple_hook(cx, t, c, t['methods'][c], anchor, cx.where(t['methods'][c]))
        if ty.startswith('(') and len(tuple_parts(ty)) == 1:
            rep.ob('C12', 'one-tuple-hooks', short, len(hooks) == 2, 'a bare value does not reach the one-element tuple (plain or compact)', t['self'])
