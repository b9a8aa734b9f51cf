"""G6: what visitors do by default, the ignoring visitor, and how errors are built and shown."""
import re
from cx import *
from engine import norm
from rules_targets import CALLBACKS, UNX, EK, ERR, ok_err, aggs, same_args
from rules_core import adt_named

LOC = 'error::context::Loc'
LOCN = 'error::context::Location'
ALLP = 'C07 C22 C16 C09 C10 C02 C05'


def body_named(cx, npath, generic=True):
    """The generic body of a function, by public path."""
    for b in cx.p.bodies.values():
        if b['npath'] == npath and b['crate'] == 'scale_decode':
            if not generic or not b['args'] or cx.p.types[b['args'][0]]['k'] == 'param' or cx.p.types[b['args'][0]]['s'] in ('Self',):
                return b
    for b in cx.p.bodies.values():
        if b['npath'] == npath:
            return b
    return None


def self_body(cx, npath):
    for b in cx.p.bodies.values():
        if b['npath'] == npath and b['args'] and cx.p.types[b['args'][0]]['s'] == 'Self':
            return b
    return None


def impl_of(cx, trait, selfs, crate='scale_decode'):
    for i in cx.p.impls:
        if norm(i['trait']) == trait and i['crate'] == crate and norm(i['selfs']).split('<')[0] == selfs:
            return i
    return None


def params(cx, b):
    return [cx.e.param('p%d' % j, b['locals'][j + 1], True) for j in range(b['argc'])]


def outs(cx, b, args=None, st=None):
    st = st or St()
    n = len(st.trace)
    return [(s, cx.e.deep(s, v), s.trace[n:]) for s, v in cx.run(st, b['id'], args if args is not None else params(cx, b))]


# what takes items out of a list, or puts them elsewhere in it
SHUFFLING = re.compile(r'(Vec|VecDeque|SmallVec|slice|\[T\]|LinkedList)\b.*::(truncate|clear|pop|pop_front|pop_back|pop_if|remove|swap_remove|retain|retain_mut|dedup|dedup_by|dedup_by_key|drain|split_off|set_len|reverse|sort\w*|rotate_left|rotate_right|swap|insert|fill)$')


def shuffled(evs):
    return next((e['path'] for e in evs if e['k'] == 'opaque' and SHUFFLING.search(e.get('path') or '')), None)


def kind_name(cb):
    return cb[len('visit_'):].replace('_', '')


def g_defaults(cx):
    rep = cx.rep
    names = cx.variants(UNX)
    # --- the callbacks' defaults
    for cb in CALLBACKS:
        anchor = 'default %s' % cb
        with rep.unit('C07', anchor):
            b = self_body(cx, 'visitor::Visitor::%s' % cb)
            if b is None:
                rep.ob('C07', 'default-callback', anchor, True)     # required of the implementor: nothing to check
                continue
            wh = cx.where(b['id'])
            for s, v, evs in outs(cx, b):
                vis = [e for e in evs if e['k'] == 'visit']
                other = [e for e in evs if e['k'] in ('core', 'decode', 'hook', 'opaque')]
                if not vis:
                    d = v
                    u = [names[x[2]] for x in aggs(d, UNX)]
                    rep.ob('C07', 'default-callback', anchor, False, 'the default callback does not go through visit_unexpected (it answers %s)' % (u or 'without naming a kind'), wh)
                    continue
                ok = len(vis) == 1 and vis[0]['name'] == 'visit_unexpected'
                rep.ob('C07', 'default-callback', anchor, ok, 'the default callback calls %s instead of visit_unexpected once' % ', '.join(e['name'] for e in vis), wh)
                if not ok:
                    continue
                u = [x for a in vis[0]['dargs'] for x in aggs(a, UNX)]
                got = names[u[0][2]].lower() if len(u) == 1 else None
                if got is None:
                    raise Incomplete('the kind given to visit_unexpected is not a constant')
                rep.ob('C07', 'default-names-the-kind', anchor, got == kind_name(cb), 'the default for %s reports the kind %s' % (cb, got), wh)
                rep.ob('C07', 'default-names-the-kind', anchor, vis[0]['dargs'][0] == ('param', 'p0'), 'visit_unexpected is called on another visitor', wh)
                for s1, o, x in ok_err(cx, s, v):
                    rep.ob('C07 C02', 'default-result-as-is', anchor, (o == 0) == bool(vis[0]['ok']) and x == vis[0]['val'], 'the result of visit_unexpected is not returned as it is', wh)
    with rep.unit('C07', 'default visit_unexpected'):
        b = self_body(cx, 'visitor::Visitor::visit_unexpected')
        if b is None:
            raise Missing('the default of Visitor::visit_unexpected')
        for s, v, evs in outs(cx, b):
            for s1, o, x in ok_err(cx, s, v):
                rep.ob('C07', 'default-unexpected-is-an-error', 'visit_unexpected', o == 1, 'by default an unhandled kind is accepted', cx.where(b['id']))
                if o == 1:
                    de = cx.decode_error(s1, x)
                    if de is None:
                        raise Incomplete('error built another way')
                    rep.ob('C07', 'default-unexpected-is-an-error', 'visit_unexpected', de[0] == 'Unexpected' and de[1] == (('param', 'p1'),), 'the error for an unhandled kind is %s, which does not name that kind' % de[0], cx.where(b['id']))
    # --- the names shown
    with rep.unit('C07', 'Unexpected: text'):
        i = impl_of(cx, 'core::fmt::Display', UNX)
        if i is None:
            raise Missing('Display of Unexpected')
        b = cx.p.bodies[i['methods'][0]['id']]
        seen = set()
        for s, v, evs in outs(cx, b):
            k = disc_of_self(s)
            if k is None:
                raise Incomplete('the text does not depend on the kind alone')
            seen.add(k)
            txt = [t for e in evs if is_write(e) for t in texts(e)]
            rep.ob('C07', 'kind-text', names[k], ''.join(txt).replace(' ', '').replace('_', '').lower() == names[k].lower(), 'the kind %s is shown as %r' % (names[k], ''.join(txt)), cx.where(b['id']))
        rep.ob('C07', 'kind-text', 'all', seen == set(range(len(names))), 'not every kind has a text', cx.where(b['id']))
    # --- hooks
    with rep.unit('C22', 'default hook'):
        b = self_body(cx, 'visitor::Visitor::unchecked_decode_as_type')
        if b is None:
            raise Missing('the default of Visitor::unchecked_decode_as_type')
        sk = result_variants(cx)
        for s, v, evs in outs(cx, b):
            ok = v[0] == 'agg' and v[1].endswith('DecodeAsTypeResult') and v[2] == sk['Skipped'] and v[3] == (('param', 'p0'),)
            rep.ob('C22', 'default-hook-skips', 'unchecked_decode_as_type', ok, 'the default hook does not hand the visitor back as it was: %s' % show(v, 4), cx.where(b['id']))
            rep.ob('C22 C01', 'default-hook-reads-nothing', 'unchecked_decode_as_type', not wrote(s, b, 1), 'the default hook changes the input', cx.where(b['id']))
    with rep.unit('C22 C05', 'default compact hook'):
        b = self_body(cx, 'visitor::Visitor::unchecked_decode_as_type_maybe_compact')
        if b is None:
            raise Missing('the default of Visitor::unchecked_decode_as_type_maybe_compact')
        wh = cx.where(b['id'])
        sk = result_variants(cx)
        roles = roles_of(cx, b)
        for s, v, evs in outs(cx, b):
            h = [e for e in evs if e['k'] == 'hook']
            comp = s.bool_value(('param', roles['compact'])) if roles.get('compact') else None
            if not h and v[0] == 'agg' and v[2] == sk['Skipped'] and v[3] == (('param', 'p0'),):
                # not asking is only right when the caller cannot be using the plain hook here
                rep.ob('C22', 'default-compact-hook', 'maybe_compact', False, 'the visitor\'s own hook is not asked%s' % ('' if comp is None else ' when the context is %scompact' % ('' if comp else 'not ')), wh)
                continue
            rep.ob('C22', 'default-compact-hook', 'maybe_compact', len(h) == 1 and h[0]['name'] == 'unchecked_decode_as_type', 'the visitor\'s own hook is asked %d times' % len(h), wh)
            if len(h) != 1:
                continue
            want = [('param', 'p%d' % j) for j in range(b['argc']) if 'p%d' % j != roles.get('compact')]
            rep.ob('C22', 'default-compact-hook', 'maybe_compact arguments', list(h[0]['dargs']) == want, 'the hook is asked about something else', wh)
            if h[0]['kind'] == 'Skipped':
                ok = v[0] == 'agg' and v[2] == sk['Skipped'] and v[3][0] == h[0]['val']
            else:
                ok = v[0] == 'agg' and v[2] == sk['Decoded'] and v[3][0][0] == 'agg' and v[3][0][2] == (0 if h[0]['ok'] else 1) and v[3][0][3][0] == h[0]['val']
            rep.ob('C22 C02', 'default-compact-hook', 'maybe_compact answer', ok, 'the answer of the hook is not returned as it is: %s' % show(v, 5), wh)
    for name, kept, mapped in (('map_decoded', 'Skipped', 'Decoded'), ('map_skipped', 'Decoded', 'Skipped')):
        with rep.unit('C22', name):
            b = None
            for x in cx.p.bodies.values():
                if re.match(r'visitor::DecodeAsTypeResult::<.*>::%s$' % name, x['npath']):
                    b = x
                    break
            if b is None:
                raise Missing('DecodeAsTypeResult::%s' % name)
            sk = result_variants(cx)
            wh = cx.where(b['id'])
            for s, v, evs in outs(cx, b):
                d = s.disc_of(('param', 'p0'))
                if d is None or v[0] != 'agg':
                    raise Incomplete('not a case split')
                rep.ob('C22', 'map-keeps-the-case', name, v[2] == d, '%s turns one outcome into the other' % name, wh)
                pay = ('fld', ('param', 'p0'), d, 0)
                called = [e for e in evs if 'call_once' in str(e.get('path')) or 'call_mut' in str(e.get('path'))]
                if d == sk[kept]:
                    rep.ob('C22', 'map-keeps-the-other', name, v[3][0] == pay and not called, '%s changes the outcome it should leave alone' % name, wh)
                else:
                    rep.ob('C22', 'map-maps', name, len(called) == 1 and cx.contains(v[3][0], pay) and cx.contains(v[3][0], ('param', 'p1')), '%s does not return what the function makes of the payload' % name, wh)
    # --- the ignoring visitor
    with rep.unit('C07', 'IgnoreVisitor'):
        ig = None
        for i in cx.p.impls:
            if norm(i['trait']) == 'visitor::Visitor' and norm(i['selfs']).split('<')[0].endswith('IgnoreVisitor') and i['crate'] == 'scale_decode':
                ig = i
        if ig is None:
            raise Missing('Visitor for IgnoreVisitor')
        for m in ig['methods']:
            b = cx.p.bodies.get(m['id'])
            if b is None or b['npath'].startswith('visitor::Visitor::') and m['name'] != 'visit_unexpected':
                continue
            if m['name'] not in CALLBACKS + ('visit_unexpected', 'unchecked_decode_as_type', 'unchecked_decode_as_type_maybe_compact'):
                continue
            wh = cx.where(b['id'])
            anchor = 'IgnoreVisitor: %s' % m['name']
            with rep.unit('C07', anchor):
                if m['name'].startswith('unchecked'):
                    sk = result_variants(cx)
                    for s, v, evs in outs(cx, b):
                        ok = v[0] == 'agg' and v[2] == sk['Skipped']
                        rep.ob('C07 C22', 'ignoring-accepts', anchor, ok, 'the ignoring visitor takes over decoding', wh)
                    continue
                for s, v, evs in outs(cx, b):
                    for s1, o, x in ok_err(cx, s, v):
                        if o == 1 and any(cx.failing(e) for e in evs):
                            continue        # passing on what went wrong while reading is not its own refusal
                        rep.ob('C07', 'ignoring-accepts', anchor, o == 0, 'the ignoring visitor refuses a value', wh)
        rep.ob('C07', 'ignoring-accepts', 'visit_unexpected', any(m['name'] == 'visit_unexpected' and m['id'] in cx.p.bodies and not cx.p.bodies[m['id']]['npath'].startswith('visitor::Visitor::') for m in ig['methods']) or
               all(any(m['name'] == c and m['id'] in cx.p.bodies and not cx.p.bodies[m['id']]['npath'].startswith('visitor::Visitor::') for m in ig['methods']) for c in CALLBACKS),
               'the ignoring visitor does not accept unhandled kinds')
    errors(cx)


def result_variants(cx):
    for t in cx.p.types:
        if t['k'] == 'adt' and norm(t['path']) == 'visitor::DecodeAsTypeResult' and t.get('variants'):
            return {v['name']: i for i, v in enumerate(t['variants'])}
    raise Missing('DecodeAsTypeResult')


def roles_of(cx, b):
    out = {}
    for j in range(b['argc']):
        t = cx.p.types[b['locals'][j + 1]]
        if t['s'] == 'bool':
            out['compact'] = 'p%d' % j
    return out


def wrote(s, b, j):
    """Was the slice behind parameter j changed?"""
    d = ('deref', ('param', 'p%d' % j))
    v = s.mem.get(('E', ('param', 'p%d' % j)))
    return v is not None and v != d and v != whole(d)


def disc_of_self(s):
    for t in (('deref', ('param', 'p0')), ('param', 'p0')):
        d = s.disc_of(t)
        if d is not None:
            return d
    return None


# --- text ----------------------------------------------------------------------------------------
def is_write(e):
    return e['k'] == 'opaque' and 'core::fmt::' in str(e.get('path')) or e['k'] == 'opaque' and re.search(r'write_(fmt|str|char)|Display|Debug', str(e.get('path'))) is not None


def pieces(e):
    """[('lit', s) | ('arg', term)] in order, or None when the template is not understood."""
    out = []
    for a in e['args']:
        for t in ([a] if a[0] == 'sl' or a[0] == 'app' else []):
            if t[0] == 'sl' and t[1][0] == 's':
                out.append(('lit', str(t[1][1])))
            elif t[0] == 'sl':
                out.append(('arg', t))
            elif t[0] == 'app' and 'Arguments' in str(t[1]):
                tm = [x for x in subterms(t) if x[0] == 'app' and x[1] == 'mem']
                ar = [x for x in subterms(t) if x[0] == 'agg' and x[1] == 'array']
                if not tm:
                    lits = [x for x in subterms(t) if x[0] == 's' and False]
                    out.append(('other', t))
                    continue
                bs = [int(x) for x in re.findall(r'\d+', tm[0][2][1])]
                args = list(ar[0][3]) if ar else []
                i = 0
                k = 0
                while i < len(bs) and bs[i] != 0:
                    n = bs[i]
                    if n < 128:
                        out.append(('lit', bytes(bs[i + 1:i + 1 + n]).decode('utf8', 'replace')))
                        i += 1 + n
                    elif n == 0xC0:
                        if k >= len(args):
                            return None
                        out.append(('arg', args[k]))
                        k += 1
                        i += 1
                    else:
                        return None if not args else out + [('arg', a) for a in args[k:]]
            else:
                out.append(('arg', t))
    return out


def texts(e):
    return [x for k, x in (pieces(e) or []) if k == 'lit']


def mentions(cx, s, e, term):
    full = ('app', 'all') + tuple(cx.e.deep(s, a) if isinstance(a, tuple) else ('s', '') for a in e['args'])
    return any(y == term or y == ('deref', ('param', 'p0')) for y in subterms_upto(full, term))


def subterms_upto(t, want):
    return subterms(t)


def display_shows(cx, path, props, rule):
    """Every payload of every case of an error enum is part of its text."""
    rep = cx.rep
    i = impl_of(cx, 'core::fmt::Display', path)
    short = path.split('::')[-1]
    with rep.unit(props, '%s: text' % short):
        if i is None:
            raise Missing('Display of %s' % path)
        b = cx.p.bodies[i['methods'][0]['id']]
        wh = cx.where(b['id'])
        vs = cx.adt_variants(path)
        done = {}
        for s, v, evs in outs(cx, b):
            k = disc_of_self(s)
            if k is None and len(vs) > 1:
                raise Incomplete('the text does not depend on the case')
            k = k or 0
            done.setdefault(k, []).append((s, v, [e for e in evs if is_write(e)]))
        for k, rs in sorted(done.items()):
            vn = vs[k]['name']
            for idx, f in enumerate(vs[k]['fields']):
                pay = ('fld', ('deref', ('param', 'p0')), k, idx)
                # the fullest path through this case shows the payload
                ok = any(any(cx.contains(('app', 'x') + tuple(a for a in e['args'] if isinstance(a, tuple)), pay) for e in w) for s, v, w in rs)
                rep.ob(props, rule, '%s::%s.%s' % (short, vn, f[0]), ok, 'the text of %s::%s does not show its %s' % (short, vn, f[0]), wh)
            for s, v, w in rs:
                for e in w:
                    ps = pieces(e)
                    if not ps:
                        continue
                    last = ''
                    for kd, x in ps:
                        if kd == 'lit':
                            last = x
                            continue
                        hit = [idx for idx, f in enumerate(vs[k]['fields']) if isinstance(x, tuple) and cx.contains(x, ('fld', ('deref', ('param', 'p0')), k, idx))]
                        if len(hit) != 1 or len(vs[k]['fields']) < 2:
                            continue
                        fn = vs[k]['fields'][hit[0]][0]
                        words = re.findall(r'[a-z]+', last.lower())
                        lab = [w0 for w0 in words if w0 in ('expected', 'expects', 'got', 'actual', 'found')]
                        if not lab:
                            continue
                        want = 'expected' if lab[-1].startswith('expect') else 'got'
                        have = 'expected' if fn.startswith('expected') else 'got'
                        rep.ob(props, rule, '%s::%s.%s labelled' % (short, vn, fn), want == have, 'the text of %s::%s shows %s after %r' % (short, vn, fn, last), wh)
        rep.ob(props, rule, short, set(done) == set(range(len(vs))), 'not every case has a text', wh)


SHOWN = ('visitor::DecodeError', 'visitor::Unexpected', 'error::ErrorKind', 'error::Error', 'error::context::Path', 'error::context::Location', 'error::context::Loc', 'error::context::Context')


def own_texts(cx):
    """The Display/Debug impls of the error types: each is judged on its own, a call of one shows its argument."""
    return {m['id'] for i in cx.p.impls if norm(i['trait']) in ('core::fmt::Display', 'core::fmt::Debug') and i['crate'] == 'scale_decode' and norm(i['selfs']).split('<')[0] in SHOWN for m in i['methods']}


def errors(cx):
    cx.e.stops = own_texts(cx)
    try:
        errors_(cx)
    finally:
        cx.e.stops = ()


def errors_(cx):
    rep = cx.rep
    display_shows(cx, DE, 'C16 C07', 'error-text')
    display_shows(cx, EK, 'C16 C09 C10', 'error-text')
    locs = cx.variants(LOC) if any(t['k'] == 'adt' and norm(t['path']) == LOC for t in cx.p.types) else None
    # --- rendering the whole error
    with rep.unit('C16', 'Error: text'):
        i = impl_of(cx, 'core::fmt::Display', ERR)
        if i is None:
            raise Missing('Display of Error')
        b = cx.p.bodies[i['methods'][0]['id']]
        cpath = accessor(cx, 'context')
        kpath = accessor(cx, 'kind')
        n = 0
        for s, v, evs in outs(cx, b):
            full = ('app', 'x') + tuple(a for e in evs if is_write(e) for a in e['args'] if isinstance(a, tuple))
            full = cx.e.deep(s, full)
            failed = any(s.disc_of(('ret', e.get('path'))) == 1 for e in evs) or (v[0] == 'agg' and v[2] == 1)
            if failed:
                continue
            n += 1
            rep.ob('C16', 'error-shows-locations', 'Error', cx.contains(full, cpath), 'the text of an error does not show where it happened', cx.where(b['id']))
            rep.ob('C16', 'error-shows-cause', 'Error', cx.contains(full, kpath), 'the text of an error does not show its cause', cx.where(b['id']))
        if not n:
            raise Incomplete('no successful rendering')
    # --- a new error has no locations, and is the error it was made from
    for name in ('new', 'custom', 'custom_str', 'custom_string'):
        anchor = 'Error::%s' % name
        with rep.unit('C16', anchor):
            b = body_named(cx, 'error::Error::%s' % name)
            if b is None:
                raise Missing(anchor)
            wh = cx.where(b['id'])
            for s, v, evs in outs(cx, b):
                v = cx.e.deep(s, v)
                rep.ob('C16', 'new-error-is-nowhere', anchor, not [e for e in evs if e['k'] == 'push'], 'a location is invented for an error that has none', wh)
                if v[0] == 'agg' and v[1] == ERR:
                    cf, kf = field_index(cx)
                    rep.ob('C16', 'new-error-keeps-its-cause', anchor, cx.contains(v[3][kf], ('param', 'p0')), lambda: 'the error is made of %s' % show(v[3][kf], 5), wh)
    # --- adding locations
    for name, var in (('at_idx', 'Index'), ('at_field', 'Field'), ('at_variant', 'Variant'), ('at', None)):
        anchor = 'Error::%s' % name
        with rep.unit('C16', anchor):
            b = body_named(cx, 'error::Error::%s' % name)
            if b is None:
                raise Missing(anchor)
            wh = cx.where(b['id'])
            for s, v, evs in outs(cx, b):
                ps = [e for e in evs if e['k'] == 'push']
                sh = shuffled(evs)
                if sh is not None and ps:
                    rep.ob('C16', 'locations-kept', anchor, False, 'locations gathered so far can be dropped or moved (%s)' % sh, wh)
                    continue
                if v[0] == 'agg' and v[1] == ERR:
                    cf, kf = field_index(cx)
                    rep.ob('C16', 'cause-not-altered', anchor, v[3][kf] == ('fld', ('param', 'p0'), None, kf), 'adding a location changes the cause', wh)
                    if v[3][cf] == ('fld', ('param', 'p0'), None, cf):
                        rep.ob('C16', 'location-added', anchor, False, 'the location is not added', wh)
                        continue
                    if not cx.contains(v[3][cf], ('fld', ('param', 'p0'), None, cf)):
                        rep.ob('C16', 'locations-kept', anchor, False, 'the locations gathered so far are dropped', wh)
                        continue
                elif v == ('param', 'p0'):
                    rep.ob('C16', 'location-added', anchor, False, 'the location is not added', wh)
                    continue
                if not ps:
                    raise Incomplete('locations are kept in another way')
                rep.ob('C16', 'location-added', anchor, len(ps) == 1, '%d locations are added' % len(ps), wh)
                x = cx.e.deep(s, ps[0]['val'])
                if var is None:
                    rep.ob('C16', 'location-kind', anchor, x == ('param', 'p1'), 'another location than the given one is added', wh)
                elif locs:
                    l = aggs(x, LOC)
                    if len(l) != 1:
                        raise Incomplete('location built another way')
                    rep.ob('C16', 'location-kind', anchor, locs[l[0][2]] == var, '%s adds a location of kind %s' % (name, locs[l[0][2]]), wh)
                    pay = l[0][3][0]
                    rep.ob('C16', 'location-payload', anchor, exact(cx, pay, ('param', 'p1')), 'the location added is not the given one: %s' % show(pay, 5), wh)
    with rep.unit('C16', 'Context::push'):
        b = body_named(cx, 'error::context::Context::push')
        if b is None:
            raise Missing('Context::push')
        for s, v, evs in outs(cx, b):
            ps = [e for e in evs if e['k'] == 'push']
            sh = shuffled(evs)
            if sh is not None and ps:
                rep.ob('C16', 'locations-kept', 'Context::push', False, 'locations gathered so far can be dropped or moved (%s)' % sh, cx.where(b['id']))
                continue
            cur = cx.e.deep(s, s.mem.get(('E', ('param', 'p0')), ('deref', ('param', 'p0'))))
            if not ps:
                rep.ob('C16', 'location-added', 'Context::push', cur != ('deref', ('param', 'p0')), 'the location is not kept', cx.where(b['id']))
                continue
            rep.ob('C16', 'location-added', 'Context::push', len(ps) == 1 and ps[0]['val'] == ('param', 'p1'), 'the location kept is not the given one', cx.where(b['id']))
    for name, var in (('idx', 'Index'), ('field', 'Field'), ('variant', 'Variant')):
        anchor = 'Location::%s' % name
        with rep.unit('C16', anchor):
            b = body_named(cx, 'error::context::Location::%s' % name)
            if b is None:
                raise Missing(anchor)
            for s, v, evs in outs(cx, b):
                l = aggs(v, LOC)
                if len(l) != 1 or not locs:
                    raise Incomplete('location built another way')
                rep.ob('C16', 'location-kind', anchor, locs[l[0][2]] == var, '%s makes a location of kind %s' % (anchor, locs[l[0][2]]), cx.where(b['id']))
                rep.ob('C16', 'location-payload', anchor, exact(cx, l[0][3][0], ('param', 'p0')), 'the location made is not the given one', cx.where(b['id']))
    # --- all locations are listed and shown
    with rep.unit('C16', 'Path::locations'):
        b = [x for x in cx.p.bodies.values() if re.match(r'error::context::Path(::)?<.*>::locations$', x['npath'])]
        if not b:
            raise Missing('Path::locations')
        for s, v, evs in outs(cx, b[0]):
            whole_iter(cx, s, v, 'locations', cx.where(b[0]['id']))
    with rep.unit('C16', 'Path::into_owned'):
        for b in [x for x in cx.p.bodies.values() if re.match(r'error::context::Path(::)?<.*>::into_owned$', x['npath'])]:
            for s, v, evs in outs(cx, b):
                v = cx.peel(v)
                if v[0] == 'agg' and len(v[3]) == 1:
                    v = v[3][0]
                kept = exact(cx, v, ('fld', ('param', 'p0'), None, 0))
                if not kept and any(y == ('param', 'p0') for y in subterms(v)):
                    raise Incomplete('the owned path is %s' % show(v))
                rep.ob('C16', 'owned-path-is-the-path', 'Path::into_owned', kept, lambda: 'the owned path is %s' % show(v), cx.where(b['id']))
    with rep.unit('C16', 'Path: text'):
        i = impl_of(cx, 'core::fmt::Display', 'error::context::Path')
        if i is None:
            raise Missing('Display of Path')
        b = cx.p.bodies[i['methods'][0]['id']]
        wh = cx.where(b['id'])
        before = set(cx.e.loops)
        rs = outs(cx, b)
        ls = [cx.e.loops[l] for l in cx.e.loops if l not in before]
        if len(ls) != 1 or not locs:
            raise Incomplete('%d loops' % len(ls))
        L = ls[0]
        shown = {}
        for bk in L['backs']:
            ev = [e for e in bk.trace[L['prefix']:] if is_write(e)]
            full = cx.e.deep(bk, ('app', 'x') + tuple(a for e in ev for a in e['args'] if isinstance(a, tuple)))
            d = [(t, c) for t, c in bk.disc.items() if loc_like(t)]
            hit = set((x[2] for x in subterms(full) if len(x) > 3 and x[0] == 'fld' and x[3] == 0 and x[2] is not None and isinstance(x[1], tuple) and loc_like(x[1])))
            ks = set(c for t, c in d if any(x[:2] == ('fld', t) for x in subterms(full))) or set(c for t, c in d)
            for c in ks:
                shown.setdefault(c, []).append(c in hit or not ev and False)
            if not d:
                # every location is shown the same way: it has to be shown at all
                rep.ob('C16', 'locations-shown', 'Path', bool(ev), 'a location is passed over when rendering', wh)
        for c, oks in shown.items():
            if c < len(locs):
                rep.ob('C16', 'locations-shown', locs[c], all(oks), 'a %s location is not shown' % locs[c], wh)
        whole_iter(cx, L['entry'], None, 'Path: text', wh, L)
    # --- causes survive conversion
    for src, var in (('visitor::DecodeError', None), ('codec::Error', None)):
        with rep.unit('C16 C02', 'Error from %s' % src):
            i = [j for j in cx.p.impls if norm(j['trait']).startswith('core::convert::From') and norm(j['selfs']) == ERR and j['crate'] == 'scale_decode']
            found = 0
            for j in i:
                for m in j['methods']:
                    b = cx.p.bodies.get(m['id'])
                    if b is None or norm(cx.p.types[b['locals'][1]]['s']) not in (src, 'parity_scale_codec::Error' if src == 'codec::Error' else src):
                        continue
                    found += 1
                    for s, v, evs in outs(cx, b):
                        rep.ob('C16 C02', 'cause-kept', 'Error from %s' % src, cx.contains(v, ('param', 'p0')), 'the cause is lost when it becomes an Error', cx.where(b['id']))
                        de = aggs(v, EK)
                        if de:
                            rep.ob('C16 C02', 'cause-kept', 'Error from %s kind' % src, cx.variants(EK)[de[0][2]] == 'VisitorDecodeError', 'the cause becomes an error of kind %s' % cx.variants(EK)[de[0][2]], cx.where(b['id']))
            if not found:
                raise Incomplete('no such conversion here')


def loc_like(t):
    """Could this term be the Loc of the location at hand?  (It is reached through an element.)"""
    while len(t) > 1 and t[0] in ('fld', 'deref'):
        if t[0] == 'deref':
            return True
        t = t[1]
    return bool(t) and t[0] in ('elem', 'new')


def exact(cx, v, want):
    v = cx.peel(v)
    while True:
        if v == want:
            return True
        if v[0] == 'sl' and v[1] == want and v[2] == ZERO:
            v = want
            continue
        if v[0] == 'app' and len(v) > 2 and str(v[1]).split('::')[-1] in ('from', 'into', 'to_owned', 'owned', 'clone', 'borrow', 'deref', 'as_ref', 'to_string'):
            v = v[-1]
            continue
        if v[0] == 'agg' and str(v[1]).endswith('Cow') and len(v[3]) == 1:
            v = v[3][0]
            continue
        if v[0] in ('owned', 'box', '&') and len(v) > 1 and isinstance(v[1], tuple):
            v = v[1]
            continue
        return False


def field_index(cx):
    vs = cx.adt_variants(ERR)[0]['fields']
    kf = [i for i, f in enumerate(vs) if norm(cx.p.types[f[1]]['s']) == EK]
    cf = [i for i, f in enumerate(vs) if norm(cx.p.types[f[1]]['s']).startswith('error::context::Context')]
    if len(kf) != 1 or len(cf) != 1:
        raise Incomplete('Error is laid out another way')
    return cf[0], kf[0]


def accessor(cx, which):
    cf, kf = field_index(cx)
    return ('fld', ('deref', ('param', 'p0')), None, cf if which == 'context' else kf)


def whole_iter(cx, st, v, anchor, wh, L=None):
    """The iterator walked covers the kept locations from the first to the last."""
    its = []
    src = [v] if v is not None else [cx.e.deep(st, x) for c, x in st.mem.items() if c[0] == 'L']
    for x in src:
        for y in subterms(x):
            if y[0] == 'it' and y not in its:
                its.append(y)
            if y[0] == 'agg' and str(y[1]).startswith('core::iter') and str(y[1]).split('::')[-1] in ('Skip', 'StepBy', 'Take', 'Filter') and any(z[0] == 'items' for z in subterms(y)):
                if str(y[1]).split('::')[-1] != 'Skip' or ZERO not in y[3]:
                    cx.rep.ob('C16', 'all-locations', anchor, False, 'some locations are passed over', wh)
    its = [y for y in its if any(z[0] == 'items' for z in subterms(y))]
    if not its:
        raise Incomplete('no iterator over the locations recognised')
    for y in its:
        sl = y[1]
        if sl[0] != 'sl' or sl[1][0] != 'items':
            raise Incomplete('iterator over something else')
        rep = cx.rep
        a, n = sl[2], sl[3]
        if v is not None or L is not None:
            rep.ob('C16', 'all-locations', anchor, a == ZERO, 'the first locations are passed over', wh)
            d = sub(('len', sl[1]), n) if n != ('len', sl[1]) else ZERO
            if d[0] == 'i':
                rep.ob('C16', 'all-locations', anchor, d[1] == 0, 'the last locations are passed over', wh)
