"""G9: what the derive macro generates, for a corpus of types covering the shapes it distinguishes.
The corpus is compiled against /repo for every run; the generated code is interpreted like any other.
Oracle: the declaration of the type (field names, order, which fields are skipped)."""
from cx import *
from engine import norm
from rules_core import remaining
from rules_items import one, seq
from rules_targets import cases, runs, ok_err, aggs, err_kind, carries, locations, possible, streq, lit, into_of, text_is, transparent, method, altered_text
from rules_defaults import outs
from rules_entry import by_type, final_input, elem_index

ALLP = 'C01 C02 C05 C09 C10 C11 C12 C16'


def crate_types(cx):
    return [i for i in cx.p.impls if i['crate'] == 'corpus']


def decl(cx, name):
    for t in cx.p.types:
        if t['k'] == 'adt' and norm(t['path']).split('::')[-1] == name and t.get('variants') and t.get('krate', 'corpus') in ('corpus', None):
            return t
    raise Missing('type %s of the corpus' % name)


def skipped(f):
    ty = norm(f[1] if isinstance(f[1], str) else '')
    return ty in ('Sk', 'Sk2') or f[0].startswith('s_')


# identifiers that can only be written raw; the type tables give their names with the `r#`
KEYWORDS = set('as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen'.split())


def written(name):
    """The name of a field or variant as `stringify!`, and so the derive of the type tables, gives it."""
    return 'r#' + name if name in KEYWORDS else name


def fields_of(cx, var):
    out = []
    for j, f in enumerate(var['fields']):
        name = written(f[0])
        ty = f[1]
        if isinstance(ty, int):
            ty = cx.p.types[ty]['s']
        ty = norm(ty)
        base = ty.split('<')[0].split('::')[-1]
        out.append({'name': name, 'ty': ty, 'skip': base in ('Sk', 'Sk2', 'PhantomData') or name.startswith('s_'), 'i': j})
    return out


def is_named(var):
    return bool(var['fields']) and not var['fields'][0][0].isdigit()


def g_derive(cx):
    rep = cx.rep
    if not cx.corpus_ok:
        lines = [l for l in cx.corpus_log.splitlines() if l.startswith('error') or '-->' in l]
        rep.ob('C25 C26', 'derive-corpus-compiles', 'corpus', False, 'types deriving DecodeAsType in documented ways do not compile: %s' % ' / '.join(lines[:6])[:900], 'corpus/src/lib.rs')
        raise Incomplete('the corpus does not compile')
    rep.ob('C25 C26', 'derive-corpus-compiles', 'corpus', True)
    visitors, fields = {}, {}
    for i in crate_types(cx):
        tr = norm(i['trait']).split('::')[-1]
        if tr == 'Visitor':
            v = cx.p.types[dict((a, b) for a, b in i['types'])['Value']]
            visitors[norm(v['s']).split('<')[0].split('::')[-1]] = i
        elif tr == 'DecodeAsFields':
            fields[norm(i['selfs']).split('<')[0].split('::')[-1]] = i
    rep.count('derived types', len(visitors))
    for name, i in sorted(visitors.items()):
        t = None
        with rep.unit(ALLP, name):
            t = decl(cx, name)
        if t is None:
            continue
        ms = {m['name']: m['id'] for m in i['methods']}
        own = set(n for n, b in ms.items() if b in cx.p.bodies and not cx.p.bodies[b]['npath'].startswith('visitor::Visitor::'))
        enum = bool(t.get('enum'))
        for cb in ('visit_composite', 'visit_tuple') + (('visit_variant',) if enum else ()):
            anchor = 'derived %s: %s' % (name, cb)
            with rep.unit(ALLP, anchor):
                if cb not in own:
                    rep.ob('C12' if enum and cb != 'visit_variant' else 'C10 C09', 'derived-kind-supported', anchor, False, 'the derived visitor has no callback for this kind', '')
                    continue
                b = cx.p.bodies[ms[cb]]
                cs = cases(cx, b, cb)
                if not cs:
                    raise Incomplete('no container state for %s' % cb)
                ok = 0
                for case in cs:
                    if not enum:
                        ok += struct(cx, t, name, cb, ms[cb], case, anchor, cx.where(ms[cb]))
                    elif cb == 'visit_variant':
                        variants(cx, t, name, cb, ms[cb], case, anchor, cx.where(ms[cb]))
                    else:
                        transparent(cx, {'ty': name, 'own': own}, cb, ms[cb], case, anchor, cx.where(ms[cb]))
                if not enum:
                    rep.ob('C09 C10', 'derived-can-succeed', anchor, ok > 0, 'no path produces a value', cx.where(ms[cb]))
        if not enum and not name.endswith('Wide'):      # (with many fields this takes long, and shows nothing new)
            anchor = 'derived %s: decode_as_fields' % name
            with rep.unit('C01 C02 C09 C10 C11 C16', anchor):
                fi = fields.get(name)
                if fi is None:
                    rep.ob('C09 C10', 'derived-fields-supported', anchor, False, 'the derive no longer implements DecodeAsFields', '')
                    continue
                as_fields(cx, t, name, [m['id'] for m in fi['methods'] if m['name'] == 'decode_as_fields'][0], anchor)
        elif name in fields:
            pass


# --- what a path says about names in the source ---------------------------------------------------
def name_modes(paths):
    """For every search over the source fields: what a hit says about the name (0: no name, 1: a name)."""
    sem = {}
    for s, v, evs in paths:
        for e in evs:
            if e['k'] == 'found':
                sem.setdefault(repr(e['span']), set()).add(e.get('first'))
    return sem


def mode(evs, sem):
    """'position', 'name' or None (not known), from the searches made on the path."""
    out = 'none'
    for e in evs:
        if e['k'] in ('found', 'notfound'):
            d = sem.get(repr(e['span']), {None})
            d = list(d)[0] if len(d) == 1 else None
            if d is None:
                out = None if out == 'none' else out
                continue
            hit = e['k'] == 'found'
            out = 'position' if hit == (d == 0) else 'name'
    return out


def ignored(e):
    return 'IgnoreVisitor' in show(e['visitor'], 3)


def by_name(t):
    """The key a decoded item was looked up with, if it was."""
    for x in subterms(t):
        if x and x[0] == 'app' and x[1] == 'mapval' or x and x[0] == 'mapval':
            for y in subterms(x[-1]):
                if y and y[0] == 'sl' and isinstance(y[1], tuple) and y[1][0] == 's':
                    return y[1][1]
            return ''
    return None


def defaulted(cx, s, x, ty):
    if ty in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64'):
        return s.eq(x, ZERO)
    return not any(y and y[0] in ('new', 'mapval', 'elem') or y and y[0] == 'app' and y[1] == 'mapval' for y in subterms(x))


def filled(cx, s, o, x, evs, path, vi, fs, named, total, anchor, wh, md, where='composite', always=False):
    """One path that builds (or fails to build) the fields fs of variant vi of the type."""
    rep = cx.rep
    want = [f for f in fs if not f['skip']]
    core = [e for e in evs if e['k'] in ('core', 'target')]
    own = [e for e in core if e['k'] == 'target' or not ignored(e)]
    names = [by_name(e['tid'] if e['k'] == 'core' else e['arg']) for e in own]
    named_used = any(n is not None for n in names)
    bad = [e for e in own if not e['ok']]
    # which source field every decode belongs to
    for k, e in enumerate(own):
        rep.ob('C05', 'derived-item-not-recompacted', anchor, e['compact'] == FALSE or any(y['compact'] == e['compact'] for y in core if y is not e and ignored(y)) or names[k] is not None or s.bool_value(e['compact']) is False, lambda: 'field %d is decoded with compact = %s' % (k, show(e['compact'], 4)), wh)
        if names[k] is not None:
            rep.ob('C10', 'derived-lookup-by-field-name', anchor, named and k < len(want) and names[k] == want[k]['name'] or any(f['name'] == names[k] and not f['skip'] for f in fs), lambda: 'the source field %r is looked up' % names[k], wh)
            continue
        ix = elem_index(e['tid'] if e['k'] == 'core' else e['arg'])
        if ix is not None:
            rep.ob('C01 C09 C11', 'derived-positions-in-order', anchor, s.eq(ix, I(k)), lambda: 'the %d. decoded field is made from source field %s' % (k, show(ix)), wh)
        before = [y for y in core if y is not e and y['ok'] and core.index(y) < core.index(e)]
        ig = [y for y in before if ignored(y) and (y['tid'] == e['tid'])]
        if ig and e['k'] == 'core':
            rep.ob('C01', 'derived-field-bytes', anchor, seq(s, e['at'], ig[-1]['at']) or e['at'][1:3] == ig[-1]['at'][1:3], lambda: 'the field is decoded at %s, it was found at %s' % (show(e['at'], 4), show(ig[-1]['at'], 4)), wh)
        if named and where == 'composite':
            rep.ob('C10', 'position-only-without-names', anchor, md in ('position', None), 'fields of a source that may carry names are matched by position', wh)
        rep.ob('C09', 'derived-position-count-checked', anchor, s.eq(total, I(len(want))), lambda: 'fields are taken by position from a source that is not known to have %d fields' % len(want), wh)
    if named_used and md == 'position':
        rep.ob('C10', 'names-only-with-names', anchor, False, 'a source without names is looked into by name', wh)
    if named_used and where == 'tuple':
        rep.ob('C10', 'names-only-with-names', anchor, False, 'a tuple is looked into by name', wh)
    if o == 0:
        rep.ob('C02', 'derived-failure-surfaces', anchor, all(e['ok'] for e in core), 'a value is produced although decoding a field failed', wh)
        good = x is not None and x[0] == 'agg' and norm(str(x[1])).split('::')[-1] == path and x[2] == vi and len(x[3]) == len(fs)
        rep.ob('C10 C09', 'derived-value-built', anchor, good, lambda: 'the value built is %s' % show(x, 4), wh)
        if not good:
            return
        rep.ob('C11 C09', 'derived-decodes-only-wanted', anchor, len(own) == len(want), lambda: '%d fields are decoded for %d that are not skipped' % (len(own), len(want)), wh)
        for f in fs:
            y = x[3][f['i']]
            if f['skip']:
                rep.ob('C11 C25', 'skipped-field-defaulted', anchor, defaulted(cx, s, y, f['ty']), lambda: 'the skipped field %s becomes %s' % (f['name'], show(y, 5)), wh)
                continue
            src = [k for k, e in enumerate(own) if e['val'] == y]
            rep.ob('C10 C11', 'derived-field-from-its-source', anchor, len(src) == 1, lambda: 'the field %s becomes %s, which is not what was decoded for it' % (f['name'], show(y, 5)), wh)
            if len(src) != 1:
                continue
            k = src[0]
            if names[k] is not None:
                rep.ob('C10', 'derived-field-same-name', anchor, names[k] == f['name'], lambda: 'the field %s is filled from the source field %s' % (f['name'], names[k]), wh)
            else:
                rep.ob('C09 C11', 'derived-field-same-position', anchor, k == want.index(f), lambda: 'the field %s is filled from source field %d' % (f['name'], k), wh)
            tt = into_of(own[k]['visitor']) if own[k]['k'] == 'core' else None
            rep.ob('C10', 'derived-field-type', anchor, tt is None or tt == f['ty'] or tt == 'T' or not tt, lambda: 'the field %s: %s is decoded as %s' % (f['name'], f['ty'], tt), wh)
        if not named_used and not always and not (named and md == 'name'):
            rep.ob('C09', 'derived-count-checked', anchor, s.eq(total, I(len(want))), lambda: 'a value is produced from a source that is not known to have %d fields' % len(want), wh)
        return
    # an error: whose?
    if bad:
        e = bad[0]
        k = own.index(e)
        rep.ob('C02', 'derived-error-is-the-fields', anchor, carries(cx, x, e['val']), lambda: 'the error of a field becomes %s' % show(x, 5), wh)
        nm = names[k] if names[k] is not None else None
        f = [y for y in want if y['name'] == nm] if nm is not None else want[k:k + 1]
        if f:
            f = f[0]
            locs = locations(cx, evs)
            if named:
                good = len(locs) == 1 and locs[0][0] == 'Field' and any(text_is(y, f['name']) for y in subterms(locs[0][1]))
            else:
                good = len(locs) == 1 and locs[0][0] == 'Index' and s.eq(locs[0][1], I(f['i']))
            rep.ob('C16', 'derived-error-located', anchor, good, lambda: 'the error of field %s carries the locations %s' % (f['name'], [(a, show(q, 5)) for a, q in locs]), wh)
        else:
            rep.ob('C11 C09', 'derived-decodes-only-wanted', anchor, False, 'a source field is decoded that belongs to no field', wh)
        return
    ibad = [e for e in core if not e['ok']]
    kn, fl = err_kind(cx, x)
    if ibad:
        rep.ob('C02', 'derived-error-is-the-fields', anchor, carries(cx, x, ibad[0]['val']) or any(y == ibad[0]['val'] for y in subterms(x)), lambda: 'the error found while walking the fields becomes %s' % show(x, 5), wh)
        return
    if kn == 'WrongLength':
        rep.ob('C09 C11', 'derived-length-error', anchor, s.eq(fl['expected_len'], I(len(want))) and s.eq(fl['actual_len'], total), lambda: 'the length error says actual %s, expected %s; the source has %s fields and %d are wanted' % (show(fl['actual_len'], 4), show(fl['expected_len']), show(total, 4), len(want)), wh)
        rep.ob('C09', 'derived-right-length-accepted', anchor, not possible(s, [('eq', total, I(len(want)))]), 'a source with the right number of fields can be refused', wh)
        if named and where == 'composite':
            rep.ob('C10', 'extra-source-fields-allowed', anchor, md in ('position', None), 'the number of fields of a source with names is limited', wh)
    elif kn == 'CannotFindField':
        miss = [y for y in subterms(fl.get('name', ())) if y and y[0] == 'sl' and isinstance(y[1], tuple) and y[1][0] == 's']
        nm = miss[0][1][1] if miss else None
        last = [e for e in evs if e['k'] in ('get',) or e.get('name') == 'get']
        asked = by_name(last[-1]['val']) if last and last[-1].get('val') is not None else None
        rep.ob('C10', 'missing-field-named', anchor, nm is not None and any(f['name'] == nm for f in want) and (asked is None or asked == nm), lambda: 'a missing field is reported as %r (looked up: %r)' % (nm, asked), wh)
        if where == 'tuple' or md == 'position':
            rep.ob('C10', 'names-only-with-names', anchor, False, 'a source without names is looked into by name', wh)
    else:
        rep.ob('C10 C09', 'derived-error-known', anchor, False, 'an error that is neither a field\'s nor about the shape: %s' % show(x, 5), wh)


def struct(cx, t, name, cb, bid, case, anchor, wh):
    rep = cx.rep
    cont, st, args, snap = case
    fs = fields_of(cx, t['variants'][0])
    left = remaining(cx, st, cont, args[1])
    if len(left) != 1:
        raise Incomplete('remaining() of the source')
    total = left[0][1]
    paths = runs(cx, bid, case)
    sem = name_modes(paths)
    ok = 0
    for s, v, evs in paths:
        md = mode(evs, sem)
        for s1, o, x in ok_err(cx, s, v):
            ok += o == 0
            filled(cx, s1, o, x, evs, name, 0, fs, is_named(t['variants'][0]), total, anchor, wh, md, 'composite' if cb == 'visit_composite' else 'tuple', named_empty(cb, fs, t))
    return ok


def named_empty(cb, fs, t):
    # `struct S {}` has no names in the table; whether it is counted depends on the source
    return cb == 'visit_composite' and not fs and t['variants'][0].get('ctor') is None


def variants(cx, t, name, cb, bid, case, anchor, wh):
    rep = cx.rep
    cont, st, args, snap = case
    nm = one(cx, st, 'Variant', 'name', args[1])
    src = cx.e.deep(nm[0], nm[1])
    while src[0] == '&':
        src = src[1]
    fo = one(cx, st, 'Variant', 'fields', args[1])
    left = remaining(cx, fo[0], 'Composite', fo[1])
    if len(left) != 1:
        raise Incomplete('remaining() of the variant')
    total = left[0][1]
    vs = t['variants']
    paths = runs(cx, bid, case)
    sem = name_modes(paths)
    seen = set()
    unknown = 0
    for s, v, evs in paths:
        md = mode(evs, sem)
        core = [e for e in evs if e['k'] in ('core', 'target')]
        for s1, o, x in ok_err(cx, s, v):
            hit = [j for j, w in enumerate(vs) if s1.bool_value(streq(src, lit(written(w['name'])))) is True]
            if not hit and not core and o == 1:
                kn, fl = err_kind(cx, x)
                if kn == 'CannotFindVariant':
                    unknown += 1
                    rep.ob('C10', 'unknown-variant-named', anchor, any(y == src for y in subterms(fl['got'])) and not altered_text(fl['got']), lambda: 'the unknown variant is reported as %s' % show(fl['got'], 5), wh)
                    texts = [y[1][1] for y in subterms(fl['expected']) if y and y[0] == 'sl' and isinstance(y[1], tuple) and y[1][0] == 's']
                    if texts:
                        rep.ob('C10', 'unknown-variant-alternatives', anchor, sorted(set(texts)) == sorted(written(w['name']) for w in vs), lambda: 'the variants said to be expected are %s' % texts, wh)
                else:
                    rep.ob('C10', 'unknown-variant-named', anchor, False, 'a source variant the target does not know is reported as %s' % kn, wh)
                for w in vs:
                    rep.ob('C10', 'known-variant-accepted', anchor, not possible(s1, [('true', streq(src, lit(written(w['name']))), None)]), lambda: 'a source variant named %s can be taken for unknown' % w['name'], wh)
                continue
            rep.ob('C10', 'variant-by-name', anchor, len(hit) == 1, lambda: 'the outcome %s is reached although the source variant is not known to have the name of a variant' % show(v, 4), wh)
            if len(hit) != 1:
                continue
            j = hit[0]
            if o == 0:
                seen.add(j)
                rep.ob('C10', 'variant-same-name', anchor, x is not None and x[0] == 'agg' and x[2] == j, lambda: 'the source variant %s becomes %s' % (vs[j]['name'], show(x, 3)), wh)
            fs = fields_of(cx, vs[j])
            if not fs and not core and o == 0:
                # a unit variant takes whatever the source variant holds; `V {}` and `V()` check
                continue
            filled(cx, s1, o, x, evs, name, j, fs, is_named(vs[j]), total, anchor, wh, md if not named_unit(vs[j]) else None, 'composite', always=not fs)
    rep.ob('C10', 'variants-all-known', anchor, len(seen) == len(vs), lambda: 'only %s can be produced' % sorted(vs[j]['name'] for j in seen), wh)
    rep.ob('C10', 'unknown-variant-refused', anchor, unknown > 0, 'no path reports an unknown variant', wh)


def named_unit(v):
    return not v['fields']


def as_fields(cx, t, name, bid, anchor):
    rep = cx.rep
    b = cx.p.bodies[bid]
    wh = cx.where(bid)
    r = by_type(cx, b)
    inp = whole(('deref', r['input']))
    fs = fields_of(cx, t['variants'][0])
    want = [f for f in fs if not f['skip']]
    paths = outs(cx, b)
    sem = name_modes(paths)
    ok = 0
    for s, v, evs in paths:
        core = [e for e in evs if e['k'] in ('core', 'target')]
        own = [e for e in core if e['k'] == 'target' or not ignored(e)]
        bad = [e for e in own if not e['ok']]
        loops = [e for e in evs if e['k'] == 'loop']
        fin = final_input(cx, s, r['inj'])
        for s1, o, x in ok_err(cx, s, v):
            if o == 1:
                if bad:
                    rep.ob('C02', 'fields-error-is-the-fields', anchor, carries(cx, x, bad[0]['val']), lambda: 'the error of a field becomes %s' % show(x, 5), wh)
                    locs = locations(cx, evs)
                    rep.ob('C16', 'derived-error-located', anchor, len(locs) == 1 and locs[0][0] in ('Field', 'Index'), lambda: 'the error carries the locations %s' % [(a, show(q, 5)) for a, q in locs], wh)
                continue
            ok += 1
            for e in core:
                c = e['compact']
                if any(y[0] in ('mapval', 'elem', 'it', 'loop') or str(y[1:2]).startswith("('mapval") for y in subterms(c)) or 'mapval' in show(c):
                    continue   # the flag of an item that was handed out; see the containers
                rep.ob('C05', 'fields-not-compact', anchor, c == FALSE or s1.bool_value(c) is False, lambda: 'a field is decoded with compact = %s' % show(c, 5), wh)
            rep.ob('C02', 'derived-failure-surfaces', anchor, all(e['ok'] for e in core), 'a value is produced although decoding failed', wh)
            good = x is not None and x[0] == 'agg' and norm(str(x[1])).split('::')[-1] == name and len(x[3]) == len(fs)
            rep.ob('C09 C10', 'derived-value-built', anchor, good, lambda: 'the value built is %s' % show(x, 4), wh)
            if good:
                for f in fs:
                    y = x[3][f['i']]
                    if f['skip']:
                        rep.ob('C11 C25', 'skipped-field-defaulted', anchor, defaulted(cx, s1, y, f['ty']), lambda: 'the skipped field %s becomes %s' % (f['name'], show(y, 5)), wh)
                    else:
                        rep.ob('C10 C11', 'derived-field-from-its-source', anchor, any(e['val'] == y for e in own), lambda: 'the field %s becomes %s' % (f['name'], show(y, 5)), wh)
            # where the input is left
            last = core[-1] if core else None
            moved = False
            for k, y in enumerate(evs):
                later = [e for e in evs[k:] if e['k'] == 'core' and by_name(e['tid']) is None]
                moved = moved or y['k'] == 'loop' and not later and 'moved~%s.' % y['id'] in show(fin, 8)
            zero = seq(s1, fin, inp) and not core and (not want)
            rep.ob('C01', 'fields-position', anchor, moved or zero or last is not None and seq(s1, fin, last['after']), lambda: 'a value is produced and the input is left at %s' % show(fin, 6), wh)
    rep.ob('C09 C10', 'derived-can-succeed', anchor, ok > 0, 'no path produces a value', wh)
