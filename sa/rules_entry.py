"""G5: the public entry points hand their arguments on and return what they get back."""
import re
from cx import *
from engine import norm
from rules_items import seq
from rules_targets import ok_err, aggs, err_kind, carries, locations, into_of, tuple_parts, possible
from rules_defaults import params, outs, body_named

ALLP = 'C01 C02 C05 C06 C09 C10 C16 C12'
WORK = ('core', 'target', 'hook', 'visit', 'decode', 'resolve', 'bits')


def final_input(cx, s, j):
    cell = ('E', ('param', 'p%d' % j))
    v = s.mem.get(cell)
    if v is None or v[0] != 'sl':
        v = whole(v if v is not None else ('deref', ('param', 'p%d' % j)))
    return v


def by_type(cx, b):
    """role -> parameter term, from the declared types."""
    out = {}
    for j in range(b['argc']):
        t = cx.p.types[b['locals'][j + 1]]
        s = norm(t['s'])
        p = ('param', 'p%d' % j)
        if s == 'bool':
            out['compact'] = p
        elif t['k'] == 'ref' and s.startswith('&mut &'):
            out['input'] = p
            out['inj'] = j
        elif s.endswith('::TypeId') or s.endswith('TypeId'):
            out['tid'] = p
        elif t['k'] == 'ref' and 'dyn' in s:
            out['fields'] = p
        elif t['k'] == 'ref':
            out['types'] = p
        elif t['k'] in ('param', 'alias', 'proj'):
            out['visitor'] = p
    return out


def passthrough(cx, b, anchor, compact):
    """One decode of the same thing, whose result and input position are kept."""
    rep = cx.rep
    wh = cx.where(b['id'])
    r = by_type(cx, b)
    comp = r.get('compact', FALSE) if compact == 'same' else compact
    for s, v, evs in outs(cx, b):
        w = [e for e in evs if e['k'] in WORK]
        rep.ob('C01 C02 C06', 'entry-one-decode', anchor, len(w) == 1 and w[0]['k'] in ('core', 'target'), lambda: 'the entry point makes %d decoding calls: [%s]' % (len(w), cx.path_note(s)), wh)
        if len(w) != 1 or w[0]['k'] not in ('core', 'target'):
            continue
        e = w[0]
        tid = e['tid'] if e['k'] == 'core' else e['arg']
        c = e['compact']
        inp = whole(('deref', r['input']))
        rep.ob('C01', 'entry-input', anchor, seq(s, e['at'], inp), lambda: 'decoding starts at %s' % show(e['at']), wh)
        if 'tid' in r:
            rep.ob('C06', 'entry-type', anchor, tid == r['tid'], lambda: 'another type is decoded: %s' % show(tid, 5), wh)
        cc = s.bool_value(c) if c[0] != 'i' else bool(c[1])
        rep.ob('C05', 'entry-compact', anchor, c == comp or (comp == FALSE and cc is False), lambda: 'decoding is started with compact = %s' % show(c), wh)
        if e['k'] == 'core' and 'visitor' in r:
            rep.ob('C06', 'entry-visitor', anchor, e['visitor'] == r['visitor'], 'another visitor is used', wh)
        elif e['k'] == 'core':
            tt = into_of(e['visitor'])
            rep.ob('C06', 'entry-visitor', anchor, tt is None or tt in ('T', 'Self'), lambda: 'the visitor of another type is used: %s' % tt, wh)
        rep.ob('C01', 'entry-position', anchor, seq(s, final_input(cx, s, r['inj']), e['after']), lambda: 'the input is left at %s' % show(final_input(cx, s, r['inj'])), wh)
        for s1, o, x in ok_err(cx, s, v):
            rep.ob('C02', 'entry-result', anchor, (o == 0) == bool(e['ok']) and x is not None and (x == e['val'] or o == 1 and carries(cx, x, e['val'])), lambda: 'the result of decoding becomes %s' % show(v, 5), wh)


def g_entry(cx):
    rep = cx.rep
    with rep.unit('C01 C02 C05 C06', 'decode_with_visitor'):
        b = body_named(cx, 'visitor::decode::decode_with_visitor') or body_named(cx, 'visitor::decode_with_visitor')
        if b is None:
            raise Missing('visitor::decode_with_visitor')
        passthrough(cx, b, 'decode_with_visitor', FALSE)
    with rep.unit('C01 C02 C05 C06', 'decode_as_type'):
        b = body_named(cx, 'DecodeAsType::decode_as_type')
        if b is None:
            raise Missing('DecodeAsType::decode_as_type')
        passthrough(cx, b, 'decode_as_type', FALSE)
    for i in cx.p.impls:
        if norm(i['trait']) == 'DecodeAsType' and i['crate'] == 'scale_decode':
            for m in i['methods']:
                anchor = 'DecodeAsType for %s: %s' % (norm(i['selfs']), m['name'])
                b = cx.p.bodies.get(m['id'])
                if b is None or b['npath'].startswith('DecodeAsType::'):
                    continue
                with rep.unit('C01 C02 C05 C06', anchor):
                    passthrough(cx, b, anchor, 'same')
    for i in cx.p.impls:
        if norm(i['trait']) == 'DecodeAsFields' and i['crate'] == 'scale_decode':
            ty = norm(i['selfs'])
            parts = tuple_parts(ty) if ty != '()' else []
            for m in i['methods']:
                if m['name'] != 'decode_as_fields':
                    continue
                anchor = 'DecodeAsFields for %s' % (ty if len(ty) < 14 else '(%d-tuple)' % len(parts))
                with rep.unit('C01 C02 C09 C16', anchor):
                    as_fields(cx, cx.p.bodies[m['id']], parts, anchor)


def as_fields(cx, b, parts, anchor):
    rep = cx.rep
    wh = cx.where(b['id'])
    r = by_type(cx, b)
    inp = whole(('deref', r['input']))
    n_ok = 0
    for s, v, evs in outs(cx, b):
        core = [e for e in evs if e['k'] in ('core', 'target')]
        own = [e for e in core if into_of(e['visitor'] if e['k'] == 'core' else None) is not None or e['k'] == 'target']
        if len(own) < len(core):
            # whatever is skipped afterwards is not part of the tuple; the length was wrong (or a part failed)
            for s1, o, x in ok_err(cx, s, v):
                rep.ob('C09', 'fields-length-checked', anchor, o == 1, 'parts of the source are passed over and a tuple is produced', wh)
                if o == 1 and not any(not e['ok'] for e in own):
                    kn, fs = err_kind(cx, x)
                    rep.ob('C09 C02', 'fields-length-error', anchor, kn == 'WrongLength' and s1.eq(fs['expected_len'], I(len(parts))), lambda: 'a source of another size is reported as %s' % kn, wh)
                elif o == 1:
                    rep.ob('C02', 'fields-error-is-the-parts', anchor, carries(cx, x, [e for e in own if not e['ok']][0]['val']), lambda: 'the error of a part becomes %s' % show(x, 5), wh)
            core = own
            continue
        for s1, o, x in ok_err(cx, s, v):
            bad = [k for k, e in enumerate(core) if not e['ok']]
            if o == 0:
                n_ok += 1
                rep.ob('C09', 'fields-all-parts', anchor, len(core) == len(parts) and x == ('agg', 'tuple', 0, tuple(e['val'] for e in core)) or not parts and x[0] == 'agg' and not core, lambda: 'the tuple is %s, made from %d decoded parts' % (show(x, 4), len(core)), wh)
                rep.ob('C02', 'fields-failure-surfaces', anchor, not bad, 'a part that cannot be decoded does not stop the tuple', wh)
                if not bad:
                    fin = final_input(cx, s1, r['inj'])
                    want = core[-1]['after'] if core else inp
                    rep.ob('C01', 'fields-position', anchor, seq(s1, fin, want), lambda: 'the input is left at %s, the last field ends at %s' % (show(fin), show(want)), wh)
            elif bad:
                rep.ob('C02', 'fields-error-is-the-parts', anchor, carries(cx, x, core[bad[0]]['val']), lambda: 'the error of part %d becomes %s' % (bad[0], show(x, 5)), wh)
                # positional index of the failing part, once
                if core[bad[0]]['k'] == 'core' and bad[0] < len(parts):
                    locs = locations(cx, evs)
                    rep.ob('C16', 'fields-error-located', anchor, len(locs) == 1 and locs[0][0] == 'Index' and s1.eq(locs[0][1], I(bad[0])), lambda: 'the error of part %d carries the locations %s' % (bad[0], [(a, show(q)) for a, q in locs]), wh)
            else:
                kn, fs = err_kind(cx, x)
                rep.ob('C09 C02', 'fields-length-error', anchor, kn == 'WrongLength' and s1.eq(fs['expected_len'], I(len(parts))), lambda: 'a source of another size is reported as %s' % kn, wh)
        for k, e in enumerate(core[:len(parts)]):
            want = inp if k == 0 else core[k - 1]['after']
            good = seq(s, e['at'], want) and (k == 0 or core[k - 1]['ok'])
            tt = into_of(e['visitor']) if e['k'] == 'core' else None
            good2 = tt is None or tt == parts[k]
            rep.ob('C01 C09', 'fields-in-order', anchor, good and good2, lambda: 'part %d is decoded at %s as %s' % (k, show(e['at']), tt), wh)
            rep.ob('C05', 'fields-not-compact', anchor, e['compact'] == FALSE, 'a field is decoded as compact', wh)
            tid = e['tid'] if e['k'] == 'core' else e['arg']
            ix = elem_index(tid)
            if ix is not None:
                rep.ob('C01 C09', 'fields-types-in-order', anchor, s.eq(ix, I(k)), lambda: 'part %d is decoded with the type of field %s' % (k, show(ix)), wh)
    if not n_ok:
        rep.ob('C09 C01', 'fields-can-succeed', anchor, False, 'no path produces the tuple', wh)


def elem_index(t):
    for x in subterms(t):
        if x[0] == 'elem' and len(x) > 2:
            return x[2]
    return None
