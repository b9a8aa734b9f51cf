"""G12: allocation (C15).  Every allocating call met while interpreting the decoder, with the term
that sizes it; the visitor layer must not copy input at all."""
import re
from cx import *
from engine import norm
from rules_panics import body_crates, functions, rest, OWN

TARGET = re.compile(r'^<?impls::|\b_::')
CONTAINER = re.compile(r'visitor::(types::)?(\w+::)?(Sequence|Array|Composite|Tuple|Variant|BitSequence|Str)\b')
CONTROL = 'control_claimed_capacity'


def layer(stack):
    """'visitor' when the call is made by the visitor layer, on whoever's behalf."""
    for f in stack:
        if TARGET.search(f):
            return 'target'
        if f.startswith('visitor::') or f.startswith('<visitor::'):
            return 'visitor'
    return 'other'


def bad_of(crates, a):
    """(function of ours, message) when the allocation breaks a rule."""
    kind, path, stack, span, ok, what = a
    own = [f for f in stack if crates.get(f) in OWN]
    if not own:
        return None
    where = str(span).split('/repo/')[-1]
    if not ok:
        return own[0], 'claimed', '%s %s at %s, reached through %s' % (path, what, where, ' <- '.join(own[1:4]) or 'its public entry')
    if layer(own) == 'visitor' and (kind in ('codec', 'copy') or (kind == 'gather' and CONTAINER.search(what))):
        return own[0], 'visitor', '%s %s at %s' % (path, what, where)
    return None


def g_alloc(cx):
    rep = cx.rep
    rest(cx)
    crates = body_crates(cx)
    with rep.unit('C15', 'sequences and the control'):
        control(cx)
    found = {'claimed': {}, 'visitor': {}}
    sites = set()
    for a in cx.e.allocs:
        sites.add((a[1], a[3]))
        b = bad_of(crates, a)
        if b and b[0].split('::')[-1] != CONTROL:
            l = found[b[1]].setdefault(b[0], [])
            if b[2] not in l:
                l.append(b[2])
    for f in functions(cx):
        if f.split('::')[-1] == CONTROL:
            continue
        w = found['claimed'].get(f)
        rep.ob('C15', 'no-claimed-size', f, not w, lambda: '; '.join(w[:3]), f)
        if layer([f]) == 'visitor':
            v = found['visitor'].get(f)
            rep.ob('C15', 'visitor-layer-borrows', f, not v, lambda: '; '.join(v[:3]), f)
    rep.count('allocating call sites seen', len(sites))


def control(cx):
    """The rule must flag the function of the corpus that does size a buffer by a claim."""
    from rules_items import snapshots
    from rules_core import adt_named
    if not cx.corpus_ok:
        return
    b = [x for x in cx.p.bodies.values() if x['crate'] == 'corpus' and x['npath'].split('::')[-1] == CONTROL]
    if not b:
        raise Missing('corpus function %s' % CONTROL)
    done = False
    for k, cont, label, st, ref, snap in snapshots(cx):
        if cont != 'Sequence':
            continue
        if label == 'fresh' and not done:
            n0 = len(cx.e.allocs)
            cx.run(st.copy(), b[0]['id'], [ref])
            if not [a for a in cx.e.allocs[n0:] if not a[4]]:
                raise Incomplete('the control allocation is not recognised')
            cx.rep.ob('C15', 'positive-control', CONTROL, True)
            done = True
        # what generic code reserves for an iterator
        adt = adt_named(cx, cont)
        for mm in cx.sem.methods.get(adt, []):
            if mm['name'] == 'size_hint' and (mm['trait'] or '').endswith('Iterator'):
                for s, v in cx.run(st.copy(), mm['id'], [ref]):
                    dv = cx.e.deep(s, v)
                    good = dv[0] == 'agg' and cx.e.models.alloc_bounded(cx.e, s, dv[3][0], False)
                    cx.rep.ob('C15', 'size-hint-unclaimed', 'Sequence::size_hint', good, lambda: 'the lower bound of size_hint is the claimed length: %s' % show(dv, 6), cx.where(mm['id']))
