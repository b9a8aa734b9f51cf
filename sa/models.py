"""Models of library functions the analysis does not look into (their documented contracts)."""
import re
from terms import *
import engine as EG


def norm(p):
    return EG.norm(p)


def fork(st, cases):
    """cases: list of (assumption function or None, value function)."""
    out = []
    for assume, val in cases:
        s = st.copy()
        try:
            if assume:
                assume(s)
            out.append((s, val(s) if callable(val) else val))
        except EG.Infeasible:
            pass
    return out


def as_slice(e, st, v, depth=0):
    """The slice a (reference to a) sequence value denotes, or None."""
    k = v[0]
    if k == 'sl':
        return v
    if k == 'slval':
        return v[1]
    if k == 'vec':
        return v[1]
    if k in ('ref', 'cref') and depth < 3:
        return as_slice(e, st, e.load_ref(st, v), depth + 1)
    if k == 'agg' and v[1] == 'array':
        return sl(('arrval', v), ZERO, I(len(v[3])))
    return None


def veclike(e, st, v, ty=None):
    """Slice denoted by a symbolic collection (SmallVec, Vec ...)."""
    s = as_slice(e, st, v)
    if s is not None:
        return s
    if v[0] in ('ref', 'cref'):
        v = e.load_ref(st, v)
    elif v[0] in ('param', 'fld', 'deref', 'elem', 'new', 'app', 'eptr'):
        v = e.load_ref(st, v, None)
        s = as_slice(e, st, v)
        if s is not None:
            return s
    if v[0] in ('undef', 'agg', 'upd'):
        return None
    return sl(('items', v), ZERO, ('len', ('items', v)))


def elem_ref(e, s, idx):
    """Reference to element idx (relative) of slice s."""
    return ('eptr', s[1], add(s[2], idx))


def range_bounds(e, st, r, n):
    """(start, end) of a range value over a sequence of length n, or None."""
    if r[0] != 'agg':
        return None
    t = r[1].split('::')[-1]
    if t == 'RangeFull':
        return ZERO, n
    if t == 'RangeFrom':
        return r[3][0], n
    if t == 'RangeTo':
        return ZERO, r[3][0]
    if t == 'Range':
        return r[3][0], r[3][1]
    if t == 'RangeToInclusive':
        return ZERO, add(r[3][0], ONE)
    if t == 'RangeInclusive':
        return r[3][0], add(r[3][1], ONE)
    return None


def note_int(*ts):
    for t in ts:
        if t[0] not in ('i', 'lin'):
            atom(t)


def sub_slice(s, a, b):
    return sl(s[1], add(s[2], a), sub(b, a))


def m_get(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    if s is None:
        return None
    r = args[1]
    n = s[3]
    note_int(n)
    if r[0] == 'agg':
        b = range_bounds(e, st, r, n)
        if b is None:
            return None
        a, z = b
        note_int(a, z)

        def good(x):
            x.assume_ge0(sub(z, a))
            x.assume_ge0(sub(n, z))

        out = fork(st, [(good, some(sub_slice(s, a, z)))])
        for bad in (sub(sub(a, z), ONE), sub(sub(z, n), ONE)):
            out += fork(st, [(lambda x, bad=bad: x.assume_ge0(bad), NONE)])
        return out
    note_int(r)
    return fork(st, [(lambda x: x.assume_ge0(sub(sub(n, r), ONE)), some(elem_ref(e, s, r))),
                     (lambda x: x.assume_ge0(sub(r, n)), NONE)])


def m_index(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    if s is None:
        return None
    r = args[1]
    n = s[3]
    note_int(n)
    span = t[7]
    if r[0] == 'agg':
        b = range_bounds(e, st, r, n)
        if b is None:
            return None
        a, z = b
        note_int(a, z)
        for ob, what in ((sub(z, a), 'slice start beyond its end'), (sub(n, z), 'slice end out of range')):
            if not st.nonneg(ob):
                e.panic(st, fr, what, span, ob)
                st.assume_ge0(ob)
        return [(st, sub_slice(s, a, z))]
    note_int(r)
    ob = sub(sub(n, r), ONE)
    if not st.nonneg(ob):
        e.panic(st, fr, 'index out of bounds', span, ob)
        st.assume_ge0(ob)
    return [(st, elem_ref(e, s, r))]


def m_len(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    if s is None:
        return None
    note_int(s[3])
    return [(st, s[3])]


def m_is_empty(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    if s is None:
        return None
    note_int(s[3])
    r = ('eq0', s[3])
    v = st.bool_value(r)
    return [(st, r if v is None else (TRUE if v else FALSE))]


def m_first(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    if s is None:
        return None
    note_int(s[3])
    return fork(st, [(lambda x: x.assume_ge0(sub(s[3], ONE)), some(elem_ref(e, s, ZERO))),
                     (lambda x: x.assume_eq(s[3], ZERO), NONE)])


def m_last(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    if s is None:
        return None
    note_int(s[3])
    return fork(st, [(lambda x: x.assume_ge0(sub(s[3], ONE)), some(elem_ref(e, s, sub(s[3], ONE)))),
                     (lambda x: x.assume_eq(s[3], ZERO), NONE)])


def const_arg(e, f, args=None):
    for a in f.get('args', []):
        if isinstance(a, str):
            m = re.match(r'(\d+)', a)
            if m:
                return int(m.group(1))
    return None


def m_first_chunk(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    n = const_arg(e, f)
    if s is None or n is None:
        return None
    note_int(s[3])
    split = f['name'] in ('split_first_chunk',)
    v = ('app', 'chunk', sl(s[1], s[2], I(n)))
    if split:
        v = ('agg', 'tuple', 0, (v, sl(s[1], add(s[2], I(n)), sub(s[3], I(n)))))
    return fork(st, [(lambda x: x.assume_ge0(sub(s[3], I(n))), some(v)),
                     (lambda x: x.assume_ge0(sub(I(n - 1), s[3])), NONE)])


def m_split_at(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    if s is None:
        return None
    m = args[1]
    note_int(s[3], m)
    pair = ('agg', 'tuple', 0, (sl(s[1], s[2], m), sl(s[1], add(s[2], m), sub(s[3], m))))
    if f['name'] in ('split_at_checked', 'split_at_mut_checked'):
        return fork(st, [(lambda x: x.assume_ge0(sub(s[3], m)), some(pair)), (lambda x: x.assume_ge0(sub(sub(m, s[3]), ONE)), NONE)])
    ob = sub(s[3], m)
    if not st.nonneg(ob):
        e.panic(st, fr, 'split position out of range', t[7], ob)
        st.assume_ge0(ob)
    return [(st, pair)]


def m_split_first(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    if s is None:
        return None
    note_int(s[3])
    pair = ('agg', 'tuple', 0, (elem_ref(e, s, ZERO), sl(s[1], add(s[2], ONE), sub(s[3], ONE))))
    return fork(st, [(lambda x: x.assume_ge0(sub(s[3], ONE)), some(pair)), (lambda x: x.assume_eq(s[3], ZERO), NONE)])


def int_tys(e, f):
    return [e.int_name(a) if isinstance(a, int) else None for a in f.get('args', [])]


def conv(e, st, v, dst):
    note_int(v)
    lo, hi = INT_RANGE[dst]
    if e.in_range(st, v, dst):
        return [(st, ok(v))]
    bad = err(('app', 'TryFromIntError', v, ('s', dst)))

    def good(x):
        x.assume_ge0(sub(v, I(lo)))
        x.assume_ge0(sub(I(hi), v))

    out = fork(st, [(good, ok(v))])
    for b in (sub(I(lo - 1), v), sub(v, I(hi + 1))):
        out += fork(st, [(lambda x, b=b: x.assume_ge0(b), bad)])
    return out


def m_tryfrom(e, st, fr, f, args, t):
    ts = int_tys(e, f)
    if len(ts) < 2 or ts[0] is None or ts[1] is None:
        m = re.match(r'core::num::(?:nonzero::)?NonZero<(\w+)>$', norm(e.p.tystr(f['args'][1] if f['name'] == 'try_into' else f['args'][0]))) if len(f.get('args', [])) >= 2 else None
        if m and (ts[0] if f['name'] == 'try_into' else ts[1]) == m.group(1):
            v = args[0]
            note_int(v)
            return fork(st, [(lambda x: x.assume_ne(v, ZERO), ok(('app', 'nonzero', v))), (lambda x: x.assume_eq(v, ZERO), err(('app', 'TryFromIntError', v, ('s', 'nonzero'))))])
        # slices to arrays of a known length, vec to array
        return None
    src, dst = (ts[0], ts[1]) if f['name'] == 'try_into' else (ts[1], ts[0])
    if dst not in INT_RANGE or src in ('char', 'bool') or dst in ('char', 'bool'):
        return None
    return conv(e, st, args[0], dst)


def m_into(e, st, fr, f, args, t):
    ts = int_tys(e, f)
    if len(ts) >= 2 and ts[0] in INT_RANGE and ts[1] in INT_RANGE:
        return [(st, args[0])]
    ty = f.get('args', [])
    if len(ty) >= 2 and ty[0] == ty[1]:
        return [(st, args[0])]
    # conversions into owned/borrowed text keep the text
    if len(ty) >= 2:
        dst = e.p.tystr(ty[1] if f['name'] == 'into' else ty[0])
        src = e.p.tystr(ty[0] if f['name'] == 'into' else ty[1])
        if text_ty(dst) and text_ty(src):
            return [(st, text(e, st, args[0]))]
    return None


def text_ty(s):
    return s in ('alloc::string::String', 'core::string::String', '&str', '&&str', 'alloc::borrow::Cow<\'_, str>', 'core::borrow::Cow<\'_, str>', 'str', '&alloc::string::String') or s.endswith("borrow::Cow<'_, str>") or s.endswith('string::String')


def text(e, st, v):
    """Owned or borrowed text is identified with the str slice it holds."""
    d = 0
    while v[0] in ('ref', 'cref') and d < 4:
        v = e.load_ref(st, v)
        d += 1
    if v[0] == 'slval':
        v = v[1]
    if v[0] == 'agg' and v[1].endswith('borrow::Cow') and v[3]:
        return text(e, st, v[3][0])
    return v


def m_nonzero_new(e, st, fr, f, args, t):
    v = args[0]
    note_int(v)
    out = fork(st, [(lambda x: x.assume_ne(v, ZERO), some(('app', 'nonzero', v))), (lambda x: x.assume_eq(v, ZERO), NONE)])
    return out


def m_clone(e, st, fr, f, args, t):
    a = args[0]
    v = e.load_ref(st, a, t[5])
    return [(st, v)]


def m_deref(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    rt = e.p.types[t[5]]
    if s is not None and rt['k'] == 'ref' and e.p.types[rt['to']]['k'] in ('slice', 'str'):
        v = args[0]
        if v[0] in ('ref', 'cref'):
            c = e.load_ref(st, v)
            if c[0] == 'sl':
                return [(st, c)]
        return [(st, s)]
    v = e.load_ref(st, args[0]) if args[0][0] in ('ref', 'cref') else None
    if v is not None and v[0] == 'box':
        return [(st, ('cref', v[1]))]
    return None


def m_iter(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    if s is None:
        return None
    return [(st, ('it', s, ('s', 'ref')))]


def it_of(e, st, v):
    if v[0] == 'it':
        return v
    if v[0] == 'ref':
        x = e.load_ref(st, v)
        if x[0] == 'it':
            return x
    return None


def it_item(e, st, it, idx, f=None, ty=None):
    """Item produced by a slice iterator: a reference, or a copy of the element."""
    s = it[1]
    if it[2] == ('s', 'val'):
        return e.elem(s[1], add(s[2], idx), ty)
    return elem_ref(e, s, idx)


def opt_payload_ty(e, ty):
    tt = e.p.types[ty]
    if tt['k'] == 'adt' and tt['args'] and isinstance(tt['args'][0], int):
        return tt['args'][0]
    return None


def ours(e, f):
    b = e.p.bodies.get(f.get('inst'))
    return b is not None and b['crate'] != 'scale_bits'


def m_next(e, st, fr, f, args, t):
    it = it_of(e, st, args[0])
    if it is None or args[0][0] != 'ref':
        if t is None or f['name'] != 'next' or ours(e, f) or norm(str(e.T(t[5]).get('path'))) != OPT:
            return None
        own = args[0]
        while own[0] == 'ref':
            own = e.load_ref(st, own)
        if own[0] == 'agg' and f.get('inst') in e.p.bodies and str(own[1]).split('::')[-1] in ('Filter', 'FilterMap', 'SkipWhile', 'Map', 'Inspect', 'Cloned', 'Copied', 'Peekable'):
            return None
        # an iterator nothing is known of
        src = e.deep(st, args[0])
        out = []
        for s, v in e.opaque(st, fr, f, args, t):
            for hit in (1, 0):
                x = s.copy()
                try:
                    x.set_disc(v, hit)
                except EG.Infeasible:
                    continue
                x.ev('next', hit=hit, item=e.proj(x, v, 1, 0, opt_payload_ty(e, t[5])) if hit else None, items=('items', src), idx=fresh('pos'), loc=(args[0][1], args[0][2], args[0][3]) if args[0][0] == 'ref' else None, span=t[7])
                out.append((x, v))
        return out
    s = it[1]
    note_int(s[3])
    loc = (args[0][1], args[0][2], args[0][3])
    ity = opt_payload_ty(e, t[5]) if t else None
    out = []
    back = f['name'] == 'next_back'
    for yes in (True, False):
        x = st.copy()
        try:
            if yes:
                x.assume_ge0(sub(s[3], ONE))
                if back:
                    e.write(x, loc, ('it', sl(s[1], s[2], sub(s[3], ONE)), it[2]))
                    out.append((x, some(it_item(e, x, it, sub(s[3], ONE), f, ity))))
                else:
                    e.write(x, loc, ('it', sl(s[1], add(s[2], ONE), sub(s[3], ONE)), it[2]))
                    item = it_item(e, x, it, ZERO, f, ity)
                    if t is not None:
                        x.ev('next', hit=1, item=item, items=('items', e.deep(st, it)), idx=s[2], span=t[7])
                    out.append((x, some(item)))
            else:
                x.assume_eq(s[3], ZERO)
                if t is not None and not back:
                    x.ev('next', hit=0, item=None, items=('items', e.deep(st, it)), idx=s[2], span=t[7])
                out.append((x, NONE))
        except EG.Infeasible:
            pass
    return out


def m_it_copy(e, st, fr, f, args, t):
    it = it_of(e, st, args[0])
    if it is None:
        return None
    return [(st, ('it', it[1], ('s', 'val')))]


def m_it_skip(e, st, fr, f, args, t):
    it = it_of(e, st, args[0])
    if it is None:
        return None
    s, n = it[1], args[1]
    note_int(n, s[3])
    return fork(st, [(lambda x: x.assume_ge0(sub(s[3], n)), ('it', sl(s[1], add(s[2], n), sub(s[3], n)), it[2])),
                     (lambda x: x.assume_ge0(sub(sub(n, s[3]), ONE)), ('it', sl(s[1], add(s[2], s[3]), ZERO), it[2]))])


def m_it_take(e, st, fr, f, args, t):
    it = it_of(e, st, args[0])
    if it is None:
        return None
    s, n = it[1], args[1]
    note_int(n, s[3])
    return fork(st, [(lambda x: x.assume_ge0(sub(s[3], n)), ('it', sl(s[1], s[2], n), it[2])),
                     (lambda x: x.assume_ge0(sub(sub(n, s[3]), ONE)), it)])


def m_it_nth(e, st, fr, f, args, t):
    it = it_of(e, st, args[0])
    if it is None or args[0][0] != 'ref':
        return None
    s, n = it[1], args[1]
    note_int(n, s[3])
    loc = (args[0][1], args[0][2], args[0][3])
    ity = opt_payload_ty(e, t[5])
    out = []
    for yes in (True, False):
        x = st.copy()
        try:
            if yes:
                x.assume_ge0(sub(sub(s[3], n), ONE))
                item = it_item(e, x, it, n, f, ity)
                e.write(x, loc, ('it', sl(s[1], add(add(s[2], n), ONE), sub(sub(s[3], n), ONE)), it[2]))
                out.append((x, some(item)))
            else:
                x.assume_ge0(sub(n, s[3]))
                e.write(x, loc, ('it', sl(s[1], add(s[2], s[3]), ZERO), it[2]))
                out.append((x, NONE))
        except EG.Infeasible:
            pass
    return out


def m_adapter(e, st, fr, f, args, t):
    """The adapters of the library over an iterator nothing is known of: what its trait provides."""
    if f.get('inst') in e.p.bodies:
        return None
    n = {'filter': 'Filter', 'map': 'Map', 'filter_map': 'FilterMap', 'inspect': 'Inspect', 'skip_while': 'SkipWhile'}[f['name']]
    it = args[0]
    return [(st, ('agg', 'core::iter::' + n, 0, (it, FALSE, args[1]) if n == 'SkipWhile' else (it, args[1])))]


def m_it_last(e, st, fr, f, args, t):
    it = it_of(e, st, args[0])
    if it is None:
        return None
    s = it[1]
    note_int(s[3])
    ity = opt_payload_ty(e, t[5])
    return fork(st, [(lambda x: x.assume_ge0(sub(s[3], ONE)), lambda x: some(it_item(e, x, it, sub(s[3], ONE), f, ity))),
                     (lambda x: x.assume_eq(s[3], ZERO), NONE)])


def m_it_len(e, st, fr, f, args, t):
    it = it_of(e, st, args[0])
    if it is None:
        v = args[0]
        x = e.deep(st, v)
        term = ('len', ('items', x[1] if x[0] == '&' else x))
        atom(term)
        return [(st, term)]
    note_int(it[1][3])
    return [(st, it[1][3])]


def next_inst(f, ty=None):
    for x in f.get('iters', []):
        if 'next' in x:
            return x
    return None


def has_mut_capture(e, st, v, d=0):
    if d > 6:
        return False
    if v[0] == 'ref':
        return True
    if v[0] == 'agg':
        return any(has_mut_capture(e, st, x, d + 1) for x in v[3])
    return False


def consume(e, st, fr, f, itv, t, nexti, per_item):
    """Abstract loop calling `next` until it returns None.  per_item(state, item) -> list of
    (state, 'back' | ('exit', value)); returns [(state, None | value)]."""
    cell = ('H', fresh('iter'))
    s0 = st.copy()
    s0.mem[cell] = itv
    icell = ('H', fresh('item'))

    def body(s):
        backs, exits = [], []
        ref = ('ref', cell, (), None)
        if nexti is not None:
            outs = e.call_instance(s, fr, nexti, [ref], t)
        else:
            it = e.read(s, (cell, (), None))
            if it[0] == 'it':
                outs = m_next(e, s, fr, {'name': 'next'}, [ref], None)
            else:
                outs = []
                x = s.copy()
                outs.append((x, NONE))
                x = s.copy()
                x.mem[cell] = ('app', 'rest', it)
                outs.append((x, some(('app', 'head', it))))
        for x, v in outs:
            d = x.disc_of(v)
            cases = [d] if d is not None else [0, 1]
            for c in cases:
                y = x.copy() if len(cases) > 1 else x
                try:
                    y.set_disc(v, c)
                except EG.Infeasible:
                    continue
                if c == 0:
                    exits.append((y, None))
                    continue
                item = e.proj(y, v, 1, 0, None)
                y.mem[icell] = item
                for z, what in per_item(y, item):
                    if what == 'back':
                        backs.append(z)
                    else:
                        exits.append((z, what[1]))
        return backs, exits

    outs = e.fix(s0, body, 'iteration in %s' % f['path'], t[7] if t else '?')
    lid = e.nloop_last
    return outs, lid, cell, icell


def m_collect(e, st, fr, f, args, t):
    """FromIterator::from_iter / Iterator::collect / Extend::extend on growable collections."""
    name = f['name']
    itv = args[0] if name != 'extend' else args[1]
    rty = t[5]
    rt = e.p.types[rty]
    rs = norm(rt['s'])
    if name == 'extend':
        return None
    src = itv
    if itv[0] == 'ref':
        src = e.load_ref(st, itv)
    st.ev('collect', into=rs, src=e.deep(st, src), rawsrc=src, span=t[7], f=f)
    if src[0] == 'it':
        if rt['k'] == 'adt' and is_list(rs):
            return [(st, ('vec', src[1]))]
        if not rs.startswith('core::result::Result') and not rs.startswith('core::option::Option'):
            return [(st, ('app', 'collected', src[1]))]
    nx = next_inst(f)
    is_res = rs.startswith(RES)
    items = ('items', e.deep(st, src))
    if nx is None and not is_res:
        if is_list(rs):
            return [(st, ('vec', whole(items)))]
        return [(st, ('app', 'collected', whole(items)))]
    outs = []
    evn = len(st.trace)

    def per_item(s, item):
        if not is_res:
            return [(s, 'back')]
        r = []
        d = s.disc_of(item)
        for c in ([d] if d is not None else [0, 1]):
            x = s.copy()
            try:
                x.set_disc(item, c)
            except EG.Infeasible:
                continue
            if c == 0:
                r.append((x, 'back'))
            else:
                r.append((x, ('exit', err(e.proj(x, item, 1, 0, None)))))
        return r

    lo, lid, cell, icell = consume(e, st, fr, f, itv if itv[0] == 'ref' else src, t, nx['next'] if nx else None, per_item)
    for s, v in lo:
        if v is None:
            inner = ('app', 'collected', ('loop', lid), whole(items))
            if is_res:
                ity = rt['args'][0]
                irs = e.p.tystr(ity)
                inner = ('vec', whole(('items', ('loop', lid), e_deep_safe(e, st, src)))) if is_list(irs) else inner
                v = ok(inner)
            else:
                v = ('vec', whole(items)) if is_list(rs) else inner
            s.ev('collected', loop=lid, ret=v, into=rs, cell=cell, icell=icell, span=t[7])
        outs.append((s, v))
    return outs


def e_deep_safe(e, st, v):
    return e.deep(st, v)


def is_list(s):
    return bool(re.match(r'(alloc|core)::vec::Vec<|smallvec::SmallVec<|(alloc|core)::boxed::Box<\[', s))


def m_search(e, st, fr, f, args, t):
    """find / position / any / all / find_map on an iterator given by value or by reference."""
    name = f['name']
    itref = args[0]
    src = e.load_ref(st, itref) if itref[0] == 'ref' else itref
    pred = args[1] if len(args) > 1 else None
    clo = None
    for x in f.get('iters', []):
        if 'call' in x:
            clo = x
    if name == 'count':
        # how many items pass a filter: none, or at least the first that does
        if itref[0] != 'agg' or str(itref[1]).split('::')[-1] != 'Filter' or len(itref[3]) != 2:
            return None
        src, pred = itref[3]
        itref = src
    while pred is not None and pred[0] == 'ref':
        pred = e.load_ref(st, pred)
    if pred is None or pred[0] != 'agg' and pred[0] != 'fn':
        return None
    # evaluate the predicate once on an arbitrary item, to know what is being looked for
    it = it_of(e, st, itref) if itref[0] == 'ref' else (itref if itref[0] == 'it' else None)
    maps = []
    while it is None and src[0] == 'agg' and str(src[1]).split('::')[-1] == 'Map' and len(src[3]) == 2:
        maps.insert(0, src[3][1])
        src = src[3][0]
        it = src if src[0] == 'it' else None
    if it is None:
        src = e.load_ref(st, itref) if itref[0] == 'ref' else itref
        maps = []
    items = ('items', e.deep(st, src))
    idx = fresh('pos')
    set_range(idx, 0, 'LEN')
    if it is not None:
        s = it[1]
        note_int(s[3])
    out = []
    # 1. found
    x = st.copy()
    try:
        if it is not None:
            x.assume_ge0(sub(sub(s[3], idx), ONE))
            item = it_item(e, x, it, idx)
        else:
            item = ('elem', items, idx)
        for g in maps:
            r = call_value(e, x, fr, g, [item], t)
            if len(r) != 1:
                raise EG.Incomplete('a search over mapped items')
            x, item = r[0]
        if name == 'count':
            howmany = fresh('count')
            set_range(howmany, 1, 'LEN')
            x.assume_ge0(sub(howmany, ONE))
        found_val = {'find': some(item), 'position': some(idx), 'any': TRUE, 'all': FALSE, 'count': howmany if name == 'count' else None, 'find_map': item}[name]
        arg = item
        if name in ('find', 'count'):
            arg = ('cref', item)
        miss = []
        hits = []
        mapped = {}
        for y, b in call_value(e, x, fr, pred, [arg], t, clo):
            if name == 'find_map':
                for d in (0, 1):
                    z = y.copy()
                    try:
                        z.set_disc(b, d)
                    except EG.Infeasible:
                        continue
                    if d:
                        mapped[id(z)] = b
                        hits.append(z)
                    else:
                        miss.append((z, item))
                continue
            z = y.copy()
            try:
                z.assume_bool(b, name == 'all')
                miss.append((z, item))
            except EG.Infeasible:
                pass
            try:
                y.assume_bool(b, name != 'all')
            except EG.Infeasible:
                continue
            hits.append(y)
        firsts = searched_first([(y, item) for y in hits], miss, items, idx)
        for y in hits:
            if itref[0] == 'ref' and it is None:
                e.write(y, (itref[1], itref[2], itref[3]), ('app', 'after', items, idx))
            elif itref[0] == 'ref' and not maps:
                e.write(y, (itref[1], itref[2], itref[3]), ('it', sl(s[1], add(add(s[2], idx), ONE), sub(sub(s[3], idx), ONE)), it[2]))
            out.append((y, mapped.get(id(y), found_val)))
            y.ev('found', name=name, items=items, idx=idx, item=item, span=t[7], first=firsts)
    except EG.Infeasible:
        miss = []
    # 2. not found: nothing is known of the items beyond the name of the search
    x = st.copy()
    nf = {'find': NONE, 'find_map': NONE, 'position': NONE, 'any': FALSE, 'all': TRUE, 'count': ZERO}[name]
    if itref[0] == 'ref' and it is not None and not maps:
        e.write(x, (itref[1], itref[2], itref[3]), ('it', sl(s[1], add(s[2], s[3]), ZERO), it[2]))
    x.ev('notfound', name=name, items=items, miss=miss, span=t[7])
    out.append((x, nf))
    return out


def searched_first(hits, miss, items, idx):
    """What a search that looks at nothing but whether the first field of an item is there stops at."""
    h = set(first_disc(y, items, idx, item) for y, item in hits)
    m = set(first_disc(y, items, idx, item) for y, item in miss)
    if len(h) == 1 and len(m) == 1 and None not in h and None not in m and h != m:
        return list(h)[0]
    return None


SEARCH_NOISE = ('next', 'pure', 'opaque', 'cmp', 'loop')


def search_loop(e, L, exits):
    """A loop that passes items over until it meets one it leaves with: noted on the exits like the
    searches of the library."""
    n = L['prefix']
    miss = []
    for bk in L['backs']:
        evs = bk.trace[n:]
        nx = [x for x in evs if x['k'] == 'next']
        if len(nx) != 1 or not nx[0]['hit'] or any(x['k'] not in SEARCH_NOISE or x['k'] == 'opaque' and not x['path'].endswith('Iterator::next') for x in evs):
            return
        miss.append((bk, nx[0]['item']))
    if not miss or L['grown']:
        return
    hits = []
    for x, b in exits:
        nx = [y for y in x.trace[n:] if y['k'] == 'next']
        if len(nx) != 1:
            return
        if nx[0]['hit']:
            hits.append((x, nx[0]))
    if not hits:
        return
    f = searched_first([(x, y['item']) for x, y in hits], miss, hits[0][1]['items'], hits[0][1]['idx'])
    for x, b in exits:
        y = [y for y in x.trace[n:] if y['k'] == 'next'][0]
        if y['hit']:
            x.ev('found', name='any', items=y['items'], idx=y['idx'], item=y['item'], span=('loop', L['span'], e.nloop_last), first=f)
        else:
            x.ev('notfound', name='any', items=y['items'], miss=miss, span=('loop', L['span'], e.nloop_last))


def collect_loop(e, L, exits):
    """A loop that puts every item of an iterator into an empty list, in order: what it leaves is what
    collecting the iterator gives."""
    if len(L['grown']) != 1 or L['grownshape'] != 'vec':
        return
    n = L['prefix']
    key = L['grown'][0]
    at = (key[0], key[1], None)
    src = None
    for bk, hd in [(b, L['heads'][0]) for b in L['backs']]:
        evs = bk.trace[n:]
        nx = [x for x in evs if x['k'] == 'next']
        if len(nx) != 1 or not nx[0]['hit'] or nx[0].get('loc') is None or any(x['k'] not in SEARCH_NOISE + ('push',) or x['k'] == 'opaque' and not x['path'].endswith('Iterator::next') for x in evs):
            return
        got = e.pushed(e.read(hd, at), e.read(bk, at))
        if got is None or got is False or e.deep(bk, got) != e.deep(bk, nx[0]['item']):
            return
        if src not in (None, nx[0]['loc']):
            return
        src = nx[0]['loc']
    if src is None or len(L['heads']) != 1:
        return
    items = ('items', e.deep(L['entry'], e.read(L['entry'], src)))
    for x, b in exits:
        nx = [y for y in x.trace[n:] if y['k'] == 'next']
        if len(nx) == 1 and not nx[0]['hit'] and nx[0].get('loc') == src:
            e.write(x, at, ('vec', whole(items)))


def first_disc(st, items, idx, item):
    """The variant the first field of a found item is known to have (the name of a source field)."""
    for n in [item] + [('fld', x, None, 0) for x in (('elem', items, idx), item, ('elem',) + tuple(item[1:])) + ((item[1],) if item[0] == 'cref' else ())]:
        d = st.disc_of(n)
        if d is not None:
            return d
        for a in list(ATOMS):
            if a[0] == 'discr' and a[1] == n:
                for want, other in ((0, ONE), (1, ZERO)):
                    z = st.copy()
                    try:
                        z.assume_eq(a, other)
                    except EG.Infeasible:
                        return want
    return None


def call_value(e, st, fr, fv, args, t, clo=None):
    v = fv
    if v[0] == 'agg' and v[1] == 'closure':
        kd = e.closures.get(v[2])
        inst = clo['call'] if clo else (kd['inst'] if kd else None)
        if inst is None:
            raise EG.Incomplete('closure %s' % v[2])
        return e.call_instance(st, fr, inst, [v] + args, t)
    if v[0] == 'fn':
        g = e.fnvals.get(v[2])
        return e.invoke(st, fr, g, args, t)
    raise EG.Incomplete('call of %s' % show(v))


def m_str_eq(e, st, fr, f, args, t):
    """== on strings (and on references to them)."""
    a, b = text(e, st, args[0]), text(e, st, args[1])
    if a[0] != 'sl' or b[0] != 'sl':
        return None
    if a == b:
        v = TRUE
    elif a[1][0] == 's' and b[1][0] == 's' and a[2] == ZERO and b[2] == ZERO and a[3][0] == 'i' and b[3][0] == 'i':
        v = TRUE if a[1] == b[1] else FALSE
    else:
        x, y = sorted((a, b), key=repr)
        v = ('streq', x, y)
    if f['name'] == 'ne':
        v = EG.negate(v)
    return [(st, v)]


def streq_assume(st):
    pass


def m_opt_eq(e, st, fr, f, args, t):
    """== on Option<&str> and similar."""
    a = e.deep(st, args[0])
    b = e.deep(st, args[1])
    r = struct_eq(a, b)
    if r is None:
        x, y = sorted((a, b), key=repr)
        r = ('valeq', x, y)
    if f['name'] == 'ne':
        r = EG.negate(r)
    return [(st, r)]


def struct_eq(a, b):
    while a[0] == '&':
        a = a[1]
    while b[0] == '&':
        b = b[1]
    if a == b:
        return TRUE
    if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1]:
        if a[2] != b[2]:
            return FALSE
        rs = [struct_eq(x, y) for x, y in zip(a[3], b[3])]
        if all(r == TRUE for r in rs):
            return TRUE
        if any(r == FALSE for r in rs):
            return FALSE
        nt = [r for r in rs if r != TRUE]
        if len(nt) == 1 and nt[0] is not None:
            return nt[0]
        return None
    if a[0] == 'sl' and b[0] == 'sl':
        if a[1][0] == 's' and b[1][0] == 's' and a[2] == ZERO == b[2]:
            return TRUE if a == b else FALSE
        x, y = sorted((a, b), key=repr)
        return ('streq', x, y)
    if a[0] == 'i' and b[0] == 'i':
        return TRUE if a == b else FALSE
    return None


def m_from_utf8(e, st, fr, f, args, t):
    s = args[0]
    if s[0] != 'sl':
        return None
    return fork(st, [(lambda x: x.set_disc(('utf8', s), 1), ok(s)),
                     (lambda x: x.set_disc(('utf8', s), 0), err(('app', 'Utf8Error', s)))])


def m_char_from_u32(e, st, fr, f, args, t):
    v = args[0]
    c = ('app', 'char', v)
    return fork(st, [(lambda x: x.set_disc(('ischar', v), 1), some(c)), (lambda x: x.set_disc(('ischar', v), 0), NONE)])


def m_char_try_from(e, st, fr, f, args, t):
    ts = int_tys(e, f)
    if 'char' not in ts or 'u32' not in ts:
        return None
    v = args[0]
    c = ('app', 'char', v)
    return fork(st, [(lambda x: x.set_disc(('ischar', v), 1), ok(c)), (lambda x: x.set_disc(('ischar', v), 0), err(('app', 'CharTryFromError', v)))])


# --- parity-scale-codec: Decode reads its own type from the front of the input -------------------
FIXED = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'u128': 16, 'i128': 16, 'bool': 1}


def m_decode(e, st, fr, f, args, t):
    ty = f['args'][0]
    name = e.p.tystr(ty)
    a = args[0]
    if a[0] != 'ref':
        # pointer to the input held outside: materialise
        loc = e.deref(st, a, None)
    else:
        loc = (a[1], a[2], a[3])
    ity = f['args'][1] if len(f['args']) > 1 else None
    cur = e.read(st, loc)
    if cur[0] != 'sl':
        cur = whole(cur)
    outs = []
    x = st.copy()
    short = name.replace('parity_scale_codec::', '').split('<')[0].split('::')[-1]
    inner = None
    tt = e.p.types[ty]
    if tt['k'] == 'adt' and tt['args']:
        inner = e.p.tystr(tt['args'][0])
    kind = ('s', 'Compact:' + inner if short == 'Compact' else name)
    val = e.mk(('dec', kind, cur[1], cur[2]), ty)
    if short == 'Compact':
        payload = e.mk(('fld', val, None, 0), tt['args'][0])
        size = ('app', 'compact_len', payload)
        set_range(size, 1, 17)
        val = ('agg', 'parity_scale_codec::Compact', 0, (payload,))
    elif name in FIXED:
        size = I(FIXED[name])
    else:
        size = ('app', 'decsize', kind, cur[1], cur[2])
        set_range(size, 0, None)
    try:
        x.assume_ge0(sub(cur[3], size))
        e.write(x, loc, sl(cur[1], add(cur[2], size), sub(cur[3], size)))
        x.ev('decode', ty=name, kind=kind[1], at=cur, loc=loc, val=val, ok=True, span=t[7])
        outs.append((x, ok(val)))
    except EG.Infeasible:
        pass
    y = st.copy()
    d = fresh('partial')
    set_range(d, 0, 'LEN')
    try:
        y.assume_ge0(sub(cur[3], d))
        e.write(y, loc, sl(cur[1], add(cur[2], d), sub(cur[3], d)))
        er = ('app', 'codec_error', kind, cur[1], cur[2])
        y.ev('decode', ty=name, kind=kind[1], at=cur, loc=loc, ok=False, err=er, span=t[7])
        outs.append((y, err(er)))
    except EG.Infeasible:
        pass
    return outs


def m_compact_len(e, st, fr, f, args, t):
    v = e.load_ref(st, args[0])
    r = ('app', 'compact_len', v)
    set_range(r, 1, 17)
    return [(st, r)]


def m_encoded_size(e, st, fr, f, args, t):
    v = e.load_ref(st, args[0])
    r = ('app', 'encoded_size', v)
    set_range(r, 0, LEN_MAX)
    return [(st, r)]


def m_decode_bits(e, st, fr, f, args, t):
    v = ('app', 'bitdecoder', args[0], args[1])
    er = ('app', 'codec_error', ('s', 'bits'), args[0], args[1])
    c = ('bitsok', args[0], args[1])
    return fork(st, [(lambda x: (x.set_disc(c, 1), x.ev('bits', at=args[0], fmt=args[1], ok=True, span=t[7])), ok(v)), (lambda x: (x.set_disc(c, 0), x.ev('bits', at=args[0], fmt=args[1], ok=False, err=er, span=t[7])), err(er))])


def m_bits_format(e, st, fr, f, args, t):
    return [(st, ('app', 'bitformat', args[0], args[1]))]


def m_to_string(e, st, fr, f, args, t):
    v = args[0]
    x = text(e, st, v)
    if x[0] == 'sl':
        return [(st, x)]
    d = e.deep(st, v)
    while d[0] == '&':
        d = d[1]
    return [(st, ('app', 'display', d))]


def m_box_new(e, st, fr, f, args, t):
    return [(st, ('box', args[0], ('s', f['path'].split('::')[-3] if 'Box' not in f['path'] else 'Box')))]


def m_box_uninit(e, st, fr, f, args, t):
    cell = ('H', fresh('box'))
    st.mem[cell] = ('undef',)
    return [(st, ('ref', cell, (), None))]


def m_box_into_vec(e, st, fr, f, args, t):
    v = e.load_ref(st, args[0])
    n = 0
    while v[0] == 'upd' and n < 4:
        inner = [x for _, x in v[2]]
        v = inner[-1]
        n += 1
    while v[0] == 'agg' and v[1] != 'array' and len(v[3]) >= 1 and n < 8:
        v = v[3][-1]
        n += 1
    if v[0] == 'agg' and v[1] == 'array':
        return [(st, ('vec', sl(('arrval', v), ZERO, I(len(v[3])))))]
    return None


def m_vec_new(e, st, fr, f, args, t):
    return [(st, ('vec', sl(('arrval', ('agg', 'array', 0, ())), ZERO, ZERO)))]


def m_vec_push(e, st, fr, f, args, t):
    if args[0][0] != 'ref':
        loc = e.deref(st, args[0], None)
    else:
        loc = (args[0][1], args[0][2], args[0][3])
    cur = e.read(st, loc)
    s = as_slice(e, st, cur)
    if s is None:
        s = sl(('items', cur), ZERO, ('len', ('items', cur)))
    b = s[1]
    if b[0] == 'arrval' and s[2] == ZERO and s[3] == I(len(b[1][3])):
        n = ('agg', 'array', 0, b[1][3] + (args[1],))
        e.write(st, loc, ('vec', sl(('arrval', n), ZERO, I(len(n[3])))))
    else:
        note_int(s[3])
        e.write(st, loc, ('vec', sl(('pushed', s, args[1]), ZERO, add(s[3], ONE))))
    st.ev('push', loc=loc, val=args[1], span=t[7])
    return [(st, UNIT)]


def m_vec_insert(e, st, fr, f, args, t):
    """At the end, this is a push."""
    s = veclike(e, st, args[0])
    if s is None or not EG.isint(args[1]):
        return None
    note_int(s[3], args[1])
    if st.eq(s[3], args[1]):
        return m_vec_push(e, st, fr, f, [args[0], args[2]], t)
    return None


GROWING = r'collections::(vec_deque::|linked_list::|binary_heap::|btree::set::)?(VecDeque|LinkedList|BinaryHeap|BTreeSet)::<.*>|scale_bits::Bits'


def m_coll_new(e, st, fr, f, args, t):
    return [(st, ('app', 'emptycoll', ('s', e.p.tystr(t[5]))))]


def m_coll_push(e, st, fr, f, args, t):
    loc = e.deref(st, args[0], None) if args[0][0] != 'ref' else (args[0][1], args[0][2], args[0][3])
    cur = e.read(st, loc)
    e.write(st, loc, ('app', 'collpush', cur, args[1]))
    st.ev('push', loc=loc, val=args[1], span=t[7])
    rt = e.p.types[t[5]]
    return [(st, e.mk(('app', 'fresh_in', cur, args[1]), t[5]) if rt['k'] != 'tuple' else UNIT)]


def m_capacity(e, st, fr, f, args, t):
    n = args[0] if f['name'] == 'with_capacity' else args[1]
    note_int(n)
    st.ev('capacity', n=n, path=norm(f['path']), span=t[7])
    if f['name'] == 'with_capacity':
        if is_list(e.p.tystr(t[5])):
            return [(st, ('vec', sl(('arrval', ('agg', 'array', 0, ())), ZERO, ZERO)))]
        return [(st, ('app', 'emptycoll', ('s', e.p.tystr(t[5]))))]
    return [(st, UNIT)]


def m_mem_replace(e, st, fr, f, args, t):
    loc = e.deref(st, args[0], None)
    old = e.read(st, loc)
    e.write(st, loc, args[1])
    return [(st, old)]


def m_noop(e, st, fr, f, args, t):
    return [(st, UNIT)]


def m_panic(e, st, fr, f, args, t):
    e.panic(st, fr, 'call of %s' % norm(f['path']), t[7])
    return []


def m_identity(e, st, fr, f, args, t):
    return [(st, args[0])]


def m_slice_range_identity(e, st, fr, f, args, t):
    return [(st, args[0])]


def m_as_ptr(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    return [(st, s)] if s is not None else None


def m_into_iter(e, st, fr, f, args, t):
    a = args[0]
    s = as_slice(e, st, a) if a[0] in ('sl', 'vec') else None
    if s is not None and a[0] == 'sl':
        return [(st, ('it', s, ('s', 'ref')))]
    if a[0] == 'vec':
        return [(st, ('it', s, ('s', 'val')))]
    if a[0] == 'it':
        return [(st, a)]
    if a[0] in ('ref', 'cref'):
        v = e.load_ref(st, a)
        if v[0] == 'vec':
            return [(st, ('it', v[1], ('s', 'ref')))]
        if v[0] == 'agg' and v[1] == 'array':
            return [(st, ('it', sl(('arrval', v), ZERO, I(len(v[3]))), ('s', 'ref')))]
    if a[0] == 'agg' and a[1] == 'array':
        return [(st, ('it', sl(('arrval', a), ZERO, I(len(a[3]))), ('s', 'val')))]
    # references to symbolic collections
    if f.get('args'):
        ty = e.p.types[f['args'][0]]
        if ty['k'] == 'ref' and not ty['mut'] and re.search(r'Vec<|SmallVec<', ty['s']):
            s = veclike(e, st, a)
            if s is not None:
                return [(st, ('it', s, ('s', 'ref')))]
    return None


def m_map_new(e, st, fr, f, args, t):
    return [(st, ('map', ()))]


def m_map_insert(e, st, fr, f, args, t):
    loc = e.deref(st, args[0], None)
    cur = e.read(st, loc)
    st.ev('insert', key=args[1], val=args[2], loc=loc, span=t[7])
    if cur[0] == 'map':
        e.write(st, loc, ('map', cur[1] + ((args[1], args[2]),)))
    else:
        e.write(st, loc, ('app', 'mapins', cur, args[1], args[2]))
    return [(st, e.mk(fresh('old'), t[5]))]


def m_map_get(e, st, fr, f, args, t):
    m = e.load_ref(st, args[0])
    k = e.deep(st, args[1])
    while k[0] == '&':
        k = k[1]
    v = ('app', 'mapval', m, k)
    st.ev('lookup', map=m, key=k, val=v, span=t[7], name=f['name'])
    val = v
    if f['name'] == 'get':
        val = ('app', 'mapref', m, k)
        st.mem.setdefault(('E', val), v)
    if f['name'] == 'contains_key':
        return [(st, ('isdisc', ('haskey', m, k), 1))]
    if f['name'] == 'remove':
        loc = e.deref(st, args[0], None)
    return fork(st, [(lambda x: x.set_disc(('haskey', m, k), 1), some(val)), (lambda x: x.set_disc(('haskey', m, k), 0), NONE)])


def m_ord_cmp(e, st, fr, f, args, t):
    ts = int_tys(e, f)
    if not ts or ts[0] is None:
        return None
    a, b = e.load_ref(st, args[0]), e.load_ref(st, args[1])
    note_int(a, b)
    n = f['name']
    d = sub(a, b)
    r = {'eq': ('eq0', d), 'ne': EG.negate(('eq0', d)), 'lt': ('ge0', sub(sub(b, a), ONE)), 'le': ('ge0', sub(b, a)), 'gt': ('ge0', sub(sub(a, b), ONE)), 'ge': ('ge0', d)}.get(n)
    if r is None:
        return None
    v = st.bool_value(r)
    return [(st, r if v is None else (TRUE if v else FALSE))]


def m_checked(e, st, fr, f, args, t):
    m = re.search(r'impl (\w+)>', norm(f['path']))
    if not m or m.group(1) not in INT_RANGE:
        return None
    name = m.group(1)
    op = f['name']
    a, b = args[0], args[1]
    note_int(a, b)
    if op.endswith('_add') or op.endswith('_sub'):
        v = add(a, b) if op.endswith('_add') else sub(a, b)
    else:
        return None
    lo, hi = INT_RANGE[name]
    if op.startswith('checked'):
        out = fork(st, [(lambda x: (x.assume_ge0(sub(v, I(lo))), x.assume_ge0(sub(I(hi), v))), some(v))])
        for bad in (sub(I(lo - 1), v), sub(v, I(hi + 1))):
            out += fork(st, [(lambda x, bad=bad: x.assume_ge0(bad), NONE)])
        return out
    if op.startswith('saturating'):
        out = fork(st, [(lambda x: (x.assume_ge0(sub(v, I(lo))), x.assume_ge0(sub(I(hi), v))), v)])
        out += fork(st, [(lambda x: x.assume_ge0(sub(I(lo - 1), v)), I(lo))])
        out += fork(st, [(lambda x: x.assume_ge0(sub(v, I(hi + 1))), I(hi))])
        return out
    return None


def m_wrapping(e, st, fr, f, args, t):
    m = re.search(r'impl (\w+)>', norm(f['path']))
    if not m or m.group(1) not in INT_RANGE or len(args) < 2:
        return None
    a, b = args[0], args[1]
    note_int(a, b)
    v = add(a, b) if f['name'].endswith('_add') else sub(a, b) if f['name'].endswith('_sub') else None
    if v is not None and e.in_range(st, v, m.group(1)):
        return [(st, v)]
    return None


def m_minmax(e, st, fr, f, args, t):
    ts = int_tys(e, f)
    if not ts or ts[0] is None:
        return None
    a, b = args[0], args[1]
    note_int(a, b)
    if f['name'] == 'min':
        return fork(st, [(lambda x: x.assume_ge0(sub(b, a)), a), (lambda x: x.assume_ge0(sub(sub(a, b), ONE)), b)])
    return fork(st, [(lambda x: x.assume_ge0(sub(a, b)), a), (lambda x: x.assume_ge0(sub(sub(b, a), ONE)), b)])


def m_size_hint(e, st, fr, f, args, t):
    return None


def m_as_ref_text(e, st, fr, f, args, t):
    rt = e.p.types[t[5]]
    if rt['k'] == 'ref' and e.p.types[rt['to']]['k'] == 'str':
        v = text(e, st, args[0])
        if v[0] == 'sl':
            return [(st, v)]
        return [(st, whole(v))]
    return m_deref(e, st, fr, f, args, t)


def m_to_owned(e, st, fr, f, args, t):
    v = text(e, st, args[0])
    if v[0] == 'sl':
        rs = e.p.tystr(t[5])
        if is_list(rs):
            return [(st, ('vec', v))]
        return [(st, v)]
    return None


def m_to_vec(e, st, fr, f, args, t):
    s = veclike(e, st, args[0])
    return [(st, ('vec', s))] if s is not None else None


def m_into_owned(e, st, fr, f, args, t):
    return [(st, ('app', 'owned', e.deep(st, args[0])))]


def m_error_from_str(e, st, fr, f, args, t):
    return None


def m_duration_new(e, st, fr, f, args, t):
    """Panics only when the nanoseconds are a second or more (they carry, and the seconds can overflow)."""
    note_int(args[1])
    if not st.nonneg(sub(I(999999999), args[1])):
        e.panic(st, fr, 'call of core::time::Duration::new, which can panic for some arguments', t[7] if t else '?')
    return [(st, ('app', 'core::time::Duration::new', ('s', '')) + tuple(args))]


def m_vec_to_array(e, st, fr, f, args, t):
    """<[T; N]>::try_from(Vec<T>)"""
    tys = f.get('args', [])
    if len(tys) < 2:
        return None
    src, dst = (tys[0], tys[1]) if f['name'] == 'try_into' else (tys[1], tys[0])
    st_, dt = e.p.types[src], e.p.types[dst]
    by_ref = dt['k'] == 'ref'
    if by_ref:
        dt = e.p.types[dt['to']]
    if dt['k'] != 'array':
        return None
    s = as_slice(e, st, args[0])
    if s is None:
        return None
    n = I(int(dt['len'])) if str(dt['len']).isdigit() else ('app', 'konst', ('s', str(dt['len']).split('/')[0] + ':usize'))
    if n[0] != 'i':
        set_range(n, 0, LEN_MAX)
    note_int(s[3], n)
    if by_ref and n[0] == 'i':
        v = ('app', 'chunk', sl(s[1], s[2], n))
        return fork(st, [(lambda x: x.assume_eq(s[3], n), ok(v)), (lambda x: x.assume_ne(s[3], n), err(('app', 'unchanged', args[0])))])
    # a vector of the wrong length is handed back
    back = args[0] if re.match(r'(alloc|core)::vec::Vec<', e.p.tystr(src)) else ('app', 'unchanged', args[0])
    return fork(st, [(lambda x: x.assume_eq(s[3], n), ok(('app', 'array_of', s))), (lambda x: x.assume_ne(s[3], n), err(back))])


def m_default(e, st, fr, f, args, t):
    ty = f['args'][0]
    s = e.p.tystr(ty)
    if re.match(r'(alloc|core)::vec::Vec<|smallvec::SmallVec<', s):
        return [(st, ('vec', sl(('arrval', ('agg', 'array', 0, ())), ZERO, ZERO)))]
    n = e.int_name(ty)
    if n in INT_RANGE and n != 'char':
        return [(st, ZERO)]
    if re.match(r'(alloc::)?' + re.sub(r'::<\.\*>', '<.*>', GROWING) + '$', s):
        return [(st, ('app', 'emptycoll', ('s', s)))]
    if 'inst' in f:
        b = e.p.bodies.get(f['inst'])
        if b is not None and b['crate'] == 'scale_decode':
            return None
    return [(st, e.mk(('app', 'default', ('s', s)), t[5]))]


def m_peq(e, st, fr, f, args, t):
    r = m_ord_cmp(e, st, fr, f, args, t)
    if r is not None:
        return r
    tys = f.get('args', [])
    ss = [e.p.tystr(x) for x in tys if isinstance(x, int)]
    if ss and all(is_text_like(x) for x in ss[:2]):
        return m_str_eq(e, st, fr, f, args, t)
    if ss and ('Option<' in ss[0]):
        return m_opt_eq(e, st, fr, f, args, t)
    return None


def is_text_like(s):
    s = s.lstrip('&')
    s = re.sub(r"^'\w+ ", '', s)
    return s == 'str' or s.endswith('string::String') or bool(re.search(r"borrow::Cow<'_, str>$", s))


BY_NAME = {}


def reg(pattern, fn):
    RULES.append((re.compile(pattern), fn))


RULES = []
reg(r'^core::slice::<impl \[T\]>::get(_mut)?$', m_get)
reg(r'^core::str::<impl str>::get$', m_get)
reg(r'^core::slice::<impl \[T\]>::len$', m_len)
reg(r'^core::str::<impl str>::len$', m_len)
reg(r'^smallvec::SmallVec::<A>::len$|vec::Vec::<T, A>::len$|string::String::len$', m_len)
reg(r'^core::slice::<impl \[T\]>::is_empty$|^core::str::<impl str>::is_empty$|^smallvec::SmallVec::<A>::is_empty$|vec::Vec::<T, A>::is_empty$', m_is_empty)
reg(r'^core::slice::<impl \[T\]>::first$', m_first)
reg(r'^core::slice::<impl \[T\]>::last$', m_last)
reg(r'^core::slice::<impl \[T\]>::(first_chunk|split_first_chunk)$', m_first_chunk)
reg(r'^core::slice::<impl \[T\]>::(split_at|split_at_checked)$', m_split_at)
reg(r'^core::slice::<impl \[T\]>::split_first$', m_split_first)
reg(r'^core::slice::<impl \[T\]>::iter$', m_iter)
reg(r'^core::ops::Index::index$', m_index)
reg(r'^core::ops::(Deref::deref|DerefMut::deref_mut)$|::as_slice$|^core::convert::AsRef::as_ref$|borrow::Borrow::borrow$|string::String::as_str$', m_as_ref_text)
reg(r'^core::clone::Clone::clone$|^core::option::Option::<&.*T>::(cloned|copied)$x', m_clone)
reg(r'^core::convert::(TryFrom::try_from|TryInto::try_into)$', lambda *a: m_tryfrom(*a) or m_vec_to_array(*a) or m_char_try_from(*a))
reg(r'^core::convert::(From::from|Into::into)$', m_into)
reg(r'^core::num::(nonzero::)?NonZero::<T>::new$|::NonZero::<.*>::new$', m_nonzero_new)
reg(r'^core::num::(nonzero::)?NonZero::<T>::get$', m_identity)
reg(r'^core::iter::IntoIterator::into_iter$', m_into_iter)
reg(r'^core::iter::(Iterator::next|DoubleEndedIterator::next_back)$', m_next)
reg(r'^core::iter::Iterator::(cloned|copied)$', m_it_copy)
reg(r'^core::iter::Iterator::skip$', m_it_skip)
reg(r'^core::iter::Iterator::take$', m_it_take)
reg(r'^core::iter::Iterator::nth$', m_it_nth)
reg(r'^core::iter::Iterator::(filter|map|filter_map|inspect|skip_while)$', m_adapter)
reg(r'^core::iter::Iterator::last$|^core::iter::DoubleEndedIterator::last$', m_it_last)
reg(r'^core::iter::ExactSizeIterator::len$', m_it_len)
reg(r'^core::iter::Iterator::(find|find_map|any|all|position|count)$', m_search)
reg(r'^core::iter::(Iterator::collect|FromIterator::from_iter)$', m_collect)
reg(r'^core::iter::Extend::extend$', lambda *a: m_extend(*a))
reg(r'^core::str::from_utf8$|^core::str::converts::from_utf8$|^core::str::<impl str>::from_utf8$', m_from_utf8)
reg(r'^core::char::(methods::<impl char>::|convert::)?from_u32$|^core::char::from_u32$', m_char_from_u32)
reg(r'^parity_scale_codec::Decode::decode$', m_decode)
reg(r'^parity_scale_codec::CompactLen::compact_len$', m_compact_len)
reg(r'^scale_bits::scale::Decoder::.*::encoded_size$', m_encoded_size)
reg(r'^scale_bits::(scale::)?decode_using_format_from$', m_decode_bits)
reg(r'^scale_bits::(scale::)?(format::)?Format::new$', m_bits_format)
reg(r'string::ToString::to_string$', m_to_string)
reg(r'borrow::ToOwned::to_owned$', m_to_owned)
reg(r'slice::<impl \[T\]>::(to_vec|into_vec)', m_to_vec)
reg(r'(boxed::Box|rc::Rc|sync::Arc)::<T>::new$', m_box_new)
reg(r'boxed::Box::<T>::new_uninit$', m_box_uninit)
reg(r'boxed::box_assume_init_into_vec_unsafe$|slice::<impl \[T\]>::into_vec$', m_box_into_vec)
reg(r'vec::Vec::<T>::new$|^smallvec::SmallVec::<A>::new$', m_vec_new)
reg(r'vec::Vec::<T, A>::insert$|^smallvec::SmallVec::<A>::insert$', m_vec_insert)
reg(r'vec::Vec::<T, A>::push$|^smallvec::SmallVec::<A>::push$', m_vec_push)
reg('(' + GROWING + r')::new$', m_coll_new)
reg('(' + GROWING + r')::(push_back|push|insert)$', m_coll_push)
reg(r'::(with_capacity|reserve|reserve_exact|with_capacity_in|try_reserve)$', m_capacity)
reg(r'^core::mem::replace$', m_mem_replace)
reg(r'^core::panicking::|^core::option::(expect_failed|unwrap_failed)$|^core::result::unwrap_failed$|slice_index_fail|::panic_cold|^core::panicking|^core::slice::index::slice_', m_panic)
reg(r'^core::hint::must_use$|^core::intrinsics::(likely|unlikely|black_box)$', m_identity)
reg(r'precondition_check|^core::intrinsics::cold_path$|^core::hint::assert_unchecked$', m_noop)
reg(r'collections::(btree::map::)?BTreeMap::<K, V>::new$', m_map_new)
reg(r'collections::(btree::map::)?BTreeMap::<K, V, A>::insert$', m_map_insert)
reg(r'collections::(btree::map::)?BTreeMap::<K, V, A>::(get|remove|contains_key)$', m_map_get)
reg(r'^core::cmp::(PartialEq::(eq|ne)|PartialOrd::(lt|le|gt|ge))$', m_peq)
reg(r'::(checked|saturating)_(add|sub)$', m_checked)
reg(r'::wrapping_(add|sub)$', m_wrapping)
reg(r'^core::cmp::(Ord::)?(min|max)$', m_minmax)
reg(r'borrow::Cow::<\'_, B>::into_owned$', m_into_owned)
reg(r'^core::default::Default::default$', m_default)
reg(r'^core::time::Duration::new$', m_duration_new)

_rule_cache = {}


def model(e, st, fr, f, args, t):
    p = norm(f['path'])
    fns = _rule_cache.get(p)
    if fns is None:
        fns = [fn for rx, fn in RULES if rx.search(p)]
        _rule_cache[p] = fns
    for fn in fns:
        r = fn(e, st, fr, f, args, t)
        if r is not None:
            return r
    return None


# Library functions reviewed as total (they return for every argument, short of exhausting memory).
TOTAL = re.compile(r'''
  ^core::fmt::|^alloc::fmt::|^core::clone::|^core::convert::|^core::default::|^core::iter::|^core::cmp::|^core::marker::
 |^core::option::|^core::result::|^core::mem::|^core::ops::(Try|FromResidual|Deref|DerefMut|FnOnce|FnMut|Fn|RangeInclusive|Range)
 |^alloc::(string|borrow|boxed|rc|sync)::|^alloc::collections::|^alloc::vec::|^smallvec::
 |^scale_type_resolver::|^scale_bits::|^parity_scale_codec::|^primitive_types::|^visitor::|^IntoVisitor|^DecodeAs
 |^core::any::|^core::error::|^thiserror::|^core::ptr::|^core::intrinsics::|^core::hint::|^core::str::|^core::char::
 |^core::time::Duration::(from_secs|from_nanos|from_millis|from_micros|checked_|saturating_|new_?$x|as_|subsec)
 |^core::num::.*::(checked|wrapping|saturating|overflowing|to_|from_|is_|leading|trailing|count|MAX|MIN|try_|rotate|swap)
 |^core::slice::(iter::|<impl\ \[T\]>::(iter|first|last|get|len|is_empty|starts_with|ends_with|contains|to_vec|into_vec|as_ptr|windows|concat|join|reverse|sort|binary_search|split_first|split_last|iter_mut|split_at_checked|first_chunk|last_chunk|as_slice))
 |^codec::|^konst|^alloc::slice::
''', re.X)
PARTIAL = re.compile(r'''
   core::time::Duration::new$|core::time::Duration::(from_secs_f|mul_f|div_f)|::(copy_from_slice|clone_from_slice|chunks|chunks_exact|swap|split_at|split_at_mut|rotate_left|rotate_right|copy_within)$
  |ops::(Add|Sub|Mul|Div|Rem|Neg|Index|IndexMut|Shl|Shr|AddAssign|SubAssign|MulAssign)::|::(remove|swap_remove|insert_many|drain|split_off|insert)$x
  |vec::Vec::<T,\ A>::(remove|swap_remove|insert|split_off|drain|truncate_front)$|smallvec::SmallVec::<A>::(remove|swap_remove|insert|drain)$
  |str::<impl\ str>::split_at$|string::String::(remove|insert|insert_str|drain|split_off|replace_range)$|VecDeque::.*::(swap|insert)$
  |::(ilog|ilog2|ilog10|isqrt|div_euclid|rem_euclid|div_ceil|next_multiple_of|abs|pow|strict_\w+|next_power_of_two)$|step_by$|::exactly
  |from_digit$|RefCell|::unwrap_unchecked$|from_utf8_unchecked|unreachable_unchecked|from_u32_unchecked|get_unchecked|ArrayVec|arrayvec
''', re.X)


def partial_needs(e, st, f, args):
    """What has to hold (>= 0) for a call that panics for some arguments, or None if that is not known here."""
    n = f['name']

    def length(v):
        s = veclike(e, st, v)
        if s is not None:
            note_int(s[3])
        return s[3] if s is not None else None

    if n in ('insert', 'split_off', 'rotate_left', 'rotate_right', 'split_at', 'split_at_mut') and len(args) > 1 and EG.isint(args[1]):
        l = length(args[0])
        note_int(args[1])
        return l is not None and [sub(l, args[1])]
    if n in ('remove', 'swap_remove') and len(args) == 2 and EG.isint(args[1]):
        l = length(args[0])
        note_int(args[1])
        return l is not None and [sub(sub(l, args[1]), ONE)]
    if n == 'swap' and len(args) == 3 and EG.isint(args[1]) and EG.isint(args[2]):
        l = length(args[0])
        note_int(args[1], args[2])
        return l is not None and [sub(sub(l, args[1]), ONE), sub(sub(l, args[2]), ONE)]
    if n in ('copy_from_slice', 'clone_from_slice') and len(args) == 2:
        a, b = length(args[0]), length(args[1])
        return a is not None and b is not None and [sub(a, b), sub(b, a)]
    if n in ('chunks', 'chunks_exact', 'rchunks', 'step_by', 'windows') and len(args) == 2 and EG.isint(args[1]):
        note_int(args[1])
        return [sub(args[1], ONE)]
    return None


def check_total(e, st, fr, f, args, t):
    p = norm(f['path'])
    if PARTIAL.search(p):
        try:
            needs = partial_needs(e, st, f, args)
        except Exception:
            needs = None
        if needs and all(st.nonneg(x) for x in needs):
            return
        e.panic(st, fr, 'call of %s, which can panic for some arguments' % p, t[7] if t else '?')
        return
    if TOTAL.search(p):
        return
    if f.get('crate') in ('scale_decode', 'corpus'):
        return
    if f.get('trait') and f.get('ikind') is None:
        return   # a trait method of a type parameter: code of the caller
    if p.startswith('<pointer>'):
        return
    e.unreviewed.add(p)


# --- allocation (C15) --------------------------------------------------------------------------
# callee -> position of the argument that sizes the allocation
SIZED = ((re.compile(r'::(with_capacity|try_with_capacity|with_capacity_in|new_uninit_slice|new_zeroed_slice|with_capacity_and_hasher)$'), 0),
         (re.compile(r'::(reserve|reserve_exact|try_reserve|try_reserve_exact|grow|try_grow|resize|resize_with|from_elem|from_elem_in|repeat|resize_default)$'), 1))
NOTHEAP = re.compile(r'^core::(iter|array|option|result)::|^scale_decode::')
COPIES = re.compile(r'(borrow::ToOwned::to_owned|slice::<impl \[T\]>::(to_vec|into_vec|concat|join|repeat)|string::String::from_utf8_lossy|str::<impl str>::(to_owned|into_string|repeat|to_lowercase|to_uppercase|replace)|Cow::<.*>::into_owned|smallvec::SmallVec::<A>::(from_slice|extend_from_slice)|Vec::<T, A>::extend_from_slice)$')
GATHER = re.compile(r'^core::iter::(Iterator::collect|FromIterator::from_iter|Extend::extend)$')
HEAP = re.compile(r'(alloc|core|std)::(vec::Vec<|string::String|(boxed::Box|rc::Rc|sync::Arc)<(\[|str)|borrow::Cow<|collections::)|smallvec::SmallVec<')
CONVERT = re.compile(r'^core::convert::(From::from|Into::into)$|^core::clone::Clone::clone$|string::ToString::to_string$')


def alloc_kind(p):
    if NOTHEAP.search(p) and not GATHER.match(p):
        return None
    for rx, i in SIZED:
        if rx.search(p):
            return ('size', i)
    if GATHER.match(p):
        return ('gather', 0)
    if CODEC.match(p):
        return ('codec', 0)
    if COPIES.search(p) or CONVERT.match(p):
        return ('copy', 0)
    return None


CODEC = re.compile(r'^parity_scale_codec::(Decode::decode(_all|_with_depth_limit)?|DecodeAll::decode_all|DecodeLimit::decode_\w+)$')
LAZY = re.compile(r'::(Filter|FilterMap|FlatMap|Flatten|TakeWhile|MapWhile|Scan|SkipWhile|GenericShunt|Fuse|Peekable|StepBy|Chain|Zip|Take)\b')


def alloc_bounded(e, st, n, root):
    """Not sized by something the input merely claims: small, or no more than data at hand."""
    if not EG.isint(n) and n[0] in ('ref', 'cref'):
        return True
    c, m = lin(n)
    if not m:
        return c <= 65536
    pos = [ATOMS[a] for a, k in m if k > 0]
    if not pos or all(x[0] == 'len' or x[:2] == ('app', 'konst') or (x[0] == 'param' and root) or hinted(x) for x in pos):
        return True
    if st.le(n, I(65536)):
        return True
    seen = set()
    for f in st.facts:
        for a, k in f[1]:
            if a not in seen and ATOMS[a][0] == 'len':
                seen.add(a)
                if st.le(n, ATOMS[a]):
                    return True
    return False


def hinted(x):
    """What an iterator that is not ours says of itself (the fields of the type information, say)."""
    while x[0] in ('fld', 'proj') and isinstance(x[1], tuple):
        x = x[1]
    return x[:2] == ('app', 'size_hint') or x[0] == 'size_hint'


def single(x):
    """The only item of an iterator that yields exactly one: once(x), Some(x)."""
    while x[0] == 'agg':
        n = str(x[1])
        if n == 'core::option::Option':
            return x[3][0] if x[2] == 1 else None
        if len(x[3]) != 1 or not re.match(r'core::(iter::.*Once|option::(IntoIter|Item))$', n):
            return None
        x = x[3][0]
    return None


def m_extend(e, st, fr, f, args, t):
    """Extend::extend: adding one item, or filling an empty list."""
    if args[0][0] != 'ref':
        return None
    tys = f.get('args', [])
    if not tys:
        return None
    ts = norm(e.p.tystr(tys[0]))
    one = single(e.deep(st, args[1]))
    if one is not None and is_list(ts):
        return m_vec_push(e, st, fr, f, [args[0], one], t)
    if one is not None and re.match(r'(alloc::)?' + re.sub(r'::<\.\*>', '<.*>', GROWING) + '$', ts):
        return m_coll_push(e, st, fr, f, [args[0], one], t)
    if not is_list(ts):
        return None
    loc = (args[0][1], args[0][2], args[0][3])
    if e.read(st, loc) != ('vec', sl(('arrval', ('agg', 'array', 0, ())), ZERO, ZERO)):
        raise EG.Incomplete('extending a list that is not empty')
    src = e.load_ref(st, args[1]) if args[1][0] == 'ref' else args[1]
    nx = next_inst(f)
    v = ('vec', src[1] if src[0] == 'it' else whole(('items', e.deep(st, src))))
    if nx is None or src[0] == 'it':
        e.write(st, loc, v)
        return [(st, UNIT)]
    outs, lid, cell, icell = consume(e, st, fr, f, args[1] if args[1][0] == 'ref' else src, t, nx['next'], lambda s, item: [(s, 'back')])
    for s, _ in outs:
        e.write(s, loc, v)
    return [(s, UNIT) for s, _ in outs]


def ranges_in(v, d=0):
    if d > 12 or not isinstance(v, tuple):
        return
    if v and v[0] == 'agg' and v[1] in ('core::ops::Range', 'core::ops::RangeInclusive', 'core::iter::Take', 'core::iter::RepeatN') and len(v) > 3:
        yield v
    for x in v:
        if isinstance(x, tuple):
            yield from ranges_in(x, d + 1)


def aggs_in(v, d=0):
    if d > 12 or not isinstance(v, tuple):
        return
    if v and v[0] == 'agg':
        yield v
    for x in v:
        if isinstance(x, tuple):
            yield from aggs_in(x, d + 1)


def own_hints(e):
    """The size_hint methods of the program itself: the type they are of -> body."""
    if getattr(e, 'own_hints', None) is None:
        e.own_hints = {}
        for b in e.p.bodies.values():
            if b['npath'].endswith(' as core::iter::Iterator>::size_hint') and not b.get('shim') and b['crate'] not in ('core', 'alloc', 'std') and b['argc'] == 1:
                ty = e.T(b['locals'][1])
                ty = e.T(ty['to']) if ty['k'] == 'ref' else ty
                if ty['k'] == 'adt':
                    e.own_hints[norm(ty['path'])] = b
    return e.own_hints


def hint_of(e, st, fr, src):
    """(lower bound, state) which an iterator of the program itself, found in src, claims to have."""
    hints = own_hints(e)
    if not hints:
        return
    for v in aggs_in(src):
        b = hints.get(v[1])
        if b is None:
            continue
        try:
            s = st.copy()
            n = len(e.panics)
            for s2, r in e.run_body(s, b, [('cref', v)], None, b['span']):
                r = e.deep(s2, r)
                if r[0] == 'agg' and r[3] and EG.isint(r[3][0]):
                    yield r[3][0], s2
            del e.panics[n:]
        except EG.Incomplete:
            pass


def note_alloc(e, st, fr, f, args, t, k):
    kind, i = k
    if i >= len(args) or not t or len(t) < 8:
        return
    stack = fr.stack() if fr else []
    rty = t[5]
    rs = norm(e.p.tystr(rty)) if rty is not None else ''
    if kind == 'size':
        n = e.deep(st, args[i])
        ok = alloc_bounded(e, st, n, len(stack) == 1)
        what = 'sized by %s' % show(n, 6)
    elif kind == 'codec':
        if not HEAP.search(rs):
            return
        ok, n, what = True, None, 'reads a %s' % rs
    elif kind == 'gather':
        src = args[1] if f['name'] == 'extend' else args[0]
        ity = t[6][1] if f['name'] == 'extend' else t[6][0]
        its = norm(e.p.tystr(ity))
        if f['name'] != 'extend' and re.match(r'core::(result::Result|option::Option)<', rs):
            return
        n, ok = None, True
        src = e.deep(st, src)
        what = 'gathers %s' % its
        if not LAZY.search(its) or re.search(r'::Take<core::iter::Repeat', its):
            for r in ranges_in(src):
                if r[1].startswith('core::ops::Range') and len(r[3]) >= 2:
                    n = sub(r[3][1], r[3][0]) if EG.isint(r[3][0]) and EG.isint(r[3][1]) else None
                elif len(r[3]) >= 2:
                    n = r[3][1]
                if n is not None:
                    ok = alloc_bounded(e, st, n, len(stack) == 1)
                    what = 'sized by %s' % show(n, 6)
            if ok:
                for n, s2 in hint_of(e, st, fr, src):
                    if not alloc_bounded(e, s2, n, len(stack) == 1):
                        ok, what = False, 'sized by %s' % show(n, 6)
                        break
    else:
        if rty is None or not HEAP.search(rs):
            return
        n, ok = None, True
        src = e.deep(st, args[0])
        if not (src[0] == 'sl' and src[1][0] == 'deref'):
            return
        what = 'copies input bytes'
    e.allocs.append((kind, norm(f['path']), stack, t[7], ok, what))
