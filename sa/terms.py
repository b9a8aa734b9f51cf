"""Value terms of the abstract domain: hash-consed value numbers and linear integer forms.

A term is a plain tuple.  Integers are kept as linear forms over atoms (terms that are not
themselves linear), so that positions in a byte slice can be compared exactly."""

ATOM_ID = {}
ATOMS = []
RANGE = {}  # atom id -> (lo, hi)  (None = unbounded)
NAMES = {}

USIZE_MAX = 2 ** 64 - 1
LEN_MAX = 2 ** 63 - 1

INT_RANGE = {'bool': (0, 1), 'char': (0, 0x10FFFF)}
for w in (8, 16, 32, 64, 128):
    INT_RANGE['u%d' % w] = (0, 2 ** w - 1)
    INT_RANGE['i%d' % w] = (-2 ** (w - 1), 2 ** (w - 1) - 1)
INT_RANGE['usize'] = INT_RANGE['u64']
INT_RANGE['isize'] = INT_RANGE['i64']


def set_pointer_width(w):
    """Word size the analysis assumes for usize/isize (64 or 32)."""
    global USIZE_MAX, LEN_MAX
    INT_RANGE['usize'] = (0, 2 ** w - 1)
    INT_RANGE['isize'] = (-2 ** (w - 1), 2 ** (w - 1) - 1)
    USIZE_MAX = 2 ** w - 1
    LEN_MAX = 2 ** (w - 1) - 1


UNIT = ('agg', 'tuple', 0, ())
ZERO = ('i', 0)
ONE = ('i', 1)
TRUE = ('i', 1)
FALSE = ('i', 0)


def I(n):
    return ('i', n)


def atom(t):
    a = ATOM_ID.get(t)
    if a is None:
        a = len(ATOMS)
        ATOM_ID[t] = a
        ATOMS.append(t)
        if t[0] == 'len':
            RANGE[a] = (0, 'LEN')
    return a


def rng(a):
    lo, hi = RANGE.get(a, (None, None))
    if hi == 'LEN':
        hi = LEN_MAX
    return lo, hi


def set_range(t, lo, hi):
    if t[0] in ('i', 'lin'):
        return
    a = atom(t)
    l, h = RANGE.get(a, (None, None))
    if l is None or (lo is not None and lo > l):
        l = lo
    if hi == 'LEN':
        h = hi if h is None or (h != 'LEN' and h > LEN_MAX) else h
    elif h is None or (h != 'LEN' and hi is not None and hi < h):
        h = hi
    RANGE[a] = (l, h)


def lin(t):
    if t[0] == 'i':
        return (t[1], ())
    if t[0] == 'lin':
        return (t[1], t[2])
    return (0, ((atom(t), 1),))


def unlin(c, m):
    if not m:
        return ('i', c)
    if c == 0 and len(m) == 1 and m[0][1] == 1:
        return ATOMS[m[0][0]]
    return ('lin', c, m)


def ladd(a, b, k=1):
    """a + k*b on linear pairs."""
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    d = dict(a[1])
    for x, y in b[1]:
        v = d.get(x, 0) + k * y
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def add(x, y):
    return unlin(*ladd(lin(x), lin(y)))


def sub(x, y):
    return unlin(*ladd(lin(x), lin(y), -1))


def mul(x, y):
    if x[0] == 'i':
        x, y = y, x
    if y[0] != 'i':
        return None
    k = y[1]
    c, m = lin(x)
    if k == 0:
        return ZERO
    return unlin(c * k, tuple((a, b * k) for a, b in m))


def is_int_term(t):
    return t[0] in ('i', 'lin')


def agg(tag, variant, *fields):
    return ('agg', tag, variant, tuple(fields))


OPT = 'core::option::Option'
RES = 'core::result::Result'


def some(v):
    return ('agg', OPT, 1, (v,))


NONE = ('agg', OPT, 0, ())


def ok(v):
    return ('agg', RES, 0, (v,))


def err(v):
    return ('agg', RES, 1, (v,))


def sl(base, start, length):
    return ('sl', base, start, length)


def whole(base):
    return ('sl', base, ZERO, ('len', base))


_fresh = [0]


def fresh(name, *info):
    _fresh[0] += 1
    return ('new', name, _fresh[0]) + tuple(info)


def fresh_count():
    return _fresh[0]


def subterms(t, seen=None):
    """All subterms of a term (linear forms are expanded into their atoms)."""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        yield x
        if x and x[0] == 'lin':
            for a, _ in x[2]:
                st.append(ATOMS[a])
        else:
            for y in x:
                if isinstance(y, tuple):
                    st.append(y)


def show(t, depth=7):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if depth == 0:
        return '..'
    k = t[0]
    d = depth - 1
    if k == 'i':
        return str(t[1])
    if k == 's':
        return repr(t[1])
    if k == 'lin':
        s = ' '.join('%s%s' % ('%+d*' % c if abs(c) != 1 else ('+' if c > 0 else '-'), show(ATOMS[a], d)) for a, c in t[2])
        return '(%s %+d)' % (s, t[1]) if t[1] else '(%s)' % s
    if k == 'agg':
        tag = str(t[1]).split('::')[-1]
        if t[1] == OPT:
            return 'None' if t[2] == 0 else 'Some(%s)' % show(t[3][0], d)
        if t[1] == RES:
            return '%s(%s)' % ('Ok' if t[2] == 0 else 'Err', show(t[3][0], d))
        return '%s#%s(%s)' % (tag, t[2], ', '.join(show(x, d) for x in t[3]))
    if k == 'sl':
        return '%s[%s; %s]' % (show(t[1], d), show(t[2], d), show(t[3], d))
    if k == 'fld':
        return '%s.%s%s' % (show(t[1], d), '' if t[2] is None else 'v%s.' % t[2], t[3])
    if k == 'deref':
        return '*%s' % show(t[1], d)
    if k == 'param':
        return str(t[1])
    if k == 'len':
        return 'len(%s)' % show(t[1], d)
    if k == 'new':
        return '%s~%s' % (t[1], t[2] if isinstance(t[2], int) else '%s.%s' % (t[2][1], t[2][3]))
    if k == 'app':
        return '%s(%s)' % (str(t[1]).split('::')[-1] if isinstance(t[1], str) else t[1], ', '.join(show(x, d) for x in t[2:]))
    return '%s(%s)' % (k, ', '.join(show(x, d) for x in t[1:]))
