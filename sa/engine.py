"""Forward abstract interpretation of instance-level MIR.

The analysis is a trace-partitioned dataflow analysis: one abstract state per control-flow path
between loop heads, with a fixpoint at every loop head (locations a loop changes are generalised to
templates that are checked to be inductive, or forgotten).  The domain is value numbers for data,
linear forms for integers and slice positions, and known enum variants.  Nothing is executed and no
solver is involved; implication between linear facts is a small syntactic closure."""
import json
import re
from terms import *
import terms as TM


class Incomplete(Exception):
    pass


class Infeasible(Exception):
    pass


class Program:
    def __init__(self, path, client=None):
        d = json.load(open(path))
        for x in d['roots'] + d['impls'] + d['adts']:
            x['crate'] = d['crate']
        self.client = None
        if client is not None:
            import merge
            self.client = merge.load(d, open(client).read())
        self.crate = d['crate']
        self.raw = d
        self.types = d['types']
        self.bodies = {b['id']: b for b in d['bodies']}
        self.roots = d['roots']
        self.impls = d['impls']
        for b in d['bodies']:
            b['npath'] = norm(b['path'])
        for r in d['roots']:
            r['npath'] = norm(r['path'])
            b = self.bodies.get(r['id'])
            r['span'] = b['span'] if b else '?'
        self._loops = {}
        # Self-referring id lookup per path
        self.by_path = {}
        for b in d['bodies']:
            self.by_path.setdefault(b['npath'], []).append(b['id'])

    def ty(self, i):
        return self.types[i]

    def tystr(self, i):
        return norm(self.types[i]['s'])

    # --- control flow structure -------------------------------------------------------------
    def succs(self, body, b):
        t = body['blocks'][b][1]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [] if t[4] is None else [t[4]]
        if k == 'assert':
            return [t[5]]
        return []

    def loops(self, body):
        """head -> set of blocks in the natural loop."""
        key = body['id']
        if key in self._loops:
            return self._loops[key]
        blocks = body['blocks']
        n = len(blocks)
        color = {}
        back = []
        st = [(0, iter([x for x in self.succs(body, 0) if blocks[x]]))]
        color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color.get(s) == 1:
                    back.append((b, s))
                elif s not in color:
                    color[s] = 1
                    st.append((s, iter([x for x in self.succs(body, s) if blocks[x]])))
                    break
            else:
                color[b] = 2
                st.pop()
        preds = {}
        for b in color:
            for s in self.succs(body, b):
                if blocks[s]:
                    preds.setdefault(s, []).append(b)
        out = {}
        for b, h in back:
            reg = out.setdefault(h, {h})
            wl = [b]
            while wl:
                x = wl.pop()
                if x in reg:
                    continue
                reg.add(x)
                wl.extend(preds.get(x, []))
        self._loops[key] = out
        return out


_crate_re = re.compile(r'\bscale_decode::')


_norm_cache = {}


def norm(p):
    r = _norm_cache.get(p)
    if r is None:
        r = _crate_re.sub('', p)
        r = r.replace('std::', 'core::') if 'std::' in r else r
        _norm_cache[p] = r
    return r


class St:
    __slots__ = ('mem', 'facts', 'disc', 'ndisc', 'trace', 'ne')

    def __init__(self):
        self.mem = {}
        self.facts = ()
        self.disc = {}
        self.ndisc = {}
        self.trace = ()
        self.ne = ()

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.disc = dict(self.disc)
        s.ndisc = dict(self.ndisc)
        s.trace = self.trace
        s.ne = self.ne
        return s

    # --- integer facts ----------------------------------------------------------------------
    def entails(self, c, m, depth=4, failed=None):
        """Is  c + sum m >= 0  implied by the known facts?"""
        # interval evaluation
        lo = c
        for a, k in m:
            l, h = rng(a)
            if k > 0:
                if l is None:
                    lo = None
                    break
                lo += k * l
            else:
                if h is None:
                    lo = None
                    break
                lo += k * h
        if lo is not None and lo >= 0:
            return True
        if depth == 0 or not m:
            return False
        # worst atoms: those that make the lower bound fail
        neg = [a for a, k in m if (k < 0 and (rng(a)[1] is None or rng(a)[1] > 1000)) or (k > 0 and (rng(a)[0] is None or rng(a)[0] != 0)) or k < 0]
        if not neg and lo is None:
            return False
        if failed is None:
            failed = {}         # what could not be shown, with the depth it was tried to: the order of the steps does not matter
        elif failed.get((c, m), -1) >= depth:
            return False
        ks = dict(m)
        if len(self.facts) > 24:
            # no bounds make up for an atom that may lower the sum without limit: one of the facts has
            # to be about it, and may as well be used first
            ks = dict((a, k) for a, k in m if (k < 0 and (rng(a)[1] is None or rng(a)[1] > (1 << 20))) or (k > 0 and rng(a)[0] is None)) or ks
        seen = set()
        for f in self.facts:
            fm = f[1]
            hit = False
            for a, k in fm:
                if a in ks and (ks[a] > 0) == (k > 0):
                    hit = True
                    break
            if not hit or f in seen:
                continue
            seen.add(f)
            r = ladd((c, m), f, -1)
            if len(r[1]) <= len(m) + 1 and r != (c, m):
                if self.entails(r[0], r[1], depth - 1, failed):
                    return True
        failed[(c, m)] = depth
        return False

    def nonneg(self, t):
        return self.entails(*lin(t))

    def eq(self, a, b):
        if a == b:
            return True
        if not isint(a) or not isint(b):
            return False
        d = sub(a, b)
        if d[0] == 'i':
            return d[1] == 0
        c, m = lin(d)
        if self.entails(c, m) and self.entails(-c, tuple((x, -k) for x, k in m)):
            return True
        return False

    def le(self, a, b):
        return self.nonneg(sub(b, a))

    def assume_ge0(self, t):
        c, m = lin(t)
        if not m:
            if c < 0:
                raise Infeasible()
            return
        # contradiction?
        if self.entails(-c - 1, tuple((x, -k) for x, k in m)):
            raise Infeasible()
        if not self.entails(c, m, 1):
            self.facts = self.facts + ((c, m),)
            # tighten against disequalities
            for e in self.ne:
                if e[1] == m and e[0] == c or (e[1] == tuple((x, -k) for x, k in m) and e[0] == -c):
                    self.assume_ge0(unlin(c - 1, m))

    def assume_eq(self, a, b):
        self.assume_ge0(sub(a, b))
        self.assume_ge0(sub(b, a))
        d = lin(sub(a, b))
        n = (-d[0], tuple((x, -k) for x, k in d[1]))
        if d in self.ne or n in self.ne:
            raise Infeasible()

    def assume_ne(self, a, b):
        d = sub(a, b)
        if d == ZERO:
            raise Infeasible()
        if d[0] == 'i':
            return
        c, m = lin(d)
        pos = self.entails(c, m)
        neg = self.entails(-c, tuple((x, -k) for x, k in m))
        if pos and neg:
            raise Infeasible()
        if pos:
            self.assume_ge0(unlin(c - 1, m))
        elif neg:
            self.assume_ge0(unlin(-c - 1, tuple((x, -k) for x, k in m)))
        else:
            self.ne = self.ne + ((c, m),)

    # --- boolean terms ----------------------------------------------------------------------
    def bool_value(self, t):
        """True / False / None for a boolean term."""
        if t[0] == 'i':
            return t[1] != 0
        if t[0] == 'ge0':
            if self.nonneg(t[1]):
                return True
            if self.nonneg(sub(I(-1), t[1])):
                return False
            return None
        if t[0] == 'eq0':
            if self.eq(t[1], ZERO):
                return True
            if self.nonneg(sub(t[1], ONE)) or self.nonneg(sub(I(-1), t[1])):
                return False
            c, m = lin(t[1])
            if (c, m) in self.ne or (-c, tuple((x, -k) for x, k in m)) in self.ne:
                return False
            return None
        if t[0] == 'not':
            v = self.bool_value(t[1])
            return None if v is None else not v
        if t[0] == 'isdisc':
            return self.disc_is(t[1], t[2])
        v = self.disc.get(t)
        if v is not None:
            return v != 0
        if t[0] in ('lin',) or t in ATOM_ID:
            if self.eq(t, ZERO):
                return False
            if self.eq(t, ONE):
                return True
        if t[0] == 'streq':
            # a text that is one literal is no other
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if literal(b):
                    for k, x in self.disc.items():
                        if x and k[0] == 'streq' and (k[1] == a and literal(k[2]) and k[2] != b or k[2] == a and literal(k[1]) and k[1] != b):
                            return False
        return None

    def assume_bool(self, t, val):
        cur = self.bool_value(t)
        if cur is not None:
            if cur != val:
                raise Infeasible()
            return
        if t[0] == 'ge0':
            self.assume_ge0(t[1] if val else sub(I(-1), t[1]))
        elif t[0] == 'eq0':
            if val:
                self.assume_eq(t[1], ZERO)
            else:
                self.assume_ne(t[1], ZERO)
        elif t[0] == 'not':
            self.assume_bool(t[1], not val)
        elif t[0] == 'isdisc':
            if val:
                self.set_disc(t[1], t[2])
            else:
                self.not_disc(t[1], t[2])
        else:
            self.disc[t] = 1 if val else 0

    # --- enum variants ----------------------------------------------------------------------
    def disc_of(self, t):
        if t[0] == 'agg':
            if t[1] == 'core::cmp::Ordering':
                return t[2] - 1
            return t[2]
        return self.disc.get(t)

    def disc_is(self, t, v):
        d = self.disc_of(t)
        if d is not None:
            return d == v
        if v in self.ndisc.get(t, ()):
            return False
        return None

    def set_disc(self, t, v):
        r = self.disc_is(t, v)
        if r is False:
            raise Infeasible()
        if r is None:
            self.disc[t] = v

    def not_disc(self, t, v):
        r = self.disc_is(t, v)
        if r is True:
            raise Infeasible()
        if r is None:
            self.ndisc[t] = self.ndisc.get(t, frozenset()) | {v}

    def ev(self, kind_, **kw):
        kw['k'] = kind_
        self.trace = self.trace + (kw,)


def isint(t):
    return t[0] in ('i', 'lin') or t in ATOM_ID


def negate(t):
    if t[0] == 'i':
        return I(1 - t[1])
    if t[0] == 'not':
        return t[1]
    if t[0] == 'ge0':
        return ('ge0', sub(I(-1), t[1]))
    return ('not', t)


def literal(t):
    return t[0] == 'sl' and t[1][0] == 's' and t[2] == ZERO


class Phis(dict):
    """What a loop changes: (cell, path) -> template, and the counters that move together."""

    def __init__(self):
        self.rels = []
        self.steps = []


class Frame:
    __slots__ = ('id', 'body', 'parent', 'active', 'site')

    def __init__(self, id, body, parent, site):
        self.id, self.body, self.parent, self.site = id, body, parent, site
        self.active = set()

    def stack(self):
        out = []
        f = self
        while f is not None:
            out.append(f.body['npath'])
            f = f.parent
        return out


TRANSPARENT = {'PointerCoercion(ReifyFnPointer', 'Transmute', 'PtrToPtr'}


class Engine:
    MAX_DEPTH = 90
    MAX_STEPS = 400000

    def __init__(self, prog):
        self.p = prog
        self.nframe = 0
        self.panics = []        # feasible panics: dicts
        self.phi_entry = {}     # loop counters: the value each started from
        self.notes = []         # things the analysis could not follow
        self.loops = {}         # loop id -> dict(head=St, backs=[St], where=..)
        self.nloop = 0
        self.steps = 0
        self.events_fn = None   # (engine, st, fr, callee, args, term) -> outcomes | None ; rule hook
        self.analysed = set()   # bodies interpreted
        self.calls_seen = 0
        self.ptr_width = 64
        self.unreviewed = set() # library functions without a contract here
        self.nloop_last = 0
        self.stops = ()     # bodies looked at on their own: their calls are not followed
        self.allocs = []        # (kind, path, stack, span, count term, bounded, source) for every allocating call
        self.alloc_memo = {}
        self.init = {}          # initial content of external cells
        import models
        self.models = models

    # --- values and types -------------------------------------------------------------------
    def T(self, i):
        return self.p.types[i]

    def mk(self, term, ty):
        """A symbolic value of a type, in normal form."""
        if ty is None:
            return term
        t = self.p.types[ty]
        k = t['k']
        if k == 'ref' or k == 'ptr':
            to = self.p.types[t['to']]
            if to['k'] in ('slice', 'str'):
                if term[0] == 'sl':
                    return term
                return whole(term)
            return term
        if k == 'int' or k in ('bool', 'char'):
            n = t['name'] if k == 'int' else k
            if term[0] not in ('i', 'lin'):
                lo, hi = INT_RANGE[n]
                set_range(term, lo, hi)
            return term
        if k == 'tuple' and not t['fields']:
            return UNIT
        if k == 'tuple':
            return ('agg', 'tuple', 0, tuple(self.mk(('fld', term, None, i), f) for i, f in enumerate(t['fields'])))
        return term

    def param(self, name, ty, plain=False):
        """A parameter: what is known of a value from its type goes by its name, so names of parameters with
        different types have to differ."""
        if not plain and re.match(r'(p|u)\d+$|self$', name):
            name = '%s:%s' % (name, ty)
        if plain:
            for k in [k for k in TM.RANGE if TM.ATOMS[k][0] != 'len' and any(x == ('param', name) for x in subterms(TM.ATOMS[k]))]:
                del TM.RANGE[k]
        return self.mk(('param', name), ty)

    def proj(self, st, v, variant, idx, ty):
        k = v[0]
        if k == 'agg':
            if variant is not None and v[2] != variant and v[1] not in ('tuple', 'closure'):
                raise Infeasible()
            if idx < len(v[3]):
                return v[3][idx]
            raise Incomplete('field %d of %s' % (idx, show(v)))
        if k == 'upd':
            for kk, x in v[2]:
                if kk == (variant, idx):
                    return x
            return self.proj(st, v[1], variant, idx, ty)
        if k == 'ref' and idx == 0:
            return v       # Box / Unique / NonNull / Pin around a pointer
        if k == 'box' and idx == 0:
            return v
        if k == 'app' and v[1] == 'nonzero' and idx == 0:
            return v[2]
        return self.mk(('fld', v, variant, idx), ty)

    def elem(self, base, idx, ty):
        if base[0] == 'arrval':
            a = base[1]
            if idx[0] == 'i' and a[0] == 'agg' and 0 <= idx[1] < len(a[3]):
                return a[3][idx[1]]
        if base[0] == 'pushed':
            # ('pushed', sl, v)
            s = base[1]
            if idx == s[3]:
                return base[2]
            if idx[0] == 'i' and s[3][0] == 'i':
                return self.elem(s[1], add(s[2], idx), ty)
        return self.mk(('elem', base, idx), ty)

    def content(self, cell, ty):
        """Initial content of a memory cell outside the frames."""
        if cell[0] == 'E':
            p = cell[1]
            if p[0] == 'eptr':
                return self.elem(p[1], p[2], ty)
            if p[0] == 'cref':
                return p[1]
            return self.mk(('deref', p), ty)
        if cell[0] == 'S':
            return ('slval', cell[1])
        return None

    def read_cell(self, st, cell, ty=None):
        v = st.mem.get(cell)
        if v is None:
            v = self.content(cell, ty)
            if v is None:
                raise Incomplete('read of an unset location %r' % (cell,))
            if cell[0] == 'E':
                st.mem[cell] = v
                self.init.setdefault(cell, v)
        return v

    def read(self, st, loc):
        cell, path, ty0 = loc
        v = self.read_cell(st, cell, ty0[0] if ty0 else None)
        for i, (var, idx, fty) in enumerate(path):
            v = self.proj(st, v, var, idx, fty)
        return v

    def write(self, st, loc, val):
        cell, path, ty0 = loc
        if not path:
            st.mem[cell] = val
            return
        cur = st.mem.get(cell)
        if cur is None:
            cur = self.content(cell, ty0[0] if ty0 else None)
            if cur is None:
                cur = ('undef',)
        st.mem[cell] = self._set(st, cur, path, 0, val)

    def _set(self, st, cur, path, i, val):
        if i == len(path):
            return val
        var, idx, fty = path[i]
        if cur[0] == 'agg' and (var is None or cur[2] == var) and idx < len(cur[3]):
            fs = list(cur[3])
            fs[idx] = self._set(st, fs[idx], path, i + 1, val)
            return ('agg', cur[1], cur[2], tuple(fs))
        if cur[0] == 'upd':
            d = dict(cur[2])
            base = cur[1]
        else:
            d = {}
            base = cur
        key = (var, idx)
        old = d.get(key)
        if old is None:
            old = self.proj(st, base, var, idx, fty) if base[0] not in ('undef', 'agg') else ('undef',)
        d[key] = self._set(st, old, path, i + 1, val)
        return ('upd', base, tuple(sorted(d.items(), key=lambda x: (x[0][0] if x[0][0] is not None else -1, x[0][1]))))

    # --- places -----------------------------------------------------------------------------
    # A location is (cell, path, tyinfo): path is a tuple of (variant, index, type).
    def place(self, st, fr, p):
        loc = (('L', fr.id, p[0]), (), (fr.body['locals'][p[0]],))
        ty = fr.body['locals'][p[0]]
        var = None
        for e in p[1]:
            if e == '*':
                v = self.read(st, loc)
                t = self.p.types[ty]
                if t['k'] in ('ref', 'ptr'):
                    ty = t['to']
                elif t['k'] == 'adt' and t.get('args'):
                    ty = t['args'][0]
                else:
                    ty = None
                loc = self.deref(st, v, ty)
                var = None
                continue
            k = e[0]
            if k == 'v':
                var = e[1]
            elif k == 'f':
                loc = (loc[0], loc[1] + ((var, e[1], e[2]),), loc[2])
                ty = e[2]
                var = None
            elif k == 'i':
                iv = self.read(st, (('L', fr.id, e[1]), (), (fr.body['locals'][e[1]],)))
                loc, ty = self.index_loc(st, loc, ty, iv)
            elif k == 'c':
                v = self.read(st, loc)
                n = self.seq_len(st, v, ty)
                iv = I(e[1]) if not e[2] else sub(n, I(e[1]))
                loc, ty = self.index_loc(st, loc, ty, iv)
            elif k == 's':
                v = self.read(st, loc)
                if v[0] == 'slval':
                    s = v[1]
                    frm, to = e[1], e[2]
                    ln = sub(s[3], I(frm + to)) if e[3] else I(to - frm)
                    loc = (('S', sl(s[1], add(s[2], I(frm)), ln)), (), (ty,))
                else:
                    raise Incomplete('subslice of an array')
            else:
                raise Incomplete('projection %r' % (e,))
        return loc, ty

    def seq_len(self, st, v, ty):
        if v[0] == 'slval':
            return v[1][3]
        if v[0] == 'agg':
            return I(len(v[3]))
        t = self.p.types[ty]
        if t['k'] == 'array' and str(t['len']).isdigit():
            return I(int(t['len']))
        return self.mk(('app', 'arraylen', ('s', str(t.get('len')))), None)

    def index_loc(self, st, loc, ty, iv):
        v = self.read(st, loc)
        t = self.p.types[ty] if ty is not None else {}
        ety = t.get('elem')
        if v[0] == 'slval':
            s = v[1]
            return (('E', ('eptr', s[1], add(s[2], iv))), (), (ety,)), ety
        if iv[0] == 'i':
            return (loc[0], loc[1] + ((None, iv[1], ety),), loc[2]), ety
        if v[0] == 'agg':
            return (('E', ('eptr', ('arrval', v), iv)), (), (ety,)), ety
        return (('E', ('eptr', v, iv)), (), (ety,)), ety

    def deref(self, st, v, ty):
        if v[0] == 'ref':
            return (v[1], v[2], v[3])
        if v[0] == 'sl':
            return (('S', v), (), (ty,))
        return (('E', v), (), (ty,))

    def addr(self, st, loc):
        cell, path, t = loc
        if not path:
            if cell[0] == 'E':
                return cell[1]
            if cell[0] == 'S':
                return cell[1]
        return ('ref', cell, path, t)

    def load_ref(self, st, v, ty=None):
        """The value a reference points to."""
        return self.read(st, self.deref(st, v, ty))

    # --- operands and rvalues ---------------------------------------------------------------
    def operand(self, st, fr, o):
        if 'p' in o:
            loc, ty = self.place(st, fr, o['p'])
            return self.read(st, loc)
        if 'c' in o:
            return self.const(st, fr, o['c'])
        if 'rt' in o:
            return TRUE
        raise Incomplete('operand %r' % (o,))

    def const(self, st, fr, c):
        ty = c['ty']
        if 'fn' in c:
            f = c['fn']
            self.fnvals[norm(f['path']) + '|' + str(ty)] = f
            return ('fn', norm(f['path']), norm(f['path']) + '|' + str(ty))
        if 'promoted' in c:
            b = self.p.bodies.get(c['promoted'])
            if b is None:
                return self.mk(('app', 'promoted', I(c['promoted'])), ty)
            outs = self.run_body(st, b, [], fr, 'const')
            if len(outs) != 1:
                raise Incomplete('branching constant')
            st2, v = outs[0]
            st.mem = st2.mem
            if v[0] in ('ref', 'sl'):
                return v
            return ('cref', v)
        if c.get('zst'):
            t = self.p.types[ty]
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'closure':
                return ('agg', 'closure', t['path'], ())
            if t['k'] == 'adt':
                if t.get('full') and t['variants'] and not t['variants'][0]['fields']:
                    return ('agg', norm(t['path']), 0, ())
                if t['path'].endswith('marker::PhantomData'):
                    return ('agg', 'PhantomData', 0, ())
                return ('agg', norm(t['path']), 0, tuple(self.zst_field(f[1]) for f in (t['variants'][0]['fields'] if t.get('variants') else [])))
            return ('zst', norm(t['s']))
        if 'int' in c:
            t = self.p.types[ty]
            n = int(c['int'])
            if t['k'] in ('int', 'bool', 'char'):
                return I(n)
            if t['k'] == 'adt' and t['enum']:
                for i, v in enumerate(t['variants']):
                    if int(v['discr']) == n and not v['fields']:
                        return ('agg', norm(t['path']), i, ())
            return ('app', 'const', ('s', norm(t['s'])), I(n))
        if 'str' in c:
            t = self.p.types[ty]
            b = ('s', c['str'])
            return ('sl', b, ZERO, I(len(c['str'].encode())))
        if 'static' in c:
            return ('app', 'static', ('s', c['static']))
        if 'mem' in c and c['mem'] is not None:
            return ('app', 'mem', ('s', repr(c['mem'])), ('s', norm(self.T(ty)['s'])))
        return self.mk(('app', 'konst', ('s', norm(str(c.get('named') or c.get('opaque'))) + ':' + norm(self.T(ty)['s']))), ty)

    def zst_field(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'tuple' and not t['fields']:
            return UNIT
        if t['k'] == 'adt' and t['path'].endswith('marker::PhantomData'):
            return ('agg', 'PhantomData', 0, ())
        return ('zst', norm(t['s']))

    fnvals = {}

    def opty(self, fr, o):
        if 'c' in o:
            return o['c']['ty']
        if 'p' in o:
            p = o['p']
            ty = fr.body['locals'][p[0]]
            for e in p[1]:
                if e == '*':
                    t = self.p.types[ty]
                    ty = t['to'] if t['k'] in ('ref', 'ptr') else (t['args'][0] if t.get('args') else None)
                elif e[0] == 'f':
                    ty = e[2]
                elif e[0] in ('i', 'c'):
                    ty = self.p.types[ty].get('elem')
                if ty is None:
                    return None
            return ty
        return None

    def int_name(self, ty):
        if ty is None:
            return None
        t = self.p.types[ty]
        if t['k'] == 'int':
            return t['name']
        if t['k'] in ('bool', 'char'):
            return t['k']
        return None

    def in_range(self, st, v, name):
        lo, hi = INT_RANGE[name]
        return st.nonneg(sub(v, I(lo))) and st.nonneg(sub(I(hi), v))

    def cast_int(self, st, v, src, dst):
        if src in ('bool',) and v[0] in ('ge0', 'eq0', 'not', 'isdisc'):
            return ('app', 'booltoint', v)
        if isint(v) or v[0] not in ('agg',):
            if v[0] not in ('i', 'lin'):
                atom(v)
            if self.in_range(st, v, dst):
                return v
            if src in INT_RANGE and v[0] == 'i':
                lo, hi = INT_RANGE[dst]
                m = hi - lo + 1
                return I((v[1] - lo) % m + lo)
        self.truncations.append((src, dst, v))
        return self.mkint(('app', 'trunc', v, ('s', dst)), dst)

    truncations = []

    def mkint(self, t, name):
        lo, hi = INT_RANGE[name]
        set_range(t, lo, hi)
        return t

    def binop(self, st, op, a, b, ty):
        name = self.int_name(ty)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if name in INT_RANGE and name != 'bool':
                for x in (a, b):
                    if x[0] not in ('i', 'lin'):
                        atom(x)
                d = sub(a, b)
                if op == 'Eq':
                    r = ('eq0', d)
                elif op == 'Ne':
                    r = ('not', ('eq0', d))
                elif op == 'Lt':
                    r = ('ge0', sub(sub(b, a), ONE))
                elif op == 'Le':
                    r = ('ge0', sub(b, a))
                elif op == 'Gt':
                    r = ('ge0', sub(sub(a, b), ONE))
                else:
                    r = ('ge0', d)
                v = st.bool_value(r)
                return r if v is None else (TRUE if v else FALSE)
            if name == 'bool' and op in ('Eq', 'Ne'):
                if b[0] == 'i':
                    r = a if b[1] else negate(a)
                    return r if op == 'Eq' else negate(r)
                if a[0] == 'i':
                    r = b if a[1] else negate(b)
                    return r if op == 'Eq' else negate(r)
            if a == b and op in ('Eq', 'Ne'):
                return TRUE if op == 'Eq' else FALSE
            return ('app', op, a, b)
        if op.endswith('WithOverflow'):
            base = op[:3]
            v = self.arith(base, a, b)
            if v is None:
                v = self.mkint(('app', op, a, b), name)
                o = ('app', 'ovf', a, b, ('s', op))
                return ('agg', 'tuple', 0, (v, o))
            return ('agg', 'tuple', 0, (v, ('ovf', v, name)))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            v = self.arith(op[:3], a, b)
            if v is not None:
                if name is None or op.endswith('Unchecked') or self.in_range(st, v, name):
                    return v
            r = ('app', 'wrap' + op, a, b)
            return self.mkint(r, name) if name in INT_RANGE else r
        if op in ('BitAnd', 'BitOr', 'BitXor') and name == 'bool':
            va, vb = st.bool_value(a), st.bool_value(b)
            if op == 'BitAnd':
                if va is False or vb is False:
                    return FALSE
                if va is True:
                    return b
                if vb is True:
                    return a
            if op == 'BitOr':
                if va is True or vb is True:
                    return TRUE
                if va is False:
                    return b
                if vb is False:
                    return a
        if a[0] == 'i' and b[0] == 'i':
            try:
                r = {'Div': lambda: a[1] // b[1] if b[1] and a[1] >= 0 and b[1] > 0 else None, 'Rem': lambda: a[1] % b[1] if b[1] and a[1] >= 0 and b[1] > 0 else None,
                     'BitAnd': lambda: a[1] & b[1], 'BitOr': lambda: a[1] | b[1], 'Shl': lambda: None, 'Shr': lambda: a[1] >> b[1] if a[1] >= 0 else None}.get(op, lambda: None)()
            except Exception:
                r = None
            if r is not None:
                return I(r)
        r = ('app', op, a, b)
        if name in INT_RANGE:
            self.mkint(r, name)
            if op == 'BitAnd' and b[0] == 'i' and b[1] >= 0:
                set_range(r, 0, b[1])
            if op in ('Shr', 'Div') and rng(atom(a) if a[0] not in ('i', 'lin') else -1)[1] is not None:
                hi = rng(atom(a))[1]
                if b[0] == 'i' and op == 'Shr':
                    set_range(r, 0, hi >> b[1])
                if b[0] == 'i' and b[1] > 0 and op == 'Div' and name.startswith('u') and isinstance(hi, int):
                    set_range(r, 0, hi // b[1])
            if op == 'Rem' and b[0] == 'i' and b[1] > 0:
                set_range(r, 0 if name.startswith('u') else 1 - b[1], b[1] - 1)
        return r

    def arith(self, base, a, b):
        for x in (a, b):
            if x[0] not in ('i', 'lin'):
                atom(x)
        if base == 'Add':
            return add(a, b)
        if base == 'Sub':
            return sub(a, b)
        if base == 'Mul':
            return mul(a, b)
        return None

    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k in ('ref', 'ptr'):
            loc, ty = self.place(st, fr, rv[2])
            return self.addr(st, loc)
        if k == 'agg':
            kd = rv[1]
            fs = tuple(self.operand(st, fr, x) for x in rv[2])
            if kd['kind'] == 'adt':
                return ('agg', norm(kd['path']), kd['variant'], fs)
            if kd['kind'] == 'tuple':
                return ('agg', 'tuple', 0, fs)
            if kd['kind'] == 'array':
                return ('agg', 'array', 0, fs)
            if kd['kind'] == 'closure':
                ck = '%s#%s' % (kd['path'], kd['inst'])
                self.closures[ck] = kd
                return ('agg', 'closure', ck, fs)
            if kd['kind'] == 'rawptr':
                a = fs[0]
                if a[0] == 'sl':
                    return a
                return ('app', 'rawptr') + fs
            return ('app', 'agg') + fs
        if k == 'discr':
            loc, ty = self.place(st, fr, rv[1])
            if loc[0][0] == 'L' and st.mem.get(loc[0]) is None and not loc[1]:
                return fresh('uninit')      # a value of a type with one inhabited variant is not stored
            v = self.read(st, loc)
            d = st.disc_of(v)
            if d is not None:
                # explicit discriminants
                if v[0] == 'agg' and ty is not None:
                    t = self.p.types[ty]
                    if t.get('variants') and v[2] < len(t['variants']):
                        return I(int(t['variants'][v[2]]['discr']) if t['path'].split('::')[-1] != 'Ordering' else d)
                return I(d)
            return ('discr', v, ty)
        if k == 'bin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, self.opty(fr, rv[2]))
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if self.int_name(self.opty(fr, rv[2])) == 'bool':
                    return negate(a)
                return ('app', 'Not', a)
            if rv[1] == 'PtrMetadata':
                if a[0] == 'sl':
                    return a[3]
                if a[0] == 'ref':
                    return ('app', 'meta', ('s', 'ref'))
                return self.mk(('len', a), None)
            if rv[1] == 'Neg':
                return sub(ZERO, a)
            return ('app', rv[1], a)
        if k == 'cast' and rv[1] == 'BoxDerefTransmute' and rv[2].get('p') and rv[2]['p'][1]:
            # the pointer inside a box: what the box points to
            b = self.operand(st, fr, {'p': [rv[2]['p'][0], rv[2]['p'][1][:-1]]})
            if b[0] == 'ref':
                return b
        if k == 'cast':
            a = self.operand(st, fr, rv[2])
            kind = rv[1]
            dst = self.int_name(rv[3])
            src = self.int_name(self.opty(fr, rv[2]))
            if kind.startswith('IntToInt') and dst:
                return self.cast_int(st, a, src, dst)
            if kind.startswith('PointerCoercion(Unsize'):
                to = self.p.types[rv[3]]
                if to['k'] in ('ref', 'ptr') and self.p.types[to['to']]['k'] == 'slice':
                    if a[0] == 'sl':
                        return a
                    v = self.load_ref(st, a)
                    if v[0] == 'agg':
                        return ('sl', ('arrval', v), ZERO, I(len(v[3])))
                    sty = self.opty(fr, rv[2])
                    n = None
                    if sty is not None:
                        st_ = self.p.types[sty]
                        if st_['k'] in ('ref', 'ptr'):
                            at = self.p.types[st_['to']]
                            if at['k'] == 'array' and str(at['len']).isdigit():
                                n = I(int(at['len']))
                    return ('sl', v, ZERO, n if n is not None else ('len', v))
                return a
            if kind.startswith('Transmute') or kind.startswith('PtrToPtr') or kind.startswith('PointerCoercion') or kind.startswith('Subtype'):
                return a
            r = ('app', 'cast', a, ('s', norm(self.T(rv[3])['s'])))
            return self.mk(r, rv[3])
        if k == 'repeat':
            a = self.operand(st, fr, rv[1])
            if str(rv[2]).isdigit() and int(rv[2]) <= 64:
                return ('agg', 'array', 0, (a,) * int(rv[2]))
            return ('app', 'repeat', a, ('s', str(rv[2])))
        if k == 'tls':
            return ('app', 'tls', ('s', rv[1]))
        raise Incomplete('rvalue %r' % (rv[:1],))

    closures = {}

    # --- execution --------------------------------------------------------------------------
    def run_body(self, st, body, args, parent, site):
        self.nframe += 1
        fr = Frame(self.nframe, body, parent, site)
        depth = 0
        f = parent
        rec = 0
        while f is not None:
            depth += 1
            if f.body['id'] == body['id']:
                rec += 1
            f = f.parent
        if depth > self.MAX_DEPTH or rec > 2:
            raise Incomplete('call depth')
        self.analysed.add((body['npath'], body['span']))
        for i, a in enumerate(args):
            st.mem[('L', fr.id, i + 1)] = a
        return self.run(st, fr, 0)

    def run(self, st, fr, block):
        results = []
        wl = [(st, block)]
        loops = self.p.loops(fr.body)
        while wl:
            st, b = wl.pop()
            try:
                if b in loops and b not in fr.active:
                    wl.extend(self.mir_loop(st, fr, b, loops[b]))
                    continue
                for st2, nb in self.step(st, fr, b):
                    if nb == 'ret':
                        results.append((st2, st2.mem.get(('L', fr.id, 0), UNIT)))
                    else:
                        wl.append((st2, nb))
            except Infeasible:
                pass
        return results

    def mir_loop(self, st, fr, head, region):
        def body(s):
            backs, exits = [], []
            fr.active.add(head)
            # inner loops are re-analysed inside
            try:
                wl = [(s, head)]
                first = True
                loops = self.p.loops(fr.body)
                while wl:
                    x, b = wl.pop()
                    if b == head and not first:
                        backs.append(x)
                        continue
                    if b not in region:
                        exits.append((x, b))
                        continue
                    try:
                        if b in loops and b != head and b not in fr.active:
                            wl.extend(self.mir_loop(x, fr, b, loops[b]))
                            continue
                        first = False
                        for x2, nb in self.step(x, fr, b):
                            wl.append((x2, nb))
                    except Infeasible:
                        pass
            finally:
                fr.active.discard(head)
            return backs, exits
        return self.fix(st, body, '%s bb%d' % (fr.body['npath'], head), fr.body['span'])

    def fix(self, st, body, where, span):
        """Fixpoint at a loop head.  body(state) -> (back edge states, exits)."""
        self.nloop += 1
        lid = self.nloop
        start = fresh_count()
        pre_trace = st.trace
        phis = Phis()    # (cell, path) -> template
        entry = st
        for rnd in range(20):
            save = len(self.panics)
            heads, allbacks, allexits = [], [], []
            changed = False
            for s in self.apply_phis(entry, phis, lid):
                s.trace = pre_trace + ({'k': 'loop', 'id': lid},)
                head = s.copy()
                heads.append(head)
                backs, exits = body(s)
                for bk in backs:
                    if self.widen(entry, head, bk, phis, lid, start):
                        changed = True
                allbacks += backs
                allexits += exits
                if changed:
                    break
            if not changed:
                n = len(pre_trace) + 1
                self.loops[lid] = {'head': heads[0], 'heads': heads, 'backs': allbacks, 'where': where, 'span': span, 'entry': entry, 'prefix': n, 'grown': [(c, pa) for (c, pa), tm in phis.items() if tm['kind'] == 'grow'],
                                   'grownshape': ''.join(sorted(set(tm['shape'] for tm in phis.values() if tm['kind'] == 'grow')))}
                self.nloop_last = lid
                self.models.search_loop(self, self.loops[lid], allexits)
                self.models.collect_loop(self, self.loops[lid], allexits)
                return [(x, b) for x, b in allexits]
            # panics found before the fixpoint is reached are found again with the general state
            del self.panics[save:]
        raise Incomplete('loop does not stabilise: %s' % where)

    def apply_phis(self, entry, phis, lid):
        states = [entry.copy()]
        for (cell, path), tm in phis.items():
            kind = tm['kind']
            if kind == 'oneof':
                new = []
                for s in states:
                    for v in tm['alts']:
                        x = s.copy()
                        for q in tm.get('bounds', ()):
                            x.facts = x.facts + (lin(sub(q[1], v) if q[0] == 'le' else sub(v, q[1])),)
                        self.write(x, (cell, path, None), v)
                        new.append(x)
                states = new
                continue
            v0 = self.read(entry, (cell, path, None))
            key = ('phi', lid, str(cell), path_key(path), tm.get('gen', 0))
            facts = []
            if kind == 'suffix':
                d = ('new', 'moved', key)
                it, v0 = v0, (v0[1] if v0[0] == 'it' else v0 if v0[0] == 'sl' else whole(v0))
                set_range(d, 0, 'LEN')
                v = sl(v0[1], add(v0[2], d), sub(v0[3], d))
                if it[0] == 'it':
                    v = ('it', v, it[2])
                facts.append(lin(sub(v0[3], d)))
            elif kind == 'int':
                v = ('new', 'n', key)
                self.phi_entry[key] = v0
                set_range(v, tm['lo'], tm['hi'])
                for e in tm['bounds']:
                    # e: ('le', T) / ('ge', T)
                    f = sub(e[1], v) if e[0] == 'le' else sub(v, e[1])
                    facts.append(lin(f))
            elif kind == 'grow':
                v = self.grown(tm, lid, cell, path)
            else:
                v = self.mk(('new', 'any', key), tm.get('ty'))
            for s in states:
                s.facts = s.facts + tuple(facts)
                self.write(s, (cell, path, None), v)
        for r in phis.rels:
            for s in states:
                d = self.rel_gap(entry, s, r)
                if d is not None:
                    s.facts = s.facts + (lin(d), lin(sub(ZERO, d)))
        return states

    # --- counters that move together --------------------------------------------------------------
    def rel_gap(self, entry, s, r):
        """Zero when the two counters of r have moved in step since the loop was entered."""
        (x, dx), (y, dy) = r
        vs = []
        for (cell, path), d in ((x, dy), (y, dx)):
            try:
                v0, v = self.read(entry, (cell, path, None)), self.read(s, (cell, path, None))
            except KeyError:
                return None
            if not all(isint(q) or q[0] in ('lin', 'i') for q in (v0, v)):
                return None
            g = sub(v, v0)
            vs.append(g if d == 1 else sub(ZERO, g))
        return sub(vs[0], vs[1])

    def relate(self, entry, steps, phis):
        """Counters that each moved by one in the same turn are taken to move together."""
        for i, (x, dx) in enumerate(steps):
            for y, dy in steps[i + 1:]:
                phis.rels.append(((x, dx), (y, dy)))

    def widen(self, entry, head, back, phis, lid=0, start=0):
        """Compare a back-edge state with the head state; extend or weaken the templates."""
        changed = False
        for cell in back.mem:
            if cell[0] == 'E' and cell not in entry.mem:
                v = self.init.get(cell)
                if v is None:
                    v = self.content(cell, None)
                if back.mem[cell] != v:
                    entry.mem[cell] = v
                    head.mem.setdefault(cell, v)
        for cell in list(head.mem.keys()):
            if cell not in entry.mem:
                continue
            a = head.mem[cell]
            b = back.mem.get(cell)
            if b is None or a is b:
                continue
            self.wctx = (lid, start)
            if self.widen_at(entry, head, back, cell, (), a, b, phis):
                changed = True
        if phis.steps:
            self.relate(entry, phis.steps, phis)
            phis.steps = []
        keep = []
        for r in phis.rels:
            d = self.rel_gap(entry, back, r)
            if d is not None and back.eq(d, ZERO):
                keep.append(r)
        if len(keep) < len(phis.rels):
            phis.rels = keep
            changed = True
        return changed

    def widen_at(self, entry, head, back, cell, path, a, b, phis):
        key = (cell, path)
        tm = phis.get(key)
        if tm is not None:
            return self.weaken(entry, head, back, key, tm, a, b, phis)
        if a == b:
            return False
        g = self.grows(a, b)
        if g is not None:
            phis[key] = {'kind': 'grow', 'shape': g}
            return True
        if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            ch = False
            var = a[2] if isinstance(a[2], int) and a[1] not in ('tuple', 'closure', 'array') else None
            for i, (x, y) in enumerate(zip(a[3], b[3])):
                # phi locations live below aggregates; keep variant None for structs
                if self.widen_at(entry, head, back, cell, path + ((None, i, None),) if not self.multi(a) else path + ((a[2], i, None),), x, y, phis):
                    ch = True
            return ch
        if 'upd' in (a[0], b[0]):
            ka = dict(a[2]) if a[0] == 'upd' else {}
            kb = dict(b[2]) if b[0] == 'upd' else {}
            ba = a[1] if a[0] == 'upd' else a
            bb = b[1] if b[0] == 'upd' else b
            if ba == bb:
                ch = False
                for kk in set(ka) | set(kb):
                    x = ka.get(kk)
                    y = kb.get(kk)
                    if x is None:
                        x = self.proj(head, ba, kk[0], kk[1], None)
                        if y[0] == 'sl':
                            x = whole(x) if x[0] != 'sl' else x
                    if y is None:
                        y = self.proj(back, ba, kk[0], kk[1], None)
                        if x[0] == 'sl':
                            y = whole(y) if y[0] != 'sl' else y
                    if self.widen_at(entry, head, back, cell, path + ((kk[0], kk[1], None),), x, y, phis):
                        ch = True
                return ch
        # new template
        if a[0] == 'sl' and b[0] == 'sl' and self.is_suffix(back, b, a):
            phis[key] = {'kind': 'suffix'}
            return True
        if a[0] == 'it' and b[0] == 'it' and a[2] == b[2] and self.is_suffix(back, b[1], a[1]):
            phis[key] = {'kind': 'suffix'}
            return True
        if (not isint(a) or (a in (ZERO, ONE) and b in (ZERO, ONE))) and self.invariant(b):
            phis[key] = {'kind': 'oneof', 'alts': [a, b]}
            if isint(a):
                phis[key]['bounds'] = self.int_bounds(entry, back, key, a, b)
            if isint(a) and sub(b, a) in (ONE, I(-1)):
                phis.steps.append((key, 1 if sub(b, a) == ONE else -1))
            return True
        if isint(a) and (isint(b) or b[0] in ('lin', 'i')) and a[0] not in ('ge0', 'eq0', 'not'):
            if sub(b, a) in (ONE, I(-1)):
                phis.steps.append((key, 1 if sub(b, a) == ONE else -1))
            self.int_template(entry, back, key, a, b, phis)
            return True
        phis[key] = {'kind': 'any'}
        return True

    # --- collections that get one item per turn ---------------------------------------------------
    def grown(self, tm, lid, cell, path):
        items = ('items', ('loop', lid), ('grown', str(cell), path_key(path)))
        if tm['shape'] == 'vec':
            return ('vec', whole(items))
        return ('app', 'collected', ('loop', lid), whole(items))

    def grows(self, a, b):
        """An empty collection that the turn put its first item into: the shape, or None."""
        if a == ('vec', sl(('arrval', ('agg', 'array', 0, ())), ZERO, ZERO)):
            if b[0] == 'vec' and b[1][0] == 'sl' and b[1][1][0] == 'arrval' and len(b[1][1][1][3]) == 1:
                return 'vec'
        if a[0] == 'app' and a[1] == 'emptycoll' and b[0] == 'app' and b[1] == 'collpush' and b[2] == a:
            return 'app'
        return None

    def pushed(self, head, b):
        """The item a turn added to the collection `head`; None when it added none, False when it did something else."""
        if b == head:
            return None
        if head[0] == 'vec' and b[0] == 'vec' and b[1][0] == 'sl' and b[1][1][0] == 'pushed' and b[1][1][1] == head[1] and b[1][2] == ZERO:
            return b[1][1][2]
        if b[0] == 'app' and b[1] == 'collpush' and b[2] == head:
            return b[3]
        return False

    def invariant(self, v):
        """A value that does not depend on the loop being analysed."""
        lid, start = self.wctx
        for x in subterms(v):
            if x and x[0] == 'new':
                n = x[2]
                if isinstance(n, int):
                    if n > start:
                        return False
                elif isinstance(n, tuple) and n[1] >= lid:
                    return False
            elif x and x[0] == 'ref':
                c = x[1]
                if c[0] == 'L' and c[1] > start:
                    pass
        return True

    def int_template(self, entry, back, key, a, b, phis):
        lo = 0 if entry_nonneg(entry, a) and back.nonneg(b) else None
        phis[key] = {'kind': 'int', 'lo': lo, 'hi': None, 'bounds': self.int_bounds(entry, back, key, a, b)}
        return True

    def int_bounds(self, entry, back, key, a, b):
        bounds = []
        # candidates: lengths in sight, the initial value
        cands = [('ge', a), ('le', a)]
        seen = set()
        if key[1] and isint(a):
            # the other counters of the same value
            try:
                whole_v = self.read(entry, (key[0], key[1][:-1], None))
            except KeyError:
                whole_v = None
            if whole_v is not None and whole_v[0] == 'agg':
                for x in whole_v[3]:
                    if isint(x) and x != a and x[0] not in ('ge0', 'eq0', 'not', 'isdisc'):
                        cands += [('le', x), ('ge', x)]
        for c, v in entry.mem.items():
            for s_ in self.lengths_in(v):
                if s_ not in seen:
                    seen.add(s_)
                    cands.append(('le', s_))
        for f in entry.facts:
            at = atom(a) if a[0] not in ('i', 'lin') else None
            if at is not None:
                for x, k in f[1]:
                    if x == at and k == -1:
                        cands.append(('le', unlin(f[0], tuple((y, q) for y, q in f[1] if y != at))))
                    elif x == at and k == 1:
                        m = ladd((0, ()), (f[0], tuple((y, q) for y, q in f[1] if y != at)), -1)
                        cands.append(('ge', unlin(*m)))
        for e in cands:
            fa = sub(e[1], a) if e[0] == 'le' else sub(a, e[1])
            fb = sub(e[1], b) if e[0] == 'le' else sub(b, e[1])
            if entry.nonneg(fa) and back.nonneg(fb):
                bounds.append(e)
        return bounds

    def multi(self, a):
        return a[1] in (OPT, RES) or (isinstance(a[2], int) and a[2] > 0)

    def weaken(self, entry, head, back, key, tm, a, b, phis):
        if tm['kind'] == 'any':
            return False
        if tm['kind'] == 'grow':
            if self.pushed(self.grown(tm, self.wctx[0], key[0], key[1]), b) is not False:
                return False
            tm.clear()
            tm['kind'] = 'any'
            return True
        if tm['kind'] == 'oneof':
            if b in tm['alts']:
                keep = [x for x in tm.get('bounds', ()) if back.nonneg(sub(x[1], b) if x[0] == 'le' else sub(b, x[1]))]
                ch = len(keep) < len(tm.get('bounds', ()))
                if ch:
                    tm['bounds'] = keep
                return ch
            if isint(tm['alts'][0]):
                self.int_template(entry, back, key, tm['alts'][0], b, phis)
                return True
            if len(tm['alts']) < 4 and self.invariant(b):
                tm['alts'].append(b)
                return True
            tm.clear()
            tm['kind'] = 'any'
            return True
        if tm['kind'] == 'suffix':
            v0 = self.read(entry, (key[0], key[1], None))
            if v0[0] == 'it':
                if b[0] == 'it' and b[2] == v0[2] and self.is_suffix(back, b[1], v0[1]):
                    return False
            elif b[0] == 'sl' and self.is_suffix(back, b, v0 if v0[0] == 'sl' else whole(v0)):
                return False
            tm.clear()
            tm['kind'] = 'any'
            return True
        ch = False
        if not (isint(b) or b[0] in ('lin', 'i')):
            tm.clear()
            tm['kind'] = 'any'
            return True
        keep = []
        for e in tm['bounds']:
            fb = sub(e[1], b) if e[0] == 'le' else sub(b, e[1])
            if back.nonneg(fb):
                keep.append(e)
            else:
                ch = True
        if ch:
            tm['bounds'] = keep
        if tm['lo'] is not None and not back.nonneg(b):
            tm['lo'] = None
            ch = True
        if ch:
            tm['gen'] = tm.get('gen', 0) + 1
        return ch

    def lengths_in(self, v):
        out = []
        st = [v]
        n = 0
        while st and n < 400:
            x = st.pop()
            n += 1
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] == 'sl':
                if x[3][0] != 'i':
                    out.append(x[3])
                continue
            if x[0] == 'vec':
                out.append(x[1][3])
                continue
            if x[0] == 'agg':
                st.extend(x[3])
            elif x[0] == 'upd':
                st.extend(y for _, y in x[2])
                out.append(('len', ('items', x[1])))
        return out

    def is_suffix(self, st, b, a):
        """Is slice b a suffix of slice a (same end, start not before)?"""
        if b[0] != 'sl' or a[0] != 'sl' or b[1] != a[1]:
            return False
        if sub(add(b[2], b[3]), add(a[2], a[3])) != ZERO and not st.eq(add(b[2], b[3]), add(a[2], a[3])):
            return False
        return st.nonneg(sub(b[2], a[2]))

    # --- one block --------------------------------------------------------------------------
    def step(self, st, fr, b):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Incomplete('analysis budget')
        blk = fr.body['blocks'][b]
        if blk is None:
            return []
        for s in blk[0]:
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2])
                loc, ty = self.place(st, fr, s[1])
                self.write(st, loc, v)
            elif s[0] == 'sd':
                loc, ty = self.place(st, fr, s[1])
                v = self.read(st, loc)
                if v[0] == 'agg':
                    self.write(st, loc, ('agg', v[1], s[2], v[3]))
            elif s[0] == 'assume':
                v = self.operand(st, fr, s[1])
                if v[0] in ('ge0', 'eq0', 'not', 'isdisc', 'i'):
                    st.assume_bool(v, True)
        t = blk[1]
        k = t[0]
        if k == 'goto':
            return [(st, t[1])]
        if k == 'return':
            return [(st, 'ret')]
        if k == 'unreachable':
            raise Infeasible()
        if k == 'drop':
            return [(st, t[2])]
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'assert':
            return self.do_assert(st, fr, t)
        if k == 'call':
            return self.call(st, fr, t)
        raise Incomplete('terminator %s' % k)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        cases = [(int(x), b) for x, b in t[2]]
        other = t[3]
        if v[0] == 'i':
            for x, b in cases:
                if x == v[1]:
                    return [(st, b)]
            return [(st, other)]
        out = []
        isbool = self.T(t[4])['k'] == 'bool'
        if isbool:
            for val, b in cases + [(None, other)]:
                if val is None:
                    val = 1 - cases[0][0]
                s = st.copy()
                try:
                    s.assume_bool(v, val != 0)
                except Infeasible:
                    continue
                out.append((s, b))
            return out
        if v[0] == 'discr':
            term = v[1]
            ety = v[2]
            nv = None
            if ety is not None and self.T(ety).get('variants'):
                nv = [int(x['discr']) for x in self.T(ety)['variants']]
            taken = set()
            for val, b in cases:
                s = st.copy()
                try:
                    s.set_disc(term, val)
                except Infeasible:
                    taken.add(val)
                    continue
                taken.add(val)
                out.append((s, b))
            left = [x for x in nv if x not in taken] if nv is not None else None
            if left is None or left:
                s = st.copy()
                try:
                    if left is not None and len(left) == 1:
                        s.set_disc(term, left[0])
                    else:
                        for val, _ in cases:
                            s.not_disc(term, val)
                    if fr.body['blocks'][other] is not None and fr.body['blocks'][other][1][0] != 'unreachable':
                        out.append((s, other))
                except Infeasible:
                    pass
            return out
        # integer switch
        if v[0] not in ('lin',):
            atom(v)
        for val, b in cases:
            s = st.copy()
            try:
                s.assume_eq(v, I(val))
            except Infeasible:
                continue
            out.append((s, b))
        s = st.copy()
        try:
            for val, _ in cases:
                s.assume_ne(v, I(val))
            out.append((s, other))
        except Infeasible:
            pass
        return out

    def do_assert(self, st, fr, t):
        kind = t[3]
        span = t[6]
        c = self.operand(st, fr, t[1])
        want = t[2]
        if c[0] == 'ovf':
            v, name = c[1], c[2]
            if self.in_range(st, v, name):
                return [(st, t[5])]
            lo, hi = INT_RANGE[name]
            if not self.counter_step(st, fr, t, v, name):
                self.panic(st, fr, 'arithmetic overflow (%s)' % kind, span, v)
            st.assume_ge0(sub(v, I(lo)))
            st.assume_ge0(sub(I(hi), v))
            return [(st, t[5])]
        if kind == 'bounds':
            i = self.operand(st, fr, t[4][0])
            n = self.operand(st, fr, t[4][1])
            for x in (i, n):
                if x[0] not in ('i', 'lin'):
                    atom(x)
            if st.nonneg(sub(sub(n, i), ONE)):
                return [(st, t[5])]
            self.panic(st, fr, 'index out of bounds', span, ('app', 'index', i, n))
            st.assume_ge0(sub(sub(n, i), ONE))
            return [(st, t[5])]
        v = st.bool_value(c)
        if v is not None and v == want:
            return [(st, t[5])]
        if kind in ('MisalignedPointerDereference', 'NullPointerDereference', 'InvalidEnumConstruction'):
            return [(st, t[5])]
        self.panic(st, fr, 'assertion (%s)' % kind, span, c)
        st.assume_bool(c, want)
        return [(st, t[5])]

    def counter_step(self, st, fr, t, v, name):
        """x + 1 where x is a loop's counter, which started from a constant: no loop turns often
        enough to drive it to overflow... unless the input or the type says how often, which 32 bits
        may not be enough to count: there the counter must stop in time; see DESIGN.md."""
        if name != 'usize':
            return False
        c, m = lin(v)
        if len(m) != 1 or m[0][1] != 1 or not 0 < c < 1 << 16:
            return False
        x, n = TM.ATOMS[m[0][0]], m[0][0]
        if x[:2] != ('new', 'n') or self.phi_entry.get(x[2], ZERO)[0] != 'i' or not 0 <= self.phi_entry.get(x[2], ZERO)[1] < 1 << 16:
            return False
        if INT_RANGE[name][1] < 1 << 40:
            facts = set(st.facts)
            for k, f in st.facts:
                q = dict(f).get(n)
                if q in (1, -1) and (-k, tuple((a, -b) for a, b in f)) in facts and any(TM.ATOMS[a][0] != 'new' for a, _ in f):
                    return False
        return True

    def panic(self, st, fr, what, span, detail=None):
        self.panics.append({'what': what, 'span': span, 'fn': fr.body['npath'], 'stack': fr.stack(), 'detail': show(detail) if detail else '', 'st': st})

    # --- calls ------------------------------------------------------------------------------
    def call(self, st, fr, t):
        f = t[1].get('c', {}).get('fn')
        args = [self.operand(st, fr, a) for a in t[2]]
        dest, _ = self.place(st, fr, t[3])
        tgt = t[4]
        self.calls_seen += 1
        if f is None:
            fv = self.operand(st, fr, t[1])
            if fv[0] == 'fn':
                f = self.fnvals.get(fv[2])
            if f is None:
                outs = self.opaque(st, fr, {'path': '<pointer>', 'name': '?', 'args': []}, args, t)
                return self.finish(outs, fr, t, tgt)
        outs = self.invoke(st, fr, f, args, t)
        return self.finish(outs, fr, t, tgt)

    def finish(self, outs, fr, t, tgt):
        res = []
        for st, v in outs:
            if tgt is None:
                continue
            dest, _ = self.place(st, fr, t[3])
            self.write(st, dest, v)
            res.append((st, tgt))
        return res

    def invoke(self, st, fr, f, args, t):
        """All outcomes of a resolved call: list of (state, value)."""
        if f.get('ctor'):
            # a constructor used as a function
            return [(st, ('agg', norm(f['ctor'][0]), f['ctor'][1], tuple(args)))]
        if self.stops and f.get('inst') in self.stops:
            return self.opaque(st, fr, f, args, t)
        k = self.alloc_kind(f)
        if k is not None:
            self.note_alloc(st, fr, f, args, t, k)
        if self.events_fn is not None:
            r = self.events_fn(self, st, fr, f, args, t)
            if r is not None:
                return r
        r = self.models.model(self, st, fr, f, args, t)
        if r is not None:
            return r
        if 'inst' in f:
            b = self.p.bodies.get(f['inst'])
            if b is not None:
                return self.inline(st, fr, b, args, t, f)
        # a call through a function value
        name = f.get('name')
        if name in ('call_once', 'call_mut', 'call') and args:
            fv = args[0]
            while fv[0] == 'ref' or (fv[0] == 'cref'):
                fv = self.load_ref(st, fv)
            targs = list(args[1][3]) if len(args) > 1 and args[1][0] == 'agg' else args[1:]
            if fv[0] == 'fn':
                g = self.fnvals.get(fv[2])
                if g is not None:
                    return self.invoke(st, fr, g, targs, t)
        return self.opaque(st, fr, f, args, t)

    # --- allocation (C15) --------------------------------------------------------------------
    def alloc_kind(self, f):
        p = f['path']
        k = self.alloc_memo.get(p, 0)
        if k == 0:
            k = self.alloc_memo[p] = self.models.alloc_kind(norm(p))
        return k

    def note_alloc(self, st, fr, f, args, t, k):
        self.models.note_alloc(self, st, fr, f, args, t, k)

    def inline(self, st, fr, b, args, t, f):
        rust_call = f is not None and f.get('name') in ('call_once', 'call_mut', 'call') and 'ops::' in f['path']
        if b.get('spread') is None and args and args[-1][0] == 'agg' and args[-1][1] == 'tuple':
            if len(args) != b['argc'] or (rust_call and '{closure' in b['npath'].split('::')[-1] and not b.get('shim')):
                args = args[:-1] + list(args[-1][3])
        if len(args) != b['argc']:
            raise Incomplete('argument shape of %s' % b['npath'])
        if '{closure' in b['npath'] and args:
            # FnOnce::call_once on a closure whose body takes self by reference
            sty = self.T(b['locals'][1])
            if sty['k'] == 'ref' and args[0][0] not in ('ref', 'cref', 'fld', 'param', 'deref', 'eptr'):
                cell = ('H', fresh('clo'))
                st.mem[cell] = args[0]
                args = [('ref', cell, (), (sty['to'],))] + args[1:]
        site = t[7] if len(t) > 7 else '?'
        return self.run_body(st, b, args, fr, site)

    def call_instance(self, st, fr, inst, args, t):
        b = self.p.bodies.get(inst)
        if b is None:
            raise Incomplete('no body %r' % inst)
        return self.inline(st, fr, b, args, t, None)

    def deep(self, st, v, d=0):
        """Replace references to memory by the values they point to (value numbering)."""
        if d > 14:
            return v
        k = v[0]
        if k == 'ref':
            try:
                return ('&', self.deep(st, self.read(st, (v[1], v[2], v[3])), d + 1))
            except (Incomplete, Infeasible):
                return ('&', ('undef',))
        if k == 'cref':
            return ('&', self.deep(st, v[1], d + 1))
        if k == 'agg':
            return ('agg', v[1], v[2], tuple(self.deep(st, x, d + 1) for x in v[3]))
        if k == 'app':
            return v[:2] + tuple(self.deep(st, x, d + 1) if isinstance(x, tuple) else x for x in v[2:])
        if k == 'upd':
            return ('upd', v[1], tuple((kk, self.deep(st, x, d + 1)) for kk, x in v[2]))
        if k == 'sl':
            b = v[1]
            if b[0] == 'arrval':
                return ('sl', ('arrval', self.deep(st, b[1], d + 1)), v[2], v[3])
            return v
        if k in ('vec', 'it', 'box'):
            return (k,) + tuple(self.deep(st, x, d + 1) for x in v[1:])
        return v

    def mut_refs(self, st, fr, args, t):
        """Locations an opaque callee may write through."""
        out = []
        tys = t[6] if t and len(t) > 6 else [None] * len(args)
        for a, ty in zip(args, tys):
            self._mut(st, a, ty, out, 0)
        return out

    def _mut(self, st, a, ty, out, d):
        tt = self.p.types[ty] if ty is not None else None
        if tt is not None and tt['k'] in ('ref', 'ptr'):
            if tt['mut']:
                if a[0] == 'ref':
                    out.append(((a[1], a[2], a[3]), tt['to']))
                elif a[0] not in ('sl', 'cref'):
                    out.append((self.deref(st, a, tt['to']), tt['to']))
            return
        if a[0] == 'agg' and d < 4:
            if tt is not None and tt['k'] == 'closure':
                for x, u in zip(a[3], tt['upvars']):
                    self._mut(st, x, u, out, d + 1)
            elif tt is not None and tt['k'] == 'tuple':
                for x, u in zip(a[3], tt['fields']):
                    self._mut(st, x, u, out, d + 1)
            elif tt is not None and tt['k'] == 'adt' and tt.get('variants') and a[2] < len(tt['variants']):
                for x, u in zip(a[3], tt['variants'][a[2]]['fields']):
                    self._mut(st, x, u[1], out, d + 1)

    def opaque(self, st, fr, f, args, t):
        """A call that is not followed: result is a function of the (deep) argument values; anything
        reachable mutably is forgotten."""
        path = norm(f['path'])
        tyargs = tuple(norm(self.T(x)['s']) if isinstance(x, int) else str(x) for x in f.get('args', []))
        muts = self.mut_refs(st, fr, args, t) if t else []
        dargs = tuple(self.deep(st, a) for a in args)
        self.models.check_total(self, st, fr, f, args, t)
        rty = t[5] if t else None
        if muts:
            st.ev('opaque', path=path, args=dargs, tyargs=tyargs, span=t[7] if t else '', f=f)
            for loc, ty in muts:
                self.write(st, loc, self.mk(fresh('havoc'), ty))
            v = self.mk(fresh('ret:' + path), rty)
        else:
            v = self.mk(('app', path, ('s', ','.join(tyargs))) + dargs, rty)
            st.ev('pure', path=path, args=dargs, tyargs=tyargs, ret=v, span=t[7] if t else '', f=f)
        return [(st, v)]

    def run_root(self, st, bid, args):
        return self.run_body(st, self.p.bodies[bid], args, None, 'root')


def entry_nonneg(st, a):
    return st.nonneg(a)


def path_key(path):
    return tuple((p[0], p[1]) for p in path)
