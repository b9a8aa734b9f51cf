"""The vocabulary the rules speak: which calls are the interesting ones, and what the code around
them may assume.

 * CORE: the functions that run a visitor against a resolved type (they reach both a call of the
   visitor's custom hook on a type parameter and TypeResolver::resolve_type).  Found in the call
   graph, not by name.  Elsewhere a call of CORE is one event: it moves the input to a suffix and
   returns an arbitrary result.
 * A call of a Visitor method on a type parameter is the user's code: a container handed to it comes
   back in any state its public methods can bring it to (an abstract loop over those methods).
"""
import engine as EG
from engine import Engine, St, Incomplete, Infeasible, norm
from terms import *

VISITOR = 'visitor::Visitor'
RESOLVE = 'scale_type_resolver::TypeResolver::resolve_type'
RTV = 'scale_type_resolver::ResolvedTypeVisitor'
DECAT = 'visitor::DecodeAsTypeResult'


class Missing(Exception):
    """Something the rules are anchored on is not in the source any more."""


class Sem:
    def __init__(self, prog):
        self.p = prog
        self.find_core()
        self.find_containers()
        self.capture_resolve = None
        self.engine_ = None
        self.explore_on = True
        self.snaps = []
        self.core_off = set()

    # --- anchors ----------------------------------------------------------------------------
    def callees(self, b):
        out = []
        for blk in b['blocks']:
            if blk and blk[1][0] == 'call':
                f = blk[1][1].get('c', {}).get('fn')
                if f:
                    out.append(f)
        return out

    def find_core(self):
        p = self.p
        hook, res, graph = set(), set(), {}
        local = {b['id']: b for b in p.bodies.values() if b['crate'] == 'scale_decode'}
        for i, b in local.items():
            g = set()
            for f in self.callees(b):
                path = norm(f['path'])
                if 'inst' not in f and f.get('trait') and norm(f['trait']) == VISITOR and f['name'].startswith('unchecked_decode_as_type'):
                    hook.add(i)
                if path == RESOLVE and 'inst' not in f:
                    res.add(i)
                if f.get('inst') in local:
                    g.add(f['inst'])
                for it in f.get('iters', []):
                    for k in ('next', 'call'):
                        if it.get(k) in local:
                            g.add(it[k])
            # closures made here
            for blk in b['blocks']:
                if not blk:
                    continue
                for s in blk[0]:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1].get('kind') == 'closure' and s[2][1].get('inst') in local:
                        g.add(s[2][1]['inst'])
            graph[i] = g

        def closure(seed):
            out = set(seed)
            ch = True
            while ch:
                ch = False
                for i, g in graph.items():
                    if i not in out and g & out:
                        out.add(i)
                        ch = True
            return out
        both = closure(hook) & closure(res)
        core = set()
        for i in both:
            # minimal: none of the functions it calls (transitively) reaches both without it
            seen, wl = set(), list(graph[i])
            below = False
            while wl:
                x = wl.pop()
                if x in seen or x == i:
                    continue
                seen.add(x)
                if x in both:
                    below = True
                    break
                wl.extend(graph[x])
            if not below:
                core.add(p.bodies[i]['npath'])
        # a closure belongs to the function around it
        self.core_paths = set(x.split('::{closure')[0] for x in core)
        self.hook_paths = set(p.bodies[i]['npath'] for i in hook)
        if not self.core_paths:
            raise Missing('no function runs a visitor against a resolved type')

    def find_containers(self):
        """ADTs handed to Visitor methods by mutable reference, and their public methods."""
        p = self.p
        self.adts = {norm(a['path']): a for a in p.raw['adts']}
        self.methods = {}
        for r in p.roots:
            b = p.bodies.get(r['id'])
            if b is None or not r.get('ins'):
                continue
            t = p.types[r['ins'][0]]
            if t['k'] != 'ref':
                continue
            a = p.types[t['to']]
            if a['k'] != 'adt' or a.get('crate') != 'scale_decode':
                continue
            if not r['pub'] and not r.get('impl_trait'):
                continue
            self.methods.setdefault(norm(a['path']), []).append({'name': r['name'], 'id': r['id'], 'mut': t['mut'], 'trait': r.get('impl_trait'), 'npath': r['npath'], 'root': r})

    def root(self, npath):
        for r in self.p.roots:
            if r['npath'] == npath:
                return r
        return None

    def roots_named(self, adt, name, trait=None):
        return [m for m in self.methods.get(adt, []) if m['name'] == name and (trait is None or m['trait'] == trait)]

    # --- the engine with the events installed ------------------------------------------------
    def engine(self):
        e = Engine(self.p)
        e.events_fn = self.events
        e.sem = self
        return e

    def adt_of_ref(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'ref':
            a = self.p.types[t['to']]
            if a['k'] == 'adt':
                return norm(a['path']), t['mut'], t['to']
        return None, None, None

    def events(self, e, st, fr, f, args, t):
        inst = f.get('inst')
        if inst is not None:
            b = self.p.bodies.get(inst)
            if b is not None and b['npath'] in self.core_paths and b['npath'] not in self.core_off:
                return self.core_event(e, st, fr, b, args, t)
            return None
        if f.get('trait') and norm(f['trait']) == VISITOR and (f.get('ikind') is None):
            return self.visit_event(e, st, fr, f, args, t)
        if f.get('trait') and norm(f['trait']) in ('DecodeAsType', 'DecodeAsFields') and f.get('ikind') is None and f['name'].startswith('decode_as_'):
            return self.target_event(e, st, fr, f, args, t)
        if norm(f['path']) == RESOLVE:
            return self.resolve_event(e, st, fr, f, args, t)
        return None

    # roles of CORE's parameters, by type
    def core_roles(self, b):
        r = {}
        for i in range(b['argc']):
            ty = b['locals'][i + 1]
            t = self.p.types[ty]
            s = norm(t['s'])
            if t['k'] == 'ref' and t['mut']:
                r['data'] = i
            elif t['k'] == 'bool':
                r['compact'] = i
            elif t['k'] == 'ref':
                r['types'] = i
            elif s.endswith('::TypeId'):
                r['tid'] = i
            else:
                r.setdefault('visitor', i)
        return r

    def core_event(self, e, st, fr, b, args, t):
        roles = self.core_roles(b)
        if 'data' not in roles or 'visitor' not in roles or 'tid' not in roles:
            raise Incomplete('parameters of %s' % b['npath'])
        loc = e.deref(st, args[roles['data']], None)
        cur = e.read(st, loc)
        if cur[0] != 'sl':
            cur = whole(cur)
        vty = self.p.tystr(b['locals'][roles['visitor'] + 1])
        ev = dict(path=b['npath'], at=cur, loc=loc, tid=args[roles['tid']], types=args[roles['types']] if 'types' in roles else None,
                  visitor=e.deep(st, args[roles['visitor']]), vty=vty, compact=args[roles['compact']] if 'compact' in roles else FALSE,
                  span=t[7] if t else '?', fn=fr.body['npath'])
        rt = self.p.types[t[5]]
        out = []
        for good in (True, False):
            s = st.copy()
            n = fresh('core')
            d = ('new', 'used', n[2])
            set_range(d, 0, 'LEN')
            new = sl(cur[1], add(cur[2], d), sub(cur[3], d))
            s.assume_ge0(sub(cur[3], d))
            e.write(s, loc, new)
            v = e.mk(('new', 'value' if good else 'error', n[2]), rt['args'][0 if good else 1])
            s.ev('core', ok=good, after=new, val=v, n=n[2], **ev)
            out.append((s, ok(v) if good else err(v)))
        return out

    def target_event(self, e, st, fr, f, args, t):
        """T::decode_as_type.. on a type parameter: moves the input to a suffix, any result."""
        loc = e.deref(st, args[0], None)
        cur = e.read(st, loc)
        if cur[0] != 'sl':
            cur = whole(cur)
        tyargs = [norm(e.T(x)['s']) if isinstance(x, int) else str(x) for x in f.get('args', [])]
        ev = dict(name=f['name'], at=cur, loc=loc, arg=e.deep(st, args[1]), types=args[2], compact=args[3] if len(args) > 3 else FALSE, tyargs=tyargs, span=t[7], fn=fr.body['npath'])
        rt = self.p.types[t[5]]
        out = []
        for good in (True, False):
            s = st.copy()
            n = fresh('target')
            d = ('new', 'used', n[2])
            set_range(d, 0, 'LEN')
            new = sl(cur[1], add(cur[2], d), sub(cur[3], d))
            s.assume_ge0(sub(cur[3], d))
            e.write(s, loc, new)
            v = e.mk(('new', 'tvalue' if good else 'terror', n[2]), rt['args'][0 if good else 1])
            s.ev('target', ok=good, after=new, val=v, n=n[2], **ev)
            out.append((s, ok(v) if good else err(v)))
        return out

    def visit_event(self, e, st, fr, f, args, t):
        name = f['name']
        if name == 'visit_unexpected' or not (name.startswith('visit_') or name.startswith('unchecked_')):
            pass
        if name.startswith('unchecked_decode_as_type'):
            return self.hook_event(e, st, fr, f, args, t)
        rt = self.p.types[t[5]]
        ev = dict(name=name, args=args, dargs=[e.deep(st, a) for a in args], span=t[7], fn=fr.body['npath'])
        cont = None
        if len(args) > 1:
            adt, mut, ty = self.adt_of_ref(t[6][1])
            if adt in self.methods and mut:
                cont = (adt, ty)
        st.ev('before_visit', **ev)
        states = [st]
        if cont:
            snap = {'name': name, 'adt': cont[0], 'ref': args[1], 'ty': cont[1], 'before': st.copy(), 'tid': args[2] if len(args) > 2 else None}
            states = self.explore(e, st, fr, args[1], cont, t)
            snap['states'] = [s.copy() for s in states]
            self.snaps.append(snap)
        out = []
        for s0 in states:
            for good in (True, False):
                s = s0.copy()
                n = fresh('visit')
                v = e.mk(('new', 'vvalue' if good else 'verror', n[2]), rt['args'][0 if good else 1])
                s.ev('visit', ok=good, val=v, n=n[2], container=cont[0] if cont else None, **ev)
                out.append((s, ok(v) if good else err(v)))
        return out

    def explore(self, e, st, fr, ref, cont, t):
        """Any sequence of public &mut calls on a container."""
        loc = e.deref(st, ref, cont[1])
        heads = []
        adt, cty = cont
        ms = [m for m in self.methods[adt] if m['mut']]

        def call(s, m, r):
            b = self.p.bodies[m['id']]
            a = [r] + [e.param('u%d' % i, b['locals'][i + 1]) for i in range(1, b['argc'])]
            return e.run_body(s, b, a, fr, 'client')

        def body(s):
            backs = []
            for m in ms:
                try:
                    for s2, v in call(s.copy(), m, ref):
                        backs.append(s2)
                        b = self.p.bodies[m['id']]
                        adt2, mut2, ty2 = self.adt_of_ref(b['locals'][0])
                        if mut2 and adt2 in self.methods and v[0] == 'ref':
                            for m2 in self.methods[adt2]:
                                if m2['mut']:
                                    for s3, _ in call(s2.copy(), m2, v):
                                        backs.append(s3)
                except Infeasible:
                    pass
            return backs, [(s, None)]

        # public fields can be assigned by the client
        a = self.adts.get(adt)
        outs = e.fix(st, body, 'client calls on %s' % adt.split('::')[-1], t[7] if t else '?')
        return [s for s, _ in outs]

    def hook_event(self, e, st, fr, f, args, t):
        ev = dict(name=f['name'], args=args, dargs=[e.deep(st, a) for a in args], span=t[7], fn=fr.body['npath'])
        rt = self.p.types[t[5]]
        names = [v['name'] for v in rt['variants']]
        loc = e.deref(st, args[1], None)
        cur = e.read(st, loc)
        if cur[0] != 'sl':
            cur = whole(cur)
        out = []
        for kind, good in (('Skipped', True), ('Decoded', True), ('Decoded', False)):
            s = st.copy()
            n = fresh('hook')
            d = ('new', 'hookused', n[2])
            set_range(d, 0, 'LEN')
            s.assume_ge0(sub(cur[3], d))
            e.write(s, loc, sl(cur[1], add(cur[2], d), sub(cur[3], d)))
            if kind == 'Skipped':
                v = e.mk(('new', 'visitor', n[2]), rt['args'][0])
                r = v
            else:
                ity = self.p.types[rt['args'][1]]
                v = ('new', 'hvalue' if good else 'herror', n[2])
                if ity['k'] == 'adt' and norm(ity['path']) == RES:
                    v = e.mk(v, ity['args'][0 if good else 1])
                    r = ok(v) if good else err(v)
                else:
                    r = v
            s.ev('hook', kind=kind, ok=good, val=v, n=n[2], at=cur, after=sl(cur[1], add(cur[2], d), sub(cur[3], d)), **ev)
            out.append((s, ('agg', DECAT, names.index(kind), (r,))))
        return out

    def resolve_event(self, e, st, fr, f, args, t):
        ev = dict(args=args, dargs=[e.deep(st, a) for a in args], span=t[7], fn=fr.body['npath'])
        if self.capture_resolve is not None:
            self.capture_resolve.append((st.copy(), args, f, t))
        rt = self.p.types[t[5]]
        out = []
        # the visitor's answer, whatever it is, or an error of the resolver
        s = st.copy()
        n = fresh('resolve')
        ans = self.p.types[rt['args'][0]]
        cases = []
        if ans['k'] == 'adt' and norm(ans['path']) == RES:
            cases = [('value', ok(e.mk(('new', 'rvalue', n[2]), ans['args'][0]))), ('error', err(e.mk(('new', 'rerror', n[2]), ans['args'][1])))]
        else:
            cases = [('answer', e.mk(('new', 'answer', n[2]), rt['args'][0]))]
        for k, v in cases:
            s = st.copy()
            s.ev('resolve', ans=k, n=n[2], val=v, **ev)
            out.append((s, ok(v)))
        s = st.copy()
        x = e.mk(('new', 'resolveerror', n[2]), rt['args'][1])
        s.ev('resolve', ans='failed', n=n[2], val=x, **ev)
        out.append((s, err(x)))
        return out
