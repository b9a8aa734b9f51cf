"""What every rule group works with."""
import engine as EG
import sem as SEM
from engine import St, Incomplete, Infeasible, norm
from sem import Missing
from terms import *

DE = 'visitor::DecodeError'


class Cx:
    def __init__(self, prog, rep, tier='quick'):
        self.p = prog
        self.rep = rep
        self.tier = tier
        self.sem = SEM.Sem(prog)
        self.e = self.sem.engine()
        self.cache = {}
        self.de_names = self.variants(DE)

    def variants(self, path):
        for t in self.p.types:
            if t['k'] == 'adt' and norm(t['path']) == path and t.get('variants'):
                return [v['name'] for v in t['variants']]
        raise Missing('type %s' % path)

    def adt_variants(self, path):
        for t in self.p.types:
            if t['k'] == 'adt' and norm(t['path']) == path and t.get('variants'):
                return t['variants']
        raise Missing('type %s' % path)

    def run(self, st, bid, args, site='root'):
        e = self.e
        e.steps = 0
        b = self.p.bodies.get(bid)
        if b is None:
            raise Missing('body of %r' % bid)
        return e.run_body(st, b, args, None, site)

    def where(self, bid):
        b = self.p.bodies.get(bid)
        return '%s (%s)' % (b['npath'], b['span']) if b else '?'

    def feasible_runs(self, st, bid, args):
        try:
            return self.run(st, bid, args)
        except Infeasible:
            return []

    # --- shapes of results ------------------------------------------------------------------
    def results(self, st, v):
        """(state, is_ok, payload) for a Result value, splitting unknown ones."""
        return self.split(st, v, RES)

    def split(self, st, v, _=None):
        d = st.disc_of(v)
        out = []
        for c in ([d] if d is not None else [0, 1]):
            s = st.copy() if d is None else st
            try:
                s.set_disc(v, c)
            except Infeasible:
                continue
            x = None
            try:
                x = self.e.proj(s, v, c, 0, None)
            except Incomplete:
                pass
            out.append((s, c, x))
        return out

    def peel(self, v):
        """The error underneath conversions that carry an error into another error type."""
        while True:
            if v[0] == 'app' and v[1] in ('core::convert::From::from', 'core::convert::Into::into') and len(v) > 3:
                v = v[3]
            elif v[0] == 'agg' and str(v[1]) in (DE, 'error::ErrorKind', 'error::Error') and False:
                v = v[3][0]
            else:
                return v

    def decode_error(self, st, v):
        """(variant name, fields) when v is a DecodeError (possibly converted), else None."""
        v = self.peel(self.e.deep(st, v))
        if v[0] == 'agg' and v[1] == DE:
            return self.de_names[v[2]], v[3]
        return None

    def contains(self, v, x):
        for y in subterms(v):
            if y == x:
                return True
        return False

    def trace(self, st, *kinds):
        return [ev for ev in st.trace if ev['k'] in kinds]

    def show(self, st, v, d=6):
        return show(self.e.deep(st, v), d)

    def says(self, x, what):
        """Does the text (or error) x print `what` itself, not something computed from it?"""
        printed = []
        for y in subterms(x):
            if y and y[0] == 'app' and (y[1] == 'display' or str(y[1]).split('::')[-1] in ('new_debug', 'new_display')):
                z = y[-1]
                while z and z[0] == '&':
                    z = z[1]
                printed.append(z)
        if printed:
            return what in printed
        return self.contains(x, what)

    def failing(self, ev):
        return ev['k'] in ('visit', 'core', 'decode', 'hook', 'target', 'bits') and ev.get('ok') is False or (ev['k'] == 'resolve' and ev['ans'] in ('error', 'failed'))

    def path_note(self, st):
        out = []
        for ev in st.trace:
            k = ev['k']
            if k in ('visit', 'hook'):
                out.append('%s %s' % (ev['name'], 'ok' if ev['ok'] else 'fails'))
            elif k == 'core':
                out.append('decode of an item %s' % ('ok' if ev['ok'] else 'fails'))
            elif k == 'decode':
                out.append('read %s %s' % (ev['ty'], 'ok' if ev['ok'] else 'fails'))
            elif k == 'resolve':
                out.append('resolve: %s' % ev['ans'])
            elif k in ('found', 'notfound'):
                out.append(k)
        return ' -> '.join(out) or 'straight path'
