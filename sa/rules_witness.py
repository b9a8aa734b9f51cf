"""G10: properties decided by the type checker.

Witness programs (witness/*.rs) are type checked against the library as compiled for this run.  Each
top level item of a witness is one obligation: unmarked items must be accepted, marked lines must be
rejected with the error marked.  A program in which something else goes wrong (an item that is gone,
say) decides nothing: the obligation is then undecided, unless the property itself is that the program
compiles (C11, C19, C25, C26)."""
import glob
import os
import witness as W
from cx import *

ALLP = 'C11 C18 C19 C21 C25 C26'
D = W.DIR

# file -> (properties, rule, mode, editions)
#  mode 'life': only borrow and lifetime errors count; 'bound': only unmet trait bounds; 'any': every error
FILES = {
    'borrow_pass.rs': ('C18', 'borrow-outlives-its-view', 'life', ('2021',)),
    'borrow_fail.rs': ('C18', 'borrow-ends-with-its-source', 'life', ('2021',)),
    'threads_pass.rs': ('C21', 'shared-and-sent', 'bound', ('2021',)),
    'options_path.rs': ('C25', 'crate-path-honoured', 'any', ('2021',)),
    'options_bounds.rs': ('C25', 'bounds-as-given', 'any', ('2021',)),
    'options_skip.rs': ('C11 C25', 'skip-in-any-arrangement', 'any', ('2021',)),
    'derive_types.rs': ('C26', 'derive-accepts', 'any', ('2021',)),
    'scope_ext_self.rs': ('C26', 'derive-accepts-in-scope', 'any', ('2021',)),
    'scope_ext_ref.rs': ('C26', 'derive-accepts-in-scope', 'any', ('2021',)),
    'scope_ext_mut.rs': ('C26', 'derive-accepts-in-scope', 'any', ('2021',)),
    'scope_shadow.rs': ('C26', 'derive-accepts-in-scope', 'any', ('2021',)),
    'scope_names.rs': ('C26', 'derive-accepts-in-scope', 'any', ('2021',)),
    'scope_local.rs': ('C26', 'derive-accepts-in-scope', 'any', ('2021',)),
    'scope_values.rs': ('C26', 'derive-accepts-in-scope', 'any', ('2021',)),
    'scope_lints.rs': ('C26', 'derive-accepts-in-scope', 'any', ('2021',)),
    'scope_leak.rs': ('C26', 'derive-leaks-nothing', 'any', ('2021',)),
    'nostd_derive.rs': ('C19 C26', 'derive-without-std', 'any', ('2018', '2021', '2024')),
}


def counts(mode, d):
    if mode == 'life':
        return W.is_life(d)
    if mode == 'bound':
        return d['code'] == 'E0277'
    return True


def g_witness(cx):
    rep = cx.rep
    lib = W.lib(cx.target, 'scale_decode') if cx.target else None
    if lib is None:
        raise Incomplete('the compiled library was not found')
    jobs = {}
    for f, (props, rule, mode, eds) in FILES.items():
        if not set(props.split()) & rep.want and 'ALL' not in rep.want:
            continue
        path = os.path.join(D, f)
        for ed in eds:
            jobs[(f, ed)] = (path, cx.target, [('renamed' if f == 'options_path.rs' else 'scale_decode', lib)], ed)
    res = W.run_all(jobs)
    for (f, ed), r in sorted(res.items()):
        props, rule, mode, eds = FILES[f]
        tag = f[:-3] + ('' if len(eds) == 1 else ' (edition %s)' % ed)
        props = props.split()
        rep.count('witness items', len(r.items))
        # diagnostics nobody can be charged with (eg. in the library itself)
        if r.loose and mode == 'any':
            rep.ob(props, rule, tag, False, lambda: r.loose[0]['rendered'][:600], f)
        elif r.loose:
            rep.undecided[tag] = (set(props), r.loose[0]['rendered'][:600])
        expected = r.expected_items()
        other = [d for ds in r.bad.values() for d in ds if not counts(mode, d)] + (r.loose if mode != 'any' else [])
        for name in r.names():
            ds = r.bad.get(name, [])
            hit = [d for d in ds if counts(mode, d)]
            exp = expected.get(name, [])
            anchor = '%s: %s' % (tag, name)
            where = 'witness/%s' % f
            if hit:
                d = hit[0]
                rep.ob(props, rule, anchor, False, lambda: 'must be accepted, but: %s %s' % (d['code'], d['rendered'][:700]), where)
                continue
            unmet = [e for e in exp if not e[2]]
            if unmet and (other or (mode != 'any' and ds)):
                rep.undecided[anchor] = (set(props), 'not compiled far enough: %s' % other[0]['message'][:200])
                continue
            if ds:
                rep.undecided[anchor] = (set(props), '%s: %s' % (ds[0]['code'], ds[0]['message'][:200]))
                continue
            if exp:
                l = unmet[0][0] if unmet else 0
                rep.ob(props, rule, anchor, not unmet, lambda: 'must be rejected (%s), but the compiler accepts: %s' % ('/'.join(sorted(unmet[0][1])), open(r.path).read().split('\n')[l - 1].strip()[:300]), where)
            else:
                rep.ob(props, rule, anchor, True, '', where)
