"""G7: no reachable panic, at 64 and at 32 bits.

Runs after every other group: the panics collected are those found feasible while interpreting the
decoder with every container state a client can reach, plus the remaining public functions with
arbitrary arguments."""
import json
import os
import subprocess
import sys
from cx import *
from engine import norm
from report import Report

OWN = ('scale_decode', 'corpus')
# panics inside these are what the caller made of the library function
STD = ('core', 'alloc', 'std')


def body_crates(cx):
    out = {}
    for b in cx.p.bodies.values():
        out[b['npath']] = b['crate']
    return out


def rest(cx):
    """The public functions no other group went through, with arbitrary arguments."""
    e = cx.e
    seen = set(e.analysed)
    conts = set(x for x in cx.sem.methods if x.startswith('visitor::types::'))
    und = {}
    for r in cx.p.roots:
        b = cx.p.bodies.get(r['id'])
        if b is None or (b['npath'], b['span']) in seen or not r.get('pub', True):
            continue
        skip = False
        for j in range(b['argc']):
            if mentions_state(cx, b['locals'][j + 1], conts, 0):
                skip = True     # a container can only be in the states the other groups start from
        if skip:
            continue
        try:
            cx.run(St(), b['id'], [e.param('p%d' % j, b['locals'][j + 1]) for j in range(b['argc'])])
        except Infeasible:
            pass
        except (Incomplete, RecursionError) as x:
            und[b['npath']] = str(x)
    return und


def views(cx):
    """The methods of a container no other group went through, in every state it can be in."""
    from rules_items import snapshots
    e = cx.e
    und = {}
    seen = set(e.analysed)
    for k, cont, label, st, ref, snap in snapshots(cx):
        for m in cx.sem.methods.get(snap['adt'], []):
            b = cx.p.bodies.get(m['id'])
            if b is None or (b['npath'], b['span']) in seen or not b['argc']:
                continue
            t = cx.p.types[b['locals'][1]]
            if t['k'] != 'ref':
                continue
            try:
                cx.run(st.copy(), b['id'], [ref] + [e.param('p%d' % j, b['locals'][j + 1]) for j in range(1, b['argc'])])
            except Infeasible:
                pass
            except (Incomplete, RecursionError) as x:
                und[b['npath']] = str(x)
    return und


def mentions_state(cx, ty, conts, d):
    t = cx.p.types[ty]
    if d > 4:
        return False
    if t['k'] in ('ref', 'ptr'):
        return mentions_state(cx, t['to'], conts, d + 1)
    if t['k'] == 'adt':
        if norm(t['path']) in conts:
            return True
    return False


def gather(cx):
    """{library function: [what ...]} over every feasible panic."""
    crates = body_crates(cx)
    found = {}
    for p in cx.e.panics:
        inner = crates.get(p['fn'], 'core')
        if inner not in OWN and inner not in STD:
            continue        # the inside of another dependency
        own = [f for f in p['stack'] if crates.get(f) in OWN]
        if not own:
            continue
        # between the panic and our code only the standard library
        mid = [f for f in p['stack'][:p['stack'].index(own[0])] if crates.get(f, 'core') not in STD]
        if mid:
            continue
        k = own[0]
        found.setdefault(k, [])
        m = '%s in %s at %s (%s), reached through %s' % (p['what'], p['fn'], str(p['span']).split('/repo/')[-1], p['detail'][:160], ' <- '.join(own[1:4]) or 'its public entry')
        if m not in found[k]:
            found[k].append(m)
    return found


def functions(cx):
    crates = body_crates(cx)
    return sorted(set(n for n, s in cx.e.analysed if crates.get(n) in OWN))


def g_panics(cx):
    rep = cx.rep
    und = views(cx)
    und.update(rest(cx))
    found = gather(cx)
    for n, x in und.items():
        rep.undecided['public function %s' % n] = ({'C14'}, x)
    fs = functions(cx)
    for f in fs:
        rep.ob('C14', 'no-panic', f, f not in found, lambda: '; '.join(found[f][:3]), f)
    rep.count('functions interpreted for panics', len(fs))
    if os.environ.get('VP_WIDTH') == '32':
        return
    # the same analysis where usize has 32 bits
    with rep.unit('C14 C08', '32-bit pass'):
        e = dict(os.environ, VP_WIDTH='32', PYTHONHASHSEED='0')
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'check.py'), '--pass32', cx.facts, '1' if cx.corpus_ok else '0'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
        if r.returncode:
            raise Incomplete('the 32-bit pass failed: %s' % r.stderr[-300:])
        d = json.loads(r.stdout)
        for f in d['functions']:
            rep.ob('C14', 'no-panic-32-bit', f, f not in d['panics'], lambda: '; '.join(d['panics'][f][:3]), f)
        mine = {'%s | %s' % k: bool(o['bad']) for k, o in rep.obs.items() if 'C08' in o['props']}
        for k, (props, bad) in sorted(d['obs'].items()):
            if 'C08' in props:
                rule, _, anchor = k.partition(' | ')
                rep.ob('C08', rule + ' (32-bit)', anchor, not bad or mine.get(k, False), lambda: 'only where usize has 32 bits: %s' % bad, anchor)
        rep.count('functions interpreted at 32 bits', len(d['functions']))


def pass32(analyse, facts, corpus_ok):
    import terms
    terms.set_pointer_width(32)
    rep, cx = analyse('ALL', facts, corpus_ok, '', 'quick')
    print(json.dumps({'functions': functions(cx), 'panics': gather(cx),
                      'obs': {'%s | %s' % k: [sorted(o['props']), str(o['bad'][0][0])[:400] if o['bad'] else ''] for k, o in rep.obs.items() if 'C08' in o['props']}}))
