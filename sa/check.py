#!/usr/bin/env python3
"""Decide one property of /repo's current tree by static analysis.

  check.py PROPERTY             build the facts from /repo, analyse, write evidence, exit 0 / 1
  check.py --dev PROPERTY|ALL   analyse facts built before (VP_FACTS) and print everything
"""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
os.environ['RUSTC_ICE'] = '0'          # a compiler that panics leaves no file behind in /repo
import engine as EG
import terms as TM
from report import Report
from cx import Cx

CACHE = os.path.join(ROOT, '.cache')
GROUPS = []


class BuildError(Exception):
    pass


def group(props, fn, name=None, panics=True):
    # whatever is interpreted is also looked at for panics and allocations
    GROUPS.append((set(props.split()) | ({'C14', 'C15'} if panics else set()), fn, name or fn.__name__))


def register():
    import rules_items
    import rules_core
    group('C01 C02 C05 C22 C23', rules_core.g_core)
    group('C01 C02 C05 C06 C07 C17 C22 C23 C24', rules_core.g_kinds)
    import rules_targets
    group(rules_targets.ALLP, rules_targets.g_targets)
    group('C01 C02 C03 C04 C05 C06 C10 C23', rules_items.g_items)
    import rules_defaults
    group(rules_defaults.ALLP, rules_defaults.g_defaults)
    import rules_entry
    group(rules_entry.ALLP, rules_entry.g_entry)
    import rules_derive
    group(rules_derive.ALLP + ' C25 C26', rules_derive.g_derive)
    import rules_witness
    group(rules_witness.ALLP, rules_witness.g_witness, panics=False)
    import rules_static
    group('C19', rules_static.g_features, panics=False)
    group('C19 C21', rules_static.g_static, panics=False)
    import rules_panics
    import rules_alloc
    group('C15', rules_alloc.g_alloc, panics=False)
    group('C14 C08', rules_panics.g_panics, panics=False)     # stays last: looks at what the others ran into


# --- facts -----------------------------------------------------------------------------------
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()


def build_driver():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(ROOT, 'driver', 'driver.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'driver-' + h)
    if not os.path.exists(out):
        r = sh(['rustc', '+nightly', '-O', src, '-o', out + '.tmp', '-C', 'link-arg=-Wl,-rpath,%s/lib' % sysroot(), '--cap-lints', 'allow'])
        if r.returncode:
            raise BuildError('the analysis driver does not build:\n' + r.stdout[-3000:])
        os.rename(out + '.tmp', out)
    return out


def cargo_facts(drv, crate_dir, target, out, crates, args=(), light=False):
    """cargo check of crate_dir under the driver; the facts of `crates` go to `out`.  Returns (log, ok)."""
    for d in ('build', '.fingerprint', 'incremental', 'deps'):
        p = os.path.join(target, 'debug', d)
        if d in ('incremental',):
            shutil.rmtree(p, ignore_errors=True)
            continue
        if os.path.isdir(p):
            for x in os.listdir(p):
                # never trust a stamp of the crates analysed
                if x.startswith(('scale-decode', 'scale_decode', 'libscale_decode', 'corpus', 'libcorpus', 'features', 'libfeatures')):
                    q = os.path.join(p, x)
                    shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
    env = dict(os.environ)
    for v in ('RUSTC', 'CARGO_BUILD_RUSTC', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'VP_LIGHT'):
        env.pop(v, None)
    env.update(VP_OUT=out, VP_CRATES=crates, VP_DESCEND=os.path.join(ROOT, 'driver', 'descend.txt'), RUSTC_WRAPPER=drv,
               CARGO_TARGET_DIR=target, RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints allow')
    if light:
        env['VP_LIGHT'] = '1'
    r = sh(['cargo', '+nightly', 'check', '--offline'] + list(args), cwd=crate_dir, env=env)
    return r.stdout, r.returncode == 0


def build_facts(facts=None, corpus=None, target=None):
    """Compile /repo's library and the corpus under the driver; returns (dir, log, ok)."""
    os.makedirs(CACHE, exist_ok=True)
    drv = build_driver()
    facts = facts or os.path.join(CACHE, 'facts')
    shutil.rmtree(facts, ignore_errors=True)
    os.makedirs(facts)
    target = target or os.path.join(CACHE, 'target')
    corpus = corpus or os.path.join(ROOT, 'corpus')
    log, ok = cargo_facts(drv, corpus, target, facts, 'scale_decode,corpus')
    if not os.path.exists(os.path.join(facts, 'scale_decode.json')):
        raise BuildError('the library does not build:\n' + log[-4000:])
    return facts, log, os.path.exists(os.path.join(facts, 'corpus.json')) and ok


# --- analysis --------------------------------------------------------------------------------
def analyse(prop, facts, corpus_ok=True, log='', tier='quick', groups=None, target=None):
    rep = Report([prop])
    prog = EG.Program(facts + '/scale_decode.json', facts + '/corpus.json' if corpus_ok else None)
    cx = Cx(prog, rep, tier)
    cx.facts = facts
    cx.target = target
    cx.features = os.environ.get('VP_FEATURES', os.path.join(ROOT, 'features'))
    cx.feature_target = os.environ.get('VP_FEATURE_TARGET', os.path.join(CACHE, 'ftarget'))
    cx.corpus_ok = corpus_ok
    cx.corpus_log = log
    for props, fn, name in GROUPS:
        if prop != 'ALL' and prop not in props:
            continue
        if groups and name not in groups:
            continue
        t0 = time.time()
        with rep.unit(props, name):
            fn(cx)
        rep.time[name] = round(time.time() - t0, 2)
    return rep, cx


def known():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    for l in open(p):
        if l.startswith('finding:'):
            head, _, what = l[len('finding:'):].partition('::')
            d = dict(x.split('=', 1) for x in head.replace('anchor=', '\0').split('\0')[0].split())
            d['anchor'] = head.partition('anchor=')[2].strip()
            d['what'] = what.strip()
            out.append(d)
    return out


def floors():
    p = os.path.join(HERE, 'floors.json')
    return json.load(open(p)) if os.path.exists(p) else {}


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    register()
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        facts, log, corpus_ok = build_facts()
    except BuildError as x:
        print(x)
        return 2
    rep, cx = analyse(prop, facts, corpus_ok, log, tier, target=os.path.join(CACHE, 'target'))
    mine = {k: o for k, o in rep.obs.items() if prop in o['props']}
    findings = []
    for (rule, anchor), o in sorted(mine.items()):
        if o['bad']:
            findings.append({'rule': rule, 'anchor': anchor, 'what': o['bad'][0][0], 'where': o['bad'][0][1], 'paths': len(o['bad']), 'of': o['n']})
    for ps, unit, what in rep.missing:
        if prop in ps:
            findings.append({'rule': 'anchor-missing', 'anchor': unit, 'what': 'the rules are anchored on %s, which is gone' % what, 'where': '', 'paths': 1, 'of': 1})
    und = {n: r for n, (ps, r) in rep.undecided.items() if prop in ps}
    # floors: the obligations confirmed on the original tree
    fl = floors().get(prop, [])
    have = set('%s | %s' % k for k in mine)
    lost = [x for x in fl if x not in have]
    # (obligations that are lost because a unit could not be decided are reported as undecided, below)
    if (len(have) < 0.5 * len(fl) or not mine) and not und:
        findings.append({'rule': 'coverage-floor', 'anchor': prop, 'what': 'only %d of the %d confirmed obligations are still found; missing for example %s' % (len(fl) - len(lost), len(fl), lost[:3]), 'where': '', 'paths': 1, 'of': 1})
    kn = known()
    new = []
    for f in findings:
        k = [x for x in kn if x.get('property') == prop and x.get('rule') == f['rule'] and x['anchor'] == f['anchor']]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
        else:
            new.append(f)
    replay = os.path.join(ROOT, 'evidence', 'replay-%s.json' % prop)
    if os.path.exists(replay):
        os.remove(replay)
    for f in new:
        print('%s [%s] %s: %s  @ %s  (%d of %d paths)' % (prop, f['rule'], f['anchor'], f['what'][:1500], f['where'], f['paths'], f['of']))
    for n, r in und.items():
        print('UNDECIDED %s: %s' % (n, r.strip().splitlines()[-1][:300] if r else ''))
    if new:
        json.dump({'property': prop, 'findings': new}, open(replay, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    discharged = sum(1 for o in mine.values() if not o['bad'])
    rules = sorted(set(k[0] for k in mine))
    anchors = sorted(set(k[1] for k in mine))
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {
              'explanation': 'Static analysis of the type-checked program (MIR of /repo as compiled for this run). Each obligation is one rule applied to one anchor, evaluated on every path the abstract interpretation enumerated for it; nothing was executed.',
              'obligations': len(mine), 'discharged': discharged, 'rule_instances': sum(o['n'] for o in mine.values()),
              'rules': rules, 'anchors': len(anchors), 'anchor_samples': anchors[:40],
              'functions_analysed': len(cx.e.analysed), 'call_sites_interpreted': cx.e.calls_seen, 'abstract_loops': len(cx.e.loops),
              'bodies_in_program': len(cx.p.bodies), 'stats': rep.stats, 'undecided': und, 'lost_from_floor': lost[:50],
              'library_functions_without_contract': sorted(cx.e.unreviewed)[:50],
              'samples': ['%s | %s (%d instances)' % (k[0], k[1], o['n']) for k, o in sorted(mine.items())[:12]],
              'group_seconds': rep.time},
          'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', '%s.json' % prop), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d instances, %d undecided, %.1f s' % (prop, len(mine), discharged, ev['coverage']['rule_instances'], len(und), ev['wall_s']))
    return 1 if new else 0


ASSUMPTIONS = [
    'The contracts of library functions written down in sa/models.py (slices, options, codec Decode, scale-bits, collections) hold.',
    'rustc\'s MIR for the analysed configuration is the program that runs.',
    'A visitor supplied by the user only uses the public interface of the containers it is handed, and a custom decode hook only moves the input forwards.',
    'Exhaustion of memory or stack and wrap-around of 64-bit item counters are not modelled.',
]


def dev(prop, groups, verbose):
    register()
    facts = os.environ.get('VP_FACTS', '/tmp/facts')
    rep, cx = analyse(prop, facts, os.path.exists(facts + '/corpus.json'), '', os.environ.get('VERIF_TIER', 'quick'), groups=groups, target=os.environ.get('VP_FT', '/tmp/ftarget'))
    bad = 0
    for (rule, anchor), o in sorted(rep.obs.items()):
        if verbose:
            print(rule, '|', anchor, '|', ' '.join(sorted(o['props'])), o['n'], 'BAD' if o['bad'] else '')
        if o['bad']:
            bad += 1
            print('BAD', rule, '|', anchor, '|', ' '.join(sorted(o['props'])), len(o['bad']), 'of', o['n'])
            for m, w in o['bad'][:2]:
                print('     ', m[:700], '@', w)
    for n, (ps, r) in rep.undecided.items():
        print('UNDECIDED', n, r[-1500:])
    for m in rep.missing:
        print('MISSING', m)
    print('unreviewed', sorted(cx.e.unreviewed)[:20])
    print(len(rep.obs), 'obligations', sum(o['n'] for o in rep.obs.values()), 'instances', bad, 'bad', rep.stats, rep.time)
    if os.environ.get('VP_FLOORS'):
        fl = {}
        for (rule, anchor), o in rep.obs.items():
            for q in o['props']:
                fl.setdefault(q, []).append('%s | %s' % (rule, anchor))
        json.dump({q: sorted(v) for q, v in sorted(fl.items())}, open(os.path.join(HERE, 'floors.json'), 'w'), indent=0)


if __name__ == '__main__':
    if sys.argv[1] == '--dev':
        gs = [a for a in sys.argv[3:] if a != '-v']
        dev(sys.argv[2], gs or None, '-v' in sys.argv)
        sys.exit(0)
    try:
        if sys.argv[1] == '--facts':
            f, log, good = build_facts(*sys.argv[2:5])
            rc = 0
            if not good:
                print(log[-3000:])
        elif sys.argv[1] == '--pass32':
            import rules_panics
            register()
            rules_panics.pass32(analyse, sys.argv[2], sys.argv[3] == '1')
            rc = 0
        elif sys.argv[1] == '--setup':
            build_facts()
            register()
            import rules_static
            rules_static.feature_facts(os.path.join(ROOT, 'features'), os.path.join(CACHE, 'ftarget'))
            rc = 0
        else:
            rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
