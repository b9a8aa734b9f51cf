#!/usr/bin/env python3
"""Tries patches in scratch copies: bench.py [--full] [--workers N] PATCHDIR_OR_DIFF...

For each: does it compile, (with --full) do the stable tests pass and does the demo fail, and what do the
rules say about the patched tree (all properties)?  Nothing is changed in /repo."""
import json, os, re, shutil, subprocess, sys, threading, queue, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
full = '--full' in sys.argv
args = [a for a in sys.argv[1:] if not a.startswith('--')]
NW = 6
if '--workers' in sys.argv:
    NW = int(sys.argv[sys.argv.index('--workers') + 1]); args.remove(str(NW))
BASE = '/tmp/bench'
q = queue.Queue()
for a in args:
    q.put(a)
lock = threading.Lock()
res = {}
stable = json.load(open('/opt/vp/BASELINE.json'))


def sh(c, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def names():
    b = stable
    for k in ('stable', 'passed', 'tests', 'pass'):
        if k in b:
            return set(b[k])
    return set()


def work(w):
    d = '%s/w%d' % (BASE, w)
    os.makedirs(d, exist_ok=True)
    while True:
        try:
            a = q.get_nowait()
        except queue.Empty:
            return
        diff = a if a.endswith('.diff') else os.path.join(a, 'patch.diff')
        repo = d + '/repo'
        shutil.rmtree(repo, ignore_errors=True)
        os.makedirs(repo)
        sh("git -C %s archive HEAD | tar xm -C %s; cp /repo/Cargo.lock %s/" % (os.environ.get("REPO", "/repo"), repo, repo))
        out = {}
        env = {'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu'}
        if full and os.path.exists(a + '/demo.sh'):
            rc, o = sh('bash %s/demo.sh' % os.path.abspath(a), repo)
            if rc:
                out['demo_clean'] = 'FAILS'
                out['demo_out_clean'] = o[-1500:]
        rc, o = sh('git apply --unsafe-paths %s || patch -p1 < %s' % (os.path.abspath(diff), os.path.abspath(diff)), cwd=repo)
        if rc:
            out['apply'] = o[-300:]
        cor, fea = d + '/corpus', d + '/features'
        for x in (cor, fea):
            shutil.rmtree(x, ignore_errors=True)
            shutil.copytree(ROOT + '/' + os.path.basename(x), x)
            t = x + '/Cargo.toml'
            s = open(t).read().replace('/repo/', repo + '/')
            open(t, 'w').write(s)
        if full:
            env = {'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TARGET_DIR': d + '/tt', 'PROPTEST_RNG_SEED': '1', 'NO_COLOR': '1', 'PROPTEST_DISABLE_FAILURE_PERSISTENCE': 'true', 'CARGO_TERM_COLOR': 'never', 'RUSTC_WRAPPER': ''}
            rc, o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 4', repo, env)
            fl = re.findall(r'^test (\S+.*?) \.\.\. (?:FAILED|error|mismatch)', o, re.M)
            out['tests'] = 'pass' if rc == 0 else 'FAIL %s' % (fl or o[-600:])
            if os.path.exists(a + '/demo.sh'):
                rc, o = sh('bash %s/demo.sh' % os.path.abspath(a), repo)
                out['demo'] = 'fails' if rc else 'PASSES'
                out['demo_out'] = o[-300:]
        facts = d + '/facts'
        shutil.rmtree(facts, ignore_errors=True)
        rc, o = sh('python3 %s/sa/check.py --facts %s %s %s' % (ROOT, facts, cor, d + '/ft'))
        out['facts'] = rc
        if os.environ.get('KEEP') and not rc:
            k = os.path.join(os.environ['KEEP'], os.path.basename(a.rstrip('/')).replace('.diff', ''))
            shutil.rmtree(k, ignore_errors=True)
            shutil.copytree(facts, k)
        if rc:
            out['factlog'] = o[-500:]
        rc, o = sh('python3 %s/sa/check.py --dev ALL' % ROOT, env={'VP_FACTS': facts, 'VP_CORPUS': cor, 'VP_FT': d + '/ft', 'VP_FEATURES': fea, 'VP_FEATURE_TARGET': d + '/fft'})
        out['log'] = o
        out['props'] = sorted(set(x for m in re.findall(r'^BAD [^|]*\|.*\| ([C0-9 ]+) \d+ of', o, re.M) for x in m.split()) | set(re.findall(r'C\d\d', ' '.join(re.findall(r'^MISSING (.*)', o, re.M)))))
        out['und'] = re.findall(r'^UNDECIDED (.*)', o, re.M)
        with lock:
            res[a] = out
            meta = os.path.join(a, 'meta.json')
            want = json.load(open(meta))['property'] if os.path.exists(meta) else None
            print('%-44s %s %s' % (os.path.basename(a.rstrip('/')), 'facts FAILED' if out['facts'] else '', ('want %s: %s' % (want, 'caught' if want in out['props'] else 'MISSED')) if want else ('quiet' if not out['props'] and not out['und'] else 'ALARM')),
                  '| props', ' '.join(out['props']), '| und', [u[:110] for u in out['und']][:4], '|', {k: v for k, v in out.items() if k in ('tests', 'demo', 'apply', 'demo_clean', 'demo_out_clean')}, flush=True)
            if '--log' in sys.argv:
                for l in o.splitlines():
                    if l.startswith(('BAD', '   ', 'MISSING')):
                        print('     ', l[:330])
            if out.get('demo') == 'PASSES' or out['facts']:
                print(out.get('demo_out', ''), out.get('factlog', ''))


ts = [threading.Thread(target=work, args=(i,)) for i in range(min(NW, len(args)))]
for t in ts: t.start()
for t in ts: t.join()
