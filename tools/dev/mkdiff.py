"""mkdiff.py SPEC.py [OUTDIR]: SPEC defines D = {name: [(file, old, new), ...]} -> OUTDIR/name.diff against /repo HEAD."""
import sys, os, subprocess, shutil, runpy
out = sys.argv[2] if len(sys.argv) > 2 else '/tmp/diffs'
os.makedirs(out, exist_ok=True)
D = runpy.run_path(sys.argv[1])['D']
w = '/tmp/mkdiff-repo'
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', os.environ.get('REPO', '/repo'), w])
for n, es in D.items():
    subprocess.check_call('git checkout -q -- .', shell=True, cwd=w)
    bad = False
    for f, o, nw in es:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(o) < 1:
            print('NOT FOUND', n, f, o[:80]); bad = True; continue
        if s.count(o) > 1:
            print('(first of %d)' % s.count(o), n, f, o[:60])
        s = s.replace(o, nw, 1)
        open(p, 'w').write(s)
    if not bad:
        open(os.path.join(out, n + '.diff'), 'w').write(subprocess.check_output('git diff', shell=True, cwd=w, text=True))
shutil.rmtree(w)
