"""Witness programs: type checked (never run) by rustc against /repo's library as compiled for this run.

A witness file is Rust source.  Lines marked `//~ E0000` (or `//~ life`, any borrow or lifetime error)
must be rejected with that kind of error, everything else must be accepted.  A diagnostic is charged to
the item at the top level of the file that contains it; the rules decide what a diagnostic means."""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
DIR = os.path.join(ROOT, 'witness')

LIFETIME = {'E0106', 'E0195', 'E0261', 'E0262', 'E0263', 'E0309', 'E0310', 'E0311', 'E0312', 'E0328', 'E0373', 'E0381', 'E0382', 'E0384', 'E0477', 'E0478', 'E0491', 'E0492',
            'E0495', 'E0496', 'E0499', 'E0500', 'E0501', 'E0502', 'E0503', 'E0505', 'E0506', 'E0507', 'E0509', 'E0510', 'E0515', 'E0521', 'E0524', 'E0582', 'E0594', 'E0596',
            'E0597', 'E0621', 'E0623', 'E0626', 'E0646', 'E0656', 'E0700', 'E0712', 'E0713', 'E0716', 'E0726', 'E0759', 'E0803', 'E0804'}


def is_life(d):
    return d['code'] in LIFETIME or (not d['code'] and 'lifetime' in d['message'])


def deps_of(target):
    return os.path.join(target, 'debug', 'deps')


def lib(target, name):
    """The rmeta of a dependency as cargo built it last."""
    c = glob.glob(os.path.join(deps_of(target), 'lib%s-*.rmeta' % name)) + glob.glob(os.path.join(target, 'debug', 'build', '*', '*', 'out', 'lib%s-*.rmeta' % name))
    if not c:
        return None
    return max(c, key=os.path.getmtime)


def search_dirs(target):
    ds = [deps_of(target)] if os.path.isdir(deps_of(target)) else []
    return ds + sorted(set(os.path.dirname(x) for x in glob.glob(os.path.join(target, 'debug', 'build', '*', '*', 'out', '*.rmeta'))
                           + glob.glob(os.path.join(target, 'debug', 'build', '*', '*', 'out', '*.so'))))


def compile_one(path, target, externs, edition='2021', args=()):
    # Metadata goes to a scratch directory.  Never to a device file: rustc replaces what -o names.
    out = tempfile.mkdtemp(prefix='witness-')
    cmd = ['rustc', '+nightly', '--edition', edition, '--crate-type', 'lib', '--crate-name', 'w_' + re.sub(r'\W', '_', os.path.splitext(os.path.basename(path))[0]), '--emit', 'metadata',
           '--out-dir', out, '--error-format=json']
    for d in search_dirs(target):
        cmd += ['-L', 'dependency=' + d]
    for name, rmeta in externs:
        cmd += ['--extern', '%s=%s' % (name, rmeta)]
    cmd += list(args) + [path]
    try:
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    ds = []
    for l in r.stderr.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get('level') != 'error' and not str(j.get('level')).startswith('error'):
            continue
        if j['message'].startswith('aborting due to'):
            continue
        spans = j['spans']
        lines = [outer(s, path) for s in spans if s.get('is_primary')]
        every = [outer(s, path) for s in spans]
        ds.append({'code': (j.get('code') or {}).get('code') or '', 'message': j['message'], 'lines': [x for x in lines if x] or [x for x in every if x],
                   'all_lines': [x for x in every if x], 'rendered': j.get('rendered') or ''})
    if r.returncode and not ds:
        ds.append({'code': '', 'message': 'rustc failed: ' + r.stderr[-500:], 'lines': [], 'all_lines': [], 'rendered': r.stderr[-800:]})
    return ds


def outer(s, path):
    """The line in the witness a span comes from, through macro expansions."""
    while s:
        if os.path.abspath(s['file_name']) == os.path.abspath(path):
            return s['line_start']
        s = (s.get('expansion') or {}).get('span')
    return None


def top_items(path):
    """[(first line, last line, name)] of the top level items, by brace depth."""
    out = []
    src = open(path).read().split('\n')
    depth = 0
    start = None
    attrs = None
    for n, l in enumerate(src, 1):
        code = re.sub(r'//.*', '', l)
        code = re.sub(r'"(\\.|[^"\\])*"', '""', code)
        code = re.sub(r"'(\\.|[^'\\])'", "' '", code)
        if depth == 0 and start is None:
            if not code.strip():
                continue
            start = n
        for c in code:
            if c in '{([':
                depth += 1
            elif c in '})]':
                depth -= 1
        if depth == 0 and start is not None:
            text = code.strip()
            if text.endswith(('}', ';')) and not re.fullmatch(r'\s*#!?\[.*\]\s*', text):
                out.append((start, n, item_name('\n'.join(src[start - 1:n]), start)))
                start = None
    return out


def item_name(text, line):
    text = re.sub(r'//.*', '', text)
    m = re.search(r'\b(?:fn|struct|enum|trait|mod|type|const|static|macro_rules!)\s+(?:r#)?(\w+)', text)
    h = re.match(r'\s*(?:unsafe\s+)?impl\b', re.sub(r'#\[[^\]]*\]', '', text))
    if h:
        return 'impl at line %d' % line
    return m.group(1) if m else 'line %d' % line


def expectations(path):
    """line -> set of accepted codes ('life' for any borrow or lifetime error)."""
    out = {}
    for n, l in enumerate(open(path), 1):
        m = re.search(r'//~\s*([\w ]+)', l)
        if m:
            out[n] = set(m.group(1).split())
    return out


class Result:
    """What the compiler said, per top level item."""
    def __init__(self, path, diags):
        self.path = path
        self.diags = diags
        self.items = top_items(path)
        self.expect = expectations(path)
        self.bad = {}       # item -> unexpected diagnostics
        self.loose = []     # diagnostics that belong to no item
        self.met = {}       # line -> diagnostics that met the expectation
        for d in diags:
            hit = [l for l in d['all_lines'] if l in self.expect and (d['code'] in self.expect[l] or ('life' in self.expect[l] and is_life(d)))]
            if hit:
                for l in hit:
                    self.met.setdefault(l, []).append(d)
                continue
            it = self.item_at(d['lines'])
            if it is None:
                self.loose.append(d)
            else:
                self.bad.setdefault(it, []).append(d)

    def item_at(self, lines):
        for l in lines:
            for a, b, n in self.items:
                if a <= l <= b:
                    return n
        return None

    def names(self):
        return [n for _, _, n in self.items]

    def expected_items(self):
        """item -> [(line, codes, met?)]"""
        out = {}
        for l, codes in self.expect.items():
            it = self.item_at([l])
            out.setdefault(it, []).append((l, codes, l in self.met))
        return out


def run_all(jobs):
    """jobs: {key: (path, target, externs, edition, args)} -> {key: Result}"""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = {k: ex.submit(compile_one, *j) for k, j in jobs.items()}
        return {k: Result(jobs[k][0], f.result()) for k, f in fs.items()}
