"""Mutation sweep: which small changes of the code does no check see?

  mutate.py list [FILE...]                 count of the mutants
  mutate.py run OUT.jsonl [FILE...] [--step K] [--slots N] [--workers W] [--ops a,b]
  mutate.py rest IN.jsonl OUT.jsonl        the remaining checks and the stable tests on the survivors of a run

A development tool: nothing registered in MANIFEST.json uses it.
"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ROOT = os.environ.get('MUT_ROOT', '/repo')
SRC = ROOT + '/pdfme'
FIRST = {
    'text.py': 'C05 C04 C03 C06 C18 C13',
    'content.py': 'C10 C11 C22 C09 C18',
    'table.py': 'C08 C07 C18 C22',
    'base.py': 'C01 C02', 'encoders.py': 'C02 C01', 'parser.py': 'C02 C01',
    'page.py': 'C16 C01 C12 C19 C06', 'pdf.py': 'C01 C15 C12 C06 C19 C16 C13 C05',
    'document.py': 'C14 C12 C13 C22 C17',
    'fonts.py': 'C21 C16 C05', 'image.py': 'C19', 'color.py': 'C20 C05', 'utils.py': 'C20 C12 C01 C05',
}
ALL = ['C%02d' % i for i in range(1, 25)]
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
PAIRS = [('left', 'right'), ('top', 'bottom'), ('x', 'y'), ('width', 'height'), ('first', 'last'), ('min', 'max'), ('h', 'v'), ('row', 'col'), ('rows', 'cols'), ('rowspan', 'colspan'), ('words', 'text'), ('size', 'rise'), ('bg', 'color'), ('start', 'end'), ('lower', 'upper')]
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))

    def pos(n, end=False):
        # columns are utf8 offsets
        ln, col = (n.end_lineno, n.end_col_offset) if end else (n.lineno, n.col_offset)
        return off[ln - 1] + len(lines[ln - 1].encode()[:col].decode())

    def seg(n):
        return src[pos(n):pos(n, True)]
    out = []

    def add(op, n, new):
        if len(lines[n.lineno - 1]) < 300:
            out.append((op, n.lineno, pos(n), pos(n, True), new))
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add('cmp', n, '(%s %s %s)' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            add('bool', n, '(' + j.join(seg(v) if not isinstance(v, ast.BoolOp) else '(' + seg(v) + ')' for v in n.values) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add('not', n, '(%s)' % seg(n.operand))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if any(isinstance(v, (ast.Constant, ast.JoinedStr)) and not isinstance(getattr(v, 'value', ''), (int, float)) for v in (n.left, n.right)):
                continue
            add('bin', n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if isinstance(parents[n], ast.Module):
                continue
            add('del', n, 'pass')
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp)):
            add('neg', n.test, '(not (%s))' % seg(n.test))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('copy', 'deepcopy') and len(n.args) == 1:
            add('copy', n, seg(n.args[0]))
        elif isinstance(n, ast.Constant) and not isinstance(parents[n], ast.Expr):
            if n.value is True or n.value is False:
                add('const', n, str(not n.value))
            elif isinstance(n.value, (int, float)) and 'Slice' not in str(type(parents[n])):
                add('const', n, repr(n.value + 1 if isinstance(n.value, int) else n.value * 1.5))
        elif isinstance(n, ast.Continue):
            add('jump', n, 'break')
        elif isinstance(n, ast.Break):
            add('jump', n, 'continue')
        elif isinstance(n, ast.IfExp):
            add('ifexp', n, '(%s if not (%s) else %s)' % (seg(n.body), seg(n.test), seg(n.orelse)))
    # second set of operators
    for n in ast.walk(tree):
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [seg(v) if not isinstance(v, ast.BoolOp) else '(' + seg(v) + ')' for j, v in enumerate(n.values) if j != i]
                add('opnd', n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')')
        for f in ('body', 'orelse'):
            body = getattr(n, f, None)
            if not isinstance(body, list) or isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for u, v in zip(body, body[1:]):
                simple = (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For)
                if isinstance(u, simple) and isinstance(v, simple) and not isinstance(getattr(u, 'value', None), ast.Constant):
                    gap = src[pos(u, True):pos(v)]
                    out.append(('swap', u.lineno, pos(u), pos(v, True), seg(v) + gap + seg(u)))
        if isinstance(n, ast.Call):
            items = [(pos(x), pos(x, True)) for x in n.args]
            for k in range(len(items) - 1):
                (a1, b1), (a2, b2) = items[k:k + 2]
                out.append(('arg', n.lineno, a1, b2, src[a2:b2] + src[b1:a2] + src[a1:b1]))
            for k in n.keywords:
                a, b = pos(k), pos(k, True)
                e = b
                while src[e] in ' \n':
                    e += 1
                if src[e] == ',':
                    out.append(('kw', k.value.lineno, a, e + 1, ''))
                else:
                    while a > 0 and src[a - 1] in ' \n':
                        a -= 1
                    if src[a - 1] == ',':
                        a -= 1
                    out.append(('kw', k.value.lineno, a, b, ''))
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 2:
                add('getd', n, '(%s)' % seg(n.args[1]))
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load) if not isinstance(n, ast.Set) else False:
            for k in range(len(n.elts)):
                a, b = pos(n.elts[k]), pos(n.elts[k], True)
                if k + 1 < len(n.elts):
                    out.append(('elt', n.elts[k].lineno, a, pos(n.elts[k + 1]), ''))
                else:
                    out.append(('elt', n.elts[k].lineno, pos(n.elts[k - 1], True), b, ''))
        if isinstance(n, ast.Dict) and len(n.keys) > 1 and None not in n.keys:
            for k in range(len(n.keys)):
                if k + 1 < len(n.keys):
                    out.append(('elt', n.keys[k].lineno, pos(n.keys[k]), pos(n.keys[k + 1]), ''))
                else:
                    out.append(('elt', n.keys[k].lineno, pos(n.values[k - 1], True), pos(n.values[k], True), ''))
        if isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    out.append(('slice', n.lineno, pos(x), pos(x, True), ''))
                    out.append(('slice', n.lineno, pos(x), pos(x, True), '(%s) + 1' % seg(x)))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp) and seg(n.slice) == '-1':
            out.append(('idx', n.lineno, pos(n.slice), pos(n.slice, True), '0'))
        if isinstance(n, (ast.Name, ast.Attribute)) or isinstance(n, ast.Constant) and isinstance(n.value, str) and isinstance(parents[n], (ast.Subscript, ast.Call)):
            t = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else n.value
            for x, y in PAIRS:
                for x, y in ((x, y), (y, x)):
                    if re.search(r'(^|_)%s($|_)' % x, t):
                        b = pos(n, True)
                        new = re.sub(r'(^|_)%s(?=$|_)' % x, r'\g<1>' + y, t)
                        if isinstance(n, ast.Constant):
                            out.append(('name', n.lineno, pos(n), b, repr(new)))
                        else:
                            out.append(('name', n.lineno, b - len(t), b, new))
    res = []
    for op, ln, a, b, new in sorted(out, key=lambda t: (t[2], t[3], t[0])):
        m = src[:a] + new + src[b:]
        try:
            compile(m, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        res.append({'file': os.path.basename(path), 'op': op, 'line': ln, 'old': src[a:b], 'new': new, 'a': a, 'b': b})
    return res


def in_doc(m):
    return False


def run_one(m, checks, slot, workers):
    d = '/tmp/mutslot/%d_%d' % (os.getpid(), slot)
    p = os.path.join(d, 'pdfme', m['file'])
    src = open(os.path.join(SRC, m['file'])).read()
    assert src[m['a']:m['b']] == m['old']
    open(p, 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
    res = None
    t = time.time()
    try:
        for c in checks:
            try:
                q = subprocess.run(['./run.sh', c], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600,
                                   env=dict(os.environ, VERIF_REPO=d, VERIF_FAILFAST='1', VERIF_WORKERS=str(workers)))
            except subprocess.TimeoutExpired:
                res = c + ':timeout'
                break
            if q.returncode:
                sig = re.findall(r'family=(\S+) .*sig=(\S+)', q.stdout)[:1]
                res = '%s:%s' % (c, '/'.join(sig[0]) if sig else 'rc%d' % q.returncode)
                break
    finally:
        shutil.copy(os.path.join(SRC, m['file']), p)
    return dict(m, killed=res, s=round(time.time() - t, 1))


def tests_pass(m, slot):
    d = '/tmp/mutslot/%d_%d' % (os.getpid(), slot)
    p = os.path.join(d, 'pdfme', m['file'])
    src = open(os.path.join(SRC, m['file'])).read()
    open(p, 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
    try:
        t = open('/opt/vp/test.sh').read().replace('/opt/vp/work', d + '/.work').replace('/repo', d)
        open(d + '/.test.sh', 'w').write(t)
        try:
            subprocess.run(['bash', d + '/.test.sh', d + '/.out.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            o = json.load(open(d + '/.out.json'))
        except Exception:
            return False
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        return all(x in o['passed'] for x in base)
    finally:
        shutil.copy(os.path.join(SRC, m['file']), p)


def pool(jobs, fn, slots, out):
    lock = threading.Lock()
    it = iter(jobs)
    done = [0]
    f = open(out, 'a')

    def work(slot):
        d = '/tmp/mutslot/%d_%d' % (os.getpid(), slot)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(ROOT, d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            r = fn(m, slot)
            with lock:
                done[0] += 1
                f.write(json.dumps(r) + '\n')
                f.flush()
    ts = [threading.Thread(target=work, args=(i,)) for i in range(slots)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def main():
    a = sys.argv[1:]
    opt = {}
    rest = []
    i = 0
    while i < len(a):
        if a[i].startswith('--'):
            opt[a[i][2:]] = a[i + 1]
            i += 2
        else:
            rest.append(a[i])
            i += 1
    files = [x for x in rest if x.endswith('.py')] or sorted(FIRST)
    slots, workers = int(opt.get('slots', 3)), int(opt.get('workers', 2))
    if rest[0] in ('list', 'run'):
        ms = [m for f in files for m in mutants(os.path.join(SRC, f))]
        if 'ops' in opt:
            ms = [m for m in ms if m['op'] in opt['ops'].split(',')]
        if rest[0] == 'list':
            from collections import Counter
            print(Counter(m['file'] for m in ms), Counter(m['op'] for m in ms), len(ms))
            return
        out = [x for x in rest[1:] if x.endswith('.jsonl')][0]
        have = set()
        if os.path.exists(out):
            have = {(m['file'], m['a'], m['b'], m['new']) for m in map(json.loads, open(out))}
        k, o = int(opt.get('step', 1)), int(opt.get('offset', 0))
        ms = [m for m in ms[o::k] if (m['file'], m['a'], m['b'], m['new']) not in have]
        pool(ms, lambda m, s: run_one(m, FIRST[m['file']].split(), s, workers), slots, out)
    elif rest[0] == 'rest':
        src, out = rest[1], rest[2]
        have = set()
        if os.path.exists(out):
            have = {(m['file'], m['a'], m['b'], m['new']) for m in map(json.loads, open(out))}
        ms = [m for m in map(json.loads, open(src)) if not m['killed'] and (m['file'], m['a'], m['b'], m['new']) not in have]

        def fn(m, s):
            if not tests_pass(m, s):
                return dict(m, killed='tests')
            return run_one(m, [c for c in ALL if c not in FIRST[m['file']].split()], s, workers)
        pool(ms, fn, slots, out)


main()
