"""Planted bugs: create and validate.

  seed.py make FILE.py     FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)]
  seed.py check [ID ...]   demo on the clean tree, then patched: demo, tests, the property's check
  options: --notests  --nocheck  --all-checks
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
PY = '/opt/venv/bin/python'

HEAD = '''import io, os, sys
sys.path.insert(0, os.getcwd())
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pv'))
sys.dont_write_bytecode = True
from pdfme import PDF, build_pdf


def out(pdf):
    b = io.BytesIO()
    pdf.output(b)
    return b.getvalue()


def build(doc, **k):
    b = io.BytesIO()
    build_pdf(doc, b, **k)
    return b.getvalue()


def view(data):
    from pv.pdfread import Pdf
    from pv.interp import render
    return render(Pdf(data))


def lines(page):
    """[(y, text)] from the top"""
    d = {}
    for t in page.texts:
        d.setdefault(round(t.y, 1), []).append(t)
    return [(y, ''.join(t.text for t in sorted(d[y], key=lambda t: t.x))) for y in sorted(d, reverse=True)]

'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy_repo(tag):
    d = '/tmp/seedrun_%s' % tag
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'), symlinks=True)
    sh(['git', 'init', '-q', '.'], cwd=d)
    return d


def original_lines():
    """commit of the original repository"""
    return sh('git -C /repo log --format=%H --grep=^fix: --invert-grep -n 1').stdout.strip()


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns['SEEDS']:
        d = os.path.join(S, s['id'])
        os.makedirs(d, exist_ok=True)
        t = copy_repo('mk')
        sh('git add -A && git -c user.name=x -c user.email=x@x commit -qm base', cwd=t)
        for f, old, new in s['edits']:
            p = os.path.join(t, f)
            src = open(p).read()
            assert src.count(old) == 1, (s['id'], f, src.count(old), old)
            open(p, 'w').write(src.replace(old, new))
        diff = sh('git diff', cwd=t).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        shutil.rmtree(t)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run with cwd at the repository\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        if 'view(' in s['demo'] or 'pv' in s['demo']:
            os.makedirs(os.path.join(d, 'pv', 'pv'), exist_ok=True)
            os.makedirs(os.path.join(d, 'pv', 'data'), exist_ok=True)
            for m in ('__init__', 'pdfread', 'metrics', 'interp'):
                shutil.copy(os.path.join(V, 'mc', m + '.py'), os.path.join(d, 'pv', 'pv', m + '.py'))
            shutil.copy(os.path.join(V, 'data', 'afm.json'), os.path.join(d, 'pv', 'data', 'afm.json'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('made', s['id'])


def touched_fix_lines(diff):
    """lines removed or changed by the patch that one of our commits wrote"""
    base = original_lines()
    bad = []
    f = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
            blame = sh(['git', '-C', '/repo', 'blame', '-s', '-l', '--abbrev=40', f]).stdout.splitlines()
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif f and line[:1] == '-' and not line.startswith('---'):
            if not blame[n - 1].startswith('^'):
                bad.append((f, n, blame[n - 1][:12], line))
            n += 1
        elif f and line[:1] == ' ':
            n += 1
    if not any(line[:1] == '-' and line[:3] != '---' for line in diff.splitlines()):
        bad.append('ONLY-ADDS')
    return bad


def check(ids, tests=True, checks=True, allchecks=False):
    for i in ids:
        d = os.path.join(S, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        res = [i, meta['property']]
        a = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
        res.append('clean-ok' if a.returncode == 0 else 'CLEAN-DEMO-FAILS ' + a.stdout[-600:])
        t = copy_repo(i)
        p = sh(['git', 'apply', '--whitespace=nowarn', os.path.join(d, 'patch.diff')], cwd=t)
        if p.returncode:
            res.append('PATCH-DOES-NOT-APPLY ' + p.stdout[-300:])
        b = sh(['bash', os.path.join(d, 'demo.sh')], cwd=t)
        res.append('demo-detects' if b.returncode else 'DEMO-MISSES')
        bad = touched_fix_lines(open(os.path.join(d, 'patch.diff')).read())
        if bad:
            res.append('TOUCHES-FIX %r' % bad[:2])
        if tests:
            src = open('/opt/vp/test.sh').read().replace('/opt/vp/work', t + '/.work').replace('/repo', t)
            open(t + '/.test.sh', 'w').write(src)
            sh(['bash', t + '/.test.sh', t + '/.out.json'])
            try:
                o = json.load(open(t + '/.out.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))['stable']
                miss = [x for x in base if x not in o['passed']]
                res.append('tests-ok' if not miss else 'TESTS-FAIL %s' % miss)
            except Exception as e:
                res.append('TESTS? %r' % e)
        if checks:
            props = [meta['property']]
            if allchecks:
                props += sorted(c[:3].upper() for c in os.listdir(os.path.join(V, 'checks'))
                                if re.match(r'c\d\d_', c) and c[:3].upper() != meta['property'])
            for pr in props:
                c = sh(['./run.sh', pr], cwd=V, env=dict(os.environ, VERIF_REPO=t))
                hit = 'VIOLATION property=%s ' % pr in c.stdout
                sig = re.findall(r'family=(\S+) .*sig=(\S+)', c.stdout)[:2]
                if pr == meta['property'] or hit:
                    res.append('%s:%s %s' % (pr, 'CAUGHT' if c.returncode == 1 and hit else 'MISSED rc=%d' % c.returncode,
                                             ','.join('/'.join(x) for x in sig)))
        shutil.rmtree(t)
        print(' | '.join(res), flush=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'make':
        make(a[1])
    else:
        opts = [x for x in a[1:] if x.startswith('--')]
        ids = [x for x in a[1:] if not x.startswith('--')] or sorted(os.listdir(S))
        check(ids, '--notests' not in opts, '--nocheck' not in opts, '--all-checks' in opts)
