"""Exhaustive bounded exploration engine.

A check module defines

    PROPERTY = 'C01'
    FAMILIES = [Family(name, gen, run, bounds), ...]

gen(tier) yields every case of a bounded space, simplest first, always in the
same order.  run(case) executes the real code on it, compares every observable
with the specification and returns a Result.  All cases are executed (eight
forked workers share them); nothing is sampled.
"""
import hashlib
import io
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHUNK = 16
CASE_CPU_S = 20.0
MEM_BYTES = 3 << 30
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))      # used by tools/mutate.py only
WALL_LIMIT = float(os.environ.get('VERIF_WALL_LIMIT', '780'))


class CaseTimeout(BaseException):
    pass


def _on_alarm(sig, frame):
    raise CaseTimeout()


class Result:
    __slots__ = ('viol', 'trans', 'digest', 'compared')

    def __init__(self):
        self.viol = []     # [(sig, detail)]
        self.trans = 0     # operations executed / checked
        self.digest = []   # hashable observations: the states reached
        self.compared = 0  # model-vs-implementation traces compared

    def fail(self, sig, detail=''):
        self.viol.append((sig, str(detail)[:2000]))

    def expect(self, cond, sig, detail=''):
        if not cond:
            self.fail(sig, detail() if callable(detail) else detail)
        return cond

    def state(self, obj):
        self.digest.append(obj)


class Family:
    def __init__(self, name, gen, run, bounds, tiers=('quick', 'thorough')):
        self.name = name
        self.gen = gen
        self.run = run
        self.bounds = bounds
        self.tiers = tiers


def h8(obj):
    if isinstance(obj, bytes):
        b = obj
    else:
        b = repr(obj).encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), 'big')


def case_key(case):
    return hashlib.blake2b(repr(case).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()


def execute(fam, case):
    """Run one case under the guards; -> Result"""
    r = Result()
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        try:
            fam.run(case, r)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except CaseTimeout:
        r.fail('no-termination', 'still running after %g s of CPU' % CASE_CPU_S)
    except MemoryError:
        r.fail('no-termination', 'memory exhausted')
    except RecursionError as e:
        r.fail('exception:RecursionError', traceback.format_exc(limit=-6))
    except Exception as e:
        r.fail('exception:' + type(e).__name__, traceback.format_exc(limit=-8))
    return r


def load_known(prop):
    """-> {(family, case key, sig): text} for open findings of the property"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith('finding:'):
            continue
        f = {}
        body, _, text = line[len('finding:'):].partition(' :: ')
        for tok in body.split():
            k, _, v = tok.partition('=')
            f[k] = v
        if f.get('property') == prop:
            out[(f['family'], f['case'], f['sig'])] = text
    return out


def _worker(w, nw, fam, tier, known, best, conn, deadline):
    signal.signal(signal.SIGVTALRM, _on_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
    except ValueError:
        pass
    digests = set()
    n = trans = compared = total = 0
    viols = []
    knowns = []
    samples = []
    complete = True
    t0 = time.time()
    err = None
    try:
        for i, case in enumerate(fam.gen(tier)):
            total = i + 1
            if (i // CHUNK) % nw != w:
                continue
            if i > best.value:
                if FAILFAST:
                    break
                continue
            if time.time() > deadline:
                complete = False
                break
            r = execute(fam, case)
            n += 1
            trans += r.trans
            compared += r.compared
            for d in r.digest:
                digests.add(h8(d))
            if len(samples) < 1 and n >= 3:
                samples.append(repr(case)[:600])
            if r.viol:
                key = case_key(case)
                new = [v for v in r.viol if (fam.name, key, v[0]) not in known]
                for v in r.viol:
                    if (fam.name, key, v[0]) in known:
                        knowns.append((fam.name, key, v[0]))
                if new:
                    viols.append((i, key, repr(case), new[:5]))
                    with best.get_lock():
                        if i < best.value:
                            best.value = i
    except CaseTimeout:
        err = 'case generator interrupted'
    except Exception:
        err = traceback.format_exc()
    conn.send((n, trans, compared, total, digests, viols[:50], knowns, samples, complete, err))
    conn.close()


def run_family(fam, tier, known, deadline, nw):
    best = multiprocessing.Value('l', 1 << 60)
    procs = []
    for w in range(nw):
        a, b = multiprocessing.Pipe(False)
        p = multiprocessing.Process(target=_worker,
                                    args=(w, nw, fam, tier, known, best, b, deadline))
        p.start()
        b.close()
        procs.append((p, a))
    out = []
    dead = []
    for w, (p, a) in enumerate(procs):
        try:
            out.append(a.recv())
        except EOFError:
            dead.append(w)
        p.join()
    return out, dead


def replay_dir():
    d = os.path.join(VERIF, 'out')
    os.makedirs(d, exist_ok=True)
    return d


def main(mod, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    only = None
    it = iter(argv)
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--replay':
            replay = next(it)
        elif a == '--family':
            only = next(it)
        elif a == '--keep-going':
            pass
    prop = mod.PROPERTY
    known = load_known(prop)
    if replay:
        return do_replay(mod, replay)
    t0 = time.time()
    deadline = t0 + WALL_LIMIT if tier == 'quick' else t0 + float(os.environ.get('VERIF_THOROUGH_LIMIT', 6 * 3600))
    nw = int(os.environ.get('VERIF_WORKERS', os.cpu_count() or 1))
    states = set()
    trans = compared = cases = 0
    samples = []
    fams = []
    failed = []
    seen_known = {}
    exhaustive = True
    for fam in mod.FAMILIES:
        if tier not in fam.tiers or (only and fam.name != only):
            continue
        ft = time.time()
        out, dead = run_family(fam, tier, known, deadline, nw)
        if dead:
            sys.stderr.write('workers %r of family %s died\n' % (dead, fam.name))
            return 2
        fn = sum(o[0] for o in out)
        fd = set()
        viols = []
        comp = True
        for o in out:
            trans += o[1]
            compared += o[2]
            fd |= o[4]
            viols += o[5]
            for k in o[6]:
                seen_known[k] = known[k]
            comp = comp and o[8]
            if o[9]:
                sys.stderr.write(o[9] + '\n')
                return 2
        total = max(o[3] for o in out)
        cases += fn
        states |= {(fam.name, d) for d in fd}
        samples += [s for o in out for s in o[7]][:2]
        if not viols and comp and fn != total:
            sys.stderr.write('family %s: %d cases generated, %d executed\n' % (fam.name, total, fn))
            return 2
        exhaustive = exhaustive and comp
        fams.append({'family': fam.name, 'cases': fn, 'distinct_states': len(fd),
                     'bounds': fam.bounds if isinstance(fam.bounds, str) else fam.bounds(tier),
                     'complete': comp and not viols,
                     'wall_s': round(time.time() - ft, 2)})
        viols.sort()
        if viols:
            failed.append((fam.name, viols))
            if FAILFAST:
                break
    for k, text in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    nviol = 0
    for fname, viols in failed:
        sigs = {}
        for i, key, case, vs in viols:
            for sig, detail in vs:
                sigs.setdefault(sig, (i, key, case, detail))
        for sig, (i, key, case, detail) in list(sigs.items())[:6]:
            nviol += 1
            path = os.path.join(replay_dir(), '%s-%s-%s.json' % (
                prop, fname, hashlib.blake2b((key + sig).encode(), digest_size=5).hexdigest()))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'family': fname, 'tier': tier, 'index': i,
                           'case_key': key, 'sig': sig, 'case': case,
                           'detail': detail,
                           'how': './run.sh %s --replay %s' % (prop, path)}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  family=%s case#%d key=%s sig=%s' % (fname, i, key, sig))
            print('  case: %s' % case[:1500])
            print('  detail: %s' % detail.replace('\n', '\n    '))
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states),
            'transitions': trans,
            'traces_validated_against_impl': compared,
            'executions': cases,
            'samples': samples[:8],
            'families': fams,
            'exhaustive': bool(exhaustive and not failed),
            'explanation': getattr(mod, 'EXPLANATION', ''),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d executions, %d distinct states, %d transitions, %d traces compared, '
          '%.1f s%s' % (prop, tier, cases, len(states), trans, compared, wall,
                        '' if exhaustive else ' (time limit reached: not exhaustive)'))
    for f in fams:
        print('   %-28s %8d cases %8d states %6.1f s  %s' % (
            f['family'], f['cases'], f['distinct_states'], f['wall_s'],
            '' if f['complete'] else 'INCOMPLETE'))
    return 1 if nviol else 0


def do_replay(mod, path):
    d = json.load(open(path))
    fam = [f for f in mod.FAMILIES if f.name == d['family']][0]
    signal.signal(signal.SIGVTALRM, _on_alarm)
    for i, case in enumerate(fam.gen(d['tier'])):
        if i == d['index']:
            break
    else:
        print('no such case')
        return 2
    if repr(case) != d['case']:
        print('the enumeration changed since this replay was written')
        return 2
    r = execute(fam, case)
    print('case:', repr(case))
    for sig, detail in r.viol:
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
        print('  sig=%s\n  %s' % (sig, detail))
    if not r.viol:
        print('no violation')
    return 1 if r.viol else 0
