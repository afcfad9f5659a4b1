"""Property-based testing harness shared by every check.

A check module (checks/cNN.py) defines
    PROP   : property id
    RULE   : how cases are made and what makes one non-trivial
    SUBS   : list of Sub(...) -- each a Hypothesis strategy producing a JSON-able
             case plus a deterministic oracle function(case) -> (nontrivial, tags)
Oracle functions raise Violation(msg) when the property is broken.

The parent process spawns worker processes ("lanes"); every lane is a fresh
interpreter that imports the code under test from /repo, with numba compilation
either on (NUMBA_OPT=0 for fast compilation) or off (pure Python semantics),
and its own random seed derived from VERIF_SEED.
"""
import contextlib
import importlib
import io
import json
import math
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'
EXTRA_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class Violation(Exception):
    """The property is broken (never raised for a problem of the harness)."""


class Skip(Exception):
    """Case outside the domain of the property."""


class Sub:
    def __init__(self, name, strategy, fn, quick=150, thorough=3000, lanes='both', weight=1.0):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.lanes, self.weight = quick, thorough, lanes, weight


def setup_path():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    lib = os.path.join(VERIF, 'lib')
    for p in (lib, os.path.join(VERIF, 'checks')):
        if p not in sys.path:
            sys.path.insert(0, p)
    if EXTRA_SITE not in sys.path:
        sys.path.append(EXTRA_SITE)


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    return o


def in_repo_frames(tb):
    fr = traceback.extract_tb(tb)
    return any(os.path.abspath(f.filename).startswith(os.path.join(REPO, 'gpgradpy')) for f in fr)


def run_case(fn, case):
    """Run an oracle; exceptions escaping from the code under test are violations
    because every generated case is a valid input."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            return fn(json.loads(json.dumps(case)))
    except (Violation, Skip):
        raise
    except MemoryError:
        raise
    except Exception as e:
        if in_repo_frames(e.__traceback__):
            fr = [f for f in traceback.extract_tb(e.__traceback__) if os.path.abspath(f.filename).startswith(REPO)][-1]
            raise Violation('valid input made the library raise %s: %s (in %s)' % (
                type(e).__name__, str(e).splitlines()[0][:200] if str(e) else '', fr.name)) from e
        if isinstance(e, (TypeError, ValueError, IndexError, KeyError, ArithmeticError, FileNotFoundError)) or \
                (isinstance(e, AttributeError) and ("'NoneType'" in str(e) or not str(e.name or '_').startswith('_'))):
            # the oracle could not use what the library returned: wrong shape, kind, None instead of a
            # value, a public attribute or method that is gone
            fr = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('the library returned something of an unexpected form: %s: %s (oracle line %s: %s)' % (
                type(e).__name__, str(e).splitlines()[0][:200] if str(e) else '', fr.lineno, fr.line)) from e
        raise


# --------------------------------------------------------------------------- shrinking of expanded cases

def _leaves(o, path=()):
    if isinstance(o, dict):
        for k in o:
            yield from _leaves(o[k], path + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from _leaves(v, path + (i,))
    elif isinstance(o, float):
        yield path, o


def _set(o, path, v):
    o = json.loads(json.dumps(o))
    t = o
    for p in path[:-1]:
        t = t[p]
    t[path[-1]] = v
    return o


def minimise(fn, case, budget=8.0):
    """Greedy simplification of the float leaves of a failing case (still failing)."""
    t0 = time.time()

    def fails(c):
        try:
            run_case(fn, c)
        except Violation:
            return True
        except BaseException:
            return False
        return False
    case = json.loads(json.dumps(case))
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for path, v in list(_leaves(case)):
            if time.time() - t0 > budget:
                break
            if not math.isfinite(v) or v in (0.0, 1.0):
                continue
            cands = []
            for r in (0, 1, 2):
                w = float('%.*g' % (r + 1, v))
                if w != v:
                    cands.append(w)
            for w in cands:
                c2 = _set(case, path, w)
                if fails(c2):
                    case = c2
                    changed = True
                    break
    return case


# --------------------------------------------------------------------------- worker

def worker(prop, lane_json):
    setup_path()
    lane = json.loads(lane_json)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    os.chdir(lane['tmp'])
    mod = importlib.import_module('c' + prop[1:])
    import gpgradpy
    assert os.path.abspath(gpgradpy.__file__).startswith(REPO), gpgradpy.__file__
    from hypothesis import given, settings, seed, HealthCheck, Phase
    import hypothesis
    res = dict(subs={}, violation=None, error=None)
    t_end = time.time() + lane['budget']
    subs = [s for s in mod.SUBS if s.lanes in ('both', 'jit' if lane['jit'] else 'nojit')]
    known = load_known(prop)
    os.environ['VERIF_LANE_KERNEL'] = lane.get('kernel') or ''
    wsum = sum(s.weight for s in subs)
    for si, sub in enumerate(subs):
        n = 4 * sub.quick if lane['tier'] == 'quick' else sub.thorough
        n = max(1, int(n * lane.get('share', 1.0)))
        st = dict(evaluations=0, nontrivial=0, skipped=0, tags={}, samples=[], keys=set(), known={})
        res['subs'][sub.name] = st
        left = t_end - time.time()
        t_sub = time.time() + max(2.0, left * sub.weight / max(wsum, 1e-9))
        wsum -= sub.weight
        fail = {}

        def body(case):
            if time.time() > t_sub and not fail:
                return
            case = jsonable(case)
            if fail.get('t0') and time.time() - fail['t0'] > lane['shrink']:
                # shrinking budget exhausted: only the best case found still fails
                if case == fail['case']:
                    raise Violation(fail['msg'])
                return
            try:
                r = run_case(sub.fn, case)
            except Skip:
                st['skipped'] += 1
                return
            except Violation as v:
                kf = match_known(known, prop, sub.name, case, str(v))
                if kf is not None:
                    st['known'][kf] = st['known'].get(kf, 0) + 1
                    st['evaluations'] += 1
                    return
                fail['case'], fail['msg'] = case, str(v)
                fail.setdefault('t0', time.time())
                raise
            nt, tags = r
            st['evaluations'] += 1
            if nt:
                key = hash(json.dumps(case, sort_keys=True))
                st['keys'].add(key)
                if len(st['samples']) < 2 or (len(st['samples']) < 3 and st['evaluations'] % 17 == 0):
                    st['samples'].append(case)
            for t in tags:
                st['tags'][t] = st['tags'].get(t, 0) + 1

        phases = [Phase.explicit, Phase.generate, Phase.shrink]
        test = given(sub.strategy())(body)
        test = settings(max_examples=n, deadline=None, database=None, phases=phases, derandomize=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        print_blob=False)(test)
        test = seed(lane['seed'] * 1000 + si)(test)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                test()
        except Violation:
            pass
        except BaseException as e:
            if not fail:
                res['error'] = 'sub %s: %s' % (sub.name, ''.join(traceback.format_exception(e))[-3000:])
        st['nontrivial'] = len(st['keys'])
        st['keys'] = sorted(st['keys'])[:200000]
        if fail:
            case = fail['case']
            with contextlib.suppress(Exception):
                case = minimise(sub.fn, case)
                try:
                    run_case(sub.fn, case)
                except Violation as v:
                    fail['msg'] = str(v)
            res['violation'] = dict(sub=sub.name, case=case, msg=fail['msg'], jit=lane['jit'])
            break
        if res['error']:
            break
    with open(lane['out'], 'w') as f:
        json.dump(res, f)


# --------------------------------------------------------------------------- known findings

def load_known(prop):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.isfile(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['known'] if k['property'] == prop]


def match_known(known, prop, sub, case, msg):
    for k in known:
        if k['sub'] != sub:
            continue
        if all(case.get(a) == b for a, b in k['match'].items()) and k.get('msg_contains', '') in msg:
            return k['id']
    return None


# --------------------------------------------------------------------------- parent

def lanes_for(mod, tier, base_seed, tmp):
    """Default lanes: one JIT lane per kernel + pure-python lanes over everything."""
    kernels = getattr(mod, 'LANE_KERNELS', ['SqExp', 'Ma5f2', 'RatQu'])
    budget = getattr(mod, 'BUDGET', {}).get(tier, 50 if tier == 'quick' else 500)
    shrink = 12 if tier == 'quick' else 60
    out = []
    if getattr(mod, 'JIT', True):
        for i, k in enumerate(kernels):
            out.append(dict(jit=True, kernel=k, seed=base_seed * 97 + i, budget=budget,
                            share=getattr(mod, 'JIT_SHARE', 0.5)))
    n_py = getattr(mod, 'PY_LANES', 4)
    for i in range(n_py):
        k = kernels[i % len(kernels)] if i < 3 and len(kernels) > 1 else None
        out.append(dict(jit=False, kernel=k, seed=base_seed * 97 + 50 + i, budget=budget, share=1.0))
    for i, l in enumerate(out):
        l.update(tier=tier, shrink=shrink, tmp=tmp, out=os.path.join(tmp, 'lane%d.json' % i))
    return out


def lane_env(jit):
    env = dict(os.environ)
    env.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    if jit:
        env['NUMBA_OPT'] = '0'
        env.pop('NUMBA_DISABLE_JIT', None)
    else:
        env['NUMBA_DISABLE_JIT'] = '1'
    return env


def rmtree(path):
    import shutil
    assert os.path.basename(path).startswith('vgp_') and os.path.isabs(path)
    shutil.rmtree(path, ignore_errors=True)


def main(prop, tier, replay=None):
    setup_path()
    t0 = time.time()
    base_seed = int(os.environ.get('VERIF_SEED', '1'))
    tmp = tempfile.mkdtemp(prefix='vgp_')
    try:
        return _main(prop, tier, replay, t0, base_seed, tmp)
    finally:
        rmtree(tmp)


def _main(prop, tier, replay, t0, base_seed, tmp):
    if replay:
        return do_replay(prop, replay, tmp)
    sys.modules.pop('c' + prop[1:], None)
    meta = subprocess.run([VENV_PY, os.path.join(VERIF, 'lib', 'harness.py'), 'meta', prop],
                          env=lane_env(False), capture_output=True, text=True, cwd=tmp)
    if meta.returncode != 0:
        sys.stderr.write(meta.stdout + meta.stderr)
        # an import failure caused by the code under test is reported as an error, not a violation
        return 2
    m = json.loads(meta.stdout.strip().splitlines()[-1])

    class Mod:
        pass
    mod = Mod()
    for k, v in m.items():
        setattr(mod, k, v)
    lanes = lanes_for(mod, tier, base_seed, tmp)
    procs = []
    for i, l in enumerate(lanes):
        d = os.path.join(tmp, 'w%d' % i)
        os.mkdir(d)
        l['tmp'] = d
        env = lane_env(l['jit'])
        env['MPLCONFIGDIR'] = d
        log = open(os.path.join(tmp, 'log%d' % i), 'w')
        p = subprocess.Popen([VENV_PY, os.path.join(VERIF, 'lib', 'harness.py'), 'worker', prop, json.dumps(l)],
                             env=env, stdout=log, stderr=subprocess.STDOUT, cwd=d, start_new_session=True)
        procs.append(p)
    hard = time.time() + lanes[0]['budget'] * 1.6 + 110
    results, errors = [], []
    pending = dict(enumerate(procs))
    viol_seen = None
    while pending:
        for i, p in list(pending.items()):
            if p.poll() is None:
                continue
            del pending[i]
            try:
                with open(lanes[i]['out']) as f:
                    r = json.load(f)
                results.append((lanes[i], r))
                if r['violation'] and viol_seen is None:
                    viol_seen = time.time()
            except Exception:
                with open(os.path.join(tmp, 'log%d' % i)) as f:
                    errors.append('lane %d rc=%s: %s' % (i, p.returncode, f.read()[-2000:]))
        if time.time() > hard or (viol_seen and time.time() - viol_seen > 20):
            for i, p in list(pending.items()):
                with contextlib.suppress(Exception):
                    os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                del pending[i]
                if not viol_seen:
                    errors.append('lane %d exceeded the time limit' % i)
        time.sleep(0.05)
    return report(prop, tier, base_seed, m, results, errors, t0)


def report(prop, tier, base_seed, m, results, errors, t0):
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=m['RULE'], samples=[], per_oracle={}, tags={}, skipped=0,
               lanes=[])
    keys = set()
    known_hits = {}
    viol = None
    for lane, r in results:
        lane_n = 0
        for name, st in r['subs'].items():
            cov['evaluations'] += st['evaluations']
            lane_n += st['evaluations']
            cov['skipped'] += st['skipped']
            keys.update((name, k) for k in st['keys'])
            po = cov['per_oracle'].setdefault(name, dict(evaluations=0, nontrivial=0))
            po['evaluations'] += st['evaluations']
            po['nontrivial'] += st['nontrivial']
            for t, c in st['tags'].items():
                cov['tags'][t] = cov['tags'].get(t, 0) + c
            for kf, c in st['known'].items():
                known_hits[kf] = known_hits.get(kf, 0) + c
            if len(cov['samples']) < 6 and st['samples'] and not any(s['oracle'] == name for s in cov['samples']):
                cov['samples'].append(dict(oracle=name, case=st['samples'][0]))
        cov['lanes'].append(dict(numba=lane['jit'], kernel=lane['kernel'], seed=lane['seed'], evaluations=lane_n))
        if r['violation'] and (viol is None or len(json.dumps(r['violation']['case'])) < len(json.dumps(viol['case']))):
            viol = r['violation']
        if r['error']:
            errors.append(r['error'])
    cov['distinct_nontrivial'] = len(keys)
    cov['tags'] = dict(sorted(cov['tags'].items()))
    ev = dict(property=prop, tier=tier, seed=base_seed, level='exploration', coverage=cov,
              assumptions=m['ASSUMPTIONS'], wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in load_known(prop):
        print('KNOWN-FINDING: property=%s %s (met %d times in this run)' % (prop, k['what'], known_hits.get(k['id'], 0)))
    print('%s %s: %d cases, %d distinct non-trivial, %d skipped, %.1f s' % (
        prop, tier, cov['evaluations'], cov['distinct_nontrivial'], cov['skipped'], ev['wall_s']))
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', prop + '.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, sub=viol['sub'], jit=viol['jit'], message=viol['msg'], case=viol['case'],
                           how='cd /verif && ./check %s replay %s' % (prop, path)), f, indent=1)
        print('  oracle %s (numba %s): %s' % (viol['sub'], 'on' if viol['jit'] else 'off', viol['msg'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        for e in errors:
            sys.stderr.write('also: ' + e[-500:] + '\n')
        return 1
    if errors:
        for e in errors:
            sys.stderr.write('HARNESS-ERROR ' + e + '\n')
        return 2
    if cov['evaluations'] == 0:
        sys.stderr.write('HARNESS-ERROR no case was evaluated\n')
        return 2
    return 0


def do_replay(prop, path, tmp):
    with open(path) as f:
        rp = json.load(f)
    env = lane_env(rp.get('jit', False))
    env['MPLCONFIGDIR'] = tmp
    r = subprocess.run([VENV_PY, os.path.join(VERIF, 'lib', 'harness.py'), 'replay', prop, os.path.abspath(path)],
                       env=env, cwd=tmp)
    return r.returncode


def replay_worker(prop, path):
    setup_path()
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module('c' + prop[1:])
    with open(path) as f:
        rp = json.load(f)
    sub = [s for s in mod.SUBS if s.name == rp['sub']][0]
    try:
        run_case(sub.fn, rp['case'])
    except Skip:
        print('case is outside the domain')
        return 0
    except Violation as v:
        print(str(v))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('replay passes')
    return 0


if __name__ == '__main__':
    mode = sys.argv[1]
    # make "import harness" inside the check modules refer to this very module
    setup_path()
    import harness as _h
    if mode == 'worker':
        _h.worker(sys.argv[2], sys.argv[3])
    elif mode == 'meta':
        mod = importlib.import_module('c' + sys.argv[2][1:])
        d = {k: getattr(mod, k) for k in ('RULE', 'ASSUMPTIONS', 'LANE_KERNELS', 'BUDGET', 'JIT', 'JIT_SHARE', 'PY_LANES') if hasattr(mod, k)}
        d.setdefault('ASSUMPTIONS', [])
        print(json.dumps(d))
    elif mode == 'replay':
        sys.exit(_h.replay_worker(sys.argv[2], sys.argv[3]))
    elif mode == 'check':
        sys.exit(_h.main(sys.argv[2], sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else None))
