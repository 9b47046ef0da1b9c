"""Common machinery of the explorers.

Every check is a module ``mc/<id lower>.py`` with

* ``RULE``          what a state / transition / trace is and how they are enumerated
* ``ASSUMPTIONS``   list of strings
* ``jobs(tier)``    the bounded space, cut in chunks (picklable, deterministic)
* ``run(job, R)``   explores one chunk completely and reports to the Recorder

A check never samples: ``jobs`` x ``run`` enumerate their space completely.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')


def setup_import():
    """Make ``structuralcodes`` come from the working tree of REPO."""
    sys.dont_write_bytecode = True
    if 'structuralcodes' not in sys.modules:
        # third-party modules first, with their own bytecode caches ...
        import numpy, scipy.linalg, scipy.integrate, scipy.optimize  # noqa
        import shapely, shapely.ops, shapely.affinity, triangle  # noqa
        # ... then the code under test, always compiled from source
        sys.pycache_prefix = os.path.join(VERIF, 'evidence', '.no-pyc')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import structuralcodes
    import structuralcodes.codes, structuralcodes.geometry  # noqa
    import structuralcodes.materials, structuralcodes.sections  # noqa

    f = os.path.abspath(structuralcodes.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f'structuralcodes imported from {f}, not {REPO}')
    warnings.simplefilter('ignore')


def h64(x) -> int:
    return int.from_bytes(
        hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'big'
    )


class Recorder:
    """Collects what a chunk covered and what it found."""

    MAX_FAIL = 40

    def __init__(self, job):
        self.job = job
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []
        self.nfail = 0
        self.outcomes = set()
        self._keys = set()

    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        if len(self.outcomes) < 5000:
            self.outcomes.add(h64(key))

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def fail(self, key, what, case=None):
        """Report a violation; ``key`` identifies the specific input/history."""
        key = str(key)
        self.nfail += 1
        if key in self._keys:
            return
        self._keys.add(key)
        if len(self.fails) < self.MAX_FAIL:
            self.fails.append(
                {'key': key, 'what': str(what)[:2000], 'case': case}
            )

    # -- comparison helpers -------------------------------------------------
    def eq(self, got, want, key, what='', rtol=1e-9, atol=0.0, case=None):
        """Numeric agreement; returns True when it holds."""
        if not close(got, want, rtol, atol):
            self.fail(key, f'{what} got {short(got)} expected {short(want)}', case)
            return False
        return True

    def true(self, cond, key, what='', case=None):
        if not cond:
            self.fail(key, what, case)
            return False
        return True


def short(x):
    import numpy as np

    if isinstance(x, np.ndarray):
        return np.array2string(x, precision=12, threshold=24)
    return repr(x)[:400]


def close(a, b, rtol=1e-9, atol=0.0):
    import numpy as np

    if isinstance(a, Exc) or isinstance(b, Exc):
        return isinstance(a, Exc) and isinstance(b, Exc) and a == b
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a is b or a == b
    if isinstance(a, (float, int)) and isinstance(b, (float, int)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if a == b:
            return True
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    try:
        a = np.asarray(a, dtype=complex) if _iscomplex(a) else np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=complex) if _iscomplex(b) else np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    with np.errstate(invalid='ignore'):
        ok = (
            (a == b)
            | (np.isnan(a) & np.isnan(b))
            | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
        )
    return bool(np.all(ok))


def _iscomplex(x):
    import numpy as np

    return np.iscomplexobj(x)


class Hang(Exception):
    pass


class Exc:
    """An exception as an observable outcome (only its class is compared)."""

    def __init__(self, e):
        self.type = type(e) if isinstance(e, BaseException) else e
        self.msg = str(e) if isinstance(e, BaseException) else ''

    def __eq__(self, other):
        return isinstance(other, Exc) and self.type is other.type

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return f'raises {self.type.__name__}({self.msg[:120]})'


def call(fn, *a, **k):
    """Run fn, turning an exception into an Exc outcome."""
    try:
        return fn(*a, **k)
    except Hang:
        raise
    except Exception as e:  # noqa: BLE001
        return Exc(e)


# ------------------------------------------------------------------ running
def _worker(args):
    modname, job = args
    try:
        setup_import()
        mod = importlib.import_module(modname)
        R = Recorder(job)
        limit = int(getattr(mod, 'JOB_LIMIT_S', 400))

        def late(*_):
            raise Hang(f'no answer within {limit} s')

        signal.signal(signal.SIGALRM, late)
        signal.alarm(limit if os.environ.get('VERIF_TIER') != 'thorough' else 40 * limit)
        try:
            import numpy as np

            with np.errstate(all='ignore'):
                mod.run(job, R)
        except Exception:  # noqa: BLE001
            tb = traceback.format_exc()
            frames = traceback.extract_tb(sys.exc_info()[2])
            where = ''
            for f in frames:
                if REPO in f.filename:
                    where = f'{os.path.relpath(f.filename, REPO)}:{f.name}'
            R.fail(
                f'unexpected exception {sys.exc_info()[0].__name__} in {where or "the observed behaviour"}',
                tb[-1800:],
                {'job': repr(job)},
            )
        finally:
            signal.alarm(0)
        return {
            'job': job,
            'states': len(R.states),
            'transitions': R.transitions,
            'traces': R.traces,
            'samples': R.samples,
            'fails': R.fails,
            'nfail': R.nfail,
            'outcomes': list(R.outcomes)[:2000],
            'error': None,
        }
    except BaseException:  # noqa: BLE001
        return {'job': job, 'error': traceback.format_exc()}


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    out = {}
    for e in json.load(open(path))['findings']:
        if e['property'] == pid and e.get('status') == 'open':
            out[e['key']] = e
    return out


def jdefault(o):
    try:
        import numpy as np

        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except ImportError:
        pass
    return repr(o)


def main(pid, tier, seed, replay=None, procs=None, verbose=False):
    t0 = time.time()
    os.environ['VERIF_TIER'] = tier
    modname = f'mc.{pid.lower()}'
    try:
        setup_import()
    except Exception:  # the package does not even import
        traceback.print_exc()
        return 2
    mod = importlib.import_module(modname)
    jobs = list(mod.jobs(tier))
    if replay:
        rp = json.load(open(replay))
        jobs = [j for j in jobs if repr(j) == rp['job']] or list(
            j for j in mod.jobs('thorough') if repr(j) == rp['job']
        )
    procs = procs or min(8, os.cpu_count() or 1)
    todo = [(modname, j) for j in jobs]
    results = []
    late = False
    if procs == 1 or len(todo) == 1:
        results = [_worker(x) for x in todo]
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(procs, maxtasksperchild=None) as pool:
            it = pool.imap_unordered(_worker, todo, chunksize=1)
            for _ in todo:
                try:
                    r = it.next(None if tier == 'thorough' else max(1.0, 820.0 - (time.time() - t0)))
                except mp.TimeoutError:
                    late = True
                    break
                results.append(r)
                if any('exception Hang' in f['key'] for f in r.get('fails', ())):
                    late = True  # the other chunks would hang as well
                    break
            pool.terminate()
    results.sort(key=lambda r: repr(r['job']))
    errs = [r for r in results if r.get('error')]
    if errs:
        for r in errs[:3]:
            print(f'ERROR in job {r["job"]}:\n{r["error"]}', file=sys.stderr)
        return 2
    known = load_known(pid)
    fails, knownhit, seen = [], {}, set()
    for r in results:
        for f in r['fails']:
            if f['key'] in known:
                knownhit.setdefault(f['key'], f)
            elif f['key'] not in seen:
                seen.add(f['key'])
                f['job'] = repr(r['job'])
                fails.append(f)
    outcomes = set()
    samples = []
    for r in results:
        outcomes.update(r['outcomes'])
        if len(samples) < 12:
            samples.extend(r['samples'][:2])
    cov = {
        'states': sum(r['states'] for r in results),
        'transitions': sum(r['transitions'] for r in results),
        'traces_validated_against_impl': sum(r['traces'] for r in results),
        'distinct_outcomes': len(outcomes),
        'chunks': len(results),
        'exhaustive': not late,
        'rule': ' '.join(mod.RULE.split()),
        'samples': samples[:12] or [{'job': repr(jobs[0])}],
    }
    wall = time.time() - t0
    if not replay:
        os.makedirs(EVID, exist_ok=True)
        ev = {
            'property': pid,
            'tier': tier,
            'seed': seed,
            'level': getattr(mod, 'LEVEL', 'model_checking'),
            'coverage': cov,
            'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
            'wall_s': round(wall, 2),
            'violations': len(fails),
        }
        tmp = os.path.join(EVID, f'{pid}.json.tmp')
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1, default=jdefault)
        os.replace(tmp, os.path.join(EVID, f'{pid}.json'))
    print(
        f'{pid} {tier}: states={cov["states"]} transitions={cov["transitions"]} '
        f'traces={cov["traces_validated_against_impl"]} outcomes={cov["distinct_outcomes"]} '
        f'chunks={len(results)} wall={wall:.1f}s'
    )
    for k in sorted(known):
        print(f'KNOWN-FINDING: property={pid} {known[k]["what"]}'
              + ('' if k in knownhit else ' (not reached in this tier)'))
    if replay:
        keys = {f['key'] for f in fails}
        print('REPLAY', 'reproduced' if rp['key'] in keys else 'NOT reproduced', rp['key'])
    if late and not fails:
        print('no answer in time', file=sys.stderr)
        return 2
    if cov['states'] == 0 or cov['transitions'] == 0:
        print('vacuous exploration', file=sys.stderr)
        return 2
    if fails:
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        shown = fails if verbose else fails[:5]
        for i, f in enumerate(shown):
            path = os.path.join(rdir, f'{pid}-{h64(f["key"]):016x}.json')
            with open(path, 'w') as fh:
                json.dump(
                    {
                        'property': pid,
                        'tier': tier,
                        'key': f['key'],
                        'what': f['what'],
                        'case': f['case'],
                        'job': f['job'],
                        'how_to_replay': f'cd /verif && ./check.sh {pid} --replay {path}',
                    },
                    fh,
                    indent=1,
                    default=jdefault,
                )
            print(f'  {f["key"]}: {f["what"][:600 if verbose else 300]}')
            print(f'VIOLATION property={pid} replay={path}')
        print(f'{len(fails)} distinct violations')
        return 1
    return 0
