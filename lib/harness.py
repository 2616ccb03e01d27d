"""Check driver: runs a property's proof tasks and bounded tasks, prints verdict lines, writes evidence.

A property module (props/cXX.py) defines
  ID, LEVEL, NOTE            strings
  TASKS                      filled by the @proof / @bounded decorators of a Suite
"""
import hashlib, importlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_NPROC', '8'))

from .trust import TRUST, ASSUME


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """case outside the property's precondition"""


class ContractViolation(Exception):
    def __init__(self, key, what, **data):
        super().__init__(what)
        self.key, self.what, self.data = key, what, data


def _alarm(sig, frm):
    raise CaseTimeout()


class cpu_limit:
    """CPU-time limit (user time of this process), so that machine load cannot trip it."""
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.old = signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False


class Case:
    """passed to a bounded task for one case"""
    def __init__(self, prop, task, i, seed, rng, tier):
        self.prop, self.task, self.i, self.seed, self.rng, self.tier = prop, task, i, seed, rng, tier
        self.nontrivial = None
        self.sample = None
        self.data = {}

    def note(self, **kw):
        """inputs of the case, recorded in the replay file on failure"""
        self.data.update(kw)

    def sig(self, x, sample=None):
        """marks the case as non-trivial, identified by x"""
        self.nontrivial = hashlib.sha1(repr(x).encode()).hexdigest()[:16]
        self.sample = sample if sample is not None else repr(x)[:300]

    def check(self, cond, what, key=None, **data):
        if not cond:
            raise ContractViolation(key or what, what, **data)


class Task:
    def __init__(self, kind, name, fn, **kw):
        self.kind, self.name, self.fn = kind, name, fn
        self.__dict__.update(kw)


class Suite:
    def __init__(self, ID, level, note, rule, trusted=(), assumptions=()):
        self.ID, self.level, self.note, self.rule = ID, level, note, rule
        self.trusted, self.assumptions = list(trusted) + TRUST.get(ID, []) * (level == 'proof'), list(assumptions) + ASSUME.get(ID, []) * (level == 'proof')
        self.tasks = []

    def bounded(self, name, quick, thorough=None, bound='', functions=(), limit=30, split=4, crash_ok=(), exhaustive=False):
        def deco(fn):
            self.tasks.append(Task('bounded', name, fn, n=dict(quick=quick, thorough=thorough or quick * 10), bound=bound,
                                   functions=list(functions), limit=limit, split=split, crash_ok=crash_ok, exhaustive=exhaustive))
            return fn
        return deco

    def hunt(self, name, n=400, seed='hunt', seconds=60):
        """runs bounded cases (task names starting with `name`) on the real code until one fails: dict(what, data) or None"""
        t0 = time.time()
        for task in self.tasks:
            if task.kind == 'bounded' and task.name.startswith(name):
                for i in range(n):
                    if time.time() - t0 > seconds:
                        break
                    c, fail, status = run_case(self, task, i, seed, 'quick')
                    if fail and not fail.get('internal'):
                        return dict(what=fail['what'], data=dict(bounded_task=task.name, case=i, seed=seed, **fail['data']))
        return None

    def proof(self, name, functions=(), limit=240, tiers=('quick', 'thorough')):
        """fn(P) where P is a pyvc.core.Prover: generates and discharges obligations."""
        def deco(fn):
            self.tasks.append(Task('proof', name, fn, functions=list(functions), limit=limit, tiers=tiers))
            return fn
        return deco


# ---------------------------------------------------------------- execution
_SUITE = None


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        return repr(x)[:4000]


def run_case(suite, task, i, seed, tier):
    """returns (case, failure or None, status)"""
    import numpy as np
    key = '%s:%s:%s' % (seed, task.name, i)
    rng = random.Random(key)
    random.seed(key + 'g')
    np.random.seed(rng.randrange(2 ** 32))
    c = Case(suite.ID, task.name, i, seed, rng, tier)
    fail = None
    status = 'ok'
    try:
        with cpu_limit(task.limit):
            task.fn(c)
    except Skip:
        status = 'skip'
    except ContractViolation as e:
        fail = dict(key=e.key, what=e.what, data={k: jsonable(v) for k, v in {**c.data, **e.data}.items()})
    except CaseTimeout:
        fail = dict(key='no answer within %ss CPU' % task.limit, what='no answer within %ss of CPU time (normal cases take well under a second)' % task.limit,
                    data={k: jsonable(v) for k, v in c.data.items()})
    except MemoryError:
        status = 'skip'
    except Exception as e:
        if task.crash_ok and isinstance(e, task.crash_ok):
            status = 'skip'
        else:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if f.filename.startswith(REPO)]
            at = '%s:%s' % (os.path.basename(inrepo[-1].filename), inrepo[-1].name) if inrepo else 'harness'
            fail = dict(key='raises %s in %s' % (type(e).__name__, at), what='unexpected %s in %s: %s' % (type(e).__name__, at, str(e)[:200]),
                        data={**{k: jsonable(v) for k, v in c.data.items()}, 'traceback': traceback.format_exc()[-3000:]},
                        internal=not inrepo)
    return c, fail, status


def _work(job):
    ti, part, seed, tier = job
    task = _SUITE.tasks[ti]
    t0 = time.time()
    out = dict(task=ti, kind=task.kind, evals=0, skips=0, sigs=set(), samples=[], failures=[], obligations=[], notes=[], functions=[])
    devnull = open(os.devnull, 'w')
    so = sys.stdout
    sys.stdout = devnull
    try:
        if task.kind == 'bounded':
            n = task.n[tier]
            for i in range(part, n, task.split):
                c, fail, status = run_case(_SUITE, task, i, seed, tier)
                out['evals'] += 1
                if status == 'skip':
                    out['skips'] += 1
                    continue
                if c.nontrivial:
                    out['sigs'].add(c.nontrivial)
                    if len(out['samples']) < 2:
                        out['samples'].append(c.sample)
                if fail:
                    fail.update(task=task.name, case=i, found_input=True)
                    out['failures'].append(fail)
                    if sum(f['key'].startswith('no answer') for f in out['failures']) >= 2:
                        break
                    if len({f['key'] for f in out['failures']}) >= 5 or len(out['failures']) > 40:
                        break
        else:
            from pyvc.core import Prover, Unsupported
            P = Prover(_SUITE.ID, task.name, tier)
            try:
                signal.signal(signal.SIGALRM, _alarm)
                signal.alarm(task.limit if tier == 'quick' else task.limit * 5)
                try:
                    task.fn(P)
                finally:
                    signal.alarm(0)
            except (CaseTimeout,):
                P.undecided('time', 'proof task exceeded %ss' % task.limit)
            except Unsupported as e:
                P.undecided('reach', 'left the verifier\'s subset: %s' % e)
            except Exception as e:
                P.undecided('engine', 'symbolic execution stopped: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            out['obligations'] = P.obligations
            out['notes'] = P.notes
            out['functions'] = sorted(P.functions)
            for f in P.failures:
                f.update(task=task.name)
                out['failures'].append(f)
    finally:
        sys.stdout = so
        devnull.close()
    out['time'] = time.time() - t0
    return out


def load_known():
    try:
        return json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except FileNotFoundError:
        return []


def main(argv):
    global _SUITE
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    replay = None
    verbose = False
    it = iter(argv[1:])
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--seed':
            seed = int(next(it))
        elif a == '--only':
            only = next(it)
        elif a == '--replay':
            replay = next(it)
        elif a == '-v':
            verbose = True
    mod = importlib.import_module('props.' + pid.lower())
    _SUITE = suite = mod.S
    if replay:
        r = json.load(open(replay))
        task = next(t for t in suite.tasks if t.name == r['task'])
        if task.kind == 'bounded' and 'case' in r:
            c, fail, status = run_case(suite, task, r['case'], r['seed'], r['tier'])
            print('replayed:', json.dumps(fail, indent=1) if fail else 'no failure')
            return 1 if fail else 0
        print(json.dumps(r, indent=1))
        return 1
    t0 = time.time()
    jobs = []
    for ti, t in enumerate(suite.tasks):
        if only and only not in t.name:
            continue
        if t.kind == 'bounded':
            for part in range(min(t.split, t.n[tier])):
                jobs.append((ti, part, seed, tier))
        elif tier in t.tiers:
            jobs.append((ti, 0, seed, tier))
    jobs.sort(key=lambda j: 0 if suite.tasks[j[0]].kind == 'proof' else 1)
    if NPROC > 1:
        with mp.get_context('fork').Pool(NPROC, maxtasksperchild=1) as pool:
            results = list(pool.imap_unordered(_work, jobs, chunksize=1))
    else:
        results = [_work(j) for j in jobs]
    known = [k for k in load_known() if k['property'] == pid and not k.get('fixed')]
    evals = sum(r['evals'] for r in results)
    sigs = set().union(*[{(r['task'], s) for s in r['sigs']} for r in results]) if results else set()
    obl = [o for r in results for o in r['obligations']]
    dis = [o for o in obl if o['status'] == 'discharged']
    failures = [f for r in results for f in r['failures']]
    errors = []
    bykey = {}
    for f in failures:
        if f.get('internal'):
            errors.append(f)
            continue
        bykey.setdefault((f['task'], f['key']), []).append(f)
    rdir = os.path.join(VERIF, 'replays', pid)
    os.makedirs(rdir, exist_ok=True)
    for fn in os.listdir(rdir):
        os.unlink(os.path.join(rdir, fn))
    viol = 0
    seen_known = set()
    lines = []
    ordered = sorted(bykey.items(), key=lambda kv: (not kv[1][0].get('found_input'), kv[0]))
    anyfound = any(fs[0].get('found_input') for _, fs in ordered)
    for (task, key), fs in ordered:
        k = next((k for k in known if k['key'] == key and k.get('task', task) == task), None)
        if k:
            seen_known.add(k['key'])
            continue
        f = min(fs, key=lambda f: f.get('case', 0))
        path = os.path.join(rdir, hashlib.sha1((task + key).encode()).hexdigest()[:10] + '.json')
        json.dump(dict(property=pid, seed=seed, tier=tier, times_seen=len(fs), rerun='python3 check.py %s --replay %s' % (pid, path), **f), open(path, 'w'), indent=1)
        viol += 1
        rel = os.path.relpath(path, VERIF)
        lines.append('  %s/%s: %s' % (task, key, f['what'][:300].replace('\n', ' ')))
        if f.get('found_input'):
            lines.append('VIOLATION property=%s replay=%s' % (pid, rel))
        else:
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rel))
    for k in known:
        print('KNOWN-FINDING: property=%s %s%s' % (pid, k['what'], '' if k['key'] in seen_known else ' (not reproduced in this run)'))
    und = [o for o in obl if o['status'] == 'undecided']
    fnp = sorted({f for r in results for f in r['functions']} | {f for t in suite.tasks if t.kind == 'proof' for f in t.functions})
    fnb = sorted({f for t in suite.tasks if t.kind == 'bounded' for f in t.functions})
    level = suite.level if not und or suite.level != 'proof' else 'other'
    backends = {}
    for o in obl:
        b = backends.setdefault(o.get('backend', '?'), dict(obligations=0, solver_s=0.0))
        b['obligations'] += 1
        b['solver_s'] = round(b['solver_s'] + o.get('time', 0), 3)
    samples = [s for r in results for s in r['samples']][:6]
    cov = dict(
        obligations=len(obl), discharged=len(dis), undecided=len(und),
        undecided_detail=[dict(name=o['name'], detail=str(o.get('detail'))[:600]) for o in und][:30],
        checker_cmd='python3 check.py %s --tier %s' % (pid, tier),
        trusted_base=suite.trusted, backends=backends,
        functions_under_contract=fnp,
        obligation_names=sorted({o['name'] for o in obl})[:400],
        bounded_standins=[dict(task=t.name, functions=t.functions, bound=t.bound, cases=t.n[tier]) for t in suite.tasks if t.kind == 'bounded'],
        evaluations=evals, distinct_nontrivial=len(sigs), rule=suite.rule,
        samples=samples or [o['name'] for o in obl[:3]],
        explanation=suite.note,
        per_task={suite.tasks[i].name: dict(kind=suite.tasks[i].kind, s=round(sum(r['time'] for r in results if r['task'] == i), 2),
                                            evals=sum(r['evals'] for r in results if r['task'] == i),
                                            skipped=sum(r['skips'] for r in results if r['task'] == i),
                                            obligations=sum(len(r['obligations']) for r in results if r['task'] == i))
                  for i in range(len(suite.tasks))},
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=suite.assumptions + sorted({n for r in results for n in r['notes']}), violations=viol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for l in lines:
        print(l)
    if errors:
        for e in errors[:3]:
            print('HARNESS ERROR', e['task'], e['what'], e['data'].get('traceback', '')[-1500:])
    for o in und[:20]:
        print('UNDECIDED (bounded stand-in decides)', o['name'], str(o.get('detail'))[:300 if not verbose else 3000])
    print('%s tier=%s: %d/%d obligations discharged, %d bounded evaluations (%d distinct non-trivial), %d violations, %.1fs' %
          (pid, tier, len(dis), len(obl), evals, len(sigs), viol, time.time() - t0))
    if verbose:
        for k, v in cov['per_task'].items():
            print('   ', k, v)
    if viol:
        return 1
    if errors:
        return 3
    if evals + len(obl) == 0:
        print('nothing was checked')
        return 4
    nproof = sum(1 for t in suite.tasks if t.kind == 'proof' and tier in t.tiers)
    if not only and nproof and not obl:
        print('no obligations generated')
        return 4
    return 0
