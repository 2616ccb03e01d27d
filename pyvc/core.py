"""pyvc core: obligations, path exploration, z3 discharge.

The verifier executes the *real* functions of /repo (CPython objects, re-read from source on every run) on
symbolic arguments.  Every branch on a symbolic value forks the path (depth-first re-execution), every loop over a
symbolic collection is summarised by a proof rule (pyvc.loops), calls to contracted callees are replaced by their contracts.
Obligations are conditions that must hold at the end of a path; each is discharged by a back end for all values."""
import time
import z3


class Unsupported(BaseException):
    """construct or operation outside the verifier's subset (BaseException: the code under proof must not swallow it)"""


class PathAbort(BaseException):
    """infeasible path, or path cut by a proof rule"""


class Prover:
    current = None

    def __init__(self, prop, task, tier):
        self.prop, self.task, self.tier = prop, task, tier
        self.obligations, self.failures, self.notes, self.functions = [], [], [], set()
        self.path = None
        self.paths_explored = 0
        Prover.current = self

    # ---- bookkeeping
    def under_contract(self, *names):
        self.functions.update(names)

    def assume_note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def record(self, name, ok, backend, t=0.0, detail=None, replay=None):
        """ok: True discharged, False refuted, None undecided.
        replay: callable() -> None (not reproduced) | dict(what=..., data=...) failing input found on the real code."""
        st = 'discharged' if ok else ('undecided' if ok is None else 'failed')
        self.obligations.append(dict(name='%s: %s' % (self.task, name), status=st, backend=backend, time=t,
                                     detail=None if ok else str(detail)[:3000]))
        if ok is False:
            r = None
            if replay is not None:
                r = replay()
            if not r and str(detail).startswith(("['raises", '["raises')):
                r = False  # the code left the subset the stand-ins support, and the real code does not fail
            if r:
                self.failures.append(dict(key='obligation ' + name, what='obligation %r failed; the counterexample fails on the real code: %s' % (name, r.get('what')),
                                          found_input=True, data=r.get('data'), verifier=str(detail)[:3000]))
            elif r is False:
                # the counterexample was run on the real code and the contract held there: imprecision, not a defect
                self.obligations[-1]['status'] = 'undecided'
                self.obligations[-1]['detail'] = 'refutation is spurious (real code satisfies the contract on it): ' + str(detail)[:2000]
            else:
                self.failures.append(dict(key='obligation ' + name, what='obligation %r refuted by %s: %s' % (name, backend, str(detail)[:600]),
                                          found_input=False, data=None, verifier=str(detail)[:4000]))

    def undecided(self, name, detail):
        self.record(name, None, 'none', detail=detail)

    # ---- z3
    def valid(self, name, goal, hyps=(), replay=None, timeout=20000, backend='z3'):
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        r = s.check()
        dt = time.time() - t0
        if r == z3.unsat:
            self.record(name, True, backend, dt)
            return True
        if r == z3.sat:
            m = s.model()
            self.record(name, False, backend, dt, detail='counter-model %s' % str(m)[:1500], replay=(lambda: replay(m)) if replay else None)
            return False
        self.record(name, None, backend, dt, detail='solver answered unknown: ' + s.reason_unknown())
        return None

    def cover(self, name, hyps):
        """vacuity guard: the hypotheses must be satisfiable"""
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 20000)
        for h in hyps:
            s.add(h)
        r = s.check()
        self.record('cover ' + name, True if r == z3.sat else None, 'z3', time.time() - t0, detail='hypotheses not shown satisfiable: %s' % r)
        return r == z3.sat

    # ---- path exploration
    def explore(self, fn, max_paths=4000):
        """runs fn(path) once per feasible path; returns list of (path, result)"""
        out = []
        stack = [[]]
        n = 0
        while stack:
            pre = stack.pop()
            p = Path(self, pre)
            self.path = p
            Path.current = p
            n += 1
            if n > max_paths:
                raise Unsupported('more than %d paths' % max_paths)
            try:
                res = fn(p)
                out.append((p, res))
            except PathAbort:
                pass
            finally:
                self.path = None
                Path.current = None
            # schedule the untried alternatives of the decisions made beyond the prefix
            for i in range(len(pre), len(p.trace)):
                k, tot = p.trace[i]
                for alt in range(k + 1, tot):
                    stack.append([t[0] for t in p.trace[:i]] + [alt])
        self.paths_explored += n
        return out


class Path:
    current = None

    def __init__(self, prover, prefix):
        self.prover = prover
        self.prefix = prefix
        self.trace = []
        self.pc = []          # z3 path condition
        self.memo = {}
        self.subst = {}       # phase symbol -> linear form
        self.solver = None
        self.drop = None      # hypotheses left out of feasibility questions (more paths are explored, never fewer)

    def choose(self, n):
        i = len(self.trace)
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((k, n))
        return k

    def assume(self, c):
        self.pc.append(c)

    def feasible(self, c=None):
        if self.solver is None:     # one incremental solver per path
            self.solver = z3.Solver()
            self.solver.set('timeout', 3000)
            self.asserted = 0
        for h in self.pc[self.asserted:]:
            if self.drop is None or not self.drop(h):
                self.solver.add(h)
        self.asserted = len(self.pc)
        if c is None:
            return self.solver.check() != z3.unsat
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check() != z3.unsat
        self.solver.pop()
        return r

    def branch(self, c):
        """fork on a z3 condition"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        t, f = self.feasible(c), self.feasible(z3.Not(c))
        if t and not f:
            return True
        if f and not t:
            return False
        if not t and not f:
            raise PathAbort()
        k = self.choose(2)
        self.pc.append(c if k == 0 else z3.Not(c))
        return k == 0


def path():
    if Path.current is None:
        raise Unsupported('symbolic value used outside exploration')
    return Path.current


def guarded(fn):
    """run(path) for obligations whose result is None or a message: an exception of the code under contract is a message"""
    def run(p):
        try:
            return fn(p)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            at = tb[-1]
            return 'raises %s at %s:%s: %s' % (type(e).__name__, at.filename.split('/')[-1], at.lineno, str(e)[:200])
    return run


def discharge(P, name, fn, backend, replay=None, max_paths=20000):
    """explores fn (None or a message per path) and records one obligation"""
    import time as _t
    t0 = _t.time()
    paths = P.explore(guarded(fn), max_paths=max_paths)
    bad = [r for _, r in paths if r]
    P.record('%s (%d paths)' % (name, len(paths)), not bad, backend, _t.time() - t0, detail=str(bad[:2]), replay=replay)
    return not bad
