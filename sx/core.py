"""Path-exploring symbolic execution core (concolic driver + z3).

A *run* executes the real (instrumented) code with values that carry both a
concrete value and a z3 term over the declared inputs.  Every time control flow
depends on a symbolic term the branch condition is recorded; after the run the
solver is asked, for each new branch, for inputs that take the other side.  The
exploration ends when no unexplored side is satisfiable: then every input within
the declared domains follows one of the explored paths.
"""
import random
import time
import traceback
import z3


class Abort(BaseException):
    """The run cannot be continued (engine limit); code under test may not swallow it
    (Run.aborted stays set)."""


class Violation(Exception):
    """Raised by a harness when the property does not hold."""


class Prune(BaseException):
    """The harness assumption does not hold on this run."""


CUR = None  # the active run


def cur():
    return CUR


def _pyval(m, var):
    v = m.eval(var, model_completion=True)
    if z3.is_bool(v):
        return z3.is_true(v)
    return v.as_long()


class Run:
    """One execution."""

    def __init__(self, ex, assign, prefix, expected):
        self.ex = ex
        self.assign = assign
        self.prefix = prefix          # number of recorded constraints fixed by the parent
        self.expected = expected      # [(expr, taken, kind)]
        self.path = []                # (expr, taken, kind, site)
        self.seen = set()
        self.inputs = {}              # name -> var
        self.decl = {}                # name -> length of the path at its declaration
        self.values = {}              # name -> concrete
        self.branches = 0
        self.fresh_n = 0
        self.aborted = None
        self.pruned = False
        self.violated = None
        self.checked = 0
        self.labels = set()
        self.funcs = set()
        self.keep = []
        self.memo = {}
        self.steps = 0
        self.t0 = time.time()

    # inputs -----------------------------------------------------------------
    def declare(self, name, var, default, dom):
        """dom is a z3 constraint or None; the default must satisfy it."""
        if name in self.inputs:
            raise RuntimeError('input declared twice: ' + name)
        self.inputs[name] = var
        val = self.assign.get(name, default)
        self.values[name] = val
        self.decl[name] = len(self.path)
        if dom is not None:
            self._record(dom, True, 'domain', name)
        return val

    def fresh(self, tag):
        self.fresh_n += 1
        return z3.Int('%s!%d' % (tag, self.fresh_n))

    def define(self, expr):
        """a constraint defining fresh variables (always satisfiable)"""
        self._record(expr, True, 'define', None)

    def _record(self, e, taken, kind, site):
        i = len(self.path)
        if i < self.prefix:
            ee, et, _ = self.expected[i]
            if not ee.eq(e) or et != taken:
                self.abort('nondeterministic replay of a path prefix at %r: %s / %s %s %s' % (
                    site, str(ee)[:200], str(e)[:200], et, taken))
        self.path.append((e, taken, kind, site))

    def branch(self, expr, conc, kind='branch', site=None):
        """Record that the (boolean z3) expr evaluated to conc."""
        if z3.is_true(expr) or z3.is_false(expr):
            return conc
        if self.aborted:
            raise Abort(self.aborted)
        conc = bool(conc)
        self.branches += 1
        if self.branches > self.ex.max_branches:
            self.abort('branch limit %d' % self.ex.max_branches)
        k = expr.get_id()
        if k in self.seen:
            return conc
        self.seen.add(k)
        self.keep.append(expr)
        self._record(expr, conc, kind, site)
        return conc

    def pick(self, expr, kind='branch', site=None):
        """Record expr, which holds on this run and whose form depends on the concrete values (x == 7).
        Alternatives already explored by earlier runs stay in the path as negated picks."""
        if z3.is_true(expr) or z3.is_false(expr):
            return
        if self.aborted:
            raise Abort(self.aborted)
        self.branches += 1
        if self.branches > self.ex.max_branches:
            self.abort('branch limit %d' % self.ex.max_branches)
        k = expr.get_id()
        if k in self.seen:
            return
        kind = 'pick' if kind == 'branch' else kind
        while len(self.path) < self.prefix:
            e, t, kd = self.expected[len(self.path)]
            if t or kd not in ('pick', 'concretise'):
                break
            self.path.append((e, False, kd, site))
        self.seen.add(k)
        self.keep.append(expr)
        self._record(expr, True, kind, site)

    def tick(self):
        self.steps += 1
        if self.aborted:
            raise Abort(self.aborted)
        if self.steps > self.ex.max_steps:
            self.abort('step limit %d' % self.ex.max_steps)
        if not self.steps & 1023 and time.time() - self.t0 > self.ex.run_seconds:
            self.abort('time limit of a single run')

    def abort(self, why):
        if not self.aborted:
            self.aborted = why
        raise Abort(why)


class Explorer:
    """Explores every feasible path of `fn(ctx)`."""

    def __init__(self, fn, make_ctx, max_paths=200000, max_branches=20000, max_steps=60000,
                 deadline=None, query_ms=20000, conc_limit=8, run_seconds=60, stop_at=8, seed=1):
        self.fn = fn
        self.make_ctx = make_ctx
        self.max_paths = max_paths
        self.max_branches = max_branches
        self.max_steps = max_steps
        self.deadline = deadline
        self.query_ms = query_ms
        self.conc_limit = conc_limit
        self.run_seconds = run_seconds
        self.stop_at = stop_at
        self.rnd = random.Random(seed)
        self.stats = dict(paths=0, pruned=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0,
                          branches=0, checks=0, concretised=0, aborted=0)
        self.incomplete = []
        self.violations = []
        self.samples = []
        self.labels = {}
        self.funcs = set()
        self.conc_sites = {}
        self.left = 0

    def note_incomplete(self, why):
        if why not in self.incomplete and len(self.incomplete) < 50:
            self.incomplete.append(why)

    def query(self, solver, *assumps):
        t = time.time()
        r = solver.check(*assumps)
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        self.stats[str(r)] += 1
        return r

    def explore(self, max_samples=40, trace=None):
        global CUR
        work = [({}, 0, [])]
        n = 0
        while work:
            if self.stats['paths'] >= self.max_paths:
                self.note_incomplete('path limit %d' % self.max_paths)
                break
            if self.deadline and time.time() > self.deadline:
                self.note_incomplete('time limit of the case')
                break
            assign, prefix, expected = work.pop()
            run = Run(self, assign, prefix, expected)
            CUR = run
            outcome = None
            viol = None
            try:
                outcome = self.make_ctx(run).execute(self.fn)
            except Prune:
                run.pruned = True
            except Abort:
                pass
            except Violation as e:
                viol = str(e)
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except BaseException as e:
                # decided by replaying the inputs
                CUR = None
                viol = 'unexpected %s: %s' % (type(e).__name__, e)
                if trace:
                    traceback.print_exc()
            finally:
                CUR = None
            viol = viol or run.violated
            if trace:
                trace(run, outcome, viol)
            self.funcs |= run.funcs
            if run.aborted:
                self.stats['aborted'] += 1
                self.note_incomplete('aborted: %s' % run.aborted)
                run.pruned = False
                outcome = None
                if 'limit' in run.aborted and 'branch' not in run.aborted:
                    # possible non-termination: decided by replaying the inputs
                    self.violations.append(dict(inputs=dict(run.values), hang=True,
                                                what='does not terminate: ' + run.aborted))
            if run.pruned:
                self.stats['pruned'] += 1
            else:
                self.stats['paths'] += 1
            self.stats['branches'] += len(run.path)
            self.stats['checks'] += run.checked
            for l in run.labels:
                self.labels[l] = self.labels.get(l, 0) + 1
            if viol is not None and not run.aborted:
                self.violations.append(dict(inputs=dict(run.values), what=viol))
            if len(self.violations) >= self.stop_at:
                self.note_incomplete('stopped at the first violations')
                break
            if outcome is not None and viol is None:
                n += 1
                s = dict(inputs=dict(run.values), outcome=outcome)
                if len(self.samples) < max_samples:
                    self.samples.append(s)
                else:
                    j = self.rnd.randrange(n)
                    if j < max_samples:
                        self.samples[j] = s
            self._expand(run, work)
        self.left = len(work)
        return self

    def _expand(self, run, work):
        s = z3.Solver()
        s.set('timeout', self.query_ms)
        for i, (e, taken, kind, site) in enumerate(run.path):
            c = e if taken else z3.Not(e)
            if i >= run.prefix and kind in ('branch', 'pick', 'concretise', 'assume') and not (
                    kind == 'assume' and taken):
                allowed = True
                if kind == 'concretise':
                    self.stats['concretised'] += 1
                    m = self.conc_sites[site] = self.conc_sites.get(site, 0) + 1
                    if m > self.conc_limit:
                        allowed = False
                s.push()
                s.add(z3.Not(c))
                r = self.query(s)
                if r == z3.sat:
                    if not allowed:
                        self.note_incomplete('concretised at %s' % (site,))
                    else:
                        m = s.model()
                        a = {}
                        for name, var in run.inputs.items():
                            if run.decl[name] <= i:   # later ones start again from their defaults
                                a[name] = _pyval(m, var)
                        work.append((a, i + 1,
                                     [(pe, pt, pk) for pe, pt, pk, _ in run.path[:i]] + [(e, not taken, kind)]))
                elif r == z3.unknown:
                    self.note_incomplete('solver unknown at %s' % (site,))
                s.pop()
            s.add(c)
