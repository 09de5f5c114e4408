"""Symbolic execution context: path exploration by re-execution, SMT queries, assertions.

One Context explores one harness.  The harness (and the real code it calls) runs natively in CPython; a branch on a
symbolic condition calls decide(), which asks the solver which outcomes are feasible under the path condition and
schedules the other one for a later re-execution.
"""
import time

import z3

_now = time.time  # code under test may be shown another clock


class EngineControl(BaseException):
    """Base of everything that steers the engine: not an Exception, so code under test cannot catch it."""


class PathInfeasible(EngineControl):
    pass


class Unsupported(EngineControl):
    """The code under test did something the encoding does not cover: the run is inconclusive."""


class BoundExceeded(EngineControl):
    """A stated bound was reached: the run is inconclusive (unwinding assertion)."""


class SolverUnknown(EngineControl):
    pass


class StopTask(EngineControl):
    """Enough counterexamples for this task."""


class Counterexample:
    """A satisfying assignment of the negated property on one path."""

    def __init__(self, label, detail, path, realise):
        self.label, self.detail, self.path, self.realise = label, detail, path, realise


CTX = None


def ctx():
    return CTX


class Stats:
    FIELDS = ("paths", "decisions", "queries", "sat", "unsat", "solver_s", "asserts_structural", "asserts_solver",
              "infeasible_paths", "precise_queries", "branches")

    def __init__(self):
        for name in self.FIELDS:
            setattr(self, name, 0)

    def as_dict(self):
        return {name: getattr(self, name) for name in self.FIELDS}


class Context:
    def __init__(self, max_paths=20000, max_ticks=3_000_000, query_ms=30000, max_cex=4, deadline=None,
                 seed=7):
        self.stats = Stats()
        self.max_paths, self.max_ticks, self.query_ms, self.max_cex = max_paths, max_ticks, query_ms, max_cex
        self.deadline = deadline
        self.seed = seed
        self.cexes = []
        self.problems = []  # inconclusive: (kind, text)
        self.functions = set()
        self.reached = {}
        self.path_models = []
        self.in_path = False

    # ---------------------------------------------------------------- path state
    def _begin_path(self, prefix):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.solver.set("random_seed", self.seed)
        self.prefix, self.trace = prefix, []
        self.known = {}
        self.held = []  # keeps the learnt conditions (and so the identity of their terms) alive
        self.bound = {}  # atom -> int
        self.mat = {}  # atoms and bools materialised on this path, in order
        self.field_index = {}
        self.zcalls = []  # zlib calls of this path
        self.zparts = {}  # output of streams that end early
        self.texts = {}  # text regions whose validity was asked for
        self.ticks = 0
        self.dead = None
        self.pending = []  # deferred equalities
        self.fresh_n = 0
        self.file_srcs = []
        self.notes = {}
        self.hash_ok = False
        self.files = {}  # name -> (FileSrc, size)
        self.spec_streams = []  # streams of the specified log structure: (base, start, announced length)
        self.soft = []  # preferences for concrete assignments

    def fail_path(self, exc):
        self.dead = exc
        raise exc

    # ---------------------------------------------------------------- solver
    def check(self, *extra):
        """Satisfiability of the path condition and extra."""
        start = time.perf_counter()
        res = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - start
        self.stats.queries += 1
        if res == z3.sat:
            self.stats.sat += 1
            return True
        if res == z3.unsat:
            self.stats.unsat += 1
            return False
        self.fail_path(SolverUnknown(self.solver.reason_unknown()))

    def axiom(self, expr):
        self.solver.add(expr)

    def decide(self, cond):
        """Fork on a SymBool: both feasible outcomes are explored."""
        if self.dead:
            raise self.dead
        known = self.known.get(cond.key)
        if known is not None:
            return known
        pos = len(self.trace)
        expr = cond.z3()
        if pos < len(self.prefix):
            taken = self.prefix[pos][0]
        else:
            if self.deadline and _now() > self.deadline:
                self.fail_path(BoundExceeded("time budget"))
            if not self.check(expr):
                taken = False  # The path condition is satisfiable (invariant), so the other outcome must be.
            else:
                taken = True
                if self.check(z3.Not(expr)):
                    self.stats.decisions += 1
                    self.todo.append(self.trace + [(False, None)])
        self.trace.append((taken, None))
        self.solver.add(expr if taken else z3.Not(expr))
        self._learn(cond, taken)
        return taken

    def _learn(self, cond, value):
        self.known[cond.key] = value
        neg = cond.neg_key()
        if neg is not None:
            self.known[neg] = not value
        self.held.append(cond)
        kind = cond.kind
        if kind == "not":
            self._learn(cond.args[0], not value)
        elif (kind == "and" and value) or (kind == "or" and not value):
            for part in cond.args:
                if part.key not in self.known:
                    self._learn(part, value)
        elif kind == "eq" and value:
            diff = cond.args[0]
            if len(diff.t) == 1 and diff.t[0][1] in (1, -1):
                self._bound(diff.t[0][0], -diff.c * diff.t[0][1])

    def _bound(self, atom, const):
        from . import values

        if atom not in self.bound:
            self.bound[atom] = const
            values.rebind(self)

    def decide_value(self, sym, cap=80):
        """Concretise a SymInt: one value at a time, forking on the rest; a unique value costs no fork."""
        if self.dead:
            raise self.dead
        for _ in range(cap):
            pos = len(self.trace)
            expr = sym.z3()
            if pos < len(self.prefix):
                taken, value = self.prefix[pos]
            else:
                if not self.check():
                    self.fail_path(PathInfeasible())
                value = self.solver.model().eval(expr, model_completion=True).as_long()
                taken = True
                if self.check(expr != value):
                    self.stats.decisions += 1
                    self.todo.append(self.trace + [(False, value)])
            self.trace.append((taken, value))
            self.solver.add(expr == value if taken else expr != value)
            if taken:
                cond = sym == value
                if not isinstance(cond, bool):
                    self._learn(cond, True)
                return value
        self.fail_path(BoundExceeded("more than %d values to concretise" % cap))

    def must(self, cond):
        """True if cond holds on every assignment of the current path (no fork)."""
        if cond is True or cond is False:
            return cond
        known = self.known.get(cond.key)
        if known is not None:
            return known
        return not self.check(z3.Not(cond.z3()))

    def assume(self, cond):
        """Constrain the inputs.  Every assume is part of the claim."""
        if self.dead:
            raise self.dead
        if cond is True:
            return
        if cond is False:
            self.fail_path(PathInfeasible())
        self.solver.add(cond.z3())
        self._learn(cond, True)

    def bind(self, value, const):
        """Assume value == const and use the constant in every term built from here on."""
        if type(value) is int:
            if value != const:
                self.fail_path(PathInfeasible())
            return
        self.assume(value == const)

    def settle(self):
        """Drop the path if the assumptions made so far contradict each other."""
        if not self.check():
            self.fail_path(PathInfeasible())

    def tick(self):
        self.ticks += 1
        if self.dead:
            raise self.dead
        if self.ticks > self.max_ticks:
            self.fail_path(BoundExceeded("loop iterations"))
        if self.deadline and _now() > self.deadline:
            self.fail_path(BoundExceeded("time budget"))

    # ---------------------------------------------------------------- assertions
    def expect(self, cond, label, detail=None):
        """Assert cond (deferred: all assertions of a path are discharged together)."""
        if self.dead:
            raise self.dead
        if cond is True:
            self.stats.asserts_structural += 1
            return
        self.pending.append((cond, label, detail))

    def flush(self):
        """Discharge the deferred assertions with the solver."""
        pending, self.pending = self.pending, []
        if not pending:
            return
        bad = [p for p in pending if p[0] is False]
        if bad:
            self._cex(None, bad[0])
            return
        exprs = [p[0].z3() for p in pending]
        self.stats.asserts_solver += len(exprs)
        goal = z3.Not(z3.And(*exprs)) if len(exprs) > 1 else z3.Not(exprs[0])
        if not self.check(goal):
            return
        self._cex(goal, None, pending, exprs)

    def _cex(self, goal, item, pending=None, exprs=None):
        from . import values

        self.solver.push()
        try:
            if goal is not None:
                self.solver.add(goal)
            # Exact encoding of aliasing between positions: only needed once the coarse one finds an assignment.
            for expr in values.precise_constraints(self):
                self.solver.add(expr)
            self.stats.precise_queries += 1
            if not self.check():
                return
            if item is None:
                model = self.solver.model()
                for pend, expr in zip(pending, exprs):
                    if z3.is_false(model.eval(expr, model_completion=True)):
                        item = pend
                        break
                else:
                    item = pending[0]
            realise = self.realise()
            self.cexes.append(Counterexample(item[1], str(item[2]) if item[2] is not None else "", self._path_text(),
                                             realise))
        finally:
            self.solver.pop()
        if len(self.cexes) >= self.max_cex:
            self.dead = StopTask()
            raise self.dead

    def _exception(self, exc):
        where = []
        trace = exc.__traceback__
        while trace is not None:
            where.append("%s:%d" % (trace.tb_frame.f_code.co_filename.rsplit("/", 1)[-1], trace.tb_lineno))
            trace = trace.tb_next
        self._cex(None, (False, "exception", "%s at %s" % (type(exc).__name__, " < ".join(where[::-1][:6]))))

    def _path_text(self):
        return "".join("T" if t else "F" for t, _ in self.trace)

    def realise(self):
        """Concrete description of one assignment of the current path (see realise.py)."""
        from . import realise

        return realise.describe(self)

    def witness(self, name):
        """Reachability witness: the assertion point `name` was reached on a feasible path."""
        self.reached[name] = self.reached.get(name, 0) + 1

    # ---------------------------------------------------------------- exploration
    def explore(self, harness, sample_models=2, sample_filter=None):
        global CTX
        self.todo = [[]]
        while self.todo:
            if self.stats.paths >= self.max_paths:
                self.problems.append(("bound", "more than %d paths" % self.max_paths))
                break
            if self.deadline and _now() > self.deadline:
                self.problems.append(("time", "time budget exhausted with %d paths left" % len(self.todo)))
                break
            prefix = self.todo.pop()
            self._begin_path(prefix)
            CTX = self
            try:
                self.in_path = True
                harness(self)
                if self.dead:
                    raise self.dead
                self.flush()
                self.stats.paths += 1
                self.stats.branches += len(self.trace)
                if len(self.path_models) < sample_models or (self.stats.paths % 37 == 0 and
                                                             len(self.path_models) < 3 * sample_models):
                    self._sample()
            except PathInfeasible:
                self.stats.infeasible_paths += 1
            except StopTask:
                break
            except Exception as exc:  # pylint: disable=broad-except
                # The package behaved in a way the harness did not expect: a candidate, decided by replay.
                self.stats.paths += 1
                try:
                    if self.dead:
                        raise self.dead
                    self._exception(exc)
                except StopTask:
                    break
                except EngineControl as err:
                    self.problems.append((type(err).__name__, str(err)))
                    if len(self.problems) > 3:
                        break
            except (Unsupported, BoundExceeded, SolverUnknown) as exc:
                self.stats.paths += 1
                self.problems.append((type(exc).__name__, str(exc)))
                self.dead = None
                try:
                    self._sample()
                except EngineControl:
                    pass
                if len(self.problems) > 3:
                    break
            finally:
                self.in_path = False
                CTX = None
        return self

    def _sample(self):
        """Keep one concrete assignment of this path for validation against the real code."""
        from . import values

        self.solver.push()
        try:
            for expr in values.precise_constraints(self):
                self.solver.add(expr)
            self.solver.set("timeout", 5000)
            try:
                if self.check():
                    self.path_models.append(self.realise())
            except SolverUnknown:
                self.dead = None
        finally:
            self.solver.set("timeout", self.query_ms)
            self.solver.pop()
