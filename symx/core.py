"""Path explorer: decisions, solver, budgets, candidate violations.

A path is a run of the harness from the start under a prefix of decisions.  Decisions are taken at branches on
symbolic booleans, n-way choices (dict keys), harness choices (lengths, flags) and concretisations.  The solver
stack is shared between consecutive paths (depth first), one push per asserted constraint.
"""
import time
import z3
from . import state, zz

z3.set_param("verbose", 0)


class EngineStop(BaseException):
    """Never caught by the code under test (`except Exception`)."""


class PathAbort(EngineStop):
    """Path infeasible / assumed away / cut on purpose."""


class Unsupported(EngineStop):
    """Something the engine has no model for."""


class WorkLimit(EngineStop):
    """The path ran more steps than the harness allows."""


class Inconclusive(EngineStop):
    """Solver gave up."""


_cur = None


def cur():
    return _cur


def set_cur(x):
    global _cur
    _cur = x


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Pending:
    __slots__ = ("prefix", "model", "maybe")

    def __init__(self, prefix, model, maybe=False):
        self.prefix, self.model, self.maybe = prefix, model, maybe


class Explorer:
    def __init__(self, timeout_ms=20000, max_paths=20000, max_time=600.0, seed=1, max_concretise=6,
                 tick_limit=400000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.solver.set("random_seed", seed)
        self.max_paths, self.max_time = max_paths, max_time
        self.max_concretise = max_concretise
        self.default_tick_limit = tick_limit
        self.asserted = []          # constraints on the solver stack
        self.pending = []
        self.paths = self.decisions_total = self.queries = 0
        self.solver_time = 0.0
        self.checks_total = self.checks_reached = 0
        self.aborted = 0
        self.candidates = []        # (label, inputs, detail)
        self.inconclusive = []      # strings
        self.cuts = {}              # description -> count
        self.functions = set()
        self.labels = {}            # check label -> times decided
        self.samples = []           # (inputs, observations) for validation
        self.want_samples = 4
        self.path_seen_check = False
        self.keep = []
        self.kept = set()
        self.in_cache, self.and_cache, self.member_cache, self.simp_cache = {}, {}, {}, {}
        self.max_candidates = 6
        self.grace = 15
        self.weak = 0               # candidates that depend on how a rounding goes
        self.incomplete = None
        self.icp = None
        self.icp_boxes = 0
        self.partial = []           # inputs of paths the engine could not follow to the end: replayed on the real code
        self.term_cache = {}
        self.proven = {}

    # ------------------------------------------------------------------ paths
    def explore(self, body):
        """body() runs the harness once under the current prefix."""
        t0 = time.time()
        self.t0 = t0
        self.pending = [Pending([], None)]
        first = None
        set_cur(self)
        try:
            while self.pending:
                if self.paths >= self.max_paths or time.time() - t0 > self.max_time:
                    self.incomplete = "%s: %d paths, %.0f s, %d pending" % ("budget" if self.paths >= self.max_paths else "time",self.paths, time.time() - t0, len(self.pending))
                    break
                if len(self.candidates) - self.weak >= self.max_candidates or self.weak >= 25:
                    self.incomplete = "stopped after %d candidate violations" % len(self.candidates)
                    break
                if self.candidates:
                    # a counterexample exists: look a little further for others, then report
                    if first is None: first = time.time()
                    elif time.time() - first > self.grace * (4 if self.weak == len(self.candidates) else 1):
                        self.incomplete = "stopped after %d candidate violations" % len(self.candidates)
                        break
                p = self.pending.pop()
                self.run_path(p, body)
        finally:
            set_cur(None)
        self.wall = time.time() - t0

    def run_path(self, p, body):
        self.prefix, self.model, self.maybe = p.prefix, p.model, p.maybe
        self.idx = 0
        self.taken = []
        self.npc = 0
        self.known = {}
        self.dom = {}
        self.fresh = 0
        self.inputs = {}            # name -> (kind, thing)
        self.obs = []
        self.soft = []              # conditions under which a nondeterministic model step (rounding ties) is determined
        self.cache = {}             # hash-consing of derived values (floats...)
        self.ticks = 0
        self.tick_limit = self.default_tick_limit
        self.work_label = None
        self.path_seen_check = False
        self.prove_only = []
        self.icp = None
        self.symkeys = {}           # containers with symbolic keys
        self.memo = {}              # functools caches
        state.restore()
        self.paths += 1
        self.on_start() if hasattr(self, "on_start") else None
        try:
            body()
            if self.maybe:
                r = self.check_sat()
                if r == "unsat":
                    raise PathAbort("infeasible")
            self.end_path()
        except PathAbort:
            self.aborted += 1
        except Unsupported as e:
            if self.feasible():
                self.lost("unsupported: %s" % e)
        except Inconclusive as e:
            self.lost(str(e))
        except WorkLimit as e:
            if self.work_label is not None:
                self.labels[self.work_label] = self.labels.get(self.work_label, 0) + 1
                n = len(self.candidates)
                self.candidate(self.work_label, "work limit exceeded")
                if len(self.candidates) > n: self.candidates[-1][1][:0] = self.large_model()
            elif self.feasible():
                self.lost("tick limit exceeded")
        except RecursionError as e:
            self.lost("recursion limit in engine: %s" % e)
        except Exception as e:
            # the harness let it escape: the property is broken here unless the engine is at fault (replay decides)
            import traceback
            tb_ = traceback.extract_tb(e.__traceback__)
            where = next((f for f in reversed(tb_) if "pynmeagps" in f.filename), tb_[-1])
            label = "unexpected %s" % type(e).__name__
            self.path_seen_check = True
            self.labels[label] = self.labels.get(label, 0) + 1
            if self.feasible():
                self.candidate(label, "%s at %s:%s; engine frame %s:%s" % (repr(e)[:200], where.filename, where.lineno, tb_[-1].filename, tb_[-1].lineno))
        if self.path_seen_check:
            self.checks_reached += 1

    def feasible(self):
        if self.icp is not None: return self.icp.feasible() is not False
        return self.check_sat() != "unsat"

    def lost(self, why):
        """a path (prefix) that was not explored to its end"""
        self.inconclusive.append(why)
        if len(self.partial) < 6:
            try:
                m = self.get_model()
                if m is not None:
                    self.partial.append((why, self.concrete_inputs(m)))
            except (EngineStop, Exception):
                pass

    def end_path(self):
        if self.obs and len(self.samples) < self.want_samples:
            m = self.get_model()
            if m is not None and self.soft and not all(zz.holds(m, c) for c in self.soft):
                m = self._m if self._check(*self.soft) == "sat" else None
            if m is not None:
                try:
                    self.samples.append((self.concrete_inputs(m), [self.conc(o, m) for o in self.obs]))
                except Unsupported as e:
                    pass

    # ----------------------------------------------------------------- solver
    def _sync(self):
        """drop constraints of an earlier path beyond the current one"""
        if len(self.asserted) > self.npc:
            self.solver.pop(len(self.asserted) - self.npc)
            del self.asserted[self.npc:]

    def _push(self, c):
        n = self.npc
        if n < len(self.asserted):
            if zz.ident(self.asserted[n], c):
                self.npc += 1
                return
            self._sync()
        self.solver.push()
        self.solver.add(c)
        self.asserted.append(c)
        self.npc += 1

    def _check(self, *extra):
        self._sync()
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        if r == z3.unknown:
            # retry in a fresh solver (different engine / no incremental state)
            t = time.time()
            s = z3.Solver()
            s.set("timeout", self.timeout_ms * 2)
            for a in self.asserted:
                s.add(a)
            for e in extra:
                s.add(e)
            r = s.check()
            self.solver_time += time.time() - t
            self.queries += 1
            if r == z3.sat:
                self._m = s.model()
                return "sat"
            return "unsat" if r == z3.unsat else "unknown"
        if r == z3.sat:
            self._m = self.solver.model()
            return "sat"
        return "unsat"

    def check_sat(self):
        if self.model is not None:
            return "sat"
        r = self._check()
        if r == "sat":
            self.model = self._m
        return r

    def get_model(self):
        if self.check_sat() == "sat":
            return self.model
        return None

    def assume(self, c):
        """Add constraint c (z3 Bool or python bool); abort the path if infeasible."""
        if c is True:
            return
        if c is False:
            raise PathAbort("assumed away")
        c = z3.simplify(c)
        if zz.is_true(c):
            return
        if zz.is_false(c):
            raise PathAbort("assumed away")
        replay = self.idx < len(self.prefix)
        self._push(c)
        if self.model is not None:
            if not zz.holds(self.model, c):
                self.model = None
        if self.model is None and not replay:
            r = self._check()
            if r == "unsat":
                raise PathAbort("assumed away")
            if r == "sat":
                self.model = self._m

    def define(self, c):
        """Add a defining constraint for fresh variables (always satisfiable)."""
        c = z3.simplify(c)
        if zz.is_true(c):
            return
        self._push(c)
        if self.model is not None and not zz.holds(self.model, c):
            self.model = None

    def simp(self, c):
        k = c.get_id()
        hit = self.simp_cache.get(k)
        if hit is None:
            if len(self.simp_cache) > 200000: self.simp_cache.clear()
            hit = self.simp_cache[k] = (z3.simplify(c), c)
        return hit[0]

    # -------------------------------------------------------------- decisions
    def branch(self, c, lit=None):
        if c is True or c is False:
            return c
        if zz.is_true(c):
            return True
        if zz.is_false(c):
            return False
        k = c.get_id()
        v = self.known.get(k)
        if v is not None:
            return v[0]
        c0 = c
        c = self.simp(c)
        if zz.is_true(c):
            return True
        if zz.is_false(c):
            return False
        self.decisions_total += 1
        if self.idx < len(self.prefix):
            d = self.prefix[self.idx]
            self.idx += 1
            self.taken.append(d)
            if d[1]:
                self._push(c if d[0] else z3.Not(c))
            self._learn(c0, lit, d[0])
            return d[0]
        if self.model is None:
            r = self._check()
            if r == "unsat":
                raise PathAbort("infeasible")
            if r == "unknown":
                raise Inconclusive("solver unknown on path condition")
            self.model = self._m
        m = self.model
        v = zz.holds(m, c)
        alt = z3.Not(c) if v else c
        r = self._check(alt)
        forced = r == "unsat"
        if r == "sat":
            self.pending.append(Pending(self.taken + [(not v, True)], self._m))
        elif r == "unknown":
            self.pending.append(Pending(self.taken + [(not v, True)], None, True))
        self.taken.append((v, not forced))
        self.idx += 1
        self.model = m
        if not forced:
            self._push(c if v else z3.Not(c))
        self._learn(c0, lit, v)
        return v

    def _learn(self, c, lit, v):
        self.known[c.get_id()] = (v, c)
        if lit is not None:
            var, mask = lit
            full = (1 << 256) - 1
            i = var.get_id()
            self.dom[i] = self.dom.get(i, full) & (mask if v else full & ~mask)

    def choose(self, conds):
        """conds: list of z3 Bools, mutually exclusive and exhaustive on this path -> index."""
        live = [(i, c) for i, c in enumerate(conds) if not (c is False or (not isinstance(c, bool) and zz.is_false(c)))]
        for i, c in live:
            if c is True or (not isinstance(c, bool) and zz.is_true(c)):
                return i
        if len(live) == 1:
            return live[0][0]
        self.decisions_total += 1
        if self.idx < len(self.prefix):
            d = self.prefix[self.idx]
            self.idx += 1
            self.taken.append(d)
            self._push(conds[d[0]])
            return d[0]
        found = []
        rem = list(live)
        while rem:
            if not found and self.model is not None:
                m = self.model
            else:
                r = self._check(z3.Or([c for _, c in rem]))
                if r == "unsat":
                    break
                if r == "unknown":
                    raise Inconclusive("solver unknown in choose")
                m = self._m
            hit = [(i, c) for i, c in rem if zz.holds(m, c)]
            if not hit:
                if not found and self.model is not None:
                    self.model = None
                    continue
                raise Inconclusive("choose: model satisfies no alternative")
            found.append((hit[0][0], m))
            rem = [x for x in rem if x[0] != hit[0][0]]
        if not found:
            raise PathAbort("infeasible")
        for i, m in found[1:]:
            self.pending.append(Pending(self.taken + [(i, True)], m))
        i, m = found[0]
        self.taken.append((i, True))
        self.idx += 1
        self.model = m
        self._push(conds[i])
        return i

    def pick(self, n):
        """harness-level nondeterministic choice among n (no constraint)."""
        if n == 1:
            return 0
        if self.idx < len(self.prefix):
            d = self.prefix[self.idx]
            self.idx += 1
            self.taken.append(d)
            return d[0]
        for i in range(n - 1, 0, -1):
            self.pending.append(Pending(self.taken + [(i, False)], self.model))
        self.taken.append((0, False))
        self.idx += 1
        return 0

    def concretise(self, mkval, eqcond, what):
        """Fork over concrete values of something: mkval(model)->value, eqcond(value)->z3 Bool.
        At most max_concretise values are followed; the rest is recorded as a cut."""
        if self.idx < len(self.prefix):
            d = self.prefix[self.idx]
            self.idx += 1
            self.taken.append(d)
            c = eqcond(d[0])
            if c is not True:
                self._push(c)
            return d[0]
        vals = []
        excl = []
        while len(vals) < self.max_concretise:
            if not vals and self.model is not None:
                m = self.model
            else:
                r = self._check(*excl)
                if r == "unsat":
                    break
                if r == "unknown":
                    raise Inconclusive("solver unknown while concretising %s" % what)
                m = self._m
            v = mkval(m)
            c = eqcond(v)
            vals.append((v, m, c))
            if c is True:
                break
            excl.append(z3.Not(c))
        else:
            if self._check(*excl) != "unsat":
                self.cuts[what] = self.cuts.get(what, 0) + 1
        if not vals:
            raise PathAbort("infeasible")
        for v, m, c in reversed(vals[1:]):
            self.pending.append(Pending(self.taken + [(v, True)], m))
        v, m, c = vals[0]
        self.taken.append((v, True))
        self.idx += 1
        self.model = m
        if c is not True:
            self._push(c)
        return v

    # ------------------------------------------------------------------ ticks
    def tick(self, n=1):
        self.ticks += n
        if self.ticks > self.tick_limit:
            raise WorkLimit()

    # ----------------------------------------------------------------- checks
    def check(self, c, label):
        self.path_seen_check = True
        self.checks_total += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if c is True:
            return True
        if c is not False:
            c = z3.simplify(c)
            if zz.is_true(c):
                return True
            if zz.is_false(c):
                c = False
        if self.idx < len(self.prefix):     # already decided on an earlier path with this prefix
            if c is False:
                raise PathAbort("failed check on shared prefix")
            if c.get_id() not in self.proven:
                self._push(c)
            return True
        if c is False:
            self.candidate(label, "assertion is false on this path")
            raise PathAbort("check failed")
        r = self._check(z3.Not(c))
        if r == "unsat":
            self.proven[c.get_id()] = c
            return True
        if r == "unknown":
            self.proven[c.get_id()] = c
            self.inconclusive.append("solver unknown on check: " + label)
            return True
        saved = self.model
        self.candidate(label, "solver model", self._m, z3.Not(c))
        self.model = saved
        # continue under the assumption that it holds
        self._push(c)
        if self.model is not None and not zz.holds(self.model, c):
            self.model = None
        if self.check_sat() == "unsat":
            raise PathAbort("check fails everywhere on this path")
        return False

    def candidate(self, label, detail, model=None, neg=None):
        models = []
        if self.soft:               # prefer a model that does not depend on how a tie is rounded
            if self._check(*self.soft, *([neg] if neg is not None else [])) == "sat":
                model = self._m
            else:
                self.weak += 1
        if model is None:
            model = self.get_model()
        if model is None:
            if self.check_sat() == "unsat":
                return
            self.inconclusive.append("no model for candidate: " + label)
            return
        try:
            models.append(self.concrete_inputs(model))
        except Unsupported as e:
            self.inconclusive.append("cannot build input for candidate %s: %s" % (label, e))
            return
        # further, different models of the same violation: the first may not survive float rounding
        if neg is not None and self.uses_real():
            models += self.more_models(neg, model)
        self.candidates.append((label, models, detail))

    def uses_real(self):
        from .values import SFloat
        return any(isinstance(t, SFloat) for k, t in self.inputs.values())

    def large_model(self):
        """the inputs of this path with digits as large as possible: what costs memory or time in built-ins shows only then"""
        from . import values as V
        eqs = []
        for k, t in self.inputs.values():
            if isinstance(t, V.SSeq):
                for c in V.items(t)[:12]:
                    if isinstance(c, int): continue
                    q = V.tb(V.ch_eq(c, 57))
                    if self._check(*eqs, q) == "sat": eqs.append(q)
        if not eqs or self._check(*eqs) != "sat": return []
        try:
            return [self.concrete_inputs(self._m)]
        except Unsupported:
            return []

    def more_models(self, neg, model, n=12):
        from .values import SFloat
        out = []
        excl = [neg]
        last = model
        for i in range(n):
            eqs = []
            for k, t in self.inputs.values():
                if isinstance(t, SFloat):
                    r = t.apx[0] if t.apx is not None else t.real()
                    eqs.append(r == last.eval(r, model_completion=True))
            if not eqs:
                break
            excl.append(z3.Not(z3.And(eqs)))
            if self._check(*excl) != "sat":
                break
            last = self._m
            try:
                out.append(self.concrete_inputs(last))
            except Unsupported:
                break
        return out

    # ------------------------------------------------------------ concretising
    def concrete_inputs(self, m):
        return {n: self.conc(t, m) for n, (k, t) in self.inputs.items()}

    def conc(self, x, m):
        from . import values
        return values.conc(x, m)

    def newname(self, base):
        self.fresh += 1
        return "%s!%d" % (base, self.fresh)
