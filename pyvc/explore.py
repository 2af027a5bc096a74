"""Path exploration (by re-execution) and the discharge of obligations.

A *run* is a Python callable run(ctx) that executes code symbolically; at every
fork it asks ctx.branch(cond) or ctx.choose(n).  explore() replays the run with
growing decision prefixes until every feasible path has been taken.  There is no
bound on inputs: a path is dropped only when the solver refutes its condition.
"""
import ctypes
import multiprocessing
import os
import signal
import time
from multiprocessing import connection

import z3

from .values import Unsupported, SBool, SInt, SStr
from . import strings, values


class PathEnd(Exception):
    """The path is infeasible or has been cut on purpose."""


class MergeAbort(Exception):
    """Two outcomes cannot be merged: fork instead."""


class Budget(Unsupported):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.unknown = 0


_pure_cache = {}
HARD = [0]              # queries over texts that the abstraction could not refute


def _is_bv_term(t):
    """True when the term stays within Bool/BitVec without functions."""
    key = t.get_id()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return False
        s = x.sort().kind()
        if s not in (z3.Z3_BOOL_SORT, z3.Z3_BV_SORT):
            return False
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            return False
        stack.extend(x.children())
    return True


_vars = {}


def term_vars(t):
    """(frozenset of constant ids, has functions): what a term depends on."""
    k = t.get_id()
    r = _vars.get(k)
    if r is not None:
        return r[1], r[2]
    seen = set()
    vs = {}
    fun = False
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            fun = True
            stack.append(x.body())
            continue
        if z3.is_var(x):
            continue
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.num_args():
                fun = True
            else:
                vs[i] = x
                if x.sort().kind() == z3.Z3_ARRAY_SORT:
                    fun = True
        stack.extend(x.children())
    _vars[k] = (t, vs, fun)          # keeps t alive: its id stays unique
    return vs, fun


_heavyc = {}
_qcache = {}        # ids of the constraints -> (verdict, model, constraints kept alive)


def _heavy(t):
    """Contains a shift by a symbolic amount, a product or a quotient."""
    k = t.get_id()
    r = _heavyc.get(k)
    if r is not None:
        return r[1]
    seen = set()
    stack = [t]
    res = False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x) or z3.is_var(x):
            res = True
            break
        dk = x.decl().kind()
        if dk in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR):
            if not z3.is_bv_value(x.arg(1)):
                res = True
                break
        elif dk in (z3.Z3_OP_BMUL, z3.Z3_OP_BSDIV, z3.Z3_OP_BUDIV, z3.Z3_OP_BSREM,
                    z3.Z3_OP_BUREM, z3.Z3_OP_BSMOD):
            res = True
            break
        stack.extend(x.children())
    _heavyc[k] = (t, res)
    return res


class Model:
    """A model of the path condition, updated slice by slice."""

    def __init__(self, base, over=None):
        self.base = base
        self.over = over or {}
        self.abstract = getattr(base, "abstract", False)

    def updated(self, m, vs):
        o = dict(self.over)
        for i, v in vs.items():
            o[i] = (v, m.eval(v, model_completion=True))
        return Model(self.base, o)

    def eval(self, t, model_completion=True):
        if self.over:
            vs, _ = term_vars(t)
            sub = [self.over[i] for i in vs if i in self.over]
            if sub:
                t = z3.substitute(t, *sub)
        return self.base.eval(t, model_completion=model_completion)


class Ctx:
    def __init__(self, prefix, stats, deadline, q_timeout=20000):
        self.prefix = prefix
        self.pos = 0
        self.taken = []           # (index, n_alternatives_left) decisions
        self.pending = []         # prefixes to explore later
        self.pc = []              # path condition (z3 Bools)
        self.pmodel = None        # model known for the whole prefix
        self.eqs = []             # (term, value) equalities implied by pc
        self.pure = True
        self.model = None
        self.stats = stats
        self.deadline = deadline
        self.q_timeout = q_timeout
        self.fresh = {}
        self.failed = []          # failed obligations
        self.undecided = []       # unknown obligations
        self.inexact = []         # reasons why a model may be spurious
        self.inputs = {}          # name -> creation record, for concretisation
        self.obl_names = []
        self.spec = 0             # depth of speculative (merged) execution
        self.hint = None
        self.memo = {}            # parts of arbitrary inputs looked at so far (files.FS)
        self.known = {}           # conditions decided on this path
        self.sparse = None        # observed indices (sparse.Observed)
        self.blog = None          # conditions branched on, when indices are observed

    # -- symbols
    def name(self, base):
        n = self.fresh.get(base, 0)
        self.fresh[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    # -- solver
    def _solve(self, extra, timeout=None, exact=False):
        if time.time() > self.deadline:
            raise Budget("time budget of the task exhausted")
        fs = self.pc + extra
        part = None
        if self.model is not None and extra:
            part = self._slice(extra)
        if part is not None and any(strings.has_seq(f) for f in part[0] + extra):
            part = None
        if part is not None:
            fs = part[0] + extra
        elif any(strings.has_seq(f) for f in fs):
            r, m = self._solve_strings(fs, exact)
            if r is not None:
                return r, m
            # texts for which the condition fails are not found by the abstraction;
            # the exact solver may find some (or show that there are none)
            HARD[0] += 1
            if HARD[0] > 4:
                return "unknown", None
            timeout = 8000
            fs = fs + strings.facts(fs)
        if self.pure:
            pure = all(_is_bv_term(e) for e in extra)
        else:
            pure = part is not None and all(_is_bv_term(e) for e in fs)
        s = z3.SolverFor("QF_BV") if pure else z3.Solver()
        key = None
        if part is not None:
            key = frozenset(c.get_id() for c in fs)
            hit = _qcache.get(key)
            if hit is not None:
                if hit[0] == "unsat":
                    return "unsat", None
                return "sat", self.model.updated(hit[1], part[1])
        if part is not None and pure and not any(_heavy(e) for e in extra):
            light = [c for c in part[0] if not _heavy(c)]
            if len(light) < len(part[0]):
                q = z3.SolverFor("QF_BV")
                q.set("timeout", 2000)
                q.add(*light, *extra)
                t0 = time.time()
                r = q.check()
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t0
                if r == z3.unsat:
                    _qcache[key] = ("unsat", None, fs)
                    return "unsat", None
                if r == z3.sat:
                    vs = {}
                    for c in light + extra:
                        vs.update(term_vars(c)[0])
                    m = self.model.updated(q.model(), vs)
                    if all(z3.is_true(m.eval(c)) for c in part[0] if _heavy(c)):
                        return "sat", m
        left = max(1, int((self.deadline - time.time()) * 1000))
        s.set("timeout", min(timeout or self.q_timeout, left))
        s.add(*fs)
        t0 = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == z3.sat:
            if part is not None:
                m = s.model()
                _qcache[key] = ("sat", m, fs)
                return "sat", self.model.updated(m, part[1])
            return "sat", Model(s.model())
        if r == z3.unsat:
            if key is not None:
                _qcache[key] = ("unsat", None, fs)
            return "unsat", None
        return "unknown", None

    def _solve_strings(self, fs, exact):
        left = max(1, int((self.deadline - time.time()) * 1000))
        t0 = time.time()
        r, m = strings.check(fs, min(self.q_timeout, left))
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == "unsat" or (r == "sat" and not exact):
            return r, m
        self.amodel = m
        return None, None

    def _slice(self, extra):
        """The constraints connected to `extra` (the others share no symbol
        with it and hold in the current model)."""
        vs = {}
        for e in extra:
            v, fun = term_vars(e)
            if fun:
                return None
            vs.update(v)
        keep = [False] * len(self.pc)
        tv = [term_vars(c) for c in self.pc]
        again = True
        while again:
            again = False
            for i, (v, fun) in enumerate(tv):
                if keep[i] or v.keys().isdisjoint(vs):
                    continue
                if fun:
                    return None
                keep[i] = True
                if not v.keys() <= vs.keys():
                    vs.update(v)
                    again = True
        return [c for i, c in enumerate(self.pc) if keep[i]], vs

    def simp(self, c):
        if self.eqs:
            c = z3.substitute(c, *self.eqs)
        return z3.simplify(c)

    def learn(self, t, v):
        """pc implies t == v (v a concrete int): used to simplify later terms."""
        while z3.is_bv(t) and t.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            t = t.arg(0)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = z3.BitVecVal(v, t.size()) if z3.is_bv(t) else z3.IntVal(v)
            if not any(e[0].eq(t) for e in self.eqs):
                self.eqs.append((t, n))

    def _add(self, c):
        if z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            if z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                a, b = b, a
            if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                    and (z3.is_bv_value(b) or z3.is_int_value(b) or z3.is_string_value(b)):
                self.eqs.append((a, b))
        self.pc.append(c)
        if self.pure and not _is_bv_term(c):
            self.pure = False

    def assume(self, cond, check=True):
        """Add a fact; the path ends when it is contradictory."""
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
            return
        if isinstance(cond, SBool):
            cond = cond.t
        cond = self.simp(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd()
        self._add(cond)
        if self.model is not None and not self._holds(cond):
            self.model = None
        if check and self.model is None:
            r, m = self._solve([])
            if r == "unsat":
                raise PathEnd()
            self.model = m

    def _holds(self, cond):
        if self.model is None:
            return None
        try:
            v = self.model.eval(cond, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, cond):
        """cond: bool, SBool or z3 Bool. Returns a concrete bool."""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SBool):
            cond = cond.t
        if self.blog is not None:
            self.blog.append(cond)
        k = self.known.get(cond.get_id())
        if k is not None:
            return k[1]
        r = self._branch(cond)
        self.known[cond.get_id()] = (cond, r)
        return r

    def _branch(self, cond):
        cond = self.simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = self.simp(z3.Not(cond))
        for c in self.pc:
            if c.eq(cond):
                return True
            if c.eq(neg):
                return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            if d >= 0:
                self._add(cond if d else neg)
                if self.pos == len(self.prefix) and self.pmodel is not None:
                    self.model = self.pmodel
                elif self.model is not None and not self._holds(self.pc[-1]):
                    self.model = None
            return bool(d & 1) if d >= 0 else (d == -1)
        # fresh decision
        can_t, can_f, mt, mf = self._feasible(cond, neg)
        if not can_t and not can_f:
            raise PathEnd()
        if can_t and can_f:
            if self.spec:
                raise MergeAbort("fork")
            self.pending.append((self.taken + [0], mf))
            self.taken.append(1)
            self.pos += 1
            self._add(cond)
            self.model = mt
            return True
        # forced: record as -1 (True) / -2 (False): no constraint to add
        d = -1 if can_t else -2
        self.taken.append(d)
        self.pos += 1
        self.model = mt if can_t else mf
        return can_t

    def _feasible(self, cond, neg):
        if self.hint is not None:
            h, self.hint = self.hint, None
            if h[0].eq(cond):
                return True, True, h[1], h[2]
        h = self._holds(cond)
        mt = mf = None
        can_t = can_f = None
        if h is True:
            can_t, mt = True, self.model
        elif h is False:
            can_f, mf = True, self.model
        if can_t is None:
            r, mt = self._solve([cond])
            can_t = r != "unsat"
        if can_f is None:
            r, mf = self._solve([neg])
            can_f = r != "unsat"
        return can_t, can_f, mt, mf

    def merge_decision(self, cond):
        """Decision at a mergeable conditional: a bool when it is determined, "F" to
        fork, else (cond, model, model of the negation, mark)."""
        if isinstance(cond, bool):
            return cond
        if self.blog is not None:
            self.blog.append(cond.t if isinstance(cond, SBool) else cond)
        cond = self.simp(cond.t if isinstance(cond, SBool) else cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = self.simp(z3.Not(cond))
        for c in self.pc:
            if c.eq(cond):
                return True
            if c.eq(neg):
                return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            if d == "F":
                return "F"
            if d == "M":
                return cond, None, None, len(self.taken) - 1
            return d == -1
        can_t, can_f, mt, mf = self._feasible(cond, neg)
        if not can_t and not can_f:
            raise PathEnd()
        self.pos += 1
        if can_t and can_f:
            self.taken.append("M")
            self.hint = None
            return cond, mt, mf, len(self.taken) - 1
        self.taken.append(-1 if can_t else -2)
        self.model = mt if can_t else mf
        return can_t

    def merge_abort(self, mark, cond, mt, mf):
        if mark < len(self.prefix):
            raise Unsupported("replay diverged")
        self.taken[mark:] = ["F"]
        self.pos = mark + 1
        if mt is not None and mf is not None and not self.spec:
            self.hint = (cond, mt, mf)

    def choose(self, n, label=None):
        """Non-deterministic choice of 0..n-1 (all explored)."""
        if n == 1:
            return 0
        if self.blog is not None:
            self.blog.append(None)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            return d
        if self.spec:
            raise MergeAbort("choice")
        for k in range(n - 1, 0, -1):
            self.pending.append((self.taken + [k], None))
        self.taken.append(0)
        self.pos += 1
        return 0

    # -- obligations
    def prove(self, cond, name, info=None):
        """Discharge pc => cond. True when proved."""
        if self.spec:
            raise MergeAbort("obligation")
        self.stats.obligations += 1
        self.obl_names.append(name)
        if isinstance(cond, SBool):
            cond = cond.t
        if isinstance(cond, bool):
            if cond:
                self.stats.discharged += 1
                return True
            cond = z3.BoolVal(False)
        cond = self.simp(cond)
        if z3.is_true(cond):
            self.stats.discharged += 1
            return True
        if self._holds(cond) is False and not self.model.abstract:
            self.failed.append((name, self.model, info))
            return False
        self.amodel = None
        r, m = self._solve([z3.Not(cond)], timeout=max(self.q_timeout, 240000), exact=True)
        if r == "unsat":
            self.stats.discharged += 1
            return True
        if r == "unknown" and self.amodel is not None:
            # fails in the abstraction of texts, which the contracts do not go beyond
            self.failed.append((name, self.amodel, info))
            return False
        if r == "sat" and m.abstract:
            # the condition fails on every text; find texts for which the path is taken
            cur, self.model = self.model, None
            r2, m2 = self._solve([z3.Not(cond)], exact=True)
            self.model = cur
            if r2 == "unsat":
                self.stats.discharged += 1
                return True
            m = m2 if r2 == "sat" else m
        if r == "sat":
            self.failed.append((name, m, info))
        else:
            self.stats.unknown += 1
            self.undecided.append((name, "solver gave no answer"))
        return False


class Outcome:
    """What an exploration established."""

    def __init__(self):
        self.stats = Stats()
        self.failures = []        # dicts: name, ctx, model, info
        self.undecided = []       # (name, why)
        self.obligations = {}     # name -> count
        self.complete_paths = 0

    @property
    def proved(self):
        return (not self.failures and not self.undecided
                and self.complete_paths > 0 and self.stats.obligations > 0)


def explore(run, budget_s=300.0, q_timeout=20000, max_paths=20000,
            max_failures=12, forks=0, share=None, patient=False):
    """Take every feasible path.  With forks, other processes take paths too;
    what they find is reported after this process has taken the same path.
    patient: a failure counts only when no path raises anything else (maps.Restart)."""
    out = Outcome()
    HARD[0] = 0
    deadline = time.time() + budget_s
    stack = [([], None)]
    while stack:
        if out.stats.paths >= max_paths:
            out.undecided.append(("exploration", "path budget"))
            break
        if time.time() > deadline:
            out.undecided.append(("exploration", "time budget"))
            break
        if forks and len(stack) >= 6:
            team = Team(run, forks, out, stack, deadline, q_timeout, share)
            try:
                hits = team.work(max_paths, patient)
            finally:
                team.close()
            for prefix in sorted(hits, key=len)[:max_failures]:
                n = len(out.failures)
                out.stats.paths -= 1
                take(run, out, prefix, None, deadline, q_timeout)
                if len(out.failures) == n:
                    out.undecided.append(("path", "failure not repeated"))
                    break
            break
        prefix, pmodel = stack.pop()
        stack.extend(take(run, out, prefix, pmodel, deadline, q_timeout))
        if len(out.failures) >= max_failures and not patient or len(out.undecided) >= 50:
            break
    return out


def take(run, out, prefix, pmodel, deadline, q_timeout):
    """One path; the prefixes it leaves to explore."""
    ctx = Ctx(prefix, out.stats, deadline, q_timeout)
    ctx.pmodel = pmodel
    values.HEAP[:] = []
    values.SPEC[:] = []
    out.stats.paths += 1
    try:
        run(ctx)
        out.complete_paths += 1
    except PathEnd:
        pass
    except Unsupported as e:
        # undecided only if the path is feasible at all
        out.undecided.append(("path", "%s: %s" % (type(e).__name__, e)))
    except z3.Z3Exception as e:
        out.undecided.append(("path", "z3: %s" % e))
    except RecursionError:
        out.undecided.append(("path", "recursion too deep"))
    for n in ctx.obl_names:
        out.obligations[n] = out.obligations.get(n, 0) + 1
    for name, m, info in ctx.failed:
        out.failures.append({"name": name, "model": m, "info": info,
                             "ctx": ctx})
    out.undecided.extend(ctx.undecided)
    return ctx.pending


def with_parent():
    """End with the parent process."""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass


class Team:
    """Processes that explore parts of the tree of paths."""

    def __init__(self, run, n, out, stack, deadline, q_timeout, share):
        self.run, self.out, self.deadline, self.q_timeout = run, out, deadline, q_timeout
        self.share = share
        self.todo = [p for p, _ in stack]
        self.ends = []
        self.pids = []
        for _ in range(n):
            a, b = multiprocessing.Pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    with_parent()
                    for e in self.ends + [a]:
                        e.close()
                    self.member(b)
                except BaseException:
                    pass
                finally:
                    os._exit(0)
            b.close()
            self.ends.append(a)
            self.pids.append(pid)

    def member(self, end):
        while True:
            prefix = end.recv()
            out, stack, hits, again = Outcome(), [(prefix, None)], [], None
            for v in (self.share or {}).values():
                v.clear()
            t = time.time()
            while stack and (time.time() - t < 2 or len(stack) < 2) and not hits:
                p, m = stack.pop()
                n = len(out.failures)
                try:
                    stack.extend(take(self.run, out, p, m, self.deadline, self.q_timeout))
                except Exception as e:
                    out.undecided.append(("engine", "%s: %s" % (type(e).__name__, e)))
                except BaseException:
                    again = p
                    break
                if len(out.failures) > n:
                    hits.append(p)
                if time.time() > self.deadline:
                    break
            s = out.stats
            end.send(([p for p, _ in stack], hits, again,
                      [s.queries, s.solver_s, s.paths, s.obligations, s.discharged, s.unknown],
                      out.obligations, [tuple(map(str, u)) for u in out.undecided],
                      out.complete_paths, {k: set(v) for k, v in (self.share or {}).items()}))

    def work(self, max_paths, patient):
        """Paths on which an obligation failed."""
        out, hits = self.out, []
        idle = list(self.ends)
        busy = []
        while (self.todo or busy) and (patient or not hits):
            if time.time() > self.deadline:
                out.undecided.append(("exploration", "time budget"))
                break
            if out.stats.paths >= max_paths:
                out.undecided.append(("exploration", "path budget"))
                break
            while idle and self.todo:
                e = idle.pop()
                e.send(self.todo.pop(0))
                busy.append(e)
            for e in connection.wait(busy, 1):
                try:
                    left, h, again, st, obl, und, done, share = e.recv()
                except EOFError:
                    out.undecided.append(("exploration", "a process ended"))
                    return hits
                busy.remove(e)
                idle.append(e)
                if again is not None:           # raises the same
                    take(self.run, out, again, None, self.deadline, self.q_timeout)
                    out.undecided.append(("path", "restart not repeated"))
                    return hits
                self.todo.extend(left)
                hits.extend(h)
                s = out.stats
                s.queries += st[0]
                s.solver_s += st[1]
                s.paths += st[2]
                s.obligations += st[3]
                s.discharged += st[4]
                s.unknown += st[5]
                for n, k in obl.items():
                    out.obligations[n] = out.obligations.get(n, 0) + k
                out.undecided.extend(und)
                out.complete_paths += done
                for k, v in share.items():
                    self.share[k] |= v
                if len(out.undecided) >= 50:
                    return hits
        return hits

    def close(self):
        for e in self.ends:
            e.close()
        for p in self.pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(p, 0)
