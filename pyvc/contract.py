"""Contracts over the real classes and functions, and their verification.

A class contract names the real class, the contract (spec) class that states its
behaviour, how an object with a given abstract view is built through the public
constructor (`build`), and how the view of a spec object is read (`canon`).
Each operation is a small client snippet; verifying it generates, on every
feasible path, the obligations

  outcome : the real operation returns / raises exactly as the contract says
  result  : the value returned equals the contract's
  state   : the representation reached equals the representation of the view the
            contract prescribes (so the class invariant is re-established and
            nothing else changed), up to leaves that the code never reads
  frame   : a second object built beforehand is untouched

for every view satisfying the invariant and every argument in its domain.
"""
import importlib
import time
import traceback

import z3

from .values import *          # noqa: F401,F403
from .values import (N, SInt, SBool, SStr, SFloat, HObj, HList, HDict, SliceV,
                     RangeV, PyExc, Unsupported, SymKey, Lazy)
from .explore import explore, PathEnd, term_vars
from .interp import Interp, is_concrete, _IMMUT
from . import builtin, values, sparse, maps
from .domains import AnyInt, OneOf, Const


class AnyReject(Exception):
    """In a contract: some exception must be raised, whichever it is."""


def resolve(path):
    if path.startswith("@"):         # computed namespace entry
        return resolve(path[1:])()
    mod, _, name = path.partition(":")
    m = importlib.import_module(mod)
    o = m
    for p in name.split("."):
        o = getattr(o, p)
    return o


class Op:
    """One operation of a class contract: a snippet f(obj, *args)."""

    def __init__(self, f, *doms, cases=None, pre=None, quick=True, cls=False,
                 budget=None, weight=1.0, native=False, follow=False):
        self.f = f
        self.follow = follow        # hidden state that drifts is an observed position
        self.doms = doms
        self.cases = cases          # list of dicts: arg index -> domain, "J" -> sparse.start's pos
        self.pre = pre              # pre(view..., args...) -> bool, interpreted
        self.cls = cls              # f receives the class (constructor snippet)
        self.quick = quick
        self.budget = budget
        self.weight = weight
        self.native = native        # bounded: executed natively, not proved


class ClassContract:
    name = None
    real = None                     # "module:Class"
    spec = None
    view = ()                       # domains of the abstract view
    view_cases = None               # list of {view index: domain}
    ops = {}
    uses = ()                       # names of contracts of classes it relies on
    other = None                    # concrete view of a second instance
    ctor_args = {}                  # constructor op -> view index of each argument

    @staticmethod
    def config(attrs):
        """View components of an abstract object that are fixed for its life
        (index -> concrete value), or None when not concrete."""
        return None

    @staticmethod
    def inv(*view):
        return True

    @staticmethod
    def build(cls, *view):
        return cls(*view)

    @staticmethod
    def canon(s):
        raise NotImplementedError

    @staticmethod
    def observe(o):
        raise NotImplementedError


class FuncContract:
    """Scenario contract: f(M, *args) run on the real namespace and on the
    contract namespace must agree."""
    name = None
    real = None                     # namespace: dict name -> "module:attr"
    spec = None
    ops = {}
    uses = ()


# --------------------------------------------------------------- comparison
def struct_eq(it, a, b, memo=None):
    """Equality of results: plain data, structurally (types of containers
    included, bool/int interchangeable as in Python ==)."""
    return it.eq(a, b)


class Mismatch:
    def __init__(self, path, cond, leaf):
        self.path = path
        self.cond = cond            # bool/SBool that must hold
        self.leaf = leaf            # True: scalar leaf (can be freed)


def graph_diff(it, a, b, path, out, memo):
    """Conditions under which two heap graphs are isomorphic."""
    if isinstance(a, (sparse.AbsL, sparse.AbsD)) or isinstance(b, (sparse.AbsL, sparse.AbsD)):
        if not isinstance(a, (sparse.AbsL, sparse.AbsD)):
            a, b = b, a
        k = (id(a), id(b))
        if k not in memo:
            memo[k] = True
            memo.setdefault("keep", []).append((a, b))
            a.vdiff(it, b, path, out, memo)
        return
    if isinstance(a, (HObj, HList, HDict)) or isinstance(b, (HObj, HList, HDict)):
        if type(a) is not type(b):
            out.append(Mismatch(path, False, False))
            return
        k = (id(a), id(b))
        if k in memo:
            return
        if ("l", id(a)) in memo or ("r", id(b)) in memo:
            # sharing differs between the two graphs
            if memo.get(("l", id(a))) is not b or memo.get(("r", id(b))) is not a:
                out.append(Mismatch(path + "@alias", False, False))
                return
        memo[k] = True
        memo[("l", id(a))] = b
        memo[("r", id(b))] = a
        memo.setdefault("keep", []).append((a, b))
        if isinstance(a, HObj):
            if a.cls is not b.cls:
                out.append(Mismatch(path, False, False))
                return
            for n in sorted(set(a.attrs) | set(b.attrs)):
                if n not in a.attrs or n not in b.attrs:
                    out.append(Mismatch(path + "." + n, False, False))
                    continue
                graph_diff(it, a.attrs[n], b.attrs[n], path + "." + n, out, memo)
        elif isinstance(a, HList):
            if len(a.items) != len(b.items):
                out.append(Mismatch(path, False, False))
                return
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                graph_diff(it, x, y, "%s[%d]" % (path, i), out, memo)
        else:
            if len(a) != len(b):
                out.append(Mismatch(path, False, False))
                return
            for c in a.cells():
                d = it.dict_find(b, c[0])
                if d is None:
                    out.append(Mismatch(path, False, False))
                    return
                graph_diff(it, c[1], d[1], "%s{%r}" % (path, c[0] if is_concrete(c[0]) else "?"),
                           out, memo)
        return
    f = getattr(a, "vdiff", None)
    if f:
        f(it, b, path, out, memo)
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and type(a) is tuple:
        if len(a) != len(b):
            out.append(Mismatch(path, False, False))
            return
        for i, (x, y) in enumerate(zip(a, b)):
            graph_diff(it, x, y, "%s(%d)" % (path, i), out, memo)
        return
    try:
        c = it.eq(a, b)
    except Unsupported:
        c = a is b
    if c is not True:
        out.append(Mismatch(path, c, True))


def navigate(root, path):
    """(container, key) of a leaf path produced by graph_diff."""
    import re
    toks = re.findall(r"\.([A-Za-z_0-9]+)|\[(\d+)\]|\{([^}]*)\}", path)
    cur = root
    prev = None
    for a, i, d in toks:
        if a:
            prev = (cur, ("attr", a))
            if not isinstance(cur, HObj) or a not in cur.attrs:
                return None
            cur = cur.attrs[a]
        elif i:
            prev = (cur, ("item", int(i)))
            if not isinstance(cur, HList) or int(i) >= len(cur.items):
                return None
            cur = cur.items[int(i)]
        else:
            if not isinstance(cur, HDict):
                return None
            for hk, c in cur.d.items():
                if repr(c[0]) == d:
                    prev = (cur, ("cell", c))
                    cur = c[1]
                    break
            else:
                return None
    return prev, cur


def havoc_leaf(it, root, path, pos=None):
    r = navigate(root, path)
    if r is None or r[0] is None:
        raise Unsupported("free leaf %s not found" % path)
    (cont, (kind, key)), cur = r
    if isinstance(cur, (int, SInt, SBool)) or cur is None:
        def mk(it):
            if pos is not None:
                return pos
            return OneOf(AnyInt(), Const(None)).sym(it, "free" + path)
        v = Lazy(mk) if kind == "attr" else mk(it)
    elif isinstance(cur, (str, SStr)):
        v = SStr(z3.String(it.ctx.name("free" + path)))
    else:
        raise Unsupported("free leaf of type %s" % type(cur).__name__)
    if kind == "attr":
        cont.attrs[key] = v
    elif kind == "item":
        cont.items[key] = v
    else:
        key[1] = v


def snapshot(it, v):
    if isinstance(v, maps.AnyMap):
        return maps.copy(v)
    return builtin.b_deepcopy(it, [v], {})


# ------------------------------------------------------------ concretisation
def concretise(model, v):
    """Interpreter input value -> JSON-able description of a native value."""
    if isinstance(v, SInt):
        t = model.eval(v.t, model_completion=True) if model is not None else None
        if t is None:
            return v.lo if v.lo is not None else 0
        if z3.is_bv_value(t):
            return t.as_signed_long()
        return t.as_long()
    if isinstance(v, SBool):
        return z3.is_true(model.eval(v.t, model_completion=True)) if model is not None else False
    if isinstance(v, SStr):
        if model is None:
            return ""
        t = model.eval(v.t, model_completion=True)
        return unescape(t.as_string())
    if isinstance(v, SliceV):
        return {"slice": [concretise(model, v.start), concretise(model, v.stop)]}
    if isinstance(v, tuple):
        return {"tuple": [concretise(model, x) for x in v]}
    if isinstance(v, sparse.AbsL):
        return v.vconc(model)
    if isinstance(v, HList):
        return [concretise(model, x) for x in v.items]
    if isinstance(v, HDict):
        return {"dict": [[concretise(model, c[0]), concretise(model, c[1])] for c in v.cells()]}
    f = getattr(v, "vconc", None)
    if f:
        return f(model)
    if isinstance(v, _IMMUT):
        return v
    raise Unsupported("cannot concretise %r" % (v,))


def unescape(s):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}|\\x([0-9a-fA-F]{2})",
                  lambda m: chr(int(m.group(1) or m.group(2), 16)), s)


# --------------------------------------------------------------- one task
class Task:
    """A verification task: one operation of one contract in one case."""

    def __init__(self, contract, op, case=0, inline=(), free=()):
        self.contract = contract        # contract name
        self.op = op
        self.case = case
        self.inline = tuple(sorted(inline))
        self.free = tuple(sorted(free))

    @property
    def id(self):
        return "%s.%s#%d" % (self.contract, self.op, self.case)


def subst_for(registry, contract, inline):
    """Contracts of the classes the code of `contract` relies on."""
    out = {}
    for u in contract.uses:
        if u in inline:
            continue
        c = registry[u]
        out[resolve(c.real)] = resolve(c.spec)
    return out


def note_assumed(registry, contract, it, info):
    """Which contracts stood in for code, and in which configurations."""
    byspec = {resolve(registry[u].spec): u for u in contract.uses}
    for o in it.absobjs:
        u = byspec.get(o.cls)
        if u is None:
            continue
        if not o.attrs:              # rejected by its constructor
            info["rejected"].add(u)
            continue
        cfg = registry[u].config(o.attrs)
        info["assumed"].add((u, None if cfg is None else tuple(sorted(cfg.items()))))


def op_cases(contract, op):
    """List of (view override, arg override)."""
    vs = getattr(contract, "view_cases", None) or [{}]
    if op.cls:
        vs = [{}]
    if getattr(op, "view_cases", None):
        vs = op.view_cases
    cs = op.cases or [{}]
    return [(v, c) for v in vs for c in cs]


def run_op(it, f, args):
    """(kind, value): ('ret', v) or ('exc', class)."""
    try:
        return "ret", it.call(f, list(args), {})
    except PyExc as e:
        return "exc", e.cls
    except maps.StepEnd as e:
        return "step", e


def exc_ok(real_cls, spec_cls):
    if spec_cls is AnyReject:
        return issubclass(real_cls, Exception)
    return real_cls is spec_cls


def run_class_task(registry, task, budget=300.0):
    contract = registry[task.contract]
    op = contract.ops[task.op]
    vcase, acase = op_cases(contract, op)[task.case]
    real = resolve(contract.real)
    spec = resolve(contract.spec)
    subst = subst_for(registry, contract, task.inline)
    info = {"called": set(), "assumed": set(), "steps": 0, "rejected": set()}
    free = list(task.free)
    fam = getattr(contract, "family", None)
    observe = getattr(contract, "sparse", None)
    cache = BuildCache()

    def run(ctx):
        it = Interp(ctx, subst)
        st = Interp(ctx, subst)
        st.ufs = it.ufs
        it.role, st.role = "r", "s"
        try:
            got = None if op.cls else cache.restore(ctx, it, st)
            if observe and got is None:
                sparse.start(ctx, pos=acase.get("J"), **observe)
            if op.cls:
                args = []
                for i, d in enumerate(op.doms):
                    d = acase.get(i, d)
                    args.append(d.sym(it, "a%d" % i))
                ctx.inputs = {"ctor": task.op, "args": args}
                if op.pre is not None:
                    ctx.assume(it.truthc(it.call(op.pre, list(args), {})))
                kr, vr = run_op(it, op.f, [real] + args)
                ks, vs = run_op(st, op.f, [spec] + args)
                if not outcome_obl(ctx, it, task, kr, vr, ks, vs, check_val=False):
                    return
                if kr == "exc":
                    return
                view = st.call(contract.canon, [vs], {})
                can = it.call(contract.build, [real] + list(view), {})
                state_obl(ctx, it, task, vr, can)
                return
            args = None
            at = {}
            if observe and got is None:             # before the view: positions that are arguments are observed
                if op.follow:
                    at = {p: sparse.track(it, SInt(z3.Int(ctx.name("free" + p)), None, None))
                          for p in free}
                args = [acase.get(i, d).sym(it, "a%d" % i) for i, d in enumerate(op.doms)]
            if got is not None:
                view, r, s, oth = got[:4]
                if observe:
                    args = list(got[4].items)
                    at = dict(zip(free, args[len(op.doms):]))
                    args = args[:len(op.doms)]
            else:
                view = []
                for i, d in enumerate(contract.view):
                    d = vcase.get(i, d)
                    view.append(d.sym(it, "v%d" % i))
                ctx.inputs = {"view": view, "op": task.op, "args": []}
                if contract.inv is not ClassContract.inv:
                    ctx.assume(it.truthc(it.call(contract.inv, list(view), {})))
                r = it.call(contract.build, [real] + list(view), {})
                s = st.call(contract.build, [spec] + list(view), {})
                if fam:
                    r = fam(it, contract, r, view)
                oth = None
                if contract.other is not None:
                    oth = it.call(contract.build,
                                  [real] + [it.lift(x) for x in contract.other], {})
                cache.save(ctx, it, st, (view, r, s, oth) +
                           ((HList(args + list(at.values())),) if observe else ()))
            base = None
            npc = len(ctx.pc)
            if oth is not None:
                oth0 = snapshot(it, oth)
            if args is None:
                args = [acase.get(i, d).sym(it, "a%d" % i) for i, d in enumerate(op.doms)]
            ctx.inputs = {"view": view, "op": task.op, "args": args}
            if op.pre is not None:
                ctx.assume(it.truthc(it.call(op.pre, list(view) + args, {})))
            if not fam:
                base = snapshot(it, r)
            for p in free:
                havoc_leaf(it, r, p, at.get(p))
            ar = [snapshot(it, a) if isinstance(a, (HList, HDict)) else a for a in args]
            kr, vr = run_op(it, op.f, [r] + ar)
            ks, vs = run_op(st, op.f, [s] + args)
            if not outcome_obl(ctx, it, task, kr, vr, ks, vs):
                return
            nview = st.call(contract.canon, [s], {})
            can = None
            if base is not None:
                can = restate(ctx, it, base, view, nview, npc)
            if can is None:
                can = it.call(contract.build, [real] + list(nview), {})
                if fam:
                    can = fam(it, contract, can, nview)
            state_obl(ctx, it, task, r, can, skip=free)
            if oth is not None:
                out = []
                graph_diff(it, oth, oth0, "", out, {})
                ctx.prove(it.conj([m.cond for m in out]), task.id + "/frame")
        finally:
            info["called"] |= it.called
            note_assumed(registry, contract, it, info)
            info["steps"] += it.steps + st.steps

    out = explore(run, budget_s=op.budget or budget)
    return out, info


def restate(ctx, it, base, view, nview, npc):
    """build(nview), obtained from base = build(view) by substituting the
    changed components, when the facts build(view) relied on hold for nview."""
    if len(view) != len(nview):
        return None
    sub = {}
    for x, y in zip(view, nview):
        if x is y:
            continue
        tx, ty = getattr(x, "t", None), getattr(y, "t", None)
        if tx is None:
            if type(x) is type(y) and isinstance(x, _IMMUT) and x == y:
                continue
            return None
        if ty is not None and type(x) is type(y) and tx.eq(ty):
            continue
        if not isinstance(x, SInt) or not x.bv or not z3.is_const(tx):
            return None
        if type(y) is int and x.lo <= y <= x.hi:
            ty = z3.BitVecVal(y, N)
        elif not isinstance(y, SInt) or not y.bv:
            return None
        sub[tx.get_id()] = (tx, ty)
    if not sub:
        return base
    pairs = list(sub.values())
    for c in ctx.pc[:npc]:
        vs, fun = term_vars(c)
        if fun:
            return None
        if sub.keys().isdisjoint(vs):
            continue
        d = ctx.simp(z3.substitute(c, *pairs))
        if z3.is_true(d):
            continue
        if z3.is_false(d) or ctx._solve([z3.Not(d)])[0] != "unsat":
            return None

    def leaf(v):
        t = getattr(v, "t", None)
        if t is None:
            raise Unsupported("leaf")
        vs, fun = term_vars(t)
        if sub.keys().isdisjoint(vs):
            return v
        n = z3.substitute(t, *pairs)
        if isinstance(v, SInt):
            return SInt(n, v.lo, v.hi)
        return type(v)(n)
    try:
        return builtin.b_deepcopy(it, [base], {}, leaf=leaf)
    except Unsupported:
        return None


class BuildCache:
    """Objects built from the view, shared by the paths that agree on every
    decision taken while building them."""

    def __init__(self):
        self.entries = []

    @staticmethod
    def pack(it, st, objs):
        """Copy of everything mutable, in one go so that sharing is kept."""
        roots = [HList([x for x in objs[0]])] + list(objs[1:])
        ks = []
        for i in (it, st):
            for k, (v, h) in i.lifted.items():
                ks.append(("l", i is it, k, v))
                roots.append(h)
            for k, h in i.gover.items():
                ks.append(("g", i is it, k, None))
                roots.append(h)
            for k, h in i.cover.items():
                ks.append(("c", i is it, k, None))
                roots.append(h)
        t = snapshot(it, tuple(roots))
        return t, ks, [it.absobjs[:], it.ufs, it.called, it.assumed]

    def save(self, ctx, it, st, objs):
        try:
            p = self.pack(it, st, objs)
        except Unsupported:
            return
        self.entries.append((tuple(ctx.taken), p, list(ctx.pc), dict(ctx.fresh),
                             ctx.model, ctx.pure, len(objs), list(ctx.eqs), dict(ctx.known),
                             sparse.save(ctx)))

    def restore(self, ctx, it, st):
        for taken, (t, ks, misc), pc, fresh, model, pure, n, eqs, known, obs in self.entries:
            if len(ctx.prefix) < len(taken) or tuple(ctx.prefix[:len(taken)]) != taken:
                continue
            if ctx.taken or ctx.pc:
                return None
            c = snapshot(it, t)
            for (kind, isit, k, v), h in zip(ks, c[n:]):
                i = it if isit else st
                if kind == "l":
                    i.lifted[k] = (v, h)
                elif kind == "g":
                    i.gover[k] = h
                else:
                    i.cover[k] = h
            it.absobjs = misc[0][:]
            it.ufs.update(misc[1])
            it.called |= misc[2]
            it.assumed |= misc[3]
            ctx.taken = list(taken)
            ctx.pos = len(taken)
            ctx.pc = list(pc)
            ctx.eqs = list(eqs)
            ctx.fresh = dict(fresh)
            ctx.model = model
            ctx.pure = pure
            ctx.known = dict(known)
            sparse.load(ctx, obs)
            return (c[0].items,) + tuple(c[1:n])
        return None


def outcome_obl(ctx, it, task, kr, vr, ks, vs, check_val=True):
    if kr != ks:
        ctx.prove(False, task.id + "/outcome",
                  {"real": describe(kr, vr), "contract": describe(ks, vs)})
        return False
    if kr == "exc":
        ok = exc_ok(vr, vs)
        ctx.prove(ok, task.id + "/outcome",
                  {"real": describe(kr, vr), "contract": describe(ks, vs)})
        return ok
    ctx.prove(True, task.id + "/outcome")
    if check_val:
        sparse.COMPARING[0] = True
        try:
            c = struct_eq(it, vr, vs)
        finally:
            sparse.COMPARING[0] = False
        ctx.prove(c, task.id + "/result")
    return True


def describe(k, v):
    if k == "exc":
        return "raises " + v.__name__
    if k == "step":
        return "goes on with the loop"
    return "returns"


def state_obl(ctx, it, task, r, can, skip=()):
    out = []
    graph_diff(it, r, can, "", out, {})
    skip = set(skip)
    ms = [m for m in out if m.path not in skip]
    if not ms:
        ctx.prove(True, task.id + "/state")
    for m in ms:
        ctx.prove(m.cond, task.id + "/state" + m.path,
                  {"leaf": m.leaf, "path": m.path})


def run_func_task(registry, task, budget=300.0):
    contract = registry[task.contract]
    op = contract.ops[task.op]
    _, acase = op_cases(contract, op)[task.case]
    subst = subst_for(registry, contract, task.inline)
    info = {"called": set(), "assumed": set(), "steps": 0, "rejected": set()}
    observe = getattr(contract, "sparse", None)
    R = {k: resolve(p) for k, p in contract.real.items()}
    S = {k: resolve(p) for k, p in contract.spec.items()}
    carry = maps.Info() if getattr(contract, "carry", False) else None
    # classes that are represented by what another property says about them
    callees = {resolve(a): resolve(b) for a, b in getattr(contract, "callees", {}).items()}

    def run(ctx):
        it = Interp(ctx, subst)
        st = Interp(ctx, subst)
        st.ufs = it.ufs
        it.role, st.role = "r", "s"
        it.carry = st.carry = carry
        it.subst = {**it.subst, **callees}
        if observe:
            sparse.start(ctx, pos=acase.get("J"), **observe)
        try:
            args = []
            for i, d in enumerate(op.doms):
                d = acase.get(i, d)
                args.append(d.sym(it, "a%d" % i))
            ctx.inputs = {"func": task.op, "args": args}
            if op.pre is not None:
                ctx.assume(it.truthc(it.call(op.pre, list(args), {})))
            NR = HObj(NS, {k: it.lift(v) for k, v in R.items()})
            NSp = HObj(NS, {k: st.lift(v) for k, v in S.items()})
            ar = [snapshot(it, a) if isinstance(a, (HList, HDict)) else a for a in args]
            kr, vr = run_op(it, op.f, [NR] + ar)
            ks, vs = run_op(st, op.f, [NSp] + args)
            if (kr == "step") != (ks == "step"):
                maps.other_loop(it if ks == "step" else st)
            if kr == ks == "step":
                maps.step_obl(ctx, it, st, task, contract, vr, vs)
                return
            ok = outcome_obl(ctx, it, task, kr, vr, ks, vs)
            if ok and kr != "exc" and it.world is not None and it.world.results:
                # what the hypothesis says about an included file holds for this one
                view = lambda i: [i.call(contract.hypothesis, [r], {}) for r in i.world.results]
                sparse.COMPARING[0] = True
                try:
                    c = it.eq(HList(view(it)), HList(view(st)))
                finally:
                    sparse.COMPARING[0] = False
                ctx.prove(c, task.id + "/hypothesis")
        finally:
            info["called"] |= it.called
            note_assumed(registry, contract, it, info)
            info["steps"] += it.steps + st.steps

    while True:
        try:
            out = explore(run, budget_s=op.budget or budget,
                          forks=getattr(contract, "forks", 0), patient=carry is not None,
                          share={k: info[k] for k in ("called", "assumed", "rejected")})
        except maps.Restart:
            continue
        return out, info


class NS:
    """Namespace of the implementation under a scenario."""


def run_task(registry, task, budget=300.0):
    """Verify one task. Returns a picklable dict."""
    t0 = time.time()
    contract = registry[task.contract]
    values.MERGING[0] = getattr(contract, "merge", False)
    values.TRACK[0] = bool(values.MERGING[0] or getattr(contract, "sparse", None))
    is_cls = isinstance(contract, type) and issubclass(contract, ClassContract)
    res = {"id": task.id, "contract": task.contract, "op": task.op,
           "case": task.case, "inline": list(task.inline), "free": []}
    free = set(task.free)
    obl = {}
    first = None
    try:
        while True:
            t = Task(task.contract, task.op, task.case, task.inline, free)
            out, info = (run_class_task if is_cls else run_func_task)(
                registry, t, budget)
            leaf = set()
            other = False
            for f in out.failures:
                if f["info"] and f["info"].get("leaf"):
                    leaf.add(f["info"]["path"])
                else:
                    other = True
            if other or not leaf or len(free) > 12 or leaf <= free:
                break
            # representation leaves that drift: verify for every value of them
            if first is None:
                first = out
            free |= leaf
        obl = out.obligations
        res["stats"] = {"obligations": out.stats.obligations,
                        "discharged": out.stats.discharged,
                        "paths": out.stats.paths,
                        "complete_paths": out.complete_paths,
                        "queries": out.stats.queries,
                        "solver_s": out.stats.solver_s}
        res["free"] = sorted(free)
        res["called"] = sorted(info["called"])
        for u in info["rejected"] - {a[0] for a in info["assumed"]}:
            info["assumed"].add((u, None))
        res["assumed"] = sorted(info["assumed"], key=repr)
        res["failures"] = []
        fails = list(out.failures)
        if first is not None and (out.failures or out.undecided):
            fails = first.failures + fails
        for f in fails:
            d = {"obligation": f["name"], "info": f["info"],
                 "inexact": list(f["ctx"].inexact)}
            try:
                d["inputs"] = {k: concretise_args(f["model"] or f["ctx"].model, v)
                               for k, v in f["ctx"].inputs.items()}
            except (Unsupported, z3.Z3Exception, AttributeError) as e:
                d["inputs"] = None
                d["why"] = str(e)
            res["failures"].append(d)
        res["undecided"] = [list(u) for u in out.undecided][:10]
        if fails:
            res["status"] = "failed"
        elif out.undecided or not out.proved:
            res["status"] = "undecided"
            if not out.undecided:
                res["undecided"] = [["vacuity", "no obligation or no feasible path"]]
        else:
            res["status"] = "proved"
    except Exception as e:
        res["status"] = "undecided"
        res["undecided"] = [["engine", "".join(traceback.format_exception_only(e)).strip(),
                             traceback.format_exc()[-800:]]]
        res.setdefault("stats", {"obligations": 0, "discharged": 0, "paths": 0,
                                 "complete_paths": 0, "queries": 0, "solver_s": 0.0})
        res.setdefault("failures", [])
        res.setdefault("called", [])
        res.setdefault("assumed", [])
    res["obligations"] = obl
    res["wall_s"] = time.time() - t0
    return res


def concretise_args(model, v):
    if isinstance(v, list):
        return [concretise(model, x) for x in v]
    return concretise(model, v) if not isinstance(v, str) else v
