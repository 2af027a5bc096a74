"""Merging the two outcomes of a conditional into one state.

When a branch condition is undetermined, both sides are executed on the same
heap (one after the other, with the heap restored in between) and the two final
states are merged: a value that differs becomes an if-then-else term, or a
SUnion of guarded alternatives.  Whenever something stands in the way (an
exception, a nested undetermined fork, lists of different lengths, ...) nothing
has happened and the path forks instead.  Merging changes how many paths there
are, not what is proved."""
import z3

from .values import (Lazy, MISSING_, SInt, SBool, SStr, SUnion, HObj, HList, HDict, PyExc, Unsupported, mk_bool,
                     to_bv, to_mint, iv, mk_sint, is_intlike, as_int)
from . import values, sparse, maps
from .explore import PathEnd, MergeAbort

FORK = object()


def content(o):
    if isinstance(o, HObj):
        return dict(o.attrs)
    if isinstance(o, HList):
        return o.sd.copy() if type(o) is not HList else list(o.items)
    if isinstance(o, HDict):
        if type(o) is not HDict:
            return o.sd.copy()
        return [(k, c, c[0], c[1]) for k, c in o.d.items()], o.nsym
    return dict(o.vars)                         # Frame


def snap(it):
    return [(o, content(o)) for o in values.HEAP], dict(it.gover), dict(it.cover)


def abstract(c):
    return not isinstance(c, (list, tuple))


def restore(it, s):
    for o, c in s[0]:
        if isinstance(o, HObj):
            o.attrs = dict(c)
        elif isinstance(o, HList):
            if abstract(c):
                o.__class__ = sparse.AbsL
                sparse._L.__set__(o, c.copy())
            else:
                o.__class__ = HList
                o.items = list(c)
        elif isinstance(o, HDict):
            if abstract(c):
                o.__class__ = maps.AnyMap if isinstance(c, maps.MapD) else sparse.AbsD
                sparse._D.__set__(o, c.copy())
                continue
            o.__class__ = HDict
            d = {}
            for k, cell, a, b in c[0]:
                cell[0], cell[1] = a, b
                d[k] = cell
            o.d = d
            o.nsym = c[1]
        else:
            o.vars = dict(c)
    it.gover = dict(s[1])
    it.cover = dict(s[2])


def ite(c, a, b):
    """Value that is a when c holds, else b."""
    if isinstance(a, Lazy) or isinstance(b, Lazy):
        a = a.val if isinstance(a, Lazy) else a
        b = b.val if isinstance(b, Lazy) else b
        if a is MISSING_ or b is MISSING_:
            raise MergeAbort("lazy attribute")
    if a is b:
        return a
    if type(a) in (int, str, bool, type(None)) and type(a) is type(b) and a == b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        x = z3.BoolVal(a) if isinstance(a, bool) else a.t
        y = z3.BoolVal(b) if isinstance(b, bool) else b.t
        return mk_bool(z3.If(c, x, y))
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and \
            not isinstance(a, bool) and not isinstance(b, bool):
        al, ah = iv(a)
        bl, bh = iv(b)
        lo = None if al is None or bl is None else min(al, bl)
        hi = None if ah is None or bh is None else max(ah, bh)
        x, y = to_bv(a), to_bv(b)
        if x is not None and y is not None:
            return mk_sint(z3.If(c, x, y), lo, hi)
        return mk_sint(z3.If(c, to_mint(a), to_mint(b)), lo, hi)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        x = z3.StringVal(a) if isinstance(a, str) else a.t
        y = z3.StringVal(b) if isinstance(b, str) else b.t
        if x.eq(y):
            return a
        return SStr(z3.simplify(z3.If(c, x, y)))
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    alts = []
    for g, v in alts_of(a):
        alts.append((z3.simplify(z3.And(c, g)), v))
    for g, v in alts_of(b):
        g = z3.simplify(z3.And(z3.Not(c), g))
        for i, (h, w) in enumerate(alts):
            if same_kind(w, v):
                alts[i] = (z3.simplify(z3.Or(h, g)), ite(h, w, v))
                break
        else:
            alts.append((g, v))
    if len(alts) > 6:
        raise MergeAbort("too many alternatives")
    return SUnion(alts)


def same_kind(a, b):
    if a is b:
        return True
    for k in ((bool, SBool), (str, SStr)):
        if isinstance(a, k) and isinstance(b, k):
            return True
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
        return not isinstance(a, bool) and not isinstance(b, bool)
    return False


def alts_of(v):
    if isinstance(v, SUnion):
        return v.alts
    return [(z3.BoolVal(True), v)]


def merge_states(it, c, a, b):
    """Heap where c selects state a, else state b (both as snapshots)."""
    def mdict(x, y, missing):
        if list(x) != list(y):
            if set(x) != set(y) and missing is None:
                raise MergeAbort("attributes")
        out = {}
        for k in list(x) + [k for k in y if k not in x]:
            u, v = x.get(k, missing), y.get(k, missing)
            if u is not v:
                u = ite(c, u, v)
            out[k] = u
        return out
    todo = []
    for (o, x), (p, y) in zip(a[0], b[0]):
        assert o is p
        if isinstance(o, HObj):
            if x != y or any(x[k] is not y[k] for k in x):
                todo.append((o, mdict(x, y, None)))
        elif isinstance(x, maps.MapD) or isinstance(y, maps.MapD):
            if not (isinstance(x, maps.MapD) and isinstance(y, maps.MapD)) or \
                    x.base != y.base or x.more != y.more or len(x.cells) != len(y.cells) or \
                    any(u is not v for p, q in zip(x.cells, y.cells) for u, v in zip(p, q)):
                raise MergeAbort("unknown keys")
            todo.append((o, x))
        elif isinstance(o, (HList, HDict)) and (abstract(x) or abstract(y)):
            if not (abstract(x) and abstract(y)) or len(x.vis) != len(y.vis) or \
                    x.unit != y.unit or x.lo is not y.lo or x.hi is not y.hi or \
                    x.size is not y.size or \
                    any(u[0] is not v[0] for u, v in zip(x.vis, y.vis)):
                raise MergeAbort("unobserved elements")
            n = x.copy()
            for e, u, v in zip(n.vis, x.vis, y.vis):
                e[1] = u[1] if u[1] is v[1] else ite(c, u[1], v[1])
            todo.append((o, n))
        elif isinstance(o, HList):
            if len(x) != len(y):
                raise MergeAbort("list lengths")
            todo.append((o, [u if u is v else ite(c, u, v) for u, v in zip(x, y)]))
        elif isinstance(o, HDict):
            if len(x[0]) != len(y[0]) or x[1] != y[1] or \
                    any(not _samekey(u[0], v[0]) for u, v in zip(x[0], y[0])):
                raise MergeAbort("dictionary keys")
            todo.append((o, [(u[0], u[2], u[3] if u[3] is v[3] else ite(c, u[3], v[3]), u[1])
                             for u, v in zip(x[0], y[0])]))
        else:
            todo.append((o, mdict(x, y, UNBOUND)))
    for i in (1, 2):
        if a[i].keys() != b[i].keys() or any(a[i][k] is not b[i][k] for k in a[i]):
            raise MergeAbort("globals")
    for o, n in todo:
        if isinstance(o, HObj):
            o.attrs = n
        elif isinstance(n, maps.MapD):
            sparse._D.__set__(o, n.copy())
        elif isinstance(n, sparse.SD):
            if isinstance(o, HList):
                o.__class__ = sparse.AbsL
                sparse._L.__set__(o, n)
            else:
                o.__class__ = sparse.AbsD
                sparse._D.__set__(o, n)
        elif isinstance(o, HList):
            o.items = n
        elif isinstance(o, HDict):
            d = {}
            for k, key, v, cell in n:
                cell[0], cell[1] = key, v
                d[k] = cell
            o.d = d
        else:
            o.vars = n


def _samekey(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (int, str)) and a == b)


class _Unbound:
    """A variable that is unbound on this alternative."""


UNBOUND = _Unbound()


def merge(it, cond, run_a, run_b, combine):
    """Execute run_a under cond and run_b otherwise and merge the states; their
    results are merged by combine.  Returns ('merged', result), or FORK, or
    ('one', bool) when only one side is feasible."""
    ctx = it.ctx
    d = ctx.merge_decision(cond)
    if d == "F":
        return FORK
    if isinstance(d, bool):
        return ("one", d)
    cond, mt, mf, mark = d
    n, pc0, eqs0, model0 = len(ctx.pc), list(ctx.pc), list(ctx.eqs), ctx.model
    fresh0, pure0, known0, memo0 = dict(ctx.fresh), ctx.pure, ctx.known, dict(ctx.memo)
    s0 = None
    bc = it.bcache
    depth, cs, nh = it.depth, list(it.cur_self or []), len(values.HEAP)
    try:
        s0 = snap(it)
        ctx.spec += 1
        values.EPOCH[0] += 1
        epoch = values.EPOCH[0]
        values.SPEC.append(epoch)
        try:
            ends = []
            for c, m, run in ((cond, mt, run_a), (ctx.simp(z3.Not(cond)), mf, run_b)):
                it.bcache = {}
                ctx.pc, ctx.eqs, ctx.model = list(pc0), list(eqs0), m
                ctx._add(c)
                ctx.known = dict(known0)
                r = run()
                extra = ctx.pc[n + 1:]
                cur = snap_of(it, s0)
                ends.append((r, cur, extra, c))
                restore(it, s0)
        finally:
            ctx.spec -= 1
            values.SPEC.pop()
            it.bcache = bc
            ctx.known = known0
            ctx.memo = memo0
        (ra, ea, xa, ca), (rb, eb, xb, cb) = ends
        ctx.pc, ctx.eqs, ctx.pure = pc0, eqs0, pure0
        ctx.model = model0
        res = combine(cond, ra, rb)
        merge_states(it, cond, ea, eb)
        for x, c in [(f, ca) for f in xa] + [(f, cb) for f in xb]:
            f = z3.Implies(c, x)
            ctx._add(f)
            if ctx.model is not None and not ctx._holds(f):
                ctx.model = None
        return ("merged", res)
    except (MergeAbort, PyExc, PathEnd, Unsupported) as e:
        if s0 is not None:
            restore(it, s0)
        ctx.pc, ctx.eqs, ctx.model, ctx.pure = pc0, eqs0, model0, pure0
        ctx.fresh = fresh0
        it.bcache = bc
        it.depth = depth
        if it.cur_self is not None:
            it.cur_self[:] = cs
        ctx.merge_abort(mark, cond, mt, mf)
        if ctx.spec:
            raise MergeAbort(str(e))
        return FORK


def snap_of(it, s0):
    """Current contents of the objects of snapshot s0."""
    return [(o, content(o)) for o, _ in s0[0]], dict(it.gover), dict(it.cover)
