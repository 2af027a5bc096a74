"""Mappings from arbitrary texts, and loops that carry a state.

An AnyMap is a mapping about whose keys nothing is known: whether a key is present is
an uninterpreted predicate of the key (and, for nested mappings, of the keys that lead
to it), decided when the key is first looked up; the value is then created by `make`,
the same for the code and the contract.  Nested mappings form a tree: no two
keys share a mapping.  Iterating over it, or asking for its size, is refused.

A loop whose iterations depend on earlier ones (`sparse` refuses it) is verified by
induction.  Its carried variables are the local variables that an iteration changes or
whose list or mapping it changes; they are found by executing the body.  Variables of
the code and of the contract that start with equal values are assumed to be equal
whenever the loop is at its head, and nothing else is assumed about them: they get
arbitrary values (the same ones on both sides), and then

  * either one iteration is executed, for an arbitrary element, and the carried
    variables assumed to be equal must be equal again afterwards (obligation "step");
    an iteration that leaves the loop or raises must do so on both sides;
  * or the loop is over, and the code after it is executed.

A variable of the code whose equality is not kept loses its partner and is arbitrary on
its own; this is repeated until the equalities are inductive."""
import ast

import z3

from .values import HObj, HList, HDict, SInt, SBool, SStr, Unsupported, PyExc, add_ints, norm_int
from . import values, sparse
from .explore import PathEnd, MergeAbort

_D = HDict.__dict__["d"]


class _Absent:
    def __repr__(self):
        return "absent"


ABSENT = _Absent()


class MapD:
    """Known part: cells [key, value or ABSENT, changed]; the rest is given by base:
    (name, terms of the keys that lead here)."""

    def __init__(self, base, make, cells=()):
        self.base, self.make = base, make
        self.cells = [list(c) for c in cells]
        self.vis = ()
        self.more = 0           # keys added, less keys removed

    def copy(self):
        m = MapD(self.base, self.make, self.cells)
        m.more = self.more
        return m

    def written(self):
        return [c for c in self.cells if c[2]]

    def same(self, o):
        a, b = self.written(), o.written()
        return self.base == o.base and len(a) == len(b) and \
            all(x[0] is y[0] and x[1] is y[1] for x, y in zip(a, b))


class AnyMap(HDict):
    __slots__ = ()

    @property
    def d(self):
        raise Unsupported("mapping with unknown keys")

    @d.setter
    def d(self, v):
        raise Unsupported("mapping with unknown keys")

    @property
    def sd(self):
        return _D.__get__(self)

    def cells(self):
        raise Unsupported("keys of a mapping with unknown keys")

    def __len__(self):
        raise Unsupported("size of a mapping with unknown keys")

    def vtruth(self, it):
        if any(c[1] is not ABSENT for c in self.sd.cells):
            return True
        raise Unsupported("truth of a mapping with unknown keys")

    def vlen(self, it):
        s = self.sd
        if len(s.base[1]) or not it.ctx.sparse.lengths:
            raise Unsupported("size of a mapping with unknown keys")
        n = SInt(z3.Int("size:" + s.base[0]), 0, None)
        it.ctx.assume(n.t + s.more >= sum(c[1] is not ABSENT for c in s.cells), check=False)
        return norm_int(add_ints(n, s.more))

    def vobserved(self, it):
        raise Unsupported("iteration over a mapping with unknown keys")

    viter = vobserved

    def veq(self, it, b):
        raise Unsupported("comparison of mappings with unknown keys")

    def vdiff(self, it, b, path, out, memo):
        raise Unsupported("comparison of mappings with unknown keys")

    def vconc(self, model):
        raise Unsupported("mapping with unknown keys as input")


def mk(base, make, cells=()):
    o = AnyMap.__new__(AnyMap)
    _D.__set__(o, MapD(base, make, cells))
    o.nsym = 1
    o.isset = False
    o.own = None
    if values.TRACK[0]:
        values.HEAP.append(o)
    return o


def copy(m):
    o = mk(m.sd.base, m.sd.make, m.sd.cells)
    o.sd.more = m.sd.more
    return o


def has(it, sd, k):
    name, path = sd.base
    return SBool(it.uf("has%d:%s" % (len(path), name), list(path) + [it.sterm(k)], z3.BoolSort()))


def slot(it, m, k):
    sd = m.sd
    if not isinstance(k, (str, SStr)):
        raise Unsupported("key of a mapping that is no text")
    t = it.sterm(k)
    for c in sd.cells:
        if it.sterm(c[0]).eq(t):
            return c
    for c in sd.cells:
        e = it.eq(c[0], k)
        if e is not False and it.ctx.branch(e):
            return c
    if it.ctx.branch(has(it, sd, k)):
        v = sd.make(it, (sd.base[0], sd.base[1] + (t,)))
    else:
        v = ABSENT
    c = [k, v, False]
    m.sd.cells.append(c)
    return c


def find(it, m, k):
    c = slot(it, m, k)
    return None if c[1] is ABSENT else c


def put(it, m, k, v):
    c = slot(it, m, k)
    if c[1] is ABSENT:
        m.sd.more += 1
    c[1], c[2] = v, True


def delete(it, m, k):
    c = slot(it, m, k)
    if c[1] is ABSENT:
        raise it.exc(KeyError, k)
    v = c[1]
    m.sd.more -= 1
    c[1], c[2] = ABSENT, True
    return v


# --------------------------------------------------------------- carried state
class Restart(BaseException):
    """Something was learnt about the loops; verify again from the start."""


class StepEnd(BaseException):
    """The iteration under verification is over."""

    def __init__(self, ordinal, state):
        self.ordinal, self.state = ordinal, state


class Info:
    """What is known about the loops of a task."""

    def __init__(self):
        self.loops = {}         # ast node -> set of carried variables
        self.alone = set()      # (role, loop, variable) without a partner
        self.why = {}
        self.tries = 0

    def learn(self):
        self.tries += 1
        if self.tries > 60:
            raise Unsupported("loop whose carried state is not found")
        raise Restart()


def other_loop(it):
    """The other side is within a loop; so should this one be."""
    n = it.last_loop
    if n is not None and n not in it.carry.loops:
        it.carry.loops[n] = set()
        it.carry.learn()


def stored(st):
    return {n.id for x in st.body + [st.target] for n in ast.walk(x)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def loop(it, st, fr, g):
    """Execute a loop with carried state; result as of a statement."""
    info, ctx = it.carry, it.ctx
    inner = stored(st)
    names = info.loops[st] | {n for n, v in fr.vars.items()
                              if n in inner or isinstance(v, AnyMap)}
    if ctx.spec:
        raise MergeAbort("loop with carried state")
    if sparse.ACTIVE:
        raise Unsupported("nested loop with carried state")
    k = it.nloops
    it.nloops += 1
    m = ("phase", k)
    if m not in ctx.memo:
        ctx.memo[m] = (None, ctx.choose(2))
    step = ctx.memo[m][1] == 0
    own = {}
    for n in sorted(names):
        c = havoc(it, fr, n, k)
        if c is None:
            fr.vars[n] = sparse.POISON
        else:
            own[n] = c
    for n in inner - names:
        fr.vars[n] = sparse.POISON
    if not step:
        return it.block(st.orelse, fr)
    try:
        x = next(g)
    except StopIteration:
        raise PathEnd()
    base = g.base_of()
    old, gover, cover = base.snap
    base.snap = None
    try:
        it.assign(st.target, x, fr)
        r = it.block(st.body, fr, "loop")
    except PyExc:
        base.close()
        raise
    base.close()
    from .interp import CONT, BRK
    if r is BRK:
        return None
    if r is not None and r is not CONT:
        return r
    changed(it, st, fr, names, old, gover, cover)
    state = {}
    for n, c in own.items():
        v = fr.vars[n]
        state.setdefault(c, []).append((n, it.length(v) if isinstance(v, HList) else v))
        if isinstance(fr.vars[n], AnyMap):
            closed(it, fr.vars[n], set())
    raise StepEnd(k, state)


def key_of(it, v):
    if isinstance(v, (bool, int, str)):
        return (type(v).__name__, v)
    if isinstance(v, (SInt, SBool, SStr)):
        return (type(v).__name__, v.t.get_id())
    if isinstance(v, AnyMap):
        return ("map", v.sd.base[0], tuple(t.get_id() for t in v.sd.base[1]))
    if type(v) is HList and not v.items:
        return ("int", 0)               # its length
    return None


def havoc(it, fr, n, k):
    """Give carried variable n an arbitrary value; returns its class."""
    v = it.force(fr.vars[n])
    c = key_of(it, v)
    if c is None or v is None:
        return None
    c = (k,) + c
    who = (it.role, k, n)
    if who in it.carry.alone:
        c = c + who
    it.ctx.memo.setdefault(("keep",) + c, (None, v))
    name = "carried:" + ":".join(str(x) for x in c)
    if isinstance(v, (bool, SBool)):
        w = SBool(z3.Bool(name))
    elif isinstance(v, (int, SInt)):
        w = SInt(z3.Int(name), None, None)
    elif isinstance(v, (str, SStr)):
        w = SStr(z3.Const(name, z3.StringSort()))
    elif isinstance(v, AnyMap):
        if v.sd.written():
            raise Unsupported("mapping changed before the loop")
        _D.__set__(v, MapD((name, v.sd.base[1]), v.sd.make))
        return c
    elif type(v) is HList:
        # its elements are unknown and may not be looked at
        v.__class__ = sparse.AbsL
        n = SInt(z3.Int(name), 0, None)
        it.ctx.assume(n.t >= 0, check=False)
        sparse._L.__set__(v, sparse.SD([], src=n))
        return c
    else:
        raise Unsupported("carried variable of this kind")
    fr.vars[n] = w
    return c


def changed(it, st, fr, names, old, gover, cover):
    """What an iteration changed must be carried."""
    for a, b in ((gover, it.gover), (cover, it.cover)):
        if a.keys() != b.keys() or any(a[k] is not b[k] for k in a):
            raise Unsupported("loop that changes module state")
    new = set()
    for o, c in old:
        if isinstance(o, HObj):
            if o.attrs.keys() != c.keys() or any(o.attrs[k] is not c[k] for k in c):
                raise Unsupported("loop that changes an object (%s)" % o.cls.__name__)
        elif isinstance(o, (HList, HDict)):
            if not same_content(o, c):
                new |= {holder(fr, o)}
        elif o is fr:
            new |= {n for n in c if n not in stored_only(st, c) and o.vars.get(n) is not c[n]}
        elif any(n not in c or o.vars[n] is not c[n] for n in o.vars):
            raise Unsupported("loop that changes a variable of another function")
    if not new <= names:
        it.carry.loops[st] = it.carry.loops[st] | new
        it.carry.learn()


def stored_only(st, c):
    return {n for n in c if c[n] is sparse.POISON}


def holder(fr, o):
    for n, v in fr.vars.items():
        if v is o:
            return n
    raise Unsupported("loop that changes an earlier list or mapping")


def same_content(o, c):
    if isinstance(o, AnyMap):
        return c.same(o.sd)
    from . import merge
    n = merge.content(o)
    if merge.abstract(c) or merge.abstract(n):
        return merge.abstract(c) and merge.abstract(n) and c.same(n)
    if isinstance(o, HList):
        return len(c) == len(n) and all(x is y for x, y in zip(c, n))
    return len(c[0]) == len(n[0]) and all(x[0] is y[0] and x[2] is y[2] and x[3] is y[3]
                                          for x, y in zip(c[0], n[0]))


def closed(it, m, seen):
    """The mapping is still one of the domain: what was put there is a tree of new
    mappings with admissible values."""
    for k, v, w in m.sd.cells:
        if v is ABSENT:
            continue
        if not w and isinstance(v, AnyMap):
            closed(it, v, seen)
            continue
        if w or isinstance(v, HDict):
            m.sd.make.admit(it, len(m.sd.base[1]) + 1, v, seen)


class Make:
    """Nested mappings of a given depth; leaf(it, base) creates the values,
    fits(it, value) tells whether a value may be one."""

    def __init__(self, depth, leaf, fits):
        self.depth, self.leaf, self.fits = depth, leaf, fits

    def __call__(self, it, base):
        if len(base[1]) == self.depth:
            return self.leaf(it, base)
        return mk(base, self)

    def admit(self, it, n, v, seen):
        if id(v) in seen:
            raise Unsupported("mapping that is shared")
        seen.add(id(v))
        if n == self.depth:
            if not self.fits(it, v):
                raise Unsupported("value outside the domain of the table")
            return
        if isinstance(v, AnyMap):
            raise Unsupported("mapping moved within the table")
        if not isinstance(v, HDict) or v.isset:
            raise Unsupported("value outside the domain of the table")
        for k, x in v.cells():
            if not isinstance(k, (str, SStr)):
                raise Unsupported("key of a mapping that is no text")
            self.admit(it, n + 1, x, seen)


def step_obl(ctx, it, st, task, contract, r, s):
    """The carried variables that were equal are equal again."""
    if r.ordinal != s.ordinal:
        ctx.prove(False, task.id + "/outcome", {"real": "loop", "contract": "another loop"})
        return
    ctx.prove(True, task.id + "/outcome")
    for c in sorted(set(r.state) | set(s.state), key=repr):
        xs, ys = r.state.get(c, []), s.state.get(c, [])
        if c[1] == "map":
            if len(xs) != 1 or len(ys) != 1:
                raise Unsupported("mapping changed by one side only")
            keys = [SStr(z3.Const(ctx.name("key%d" % i), z3.StringSort()))
                    for i in range(contract.probes)]
            a = it.call(contract.probe, [xs[0][1]] + keys, {})
            b = st.call(contract.probe, [ys[0][1]] + keys, {})
            ctx.prove(it.eq(a, b), task.id + "/step")
            continue
        ref = ys[0] if ys else xs[0]
        for role, side in (("s", ys), ("r", xs)):
            for n, v in side:
                if v is ref[1]:
                    continue
                e = it.eq(v, ref[1])
                if role == "r" and not valid(ctx, e):
                    it.carry.alone.add((role, r.ordinal, n))
                    it.carry.learn()
                if role == "s" and not valid(ctx, e):
                    it.carry.alone.add((role, r.ordinal, n))
                    it.carry.learn()
                ctx.prove(e, task.id + "/step")


def valid(ctx, e):
    if isinstance(e, bool):
        return e
    r, _ = ctx._solve([z3.Not(e.t)])
    return r == "unsat"
