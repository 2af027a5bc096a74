"""Arbitrary nested mappings with text keys, looked at and iterated over.

A table maps names to mappings of segments to mappings of subsegments to a set of
kinds.  It is represented by its entries at observed names (indices of T in sorted
order of the names, sparse.py) and, per observed name, by up to `pairs` entries
(segment, subsegment) in sorted order, in every arrangement; the rest is hidden.

This extends the rule of sparse.py to two things that iterations of inner loops may
do: leave the loop early, and set a truth value that is set in one direction only.
Either happens for the first time at one pair.  So if code and contract differ on
some table, they differ in the restricted run that observes a name at which the
results differ and, there, the pairs at which the code and the contract leave inner
loops or set a truth value for the first time.  A run may have `flags` such pairs
per name; one with more is refused, and the restricted runs observe enough pairs to
see it.  (Before its first setting a truth value is the same in the full and in the
restricted run, after it as well; whether a setting is in one direction only is
checked in every iteration.)

Contracts have two parts: one observes the name at which results differ, with the
pairs of code and contract; the other observes one name more, with the pairs of one
of them, and shows that iterations over names are independent: in the first one that
uses what an earlier one left behind, both are observed, and it is refused.

A key that the code asks for and that is not observed is absent: then T is chosen so
that it contains the key's index if there is one.  Tables cannot be changed here."""
import itertools

import z3

from .values import SInt, SBool, SStr, SUnion, Unsupported, mk_bool
from . import sparse, values

SS = z3.StringSort()


def arrangements(n):
    """Numbers of observed subsegments of the observed segments, for 0..n pairs."""
    out = [()]
    for k in range(1, n + 1):
        out += [(i,) + r for i in range(1, k + 1) for r in arrangements(k - i)
                if sum(r) == k - i]
    return out


class KMap:
    """A mapping; path: the keys that lead here."""

    def __init__(self, name, path=(), pairs=4, shape=None):
        self.name, self.path, self.pairs, self.shape = name, path, pairs, shape
        self.key = (name,) + tuple(k.t.get_id() for k in path)

    def memo(self, it, what, make):
        m = it.ctx.memo
        k = ("kmap", what) + self.key
        if k not in m:
            m[k] = (self, make())
        return m[k][1]

    def entries(self, it):
        """[index, key, value]"""
        return self.memo(it, "entries", lambda: self.make(it))

    def size(self, it):
        def make():
            v = SInt(z3.Int("size:" + ":".join(map(str, self.key))), 0, None)
            it.ctx.assume(v.t >= 0, check=False)
            if not self.path:
                it.ctx.sparse.names.add(v.t.get_id())
            return v
        return self.memo(it, "size", make)

    def make(self, it):
        lev = len(self.path)
        n = self.size(it)
        tag = ":".join(map(str, self.key))
        if lev == 0:
            ts = sparse.observed_in(it, 0, n)
        else:
            if lev == 1:
                self.shape = arrangements(self.pairs)[it.ctx.choose(
                    len(arrangements(self.pairs)))]
            k = len(self.shape) if lev == 1 else self.shape
            ts = [SInt(z3.Int("at%d:%s" % (i, tag)), 0, None) for i in range(k)]
            for a, b in zip(ts, ts[1:]):
                it.ctx.assume(a.t < b.t, check=False)
            if ts:
                it.ctx.assume(z3.And(ts[0].t >= 0, ts[-1].t < n.t), check=False)
        keys = [SStr(z3.Const("key%d:%s" % (i, tag), SS)) for i in range(len(ts))]
        for i in range(len(keys)):
            for j in range(i):
                it.ctx.assume(keys[i].t != keys[j].t, check=False)
        out = []
        for i, (t, k) in enumerate(zip(ts, keys)):
            p = self.path + (k,)
            if lev == 2:
                v = Leaf(self.name, p)
            else:
                v = KMap(self.name, p, self.pairs, self.shape[i] if lev == 1 else None)
            out.append([t, k, v])
            it.ctx.memo[("keyof", id(t))] = (t, (self, k))
        return out

    def find(self, it, k):
        if not isinstance(k, (str, SStr)):
            raise Unsupported("key of a table that is no text")
        es = self.entries(it)
        for e in es:
            if e[1] is k:
                return e
        for e in es:
            if it.ctx.branch(it.eq(e[1], k)):
                return e
        if self.path:
            raise Unsupported("key of a table that is not observed")
        ob = it.ctx.sparse
        ob.asked.add(it.sterm(k).get_id())
        if len(ob.asked) > ob.ask:
            raise Unsupported("more keys of a table asked for than observed")
        return None

    # -- value protocol
    def vtruth(self, it):
        return True if self.entries(it) else mk_bool(self.size(it).t > 0)

    def vlen(self, it):
        return self.size(it)

    def vcontains(self, it, k):
        return self.find(it, it.force(k)) is not None

    def vgetitem(self, it, k):
        e = self.find(it, it.force(k))
        if e is None:
            raise it.exc(KeyError, k)
        return e[2]

    def vsetitem(self, it, k, v):
        raise Unsupported("table that is changed")

    def vgetattr(self, it, name):
        if name in ("keys", "values", "items"):
            return Meth(lambda it, a: KView(self, name))
        if name == "get":
            def get(it, a):
                e = self.find(it, it.force(a[0]))
                return e[2] if e is not None else (a[1] if len(a) > 1 else None)
            return Meth(get)
        raise Unsupported("table.%s" % name)

    def primary(self, it, order):
        """Is this the order of the indices?"""
        return self.memo(it, "order", lambda: order) == order

    def ordering(self, it, order):
        """The observed entries in this order: "sorted" or "keys" (any)."""
        es = self.entries(it)
        if len(es) < 2 or self.primary(it, order):
            return es

        def make():
            perms = list(itertools.permutations(range(len(es))))
            return perms[it.ctx.choose(len(perms))]
        return [es[i] for i in self.memo(it, "permutation", make)]

    def vobserved(self, it, kind="keys", order="keys"):
        es = self.ordering(it, order)
        f = {"keys": lambda e: e[1], "values": lambda e: e[2],
             "items": lambda e: (e[1], e[2])}[kind]
        g = sparse.SIter(it, [(e[0], f(e)) for e in es], 0, self.size(it),
                         self.primary(it, order))
        g.order = (order,) + self.key
        g.flagged = self.path[0].t.get_id() if self.path else None
        return g

    viter = vobserved

    def vsorted(self, it, kw):
        return listed(it, self, "sorted", kw)

    def vlist(self, it):
        return listed(it, self, "keys", {})

    def veq(self, it, b):
        if b is self or isinstance(b, KMap) and b.key == self.key:
            return True
        if b is None:
            return False
        raise Unsupported("comparison of tables")

    def vconc(self, model):
        raise Unsupported("table as input")


def listed(it, m, order, kw):
    if kw.get("key") is not None or kw.get("reverse") not in (None, False):
        raise Unsupported("keys of a table in another order")
    g = m.vobserved(it, "keys", order)
    l = sparse.mk_list(sparse.SD([list(e) for e in g.entries], 0, m.size(it), g.unit))
    l.sd.order, l.sd.keys, l.sd.flagged = g.order, m, g.flagged
    return l


class KView:
    """keys(), values() or items() of a table."""

    def __init__(self, m, kind):
        self.m, self.kind = m, kind

    def vtruth(self, it):
        return self.m.vtruth(it)

    def vlen(self, it):
        return self.m.vlen(it)

    def vcontains(self, it, k):
        if self.kind != "keys":
            raise Unsupported("membership in the values of a table")
        return self.m.vcontains(it, k)

    def vobserved(self, it):
        return self.m.vobserved(it, self.kind)

    viter = vobserved

    def vsorted(self, it, kw):
        if self.kind == "keys":
            return self.m.vsorted(it, kw)
        if self.kind == "items" and not kw:
            g = self.m.vobserved(it, "items", "sorted")     # the keys differ
            l = sparse.mk_list(sparse.SD([list(e) for e in g.entries], 0, self.m.size(it), g.unit))
            l.sd.order = g.order
            l.sd.flagged = g.flagged
            return l
        raise Unsupported("values of a table sorted")

    def vlist(self, it):
        if self.kind == "keys":
            return self.m.vlist(it)
        g = self.vobserved(it)
        l = sparse.mk_list(sparse.SD([list(e) for e in g.entries], 0, self.m.size(it), g.unit))
        l.sd.order, l.sd.flagged = g.order, g.flagged
        return l


class Meth:
    def __init__(self, f):
        self.f = f

    def vcall(self, it, args, kwargs):
        if kwargs:
            raise Unsupported("keyword argument of a table method")
        return self.f(it, args)


class Leaf:
    """The definitions of one name, segment and subsegment."""

    def __init__(self, name, path):
        self.name, self.path = name, path

    def has(self, it, k):
        return SBool(it.uf("defined:" + self.name, [x.t for x in self.path] + [it.sterm(k)],
                           z3.BoolSort()))

    def vcontains(self, it, k):
        k = it.force(k)
        if not isinstance(k, (str, SStr)):
            return False
        return self.has(it, k)

    def vgetitem(self, it, k):
        if not it.ctx.branch(it.truthc(self.vcontains(it, k))):
            raise it.exc(KeyError, k)
        return Entry(self, it.force(k))

    def vgetattr(self, it, name):
        if name == "keys":
            return Meth(lambda it, a: LeafKeys(self))
        if name == "get":
            def get(it, a):
                if it.ctx.branch(it.truthc(self.vcontains(it, a[0]))):
                    return Entry(self, it.force(a[0]))
                return a[1] if len(a) > 1 else None
            return Meth(get)
        raise Unsupported("definitions.%s" % name)

    def vtruth(self, it):
        raise Unsupported("number of definitions")


class LeafKeys:
    def __init__(self, leaf):
        self.leaf = leaf

    def vcontains(self, it, k):
        return self.leaf.vcontains(it, k)

    def vlist(self, it):
        return self

    def vsorted(self, it, kw):
        return self


class Entry:
    """A definition; nothing is known about it."""

    def __init__(self, leaf, k):
        self.leaf, self.k = leaf, k

    def vtruth(self, it):
        raise Unsupported("truth of a definition")


def exists(it, m, kind):
    """Has one of the definitions below a name this kind?"""
    es = [e for e in m.entries(it)]
    cs = [x[2].vcontains(it, kind) for e in es for x in e[2].entries(it)]
    event(it, ("exists", kind if isinstance(kind, str) else kind.t.get_id()), m.path[0].t.get_id())
    return it.notc(it.conj([it.notc(c) for c in cs]))


def event(it, what, top):
    """A pair at which something happens for the first time."""
    ob = it.ctx.sparse
    s = ob.events.setdefault((it.role, top), set())
    s.add(what)
    exits = [w[1] for w in s if w[0] == "exit"]
    n = len([w for w in s if w[0] != "exit"]) + \
        len([p for p in exits if not any(q != p and q[:len(p)] == p for q in exits)])
    if n > ob.flags:
        raise Unsupported("more inner loops left early or truth values set than pairs observed")


def directed(it, g, frame, name, old, new, ways=(True, False)):
    """Is a truth value set in one direction only?"""
    if not isinstance(old, (bool, SBool)) or not isinstance(new, (bool, SBool)):
        return False
    d = it.ctx.memo.get(("dir", id(g), name))
    a = old if isinstance(old, bool) else old.t
    b = new if isinstance(new, bool) else new.t
    a, b = z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b
    for k, c in ((True, z3.Implies(a, b)), (False, z3.Implies(b, a))):
        if d is not None and d[1] != k or k not in ways:
            continue
        c = it.ctx.simp(c)
        if z3.is_true(c) or it.ctx._solve([z3.Not(c)])[0] == "unsat":
            it.ctx.memo[("dir", id(g), name)] = (g, k)
            event(it, ("flag", name, id(frame)), g.flagged)
            return True
    return False


def settled(it, g, frame, name, old, new):
    """Is a variable set to the same earlier value whenever it is set?"""
    def parts(v):
        return v.alts if isinstance(v, SUnion) else [(z3.BoolVal(True), v)]

    def plain(v):
        return v is None or isinstance(v, (bool, int, str, KMap))
    olds, news = parts(old), parts(new)
    if not all(plain(v) for _, v in olds + news):
        return False
    vals = []
    for _, v in olds + news:
        if not any(v is x for x in vals):
            vals.append(v)
    if len(vals) > 2:
        return False
    for v in vals:
        known = it.ctx.memo.get(("value", id(g), name))
        if known and known[1] is not v or \
                isinstance(v, KMap) and len(v.path) > 1:
            continue

        def has(ps):
            return z3.Or([c for c, x in ps if x is v] + [z3.BoolVal(False)])
        if any(x is v for _, x in news) and \
                directed(it, g, frame, name, SBool(has(olds)), SBool(has(news)), (True,)):
            it.ctx.memo[("value", id(g), name)] = (g, v)
            return True
    return False


class AnyTable:
    """Domain: every table."""

    def __init__(self, pairs=4):
        self.pairs = pairs

    def sym(self, it, name):
        return KMap("table", (), self.pairs)
