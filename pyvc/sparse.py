"""Loops over index spaces of any size, observed at a few arbitrary indices.

A sequence (or mapping keyed by position) of any length is represented by its
elements at the observed indices T = {J0, J1, ...}, symbolic integers about
which nothing is known; the other elements are hidden.  A loop over it runs its
iterations at the indices of T in ascending order ("restricted run").  After
every iteration that did not leave the loop its effects are compared with the
state before it, and anything but the following is refused (Unsupported):

  * objects created in the iteration, and objects created in the iteration of the
    same index of an earlier loop, may be changed;
  * a list may be appended to, and an element or key of that very index may be set;
  * a local variable that was assigned is unknown from then on.

Looking at an element that is not observed, at the length or truth of a list with
hidden elements, or at a list that the loop itself is extending is refused too.

As T is arbitrary, this shows for every index u that iteration u changes nothing
that belongs to another index.  By induction over the run, what the restricted run
observes (the elements at T) is what the run over all indices has there, provided
T contains the indices at which the latter leaves loops early: the iterations at
indices outside T change only what is hidden, and every value observed was
computed from observed values.  A run may leave one loop early, not one inside an
iteration of another one.

So if the code and its contract differ on some input, they differ in the
restricted run for every T that contains the index at which the code leaves a loop
(or the first two such indices, which is refused), the one at which the contract
does, the index of an element that differs, and an index of every loop that has
iterations.  Verifying all such T verifies the loops for every length.  Contracts
state the indices they need (`sparse = dict(n=..., within=..., exits=...)`);
positions that are arguments are observed in addition, which covers the loops that
start at an argument and those the contract leaves at one.

With `lengths`, code may look at the length of such lists.  A list whose elements differ
may lose, in an iteration, the element of that index.  When no observed iteration
removed (or, for a list that a loop collects, failed to add exactly one) the length is
that of before (of the index space); otherwise it is some smaller (any) number.  T
has to contain an index at which that happened, if there is one.  Two lengths are
equal if the lists are: comparing them demands that.  An element that is asked for
is not in the list when it is not observed: T contains its index, if it has one."""
import z3

from .values import (HObj, HList, HDict, SInt, LenInt, SBool, SStr, IterV, RangeV, SliceV, Unsupported,
                     add_ints, cmp_ints, is_intlike, as_int, norm_int, to_mint)
from .explore import term_vars
from . import values

_L = HList.__dict__["items"]
_D = HDict.__dict__["d"]
LARGE = 256


class Poison:
    """A variable assigned by an unknown iteration of a loop."""

    def __init__(self, node=None):
        self.node = node


POISON = Poison()
ACTIVE = []                     # iterations under way, outermost first


def adopt(objs):
    """Objects that stand for existing native ones are nobody's own."""
    from . import merge
    cs = [(o, merge.content(o)) for o in objs]
    for o in objs:
        o.own = False
    for g in ACTIVE:
        g.snap[0].extend(cs)


class SD:
    """Observed part of a sequence or mapping: entries [index, value].
    src: number of hidden elements before them (maps.havoc)."""
    __slots__ = ("vis", "lo", "hi", "unit", "src", "order", "keys", "flagged", "size", "distinct")

    def __init__(self, vis, lo=None, hi=None, unit=False, src=None):
        self.vis, self.lo, self.hi, self.unit, self.src = vis, lo, hi, unit, src
        self.order = None       # the order of the index space (tables.py)
        self.keys = None        # the table whose keys these are
        self.size = None        # its length, when that is not hi - lo
        self.distinct = False   # no element occurs twice
        self.flagged = None     # the name below which it is: loops over it may be left early

    def copy(self):
        s = SD([list(e) for e in self.vis], self.lo, self.hi, self.unit, self.src)
        s.order, s.keys, s.flagged = self.order, self.keys, self.flagged
        s.size, s.distinct = self.size, self.distinct
        return s

    def same(self, o):
        return len(self.vis) == len(o.vis) and self.unit == o.unit and \
            all(a[0] is b[0] and a[1] is b[1] for a, b in zip(self.vis, o.vis))


class AbsL(HList):
    """A list with hidden elements."""
    __slots__ = ()

    @property
    def items(self):
        raise Unsupported("list with unobserved elements")

    @items.setter
    def items(self, v):
        raise Unsupported("list with unobserved elements")

    @property
    def sd(self):
        return _L.__get__(self)

    def __repr__(self):
        return "AbsL(%r)" % (self.sd.vis,)

    # -- value protocol
    def vlen(self, it):
        s = calm(self)
        if s.src is not None:
            return norm_int(add_ints(s.src, len(s.vis)))
        if it.ctx.sparse.lengths:
            return size_of(it, s)
        if not s.unit:
            raise Unsupported("length of a list with unobserved elements")
        return norm_int(add_ints(s.hi, s.lo, -1))

    def vtruth(self, it):
        s = calm(self)
        if s.vis:
            return True
        if s.unit or s.src is not None or it.ctx.sparse.lengths:
            return cmp_ints(">", self.vlen(it), 0)
        raise Unsupported("truth of a list with unobserved elements")

    def veq(self, it, b):
        if not isinstance(b, HList):
            return False
        if not COMPARING[0]:
            raise Unsupported("comparison of lists with unobserved elements")
        x = unobserved(self)
        y = unobserved(b)
        if it.ctx.sparse.ordered:
            o = {l.sd.order if isinstance(l, AbsL) else None for l in (self, b)
                 if isinstance(l, AbsL) or l.items}
            if None in o:
                raise Unsupported("order of a list with unobserved elements")
            if len(o) > 1:
                return False
        if not aligned(x, y, self, b):
            return False
        return it.conj([it.eq(u[1], v[1]) for u, v in zip(x, y)])

    def vsorted(self, it, kw):
        """Keys of a table in sorted order."""
        s = calm(self)
        ks = [it.ctx.memo.get(("keyof", id(e[0]))) for e in s.vis]
        ms = {id(k[1][0]): k[1][0] for k in ks if k}
        if s.keys is not None:
            ms[id(s.keys)] = s.keys
        if s.order is None or kw.get("key") is not None or kw.get("reverse") not in (None, False) \
                or len(ms) > 1 or not all(ks) or len({id(e[0]) for e in s.vis}) < len(s.vis) or \
                any(k[1][1] is not e[1] for k, e in zip(ks, s.vis)):
            raise Unsupported("sorting of a list with unobserved elements")
        r = mk_list(s.copy())
        for m in ms.values():
            at = {id(e[0]): i for i, e in enumerate(m.ordering(it, "sorted"))}
            r.sd.vis.sort(key=lambda e: at[id(e[0])])
        r.sd.unit = False
        r.sd.order = ("sorted",) + s.order[1:]
        return r

    def vcontains(self, it, x):
        s = calm(self)
        if s.keys is not None:
            return s.keys.vcontains(it, x)
        if s.src is None and it.ctx.sparse.lengths and s.distinct and isinstance(x, (str, SStr)):
            # an index of T, if x is an element
            for e in s.vis:
                if it.ctx.branch(it.eq(e[1], x)):
                    return True
            ob = it.ctx.sparse
            ob.asked.add(it.sterm(x).get_id())
            if len(ob.asked) > ob.ask:
                raise Unsupported("more elements of a list asked for than observed")
            return False
        if s.src is None:
            raise Unsupported("membership in a list with unobserved elements")
        it.ctx.inexact.append("membership")
        b = SBool(z3.Bool(it.ctx.name("among")))
        return it.notc(it.conj([it.notc(it.eq(e[1], x)) for e in s.vis] + [it.notc(b)]))

    def vdiff(self, it, b, path, out, memo):
        from .contract import Mismatch, graph_diff
        if not isinstance(b, HList):
            out.append(Mismatch(path, False, False))
            return
        x = unobserved(self)
        y = unobserved(b)
        if not aligned(x, y, self, b):
            out.append(Mismatch(path, False, False))
            return
        for i, (u, v) in enumerate(zip(x, y)):
            graph_diff(it, u[1], v[1], "%s<%d>" % (path, i), out, memo)

    def slot(self, it, k):
        s = calm(self)
        if not s.unit:
            raise Unsupported("position in a list with unobserved elements")
        k = as_int(k)
        for e in s.vis:
            if e[0] is k and s.lo == 0:
                return e
        n = self.vlen(it)
        if it.ctx.branch(cmp_ints("<", k, 0)):
            k = add_ints(k, n)
            if it.ctx.branch(cmp_ints("<", k, 0)):
                raise it.exc(IndexError, "list index out of range")
        elif it.ctx.branch(cmp_ints(">=", k, n)):
            raise it.exc(IndexError, "list index out of range")
        t = which(it, norm_int(add_ints(k, s.lo)) if not (s.lo == 0) else k)
        for e in s.vis:
            if e[0] is t:
                return e
        raise Unsupported("unobserved element of a list")

    def vgetitem(self, it, k):
        if isinstance(k, SliceV):
            if it.ctx.sparse.lengths and k.start in (None, 0) and k.stop is None and \
                    k.step in (None, 1):
                return self.vlist(it)
            return self.cut(it, k)
        return self.slot(it, it.as_index(k))[1]

    def vsetitem(self, it, k, v):
        if isinstance(k, SliceV):
            if k.start is None and k.stop is None and k.step in (None, 1) and \
                    isinstance(v, AbsL):
                _L.__set__(self, calm(v).copy())
                return
            raise Unsupported("slice of a list with unobserved elements")
        self.slot(it, it.as_index(k))[1] = v

    def cut(self, it, k):
        s = calm(self)
        if not s.unit or k.step not in (None, 1):
            raise Unsupported("slice of a list with unobserved elements")
        n = self.vlen(it)

        def norm(x, default):
            if x is None:
                return default
            x = as_int(it.force(x))
            if it.ctx.branch(cmp_ints("<", x, 0)):
                x = add_ints(x, n)
                return 0 if it.ctx.branch(cmp_ints("<", x, 0)) else x
            return n if it.ctx.branch(cmp_ints(">", x, n)) else x
        a, b = norm(k.start, 0), norm(k.stop, n)
        if it.ctx.branch(cmp_ints(">=", a, b)):
            return HList([])
        lo, hi = norm_int(add_ints(s.lo, a)), norm_int(add_ints(s.lo, b))
        vis = [[t, v] for t, v in s.vis if inside(it, t, lo, hi)]
        return mk_list(SD(vis, lo, hi, True))

    def vlist(self, it):
        return mk_list(calm(self).copy())

    def vconc(self, model):
        from .contract import concretise
        s = calm(self)
        if not s.unit:
            raise Unsupported("input with unobserved elements")
        lo, hi = concretise(model, s.lo), concretise(model, s.hi)
        if not 0 <= hi - lo <= 4096:
            raise Unsupported("input too long")
        first = [concretise(model, v) for _, v in s.vis]
        blank = 0 if not first or isinstance(first[0], int) else type(first[0])()
        out = [blank] * (hi - lo)
        for (t, _), v in zip(s.vis, first):
            out[concretise(model, t) - lo] = v
        return out


def size_of(it, s):
    """The length of a list: that of its index space, or unknown."""
    if s.unit:
        n = norm_int(add_ints(s.hi, s.lo, -1))
    else:
        if s.size is None:
            s.size = unknown_size(it, s)
        n = s.size
    if isinstance(n, int):
        return n
    r = LenInt(n.t, n.lo, n.hi)
    r.src = AbsL.__new__(AbsL)
    _L.__set__(r.src, s.copy())
    r.src.own = None
    return r


def unknown_size(it, s):
    n = SInt(z3.Int(it.ctx.name("size")), 0, None)
    it.ctx.assume(n.t >= len(s.vis), check=False)
    it.ctx.sparse.names.add(n.t.get_id())
    return n


def source_size(it, g):
    if not it.ctx.sparse.lengths:
        return None
    if g.unit:
        return norm_int(add_ints(g.hi, g.lo, -1))
    return size_of(it, g.guard.sd) if isinstance(g.guard, AbsL) else None


def derive(it, g, s):
    """The size of a list that got elements from the iterations of g only: when there is
    an iteration that did not add exactly one, it is observed; then the size is unknown."""
    n = source_size(it, g)
    if n is None or s.unit:
        return
    counts = [sum(e[0] is t for e in s.vis) for t, _ in g.entries]
    if any(t is None for t, _ in g.entries):
        s.size = None
    elif all(c == 1 for c in counts):
        s.size = n
    else:
        s.size = unknown_size(it, s)
        if all(c <= 1 for c in counts):
            it.ctx.assume(s.size.t < to_mint(n), check=False)


def remove(it, l, x):
    """l.remove(x) for an observed element of a list whose elements differ."""
    s = l.sd
    es = [e for e in s.vis if e[1] is x or isinstance(x, SStr) and isinstance(e[1], SStr) and
          e[1].t.eq(x.t)]
    if not it.ctx.sparse.lengths or not s.distinct or len(es) != 1:
        raise Unsupported("remove of a list with unobserved elements")
    n = size_of(it, s)
    s.vis.remove(es[0])
    s.unit = False
    s.size = unknown_size(it, s)
    it.ctx.assume(s.size.t < to_mint(n), check=False)


class AbsD(HDict):
    """A mapping from the indices lo..hi-1 with hidden values."""
    __slots__ = ()

    @property
    def d(self):
        raise Unsupported("mapping with unobserved keys")

    @d.setter
    def d(self, v):
        raise Unsupported("mapping with unobserved keys")

    @property
    def sd(self):
        return _D.__get__(self)

    def vlen(self, it):
        s = calm(self)
        if not s.unit:
            raise Unsupported("length of a mapping with unobserved keys")
        return norm_int(add_ints(s.hi, s.lo, -1))

    def vtruth(self, it):
        return True if calm(self).vis else cmp_ints(">", self.vlen(it), 0)

    def veq(self, it, b):
        if not isinstance(b, AbsD) or len(self.sd.vis) != len(b.sd.vis):
            return False
        if not COMPARING[0]:
            raise Unsupported("comparison of mappings with unobserved keys")
        return it.conj([x[0] is y[0] and it.eq(x[1], y[1])
                        for x, y in zip(self.sd.vis, b.sd.vis)])

    def vdiff(self, it, b, path, out, memo):
        from .contract import Mismatch, graph_diff
        if not isinstance(b, AbsD) or len(self.sd.vis) != len(b.sd.vis) or \
                any(x[0] is not y[0] for x, y in zip(self.sd.vis, b.sd.vis)):
            out.append(Mismatch(path, False, False))
            return
        for i, (x, y) in enumerate(zip(self.sd.vis, b.sd.vis)):
            graph_diff(it, x[1], y[1], "%s<%d>" % (path, i), out, memo)


COMPARING = [False]             # outcomes of the code and the contract are being compared


def aligned(x, y, a, b):
    """Do the elements of two lists belong to the same indices?  (Lists that may
    have any number of elements per index are equal when, for every two indices,
    their elements of these indices come in the same order.)"""
    if len(x) != len(y):
        return False
    if isinstance(a, AbsL) and isinstance(b, AbsL) and a.sd.unit and b.sd.unit:
        return True
    return all(u[0] is v[0] or isinstance(u[0], Nowhere) and isinstance(v[0], Nowhere)
               for u, v in zip(x, y))


def calm(l):
    """l must not be growing in a loop under way: other iterations must not see it."""
    if any(id(l) in g.cands for g in ACTIVE):
        raise Unsupported("loop that looks at what it collects")
    return l.sd


def mk_list(sd):
    o = AbsL.__new__(AbsL)
    _L.__set__(o, sd)
    o.own = None
    if values.TRACK[0]:
        values.HEAP.append(o)
    return o


def mk_dict(sd):
    o = AbsD.__new__(AbsD)
    _D.__set__(o, sd)
    o.nsym = 1
    o.isset = False
    o.own = None
    if values.TRACK[0]:
        values.HEAP.append(o)
    return o


# ------------------------------------------------------------ observed indices
class Observed:
    def __init__(self):
        self.idx = []           # ascending
        self.exits = {}         # interpreter -> loops it left early
        self.names = set()      # variables of positions
        self.limit = 1
        self.flags = self.ask = 0           # see tables.py
        self.ordered = self.lengths = False
        self.events, self.asked = {}, set()


def start(ctx, n=3, within=None, exits=1, pos=None, flags=0, ask=0, ordered=False,
          lengths=False):
    """Observe n arbitrary indices (the first one below `within`); a run may leave
    `exits` loops early; pos: only the case where the first is the pos-th."""
    js = [SInt(z3.Int(ctx.name("J%d" % i)), None, None) for i in range(n)]
    if within:
        ctx.assume(z3.And(js[0].t >= 0, js[0].t < within), check=False)
        k = ctx.choose(n) if pos is None else pos
        order = js[1:]
        order.insert(k, js[0])
    else:
        order = js
    for a, b in zip(order, order[1:]):
        ctx.assume(a.t < b.t, check=False)
    ctx.sparse = Observed()
    ACTIVE[:] = []
    values.TOKEN[0] = 0
    ctx.blog = []
    ctx.sparse.idx = order
    ctx.sparse.limit = exits
    ctx.sparse.lengths = lengths
    ctx.sparse.flags, ctx.sparse.ask, ctx.sparse.ordered = flags, ask, ordered
    ctx.sparse.names = {j.t.get_id() for j in order}


def save(ctx):
    ob = ctx.sparse
    if ob is None:
        return None
    return list(ob.idx), dict(ob.exits), set(ob.names), list(ctx.blog), ob.limit


def load(ctx, s):
    if s is not None:
        ob = ctx.sparse = Observed()
        ob.idx, ob.exits, ob.names = list(s[0]), dict(s[1]), set(s[2])
        ctx.blog = list(s[3])
        ob.limit = s[4]
        ACTIVE[:] = []
        values.TOKEN[0] = 0


def track(it, v):
    """Observe index v too; the observed index that it equals, or v itself."""
    ob = it.ctx.sparse
    ob.names.add(v.t.get_id())
    for i, u in enumerate(ob.idx):
        if it.ctx.branch(cmp_ints("==", v, u)):
            return u
        if it.ctx.branch(cmp_ints("<", v, u)):
            ob.idx.insert(i, v)
            return v
    ob.idx.append(v)
    return v


def length(it, name, fixed=False):
    """The length of a sequence of any length."""
    v = SInt(z3.Int(name if fixed else it.ctx.name(name)), 0, None)
    it.ctx.assume(v.t >= 0, check=False)
    it.ctx.sparse.names.add(v.t.get_id())
    return v


def which(it, k):
    """The observed index equal to k, or None."""
    idx = it.ctx.sparse.idx
    for u in idx:
        if u is k or (isinstance(k, SInt) and not k.bv and k.t.eq(u.t)):
            return u
    for u in idx:
        if it.ctx.branch(cmp_ints("==", k, u)):
            return u
    return None


_inside = {}
_uniform = {}


def _key(x):
    return x if isinstance(x, int) or x is None else (x.t.get_id(),)


def inside(it, t, lo, hi):
    k = (_key(t), _key(lo), _key(hi))
    c = _inside.get(k)
    if c is None:
        if len(_inside) > 5000:
            _inside.clear()
        c = _inside[k] = (cmp_ints("<=", lo, t), cmp_ints("<", t, hi), t, lo, hi)
    return it.ctx.branch(c[0]) and it.ctx.branch(c[1])


def observed_in(it, lo, hi):
    return [t for t in it.ctx.sparse.idx if inside(it, t, lo, hi)]


def is_large(it, r):
    """Iterate over range r at the observed indices only?"""
    if it.ctx.sparse is None or r.step != 1:
        return False
    if isinstance(r.start, int) and isinstance(r.stop, int):
        return r.stop - r.start >= LARGE
    names = it.ctx.sparse.names
    return any(isinstance(x, SInt) and not names.isdisjoint(term_vars(x.t)[0])
               for x in (r.start, r.stop))


# ------------------------------------------------------------------ mappings
def dfind(it, d, k):
    s = d.sd
    if not is_intlike(k):
        return None
    k = as_int(k)
    for e in s.vis:
        if e[0] is k:
            return e
    if not s.unit:
        t = which(it, k)
        if t is None:
            raise Unsupported("unobserved key of a mapping")
        for e in s.vis:
            if e[0] is t:
                return e
        return None
    if not inside(it, k, s.lo, s.hi):
        return None
    t = which(it, k)
    for e in s.vis:
        if e[0] is t:
            return e
    raise Unsupported("unobserved key of a mapping")


def dinsert(it, d, k, v):
    s = d.sd
    t = which(it, k)
    if s.unit or t is None:
        raise Unsupported("new key of a mapping with unobserved keys")
    s.vis.append([t, v])


# ------------------------------------------------------------------ iteration
class Nowhere:
    """Index of an element that belongs to no observed index."""
    t = None


class SIter:
    """Iterator over the observed elements; checks every iteration."""

    def __init__(self, it, entries, lo, hi, unit, guard=None):
        self.it = it
        self.entries = entries          # [(index, value)]
        self.lo, self.hi, self.unit = lo, hi, unit
        self.guard = guard              # AbsL/AbsD iterated over: must not grow meanwhile
        self.n = len(guard.sd.vis) if guard is not None else 0
        self.pos = 0
        self.t = None
        self.snap = None
        self.clean = True               # no iteration depended on its index
        self.count = 0
        self.cands = {}
        self.done = False
        self.used = False
        self.node = None
        self.tok = None
        self.order = guard.sd.order if guard is not None else None
        self.flagged = guard.sd.flagged if guard is not None else None
        self.fresh = set()
        self.many = set()

    def base_of(self):
        return self

    def __iter__(self):
        return self

    def __next__(self):
        self.finish()
        if self.entries is None:
            raise Unsupported("iterator over unobserved elements after next()")
        if self.guard is not None and len(self.guard.sd.vis) != self.n:
            raise Unsupported("sequence changed while iterating over it")
        if self.pos >= len(self.entries):
            if not self.done:
                self.done = True
                self.exhausted()
            raise StopIteration
        e = self.entries[self.pos]
        self.pos += 1
        self.begin(e[0] if e[0] is not None else Nowhere())
        return e[1]

    def at(self, t):
        for e in self.entries:
            if e[0] is t:
                return e[1]
        raise Unsupported("unobserved element")

    def begin(self, t):
        from . import merge
        self.t = t
        self.snap = merge.snap(self.it)
        self.nh = len(values.HEAP)
        self.nb = len(self.it.ctx.blog)
        self.tok = values.TOKEN[0]
        ACTIVE.append(self)
        values.TOKENS[0] += 1
        values.TOKEN[0] = values.TOKENS[0]

    def quit(self):
        """The loop was left."""
        if self.snap is not None:
            self.snap = None
            path = tuple((id(g.t), g.pos) for g in ACTIVE if g.flagged is not None)
            self.close()
            if self.flagged is not None:
                from . import tables
                tables.event(self.it, ("exit", path), self.flagged)
            else:
                left(self.it)

    def close(self):
        while ACTIVE and ACTIVE.pop() is not self:
            pass
        values.TOKEN[0] = self.tok

    def finish(self):
        if self.snap is None:
            return
        from . import merge
        old, gover, cover = self.snap
        self.snap = None
        self.close()
        it, t = self.it, self.t
        clean = self.uniform(it.ctx.blog[self.nb:])
        if not clean:
            self.clean = False
        for x, y in ((gover, it.gover), (cover, it.cover)):
            if x.keys() != y.keys() or any(x[k] is not y[k] for k in x):
                raise Unsupported("loop that changes module state")
        grown = set()
        for o, c in old:
            if isinstance(o, HObj):
                if (o.attrs.keys() != c.keys() or
                        any(o.attrs[k] is not c[k] for k in c)) and o.own is not t:
                    raise Unsupported("loop iteration that changes an earlier object (%s)"
                                      % o.cls.__name__)
            elif isinstance(o, HList):
                self.list_change(o, c, clean, grown)
            elif isinstance(o, HDict):
                self.dict_change(o, c, clean, grown)
            else:
                for k in list(o.vars):
                    if k not in c or o.vars[k] is not c[k]:
                        if self.flagged is not None and k in c and self.kept(o, k, c[k]):
                            continue
                        o.vars[k] = Poison(self.node)
        for o in values.HEAP[self.nh:]:
            if hasattr(o, "own"):
                o.own = t if o.own is None else False
        for k in self.cands:
            if k not in grown:
                self.cands[k] = (self.cands[k][0], False)
        self.count += 1

    def kept(self, fr, k, old):
        from . import tables
        new = fr.vars[k]
        if isinstance(old, (bool, SBool)) and isinstance(new, (bool, SBool)):
            return tables.directed(self.it, self, fr, k, old, new)
        return tables.settled(self.it, self, fr, k, old, new)

    def uniform(self, conds):
        """Are the branch conditions the same for every index of the space?"""
        if not conds:
            return True
        if not self.unit or isinstance(self.t, Nowhere) or any(c is None for c in conds):
            return False
        k = (_key(self.t), _key(self.lo), _key(self.hi),
             tuple(sorted({c.get_id() for c in conds})))
        if k not in _uniform:
            if len(_uniform) > 5000:
                _uniform.clear()
            _uniform[k] = (self._same(conds), conds, self.t, self.lo, self.hi)
        return _uniform[k][0]

    def _same(self, conds):
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(to_mint(self.lo) <= self.t.t, self.t.t < to_mint(self.hi))
        for c in {c.get_id(): c for c in conds}.values():
            if s.check(c) != z3.unsat and s.check(z3.Not(c)) != z3.unsat:
                return False
        return True

    def cand(self, o, ok, grown):
        grown.add(id(o))
        if id(o) not in self.cands:
            self.cands[id(o)] = (o, ok and self.count == 0 and self.unit)
        elif not ok:
            self.cands[id(o)] = (o, False)

    def list_change(self, o, c, clean, grown):
        t = self.t
        old = c if isinstance(c, SD) else None
        if isinstance(o, AbsL):
            new = o.sd
            if old is None:
                olds = [[None, x] for x in c]
            else:
                olds = old.vis
            if old is not None and old.same(new):
                return
            if o.own is t:
                return
            n = len(olds)
            if len(new.vis) < n and old is not None and new.distinct and \
                    any(e[0] is t for e in olds):
                keep = [e for e in olds if e[0] is not t]
                if len(keep) != len(new.vis) or any(a[0] is not b[0] or a[1] is not b[1]
                                                    for a, b in zip(keep, new.vis)):
                    raise Unsupported("loop iteration that changes another element")
                self.cand(o, False, grown)
                return
            if len(new.vis) < n:
                raise Unsupported("loop iteration that removes from an earlier list")
            for a, b in zip(olds, new.vis):
                if a[1] is not b[1] and b[0] is not t:
                    raise Unsupported("loop iteration that changes another element")
            if len(new.vis) > n:
                for e in new.vis[n:]:
                    e[0] = t
                if n == 0 and old is None:
                    self.fresh.add(id(o))
                new.size = None
                self.nested(o)
                new.unit = False
                new.keys = None
                if id(o) not in self.fresh:
                    new.order = None
                self.cand(o, clean and len(new.vis) == n + 1 and (old is None or id(o) in self.cands),
                          grown)
            return
        if o.own is t:
            return
        cur = o.items
        n = len(c)
        if len(cur) == n and all(x is y for x, y in zip(cur, c)):
            return
        if len(cur) <= n or any(x is not y for x, y in zip(cur, c)):
            raise Unsupported("loop iteration that changes an earlier list")
        vis = [[None, x] for x in c] + [[t, x] for x in cur[n:]]
        o.__class__ = AbsL
        _L.__set__(o, SD(vis))
        self.nested(o)
        if n == 0:
            self.fresh.add(id(o))
        self.cand(o, clean and n == 0 and len(vis) == 1, grown)

    def nested(self, o):
        """An iteration of the loop around this one adds any number of elements."""
        if ACTIVE:
            ACTIVE[-1].many.add(id(o))

    def dict_change(self, o, c, clean, grown):
        t = self.t
        from . import maps
        if isinstance(o, maps.AnyMap):
            if not c.same(o.sd) and o.own is not t:
                raise Unsupported("loop iteration that changes an earlier mapping")
            return
        if isinstance(o, AbsD):
            if isinstance(c, SD):
                if c.same(o.sd) or o.own is t:
                    return
                n = len(c.vis)
                for a, b in zip(c.vis, o.sd.vis):
                    if a[1] is not b[1] and b[0] is not t:
                        raise Unsupported("loop iteration that changes another key")
                extra = o.sd.vis[n:]
                if any(e[0] is not t for e in extra):
                    raise Unsupported("loop iteration that adds another key")
                if extra:
                    self.cand(o, clean and len(extra) == 1 and id(o) in self.cands, grown)
            return
        if o.own is t:
            return
        old = {k: v for k, _, _, v in c[0]}
        cells = list(o.d.items())
        if len(cells) == len(old) and all(k in old and old[k] is cell[1] for k, cell in cells):
            return
        if self.flagged is not None and o.isset and \
                list(old) == [k for k, _ in cells][:len(old)] and \
                all(isinstance(k, (str, int)) for k, _ in cells):
            from . import tables
            for k, _ in cells[len(old):]:
                tables.event(self.it, ("add", id(o), k), self.flagged)
            return
        if old or len(cells) != 1 or o.isset:
            raise Unsupported("loop iteration that changes an earlier mapping")
        key, v = cells[0][1]
        if key is not t:
            raise Unsupported("loop iteration that adds another key")
        o.__class__ = AbsD
        _D.__set__(o, SD([[t, v]]))
        o.nsym = 1
        self.cand(o, clean, grown)

    def exhausted(self):
        for o, ok in self.cands.values():
            s = o.sd
            if ok:
                s.unit, s.lo, s.hi = True, self.lo, self.hi
            if id(o) in self.fresh:
                if id(o) not in self.many:
                    derive(self.it, self, s)
                s.order, s.flagged = self.order, self.flagged


class SMap(SIter):
    """fn(index, element) of another iterator."""

    def __init__(self, base, fn):
        self.base, self.fn = base, fn

    def __next__(self):
        x = next(self.base)
        return self.fn(self.base.t, x)

    def at(self, t):
        return self.fn(t, self.base.at(t))

    def quit(self):
        self.base.quit()

    def base_of(self):
        return self.base.base_of()

    def __getattr__(self, n):
        return getattr(self.base, n)


def left(it):
    ob = it.ctx.sparse
    k = it.role
    ob.exits[k] = ob.exits.get(k, 0) + 1
    if ob.exits[k] > ob.limit or ACTIVE:
        raise Unsupported("more loops left early than indices observed")


def first(it, g, default):
    """next() of a fresh iterator: a loop left in the first iteration."""
    if g.used:
        raise Unsupported("next() of an iterator over unobserved elements")
    g.base_of().used = True
    for x in g:
        g.quit()
        g.base_of().entries = None
        return x
    if default:
        return default[0]
    raise it.exc(StopIteration)


def range_iter(it, r):
    lo, hi = r.start, r.stop
    return SIter(it, [(t, t) for t in observed_in(it, lo, hi)], lo, hi, True)


def list_iter(it, l):
    unobserved(l)
    s = calm(l)
    return SIter(it, [(e[0], e[1]) for e in s.vis], s.lo, s.hi, s.unit, l)


def dict_iter(it, d, kind):
    s = calm(d)
    f = {"keys": lambda e: e[0], "values": lambda e: e[1], "items": lambda e: (e[0], e[1])}[kind]
    return SIter(it, [(e[0], f(e)) for e in s.vis], s.lo, s.hi, s.unit, d)


def enumerated(it, g, first):
    if not g.unit:
        raise Unsupported("enumeration of a list with unobserved elements")
    return SMap(g, lambda t, x: (norm_int(add_ints(add_ints(t, g.lo, -1), first))
                                 if not (g.lo == 0 and first == 0) else t, x))


def zipped(it, gs):
    if not all(isinstance(g, SIter) and g.unit for g in gs):
        raise Unsupported("zip of a list with unobserved elements")
    g = gs[0]
    n = add_ints(g.hi, g.lo, -1)
    for h in gs[1:]:
        c = cmp_ints("==", n, add_ints(h.hi, h.lo, -1))
        if not it.ctx.branch(c):
            raise Unsupported("zip of lists of different lengths")
        if not (isinstance(h.lo, int) and isinstance(g.lo, int) and h.lo == g.lo):
            raise Unsupported("zip of shifted lists")
    return SMap(g, lambda t, x: tuple([x] + [h.at(t) for h in gs[1:]]))


def collect(it, g, vals, ok=True, nested=False):
    """List of the values produced by consuming iterator g: vals are (index, value)."""
    unit = ok and g.unit and g.clean
    l = mk_list(SD([list(v) for v in vals], g.lo if unit else None, g.hi if unit else None,
                   unit))
    l.sd.order, l.sd.flagged = g.order, g.flagged
    base = g.base_of()
    if not nested:
        derive(it, base, l.sd)
    if base.guard is not None and base.guard.sd.distinct:
        l.sd.distinct = all(any(e[0] is t and e[1] is v for e in base.entries) for t, v in vals)
    return l


def unobserved(l):
    if isinstance(l, AbsL):
        if l.sd.src is not None:
            raise Unsupported("elements of a list that a loop collects")
        return [list(e) for e in calm(l).vis]
    return [[None, x] for x in l.items]


def concat(a, b):
    return mk_list(SD(unobserved(a) + unobserved(b)))


def repeated(it, l, n):
    """[x] * n."""
    if isinstance(n, SInt) and not isinstance(l, AbsL) and n.lo is not None and \
            n.hi is not None and n.lo >= 0 and n.hi <= 4:
        for i in range(n.lo, n.hi):
            if it.ctx.branch(cmp_ints("==", n, i)):
                return HList(l.items * i)
        return HList(l.items * n.hi)
    if isinstance(l, AbsL) or len(l.items) != 1:
        raise Unsupported("long repetition of a list")
    if isinstance(n, SInt) and it.ctx.branch(cmp_ints("<=", n, 0)):
        return HList([])
    return mk_list(SD([[t, l.items[0]] for t in observed_in(it, 0, n)], 0, n, True))


def into(l):
    """Let list l have hidden elements."""
    if not isinstance(l, AbsL):
        vis = [[None, x] for x in l.items]
        l.__class__ = AbsL
        _L.__set__(l, SD(vis))
    l.sd.unit = False
    return l.sd


def list_method(it, l, name, args, kwargs):
    s = l.sd
    if name == "append":
        s.vis.append([None, args[0]])
        if it.ctx.sparse.lengths:
            s.size = norm_int(add_ints(size_of(it, s), 1))
        s.unit = s.distinct = False
        s.order = s.keys = None
        return None
    if name == "extend":
        return extend(it, l, args[0])
    if name == "copy":
        return mk_list(calm(l).copy())
    if name == "__len__":
        return it.length(l)
    if name == "__getitem__":
        return it.getitem(l, args[0])
    if name == "__setitem__":
        return it.setitem(l, args[0], args[1])
    if name == "__iter__":
        return IterV(it.iterate(l, True))
    if name == "remove":
        return remove(it, l, it.force(args[0]))
    if name == "sort" and not args:
        _L.__set__(l, l.vsorted(it, kwargs).sd)
        return None
    if name == "clear":
        l.__class__ = HList
        _L.__set__(l, [])
        return None
    raise Unsupported("%s of a list with unobserved elements" % name)


def extend(it, l, src):
    if src is l:
        raise Unsupported("list extended by itself")
    g = it.iterate(src, True)
    if not isinstance(g, SIter):
        for x in g:
            if isinstance(l, AbsL):
                list_method(it, l, "append", [x], {})
            else:
                l.items.append(x)
        return None
    if not isinstance(l, AbsL) and not l.items:
        new = it.make_list(IterV(g))
        into(l)
        _L.__set__(l, new.sd)
        return None
    vals = []
    for x in g:
        vals.append([g.t if g.t.t is not None else None, x])
    into(l).vis.extend(vals)
    return None


class AbsText:
    """Texts of a list with hidden elements joined by a separator."""

    def __init__(self, sep, l):
        self.sep, self.l = sep, l

    def veq(self, it, b):
        if not COMPARING[0]:
            raise Unsupported("comparison of a text with unobserved parts")
        if not isinstance(b, AbsText):
            # the text of a list that has no element of an observed index
            return isinstance(b, str) and b == "" and not self.l.sd.vis
        return it.conj([it.eq(self.sep, b.sep), it.eq(self.l, b.l)])

    def vtruth(self, it):
        raise Unsupported("truth of a text with unobserved parts")
