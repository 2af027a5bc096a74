"""Input domains: symbolic creation, random native generation."""
import random

import z3

from .values import N, KBITS, SInt, SStr, SBool, SliceV, Unsupported, norm_int, add_ints
from . import sparse

BIG = 1 << KBITS


class Dom:
    def sym(self, it, name):
        raise NotImplementedError

    def rand(self, rng, h):
        raise NotImplementedError


class Const(Dom):
    def __init__(self, v):
        self.v = v

    def sym(self, it, name):
        return it.lift(self.v)

    def rand(self, rng, h):
        return self.v


class IntRange(Dom):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def sym(self, it, name):
        if self.lo == self.hi:
            return self.lo
        t = z3.BitVec(it.ctx.name(name), N)
        it.ctx.assume(z3.And(t >= z3.BitVecVal(self.lo, N),
                             t <= z3.BitVecVal(self.hi, N)), check=False)
        return SInt(t, self.lo, self.hi)

    def rand(self, rng, h):
        r = rng.random()
        if r < 0.25:
            return rng.choice([self.lo, self.hi, min(self.lo + 1, self.hi),
                               max(self.hi - 1, self.lo)])
        if r < 0.5:
            c = [x for x in h.ints if self.lo <= x <= self.hi]
            if c:
                return rng.choice(c)
        if r < 0.7:
            span = self.hi - self.lo
            k = rng.randrange(span.bit_length() + 1)
            return min(self.hi, self.lo + rng.getrandbits(k) if k else self.lo)
        if r < 0.8 and self.lo >= 0:
            k = rng.randrange(max(1, self.hi.bit_length()))
            return max(self.lo, min(self.hi, 1 << k))
        return rng.randint(self.lo, self.hi)


class AnyInt(Dom):
    """Every Python int."""

    def sym(self, it, name):
        k = it.ctx.choose(3)
        n = it.ctx.name(name)
        if k == 0:
            t = z3.BitVec(n, N)
            it.ctx.assume(z3.And(t >= z3.BitVecVal(-BIG, N),
                                 t <= z3.BitVecVal(BIG, N)), check=False)
            return SInt(t, -BIG, BIG)
        t = z3.Int(n + ("+" if k == 1 else "-"))
        if k == 1:
            it.ctx.assume(t > BIG, check=False)
            return SInt(t, BIG + 1, None)
        it.ctx.assume(t < -BIG, check=False)
        return SInt(t, None, -BIG - 1)

    def rand(self, rng, h):
        r = rng.random()
        if r < 0.35:
            return rng.randint(-2, 66)
        if r < 0.55 and h.ints:
            return rng.choice(h.ints) + rng.choice([0, 0, 0, 1, -1])
        if r < 0.75:
            k = rng.randrange(0, 66)
            return rng.choice([1, -1]) * ((1 << k) + rng.choice([-1, 0, 0, 1]))
        if r < 0.95:
            return rng.getrandbits(rng.randrange(1, 66))
        return rng.choice([1, -1]) * rng.getrandbits(rng.randrange(64, 200))


class Positive(Dom):
    """Every int >= 1 (a mathematical integer); random generation up to `near`."""

    def __init__(self, near):
        self.near = near

    def sym(self, it, name):
        t = z3.Int(it.ctx.name(name))
        it.ctx.assume(t >= 1, check=False)
        return SInt(t, 1, None)

    def rand(self, rng, h):
        return IntRange(1, self.near).rand(rng, h)


class Near(AnyInt):
    """Every Python int; random generation close to [lo, hi]."""

    def __init__(self, lo, hi, near=None):
        self.lo, self.hi, self.near = lo, hi, near

    def rand(self, rng, h):
        r = rng.random()
        if self.near is not None and rng.random() < 0.5:
            return Near(self.lo, self.near).rand(rng, h)
        if r < 0.8:
            return IntRange(self.lo, self.hi).rand(rng, h)
        if r < 0.93:
            return rng.choice([self.lo - 1, self.hi + 1, self.lo - 2, self.hi + 2,
                               self.hi * 2 + 1, -self.hi])
        return AnyInt().rand(rng, h)


class Index(Near):
    """Every int (a mathematical integer), as a position of a large sequence: the
    position is observed.  With off=-1 it is the end of a range of positions, the
    last of which is observed."""

    def __init__(self, lo, hi, off=0):
        Near.__init__(self, lo, hi)
        self.off = off

    def sym(self, it, name):
        v = SInt(z3.Int(it.ctx.name(name)), None, None)
        if self.off == 0:
            return sparse.track(it, v)
        return add_ints(sparse.track(it, v), -self.off)


class Choice(Dom):
    def __init__(self, *vals):
        self.vals = vals

    def sym(self, it, name):
        return it.lift(self.vals[it.ctx.choose(len(self.vals))])

    def rand(self, rng, h):
        return rng.choice(self.vals)


class OneOf(Dom):
    """Union of domains."""

    def __init__(self, *doms, weights=None):
        self.doms = doms
        self.weights = weights

    def sym(self, it, name):
        return self.doms[it.ctx.choose(len(self.doms))].sym(it, name)

    def rand(self, rng, h):
        if self.weights:
            return rng.choices(self.doms, self.weights)[0].rand(rng, h)
        return rng.choice(self.doms).rand(rng, h)


class Tup(Dom):
    def __init__(self, *doms):
        self.doms = doms

    def sym(self, it, name):
        return tuple(d.sym(it, "%s.%d" % (name, i)) for i, d in enumerate(self.doms))

    def rand(self, rng, h):
        return tuple(d.rand(rng, h) for d in self.doms)


class Slice(Dom):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def sym(self, it, name):
        return SliceV(self.a.sym(it, name + ".start"), self.b.sym(it, name + ".stop"))

    def rand(self, rng, h):
        a, b = self.a.rand(rng, h), self.b.rand(rng, h)
        if rng.random() < 0.5 and isinstance(a, int) and isinstance(b, int):
            a, b = sorted((a, b))
        return slice(a, b)


class Fam(Dom):
    """A sequence of n values of one domain."""

    def __init__(self, n, dom):
        self.n, self.dom = n, dom

    def sym(self, it, name):
        if it.ctx.sparse is None:
            raise Unsupported("family domain")
        vis = [[t, self.dom.sym(it, name + ".")] for t in sparse.observed_in(it, 0, self.n)]
        return sparse.mk_list(sparse.SD(vis, 0, self.n, True))

    def rand(self, rng, h):
        if rng.random() < 0.4:
            return [0] * self.n
        k = rng.choice([1, 5, self.n])
        if k == self.n:
            return [rng.randint(self.dom.lo, self.dom.hi) for _ in range(self.n)]
        out = [0] * self.n
        for _ in range(k):
            out[rng.randrange(self.n)] = self.dom.rand(rng, h)
        return out


_ALPH = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


class Text(Dom):
    """Every str (symbolically: the SMT string sort, i.e. Unicode text)."""

    def __init__(self, gen=None, prefix=None):
        self.gen = gen
        self.prefix = prefix

    def sym(self, it, name):
        t = z3.String(it.ctx.name(name))
        if self.prefix:
            it.ctx.assume(z3.PrefixOf(z3.StringVal(self.prefix), t), check=False)
        return SStr(t)

    def rand(self, rng, h):
        if self.gen:
            return self.gen(rng, h)
        r = rng.random()
        if r < 0.3 and h.strs:
            return rng.choice(h.strs)
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30])
        return "".join(rng.choice(_ALPH + "  ,.\n\t$#*'") for _ in range(n))


class Hints:
    """Literals harvested from the source under check."""

    def __init__(self, ints=(), strs=()):
        self.ints = list(ints)
        self.strs = list(strs)
