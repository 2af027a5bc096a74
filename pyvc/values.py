"""Symbolic values and their operations.

Python ints are modelled exactly in two ways:
  * bv mode: a two's-complement bit-vector of N bits together with an interval
    [lo, hi] that is known to contain the mathematical value; every operation
    checks that its exact result fits in N bits (else: prove a tighter bound, or
    give up with Unsupported), so bit-vector arithmetic equals Python arithmetic.
  * int mode: a mathematical integer (z3 Int) with an interval whose ends may be
    None (unbounded).
"""
import z3

N = 160                     # bits of the bit-vector representation
KBITS = 72                  # |x| <= 2**KBITS: "ordinary" ints, modelled as bv
LIM = 1 << (N - 1)


class Unsupported(Exception):
    """The verifier cannot handle a construct: the path is undecided."""


class Sym:
    """Base of symbolic values."""
    __slots__ = ()


class SInt(Sym):
    __slots__ = ("t", "lo", "hi", "bv")

    def __init__(self, t, lo=None, hi=None):
        self.t = t
        self.bv = z3.is_bv(t)
        self.lo = lo
        self.hi = hi
        if self.bv:
            assert lo is not None and hi is not None
            assert -LIM <= lo and hi < LIM

    def __repr__(self):
        return "SInt(%s)" % (self.t,)


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBool(%s)" % (self.t,)


class SStr(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SStr(%s)" % (self.t,)


class SUnion(Sym):
    """One of several values: alts is a list of (z3 guard, value); on every path
    exactly one guard holds."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "SUnion(%r)" % (self.alts,)


class SFloat(Sym):
    """A float nobody looks into (result of true division and the like)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


def mk_bool(t):
    """z3 Bool -> concrete bool when decided syntactically."""
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def as_int(v):
    """bool/SBool -> int/SInt; ints pass through; others -> None."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, SInt)):
        return v
    if isinstance(v, SBool):
        return SInt(z3.If(v.t, z3.BitVecVal(1, N), z3.BitVecVal(0, N)), 0, 1)
    return None


def is_intlike(v):
    return isinstance(v, (bool, int, SInt, SBool))


def iv(v):
    """Interval of an int/SInt."""
    if isinstance(v, int):
        return v, v
    return v.lo, v.hi


def fits(lo, hi):
    return lo is not None and hi is not None and -LIM <= lo and hi < LIM


def to_bv(v):
    """Term in bv mode, or None."""
    if isinstance(v, int):
        if -LIM <= v < LIM:
            return z3.BitVecVal(v, N)
        return None
    if v.bv:
        return v.t
    return None


def to_mint(v):
    """Term in mathematical-int mode."""
    if isinstance(v, int):
        return z3.IntVal(v)
    if v.bv:
        t = z3.simplify(v.t)
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_signed_long())
        return z3.BV2Int(v.t, True)
    return v.t


def norm_int(v):
    """Concrete int when the term is a literal."""
    if isinstance(v, SInt):
        if v.lo is not None and v.lo == v.hi:
            return v.lo
        if z3.is_bv_value(v.t):
            return v.t.as_signed_long()
        if z3.is_int_value(v.t):
            return v.t.as_long()
    return v


def _add(a, b):
    return None if a is None or b is None else a + b


def _sub(a, b):
    return None if a is None or b is None else a - b


def cmp_ints(op, a, b):
    """op in < <= > >= == !=; a, b int or SInt. Returns bool or SBool."""
    if isinstance(a, int) and isinstance(b, int):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b,
                "==": a == b, "!=": a != b}[op]
    al, ah = iv(a)
    bl, bh = iv(b)

    def lt(x, y):
        return x is not None and y is not None and x < y

    def le(x, y):
        return x is not None and y is not None and x <= y
    if op == "<":
        if lt(ah, bl):
            return True
        if le(bh, al):
            return False
    elif op == "<=":
        if le(ah, bl):
            return True
        if lt(bh, al):
            return False
    elif op == ">":
        return cmp_ints("<", b, a)
    elif op == ">=":
        return cmp_ints("<=", b, a)
    elif op == "==":
        if lt(ah, bl) or lt(bh, al):
            return False
    elif op == "!=":
        r = cmp_ints("==", a, b)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))
    x, y = to_bv(a), to_bv(b)
    if x is None or y is None:
        x, y = to_mint(a), to_mint(b)
    t = {"<": lambda: x < y, "<=": lambda: x <= y, "==": lambda: x == y}[op]()
    return mk_bool(t)


def mk_sint(t, lo, hi):
    t = z3.simplify(t)
    return norm_int(SInt(t, lo, hi))


def add_ints(a, b, sign=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + sign * b
    al, ah = iv(a)
    bl, bh = iv(b)
    lo, hi = (_add(al, bl), _add(ah, bh)) if sign > 0 else (_sub(al, bh), _sub(ah, bl))
    x, y = to_bv(a), to_bv(b)
    if x is not None and y is not None and fits(lo, hi):
        return mk_sint(x + y if sign > 0 else x - y, lo, hi)
    x, y = to_mint(a), to_mint(b)
    return mk_sint(x + y if sign > 0 else x - y, lo, hi)


def neg_int(a):
    return add_ints(0, a, -1)


def mul_ints(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    al, ah = iv(a)
    bl, bh = iv(b)
    lo = hi = None
    if None not in (al, ah, bl, bh):
        c = [al * bl, al * bh, ah * bl, ah * bh]
        lo, hi = min(c), max(c)
    x, y = to_bv(a), to_bv(b)
    if x is not None and y is not None and fits(lo, hi):
        return mk_sint(x * y, lo, hi)
    if not isinstance(a, int) and not isinstance(b, int):
        raise Unsupported("non-linear integer multiplication")
    return mk_sint(to_mint(a) * to_mint(b), lo, hi)


def bitop_interval(op, a, b):
    al, ah = iv(a)
    bl, bh = iv(b)
    if op == "&":
        if al >= 0 and bl >= 0:
            return 0, min(ah, bh)
        if al >= 0:
            return 0, ah
        if bl >= 0:
            return 0, bh
    k = 0
    for z in (al, ah, bl, bh):
        k = max(k, z.bit_length() if z >= 0 else (-z - 1).bit_length())
    if al >= 0 and bl >= 0:
        return (max(al, bl) if op == "|" else 0), (1 << k) - 1
    return -(1 << k), (1 << k) - 1


def bitop(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {"&": a & b, "|": a | b, "^": a ^ b}[op]
    x, y = to_bv(a), to_bv(b)
    if x is None or y is None:
        raise Unsupported("bit operation on an unbounded int")
    lo, hi = bitop_interval(op, a, b)
    t = {"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
    return mk_sint(t, lo, hi)


# ---------------------------------------------------------------- heap values
HEAP = []               # mutable objects of the current path (when merging)
MERGING = [False]
TRACK = [False]         # note the objects allocated
TOKEN = [0]             # current iteration of an observed loop
TOKENS = [0]
EPOCH = [0]
SPEC = []               # epochs of the speculative executions under way


class HObj:
    """Instance of a user-defined class."""
    __slots__ = ("cls", "attrs", "tag", "own")

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.tag = None
        self.own = None
        if TRACK[0]:
            HEAP.append(self)

    def __repr__(self):
        return "<HObj %s>" % self.cls.__name__


class HList:
    __slots__ = ("items", "own")

    def __init__(self, items=None):
        self.items = [] if items is None else items
        self.own = None
        if TRACK[0]:
            HEAP.append(self)

    def __repr__(self):
        return "HList(%r)" % (self.items,)


class LenInt(SInt):
    """The length of a list with hidden elements (src, as it was then); two such
    lengths are equal if the lists are."""
    __slots__ = ("src",)


class HDict:
    """Mapping (or set) with pairwise distinct keys (decided on the path).

    `d` maps the concrete hashable key, or a token for a symbolic key, to the
    cell [key, value]; insertion order is kept."""
    __slots__ = ("d", "nsym", "isset", "own")

    def __init__(self, isset=False):
        self.d = {}
        self.nsym = 0
        self.isset = isset
        self.own = None
        if TRACK[0]:
            HEAP.append(self)

    def cells(self):
        return list(self.d.values())

    def __len__(self):
        return len(self.d)


class SymKey:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


class RangeV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step


class SliceV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=None):
        self.start, self.stop, self.step = start, stop, step


class FuncV:
    """A function or lambda of interpreted code."""
    __slots__ = ("node", "glb", "parent", "defaults", "kwdefaults", "name",
                 "cells", "owner", "isgen")

    def __init__(self, node, glb, parent, defaults, kwdefaults, name,
                 cells=None, owner=None):
        self.node = node
        self.glb = glb
        self.parent = parent
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.cells = cells or {}
        self.owner = owner
        self.isgen = None


class BoundV:
    __slots__ = ("self_", "func")

    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func


class BuiltinM:
    """Method of a built-in value (list.append, str.strip, ...)."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class StreamV:
    """Standard output or standard error: what is written is not observed."""
    __slots__ = ()

    def vtruth(self, it):
        return True

    def vgetattr(self, it, name):
        if name in ("write", "flush"):
            return StreamM()
        raise Unsupported("stream attribute %s" % name)


class StreamM:
    __slots__ = ()

    def vcall(self, it, args, kwargs):
        if args:
            from . import builtin
            builtin.text_of(it, args[0])
        return None


STREAM = StreamV()


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class IterV:
    """An iterator: wraps a Python generator of values."""
    __slots__ = ("_gen", "src", "epoch", "token")

    def __init__(self, gen, src=None):
        self._gen = gen
        self.src = src
        self.epoch = EPOCH[0]
        self.token = TOKEN[0]

    @property
    def gen(self):
        if self.token != TOKEN[0]:
            raise Unsupported("iterator advanced by iterations of an observed loop")
        if SPEC and self.epoch < SPEC[-1]:
            from .explore import MergeAbort
            raise MergeAbort("iterator of an enclosing execution")
        return self._gen


class ViewV:
    """dict.keys() / values() / items()."""
    __slots__ = ("d", "kind")

    def __init__(self, d, kind):
        self.d = d
        self.kind = kind


class ExcV:
    """An exception instance."""
    __slots__ = ("cls", "args", "attrs")

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args
        self.attrs = {}


class Lazy:
    """An attribute of any value, chosen when it is first read."""

    def __init__(self, make):
        self.make = make
        self.val = MISSING_

    def force(self, it):
        if self.val is MISSING_:
            self.val = self.make(it)
        return self.val


MISSING_ = object()


class PyExc(Exception):
    """A Python exception raised by interpreted code."""

    def __init__(self, cls, args=(), val=None):
        Exception.__init__(self, cls.__name__, args)
        self.val = val if val is not None else ExcV(cls, args)

    @property
    def cls(self):
        return self.val.cls


def shl_int(a, s):
    """a << s for s >= 0 with a bounded interval."""
    if isinstance(a, int) and isinstance(s, int):
        return a << s
    al, ah = iv(a)
    sl, sh = iv(s)
    if None in (al, ah, sl, sh) or sl < 0 or sh > N:
        raise Unsupported("shift amount out of the modelled range")
    lo = min(al << sl, al << sh)
    hi = max(ah << sl, ah << sh)
    if not fits(lo, hi):
        raise Unsupported("shift result does not fit the bit-vector model")
    x, y = to_bv(a), to_bv(s)
    if x is None or y is None:
        raise Unsupported("shift of an unbounded int")
    return mk_sint(x << y, lo, hi)


def shr_int(a, s):
    """a >> s for s >= 0 (arithmetic)."""
    if isinstance(a, int) and isinstance(s, int):
        return a >> s
    al, ah = iv(a)
    sl, sh = iv(s)
    if None in (al, ah, sl, sh) or sl < 0 or not fits(sl, sh):
        raise Unsupported("shift amount out of the modelled range")
    x, y = to_bv(a), to_bv(s)
    if x is None or y is None:
        raise Unsupported("shift of an unbounded int")
    c = [al >> min(sl, 4 * N), al >> min(sh, 4 * N), ah >> min(sl, 4 * N), ah >> min(sh, 4 * N)]
    return mk_sint(x >> y, min(c), max(c))


def divmod_const(a, d):
    """Python floor division and modulo by a positive constant d."""
    al, ah = iv(a)
    x = to_bv(a)
    if x is not None:
        if d & (d - 1) == 0:
            k = d.bit_length() - 1
            return shr_int(a, k), bitop("&", a, d - 1)
        D = z3.BitVecVal(d, N)
        q = x / D                       # signed, truncating
        r = z3.SRem(x, D)
        if al < 0:
            neg = z3.And(r != 0, x < 0)
            q = z3.If(neg, q - 1, q)
            r = z3.If(neg, r + D, r)
        return (mk_sint(q, al // d, ah // d), mk_sint(r, 0, d - 1))
    t = to_mint(a)
    return (mk_sint(t / d, None if al is None else al // d,
                    None if ah is None else ah // d),
            mk_sint(t % d, 0, d - 1))
