"""Class contract of BitField: operations as client snippets."""
from pyvc.contract import ClassContract, Op
from pyvc.domains import (AnyInt, Near, IntRange, Choice, Const, OneOf, Slice)

W64 = (1 << 64) - 1
IDX = Near(-1, 65)
VAL = AnyInt()


def f_value(o): return o.value
def f_maxval(o): return o.maxval
def f_width(o): return o.width
def f_numbering(o): return o.numbering
def f_order(o): return o.order
def f_int(o): return int(o)
def f_index(o): return o.__index__()
def f_len(o): return len(o)
def f_indices(o): return o.indices
def f_lsb(o): return o.lsb
def f_msb(o): return o.msb
def f_get(o, i): return o[i]
def f_getslice(o, a, b): return o[a:b]
def f_isbit(o, i, v): return o.isBit(i, v)
def f_isbitset(o, i): return o.isBitSet(i)
def f_isbitclr(o, i): return o.isBitClr(i)
def f_isrange(o, a, b, v): return o.isRange(a, b, v)
def f_israngeset(o, a, b): return o.isRangeSet(a, b)
def f_israngeclr(o, a, b): return o.isRangeClr(a, b)


def f_setvalue(o, v):
    o.value = v


def f_put(o, i, v):
    o[i] = v


def f_putslice(o, a, b, v):
    o[a:b] = v


def f_setbit(o, i):
    o.set(i)


def f_clrbit(o, i):
    o.clear(i)


def f_setall(o):
    o.set()


def f_clrall(o):
    o.clear()


def c_full(cls, value, width, numbering, order):
    return cls(value, width, numbering, order)


def c_default(cls):
    return cls()


def c_value(cls, value):
    return cls(value)


def c_kw(cls, value, width):
    return cls(value, width=width)


def c_kw2(cls, value, width, numbering):
    return cls(value, width=width, numbering=numbering)


def c_kw3(cls, value, order):
    return cls(value, order=order)


def width_ok(value, width, *rest):
    return width >= 1


# index arguments: every int; values: every int
CONFIGS = [{2: Const(n), 3: Const(o)} for n in range(4) for o in range(2)]


class BitFieldC(ClassContract):
    name = "BitField"
    real = "h800.bitfield:BitField"
    spec = "specs.bitfield:BitFieldSpec"
    view = (IntRange(0, W64), IntRange(1, 64), Choice(0, 1, 2, 3), Choice(0, 1))
    view_cases = CONFIGS
    other = (0b1011, 7, 1, 0)
    hint_files = ("h800/bitfield.py",)
    ctor_args = {"new": (0, 1, 2, 3), "new2": (0, 1), "new3": (0, 1, 2),
                 "new4": (0, 3)}

    @staticmethod
    def config(a):
        c = (a.get("w"), a.get("n"), a.get("o"))
        if all(type(x) is int for x in c):
            return {1: c[0], 2: c[1], 3: c[2]}
        return None

    @staticmethod
    def inv(value, width, numbering, order):
        return value < 2 ** width

    @staticmethod
    def build(cls, value, width, numbering, order):
        return cls(value, width, numbering, order)

    @staticmethod
    def canon(s):
        return (s.v, s.w, s.n, s.o)

    @staticmethod
    def observe(o):
        return [o.value, o.width, o.maxval, o.numbering, o.order, int(o), len(o),
                o.lsb, o.msb] + o.indices + [o[i] for i in o.indices]

    ops = {
        "value": Op(f_value), "maxval": Op(f_maxval), "width": Op(f_width),
        "numbering": Op(f_numbering), "order": Op(f_order), "int": Op(f_int),
        "index": Op(f_index), "len": Op(f_len), "indices": Op(f_indices),
        "lsb": Op(f_lsb), "msb": Op(f_msb),
        "get": Op(f_get, IDX, weight=2), "getslice": Op(f_getslice, IDX, IDX, weight=4),
        "isbit": Op(f_isbit, IDX, Near(0, 1)), "isbitset": Op(f_isbitset, IDX),
        "isbitclr": Op(f_isbitclr, IDX), "isrange": Op(f_isrange, IDX, IDX, Near(0, 1)),
        "israngeset": Op(f_israngeset, IDX, IDX),
        "israngeclr": Op(f_israngeclr, IDX, IDX),
        "setvalue": Op(f_setvalue, VAL, weight=2), "put": Op(f_put, IDX, Near(0, 1), weight=3),
        "putslice": Op(f_putslice, IDX, IDX, VAL, weight=6),
        "setbit": Op(f_setbit, IDX), "clrbit": Op(f_clrbit, IDX),
        "setall": Op(f_setall), "clrall": Op(f_clrall),
        "new": Op(c_full, VAL, Near(1, 64), Near(0, 3), Near(0, 1), cls=True,
                  pre=width_ok),
        "new0": Op(c_default, cls=True), "new1": Op(c_value, VAL, cls=True),
        "new2": Op(c_kw, VAL, Near(1, 64), cls=True, pre=width_ok),
        "new3": Op(c_kw2, VAL, Near(1, 64), Near(0, 3), cls=True, pre=width_ok),
        "new4": Op(c_kw3, VAL, Near(0, 1), cls=True),
    }
