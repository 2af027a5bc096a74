"""Contracts of memory banks and modules."""
from pyvc.contract import ClassContract, FuncContract, Op
from pyvc.domains import Near, IntRange, Choice, Const, OneOf, Fam, Index

HINT = ("h800/memory.py", "h800/word.py")
J2 = [{"J": k} for k in range(2)]
J3 = [{"J": k} for k in range(3)]
MAX48 = (1 << 48) - 1
ADDR = Index(0, 2047)
STOP = Index(0, 2048, off=-1)
VALUE = Near(0, MAX48)


def b_len(o): return len(o)
def b_width(o): return o.width
def b_read(o, k): return o[k]


def b_write(o, k, v):
    o[k] = v


def b_clear(o):
    o.clear()


def b_slice(o, a, b): return o[a:b]


def b_fill(o, a, b, v):
    o[a:b] = v


def b_iter(o): return [w.value for w in o]
def b_twice(o): return [[w.value for w in o], [w.value for w in o]]


def b_whole(o): return o[0:2048]


def b_through(o, k, v):
    """Words reached by iterating are the stored ones."""
    for i, w in enumerate(o):
        if i == k:
            w.value = v


def b_nested(o, k):
    """Two iterations do not disturb each other."""
    return [[x.value for x in o] if i == k else w.value for i, w in enumerate(o)]


def b_next(o):
    """Stepping through the words with next() does not disturb the bank."""
    try:
        next(o)
    except Exception:
        pass


def build_bank(cls, m):
    b = cls()
    for i in range(2048):
        b[i] = m[i]
    return b


def c_new(cls): return cls()


class MemoryBankC(ClassContract):
    name = "MemoryBank"
    sparse = dict(n=3, within=2048)
    real = "h800.memory:MemoryBank"
    spec = "specs.memory:MemoryBank"
    view = (Fam(2048, IntRange(0, MAX48)),)
    uses = ("Word",)
    hint_files = HINT
    max_steps = 6

    build = staticmethod(build_bank)

    @staticmethod
    def canon(s):
        return (s.m,)

    @staticmethod
    def observe(o):
        return [o[0:2048], len(o), o.width]

    ops = {
        "len": Op(b_len), "width": Op(b_width),
        "read": Op(b_read, ADDR), "write": Op(b_write, ADDR, VALUE, weight=3),
        "clear": Op(b_clear, weight=.3),
        "slice": Op(b_slice, ADDR, STOP, cases=J3),
        "fill": Op(b_fill, ADDR, STOP, VALUE, weight=2, cases=J3),
        "iter": Op(b_iter), "twice": Op(b_twice), "whole": Op(b_whole),
        "through": Op(b_through, ADDR, VALUE),
        "nested": Op(b_nested, ADDR), "next": Op(b_next, follow=True),
        "new": Op(c_new, cls=True),
    }


# ------------------------------------------------------------------ modules
def m_size(o): return [len(o), o.size()]
def m_read(o, b, k): return o[b][k]


def m_write(o, b, k, v):
    o[b][k] = v


def m_fill(o, b, i, j, v):
    o[b][i:j] = v


def m_clear(o, b):
    o[b].clear()


def m_slice(o, a, b, k): return [x[k] for x in o[a:b]]


def m_slicewrite(o, a, b, k, v):
    for x in o[a:b]:
        x[k] = v


def m_iter(o, b): return [w.value for w in o[b]]


def m_other(cls, b, k, v):
    """Another module is not affected."""
    x = cls()
    y = cls()
    x[b][k] = v
    return y


def build4(cls, m0, m1, m2, m3):
    o = cls()
    ms = [m0, m1, m2, m3]
    for b in range(4):
        for i in range(2048):
            o[b][i] = ms[b][i]
    return o


def build8(cls, m0, m1, m2, m3, m4, m5, m6, m7):
    o = cls()
    ms = [m0, m1, m2, m3, m4, m5, m6, m7]
    for b in range(8):
        for i in range(2048):
            o[b][i] = ms[b][i]
    return o


def module_ops(n):
    bank = Near(0, n - 1)
    a = ADDR
    v = Near(0, MAX48)
    return {
        "size": Op(m_size), "read": Op(m_read, bank, a),
        "write": Op(m_write, bank, a, v, weight=3, cases=J2),
        "fill": Op(m_fill, IntRange(0, n - 1), ADDR, STOP, v,
                   cases=[{0: Const(b), **j} for b in range(n) for j in J2]),
        "clear": Op(m_clear, bank), "iter": Op(m_iter, IntRange(0, n - 1)),
        "slice": Op(m_slice, Near(0, n), Near(0, n), a, cases=J2),
        "slicewrite": Op(m_slicewrite, Choice(0, 1, n - 1), Choice(1, 2, n), a, v,
                         cases=[{0: Const(i), **j} for i in (0, 1, n - 1) for j in J2]),
        "new": Op(c_new, cls=True),
        "other": Op(m_other, IntRange(0, n - 1), a, IntRange(0, MAX48), cls=True),
    }


class MemoryModuleC(ClassContract):
    name = "MemoryModule"
    sparse = dict(n=2, within=2048, exits=0)
    real = "h800.memory:MemoryModule"
    spec = "specs.memory:MemoryModule"
    view = (Fam(2048, IntRange(0, MAX48)),) * 4
    uses = ("MemoryBank",)
    hint_files = HINT
    max_steps = 4
    build = staticmethod(build4)

    @staticmethod
    def canon(s):
        return tuple([b.m for b in s.banks])

    @staticmethod
    def observe(o):
        return [o[b][0:2048] for b in range(4)]

    ops = module_ops(4)


class ExpansionModuleC(ClassContract):
    name = "ExpansionModule"
    sparse = dict(n=2, within=2048, exits=0)
    real = "h800.memory:ExpansionMemoryModule"
    spec = "specs.memory:ExpansionMemoryModule"
    view = (Fam(2048, IntRange(0, MAX48)),) * 8
    uses = ("MemoryBank",)
    hint_files = HINT
    max_steps = 3
    build = staticmethod(build8)

    @staticmethod
    def canon(s):
        return tuple([b.m for b in s.banks])

    @staticmethod
    def observe(o):
        return [o[b][0:2048] for b in range(8)]

    ops = module_ops(8)
