"""Class contracts of Register, RegisterGroup, Registers and the name maps."""
from pyvc.contract import ClassContract, FuncContract, Op
from pyvc.domains import (AnyInt, Near, IntRange, Choice, Const, OneOf, Text)
from specs.registers import NAMES, ALIASES

V24 = (1 << 24) - 1
VAL = Near(0, V24)
VALW = Near(0, V24, 65535)
BIT = Near(0, 25)
HINT = ("h800/registers.py", "h800/bitfield.py")


def rname(rng, h):
    r = rng.random()
    if r < 0.6:
        return rng.choice(NAMES + ALIASES)
    if r < 0.75:
        return rng.choice(NAMES).lower()
    if r < 0.85:
        return rng.choice(["", "X8", "R8", "S8", "AU", "AU0", "AU3", "X", " X0", "MXR ", "RAD"])
    return Text().rand(rng, h)


NAME = Text(rname)


def f_value(o): return o.value
def f_name(o): return o.name
def f_width(o): return o.width
def f_len(o): return len(o)
def f_get(o, i): return o[i]
def f_getslice(o, a, b): return o[a:b]
def f_repr(o): return repr(o)


def f_setvalue(o, v):
    o.value = v


def f_put(o, i, v):
    o[i] = v


def f_putslice(o, a, b, v):
    o[a:b] = v


def f_clear(o):
    o.clear()


def c_new(cls, data, name, width):
    return cls(data, name, width)


def c_kw(cls, data, name, width):
    return cls(width=width, name=name, data=data)


def c_new1(cls, data):
    return cls(data)


def c_new0(cls):
    return cls()


def badregwidth(data, name, width):
    return width != 16 and width != 24


class RegisterC(ClassContract):
    name = "Register"
    real = "h800.registers:Register"
    spec = "specs.registers:RegisterSpec"
    view = (IntRange(0, V24), OneOf(Const(None), Text(lambda r, h: r.choice(NAMES + ALIASES))),
            Choice(16, 24))
    view_cases = [{2: Const(16)}, {2: Const(24)}]
    uses = ("BitField",)
    other = (0o1234, "X3", 16)
    hint_files = HINT

    @staticmethod
    def inv(value, name, width):
        return value < 2 ** width and (name is None or name in NAMES or name in ALIASES)

    @staticmethod
    def build(cls, value, name, width):
        return cls(value, name, width)

    @staticmethod
    def canon(s):
        return (s.bf.v, s.nm, s.bf.w)

    @staticmethod
    def config(a):
        bf = a.get("bf")
        w = bf.attrs.get("w") if bf is not None else None
        return {2: w} if type(w) is int else None

    ctor_args = {"new": (0, 1, 2), "newkw": (0, 1, 2), "newbad": None}

    @staticmethod
    def observe(o):
        return [o.value, o.name, o.width, len(o), o[1:o.width], o[1], o[o.width]]

    ops = {
        "value": Op(f_value), "name": Op(f_name), "width": Op(f_width), "len": Op(f_len),
        "get": Op(f_get, BIT), "getslice": Op(f_getslice, BIT, BIT), "repr": Op(f_repr),
        "setvalue": Op(f_setvalue, VALW, weight=2), "put": Op(f_put, BIT, Near(0, 1)),
        "putslice": Op(f_putslice, BIT, BIT, VAL, weight=2), "clear": Op(f_clear),
        "new": Op(c_new, VALW, OneOf(Const(None), NAME), Choice(16, 24), cls=True),
        "newkw": Op(c_kw, VALW, OneOf(Const(None), NAME), Choice(16, 24), cls=True),
        "newbad": Op(c_new, VALW, OneOf(Const(None), NAME), IntRange(0, 64), cls=True,
                     pre=badregwidth),
        "new1": Op(c_new1, VALW, cls=True), "new0": Op(c_new0, cls=True),
    }


# ------------------------------------------------------------------- groups
def g_read(o, k): return o[k].value
def g_name(o, k): return o[k].name
def g_rwidth(o, k): return o[k].width
def g_bits(o, k, a, b): return o[k][a:b]
def g_values(o): return [r.value for r in o]
def g_names(o): return [r.name for r in o]
def g_twice(o): return [[r.value for r in o], [r.value for r in o]]
def g_slice(o, a, b): return o[a:b]


def g_byname(o):
    return [o[n].value for n in NAMES]


def g_write(o, k, v):
    o[k].value = v


def g_writebits(o, k, v):
    o[k][1:8] = v


def g_clear1(o, k):
    o[k].clear()


def g_store(o, k, v):
    t = type(o[0])
    o[k] = t(v, NAMES[k], o.width)


def g_storename(o, k, v):
    t = type(o[0])
    o[NAMES[k]] = t(v, NAMES[k], o.width)


def g_storebad(o, k, v):
    t = type(o[0])
    o[k] = t(v, None, o.width)


def badnum(*a):
    k = a[-2]
    return k < 0 or k > 31


def badname(*a):
    return a[-2] not in NAMES


def g_alias(o, k, j, v):
    a = o[k]
    b = o[j]
    a.value = v
    return [o[k].value, b.value, a.value]


def build_group(cls, width, *values):
    g = cls(width)
    for i in range(32):
        g[i].value = values[i]
    return g


KEYN = Near(0, 31)
KEYS = NAME
V16 = Near(0, 65535)


def c_width(cls, width):
    return cls(width=width)


def badwidth(width):
    return width != 16 and width != 24


def width_cases(n):
    return [dict([(0, Const(w))] + [(i, IntRange(0, (1 << w) - 1)) for i in range(1, n + 1)])
            for w in (16, 24)]


def rand_regs(n):
    def f(rng, h):
        w = rng.choice((16, 24))
        d = IntRange(0, (1 << w) - 1)
        z = rng.random() < 0.3
        return [w] + [0 if z else d.rand(rng, h) for _ in range(n)]
    return f


class RegisterGroupC(ClassContract):
    name = "RegisterGroup"
    real = "h800.registers:RegisterGroup"
    spec = "specs.registers:RegisterGroupSpec"
    view = (Choice(16, 24),) + (IntRange(0, V24),) * 32
    view_cases = width_cases(32)
    rand_view = staticmethod(rand_regs(32))
    uses = ("Register",)
    other = (16,) + tuple(range(100, 132))
    hint_files = HINT
    max_steps = 5

    build = staticmethod(build_group)

    @staticmethod
    def canon(s):
        return tuple([s.w] + [r.value for r in s.regs])

    @staticmethod
    def config(a):
        return {0: a["w"]} if type(a.get("w")) is int else None

    @staticmethod
    def observe(o):
        return [o.width, len(o)] + [r.value for r in o] + [r.name for r in o] + \
            [o[i].value for i in range(32)]

    ops = {
        "width": Op(f_width), "len": Op(f_len),
        "read": Op(g_read, KEYN), "readname": Op(g_read, KEYS),
        "name": Op(g_name, KEYN), "namename": Op(g_name, KEYS), "rwidth": Op(g_rwidth, KEYN),
        "bits": Op(g_bits, IntRange(0, 31), Choice(1), Choice(8)),
        "values": Op(g_values), "names": Op(g_names), "twice": Op(g_twice),
        "byname": Op(g_byname), "slice": Op(g_slice, Choice(0, 3), Choice(2, 5)),
        "write": Op(g_write, KEYN, VALW, weight=3), "writename": Op(g_write, KEYS, VALW, weight=3),
        "writebits": Op(g_writebits, IntRange(0, 31), Near(0, 255)),
        "clear1": Op(g_clear1, KEYN), "clear": Op(f_clear),
        "store": Op(g_store, IntRange(0, 31), IntRange(0, 65535)),
        "storename": Op(g_storename, IntRange(0, 31), IntRange(0, 65535)),
        "storebad": Op(g_storebad, KEYN, IntRange(0, 65535), pre=badnum),
        "storebadname": Op(g_storebad, KEYS, IntRange(0, 65535), pre=badname),
        "alias": Op(g_alias, IntRange(0, 31), Choice(0, 17, 31), IntRange(0, 65535)),
        "new": Op(c_width, Choice(16, 24), cls=True), "new0": Op(c_new0, cls=True),
        "newbad": Op(c_width, IntRange(0, 64), cls=True, pre=badwidth),
    }
    ctor_args = {"new": (0,), "newbad": None}


# ---------------------------------------------------------------- registers
def r_read(o, g, k): return o[g][k].value
def r_values(o, g): return [r.value for r in o[g]]
def r_len(o, g): return len(o[g])
def r_slice(o, a, b): return o[a:b]
def r_badkey(o, k): return o[k]
def r_all(o): return [[r.value for r in o[g]] for g in range(8)]


def r_iterate(o):
    # (may raise when the iteration state is arbitrary: only the effect counts)
    try:
        for g in o:
            pass
    except Exception:
        pass


def r_iter(M, width, g, k, v):
    o = M.Registers(width)
    o[g][k].value = v
    return [[r.value for r in g] for g in o]



def r_write(o, g, k, v):
    o[g][k].value = v


def r_cleargroup(o, g):
    o[g].clear()


def build_regs(cls, width, *values):
    o = cls(width)
    k = 0
    for g in range(8):
        for i in range(32):
            o[g][i].value = values[k]
            k = k + 1
    return o


GRP = Near(0, 7)


def badgroup(*a):
    return a[-3] < 0 or a[-3] > 7



class RegistersC(ClassContract):
    name = "Registers"
    real = "h800.registers:Registers"
    spec = "specs.registers:RegistersSpec"
    view = (Choice(16, 24),) + (IntRange(0, V24),) * 256
    view_cases = width_cases(256)
    rand_view = staticmethod(rand_regs(256))
    uses = ("RegisterGroup",)
    hint_files = HINT
    max_steps = 4

    build = staticmethod(build_regs)

    @staticmethod
    def canon(s):
        return tuple([s.w] + [r.value for g in s.groups for r in g.regs])

    @staticmethod
    def observe(o):
        return [o.width, len(o)] + [o[g][i].value for g in range(8) for i in range(32)]

    ops = {
        "width": Op(f_width), "len": Op(f_len),
        "read": Op(r_read, GRP, IntRange(0, 31)), "readname": Op(r_read, IntRange(0, 7), NAME),
        "group": Op(r_values, GRP), "glen": Op(r_len, GRP), "all": Op(r_all),
        "iterate": Op(r_iterate), "slice": Op(r_slice, Choice(0, 3), Choice(2, 8)),
        "badkey": Op(r_badkey, OneOf(Const(None), Text())),
        "write": Op(r_write, IntRange(0, 7), IntRange(0, 31), VALW, weight=3,
                    cases=[{0: IntRange(2 * i, 2 * i + 1)} for i in range(4)]),
        "writebad": Op(r_write, GRP, IntRange(0, 31), Choice(1), pre=badgroup),
        "cleargroup": Op(r_cleargroup, GRP), "clear": Op(f_clear),
        "new": Op(c_width, Choice(16, 24), cls=True), "new0": Op(c_new0, cls=True),
        "newbad": Op(c_width, IntRange(0, 64), cls=True, pre=badwidth),
    }


class RegistersIterC(FuncContract):
    """The first iteration over a Registers object yields its eight groups."""
    name = "RegistersIter"
    real = {"Registers": "h800.registers:Registers"}
    spec = {"Registers": "specs.registers:RegistersSpec"}
    uses = ("RegisterGroup",)
    hint_files = HINT
    ops = {"iter": Op(r_iter, Choice(16, 24), IntRange(0, 7), IntRange(0, 31),
                      IntRange(0, 65535))}


# ---------------------------------------------------------------- name maps
def m_name(M, n): return M.registerName(n)
def m_alias(M, n): return M.registerAlias(n)
def m_number(M, s): return M.registerNumber(s)
def m_round(M, n): return [M.registerNumber(M.registerName(n)),
                           M.registerNumber(M.registerAlias(n))]


class RegisterNamesC(FuncContract):
    name = "RegisterNames"
    real = {n: "h800.registers:" + n for n in ("registerName", "registerAlias", "registerNumber")}
    spec = {n: "specs.registers:" + n for n in ("registerName", "registerAlias", "registerNumber")}
    hint_files = HINT
    ops = {"name": Op(m_name, Near(0, 31)), "alias": Op(m_alias, Near(0, 31)),
           "number": Op(m_number, NAME), "round": Op(m_round, Near(0, 31))}
