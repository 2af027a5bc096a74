"""Class contracts of Word and InstructionWord."""
from pyvc.contract import ClassContract, Op
from pyvc.domains import AnyInt, Near, IntRange

MAX48 = (1 << 48) - 1
VAL = Near(0, MAX48)
FLD = Near(0, 4095)
BIT = Near(0, 49)


def f_value(o): return o.value
def f_bits(o, a, b): return o.data[a:b]
def f_bit(o, i): return o.data[i]
def f_command(o): return o.command
def f_a(o): return o.a
def f_b(o): return o.b
def f_c(o): return o.c
def f_all(o): return [o.command, o.a, o.b, o.c, o.value]


def f_setvalue(o, v):
    o.value = v


def f_setbits(o, a, b, v):
    o.data[a:b] = v


def f_setcommand(o, v):
    o.command = v


def f_seta(o, v):
    o.a = v


def f_setb(o, v):
    o.b = v


def f_setc(o, v):
    o.c = v


def c_new(cls, v):
    return cls(v)


def c_kw(cls, v):
    return cls(data=v)


def c_new0(cls):
    return cls()


def c_new4(cls, m, a, b, c):
    return cls(m, a, b, c)


def c_new4kw(cls, m, a, b, c):
    return cls(command=m, c=c, b=b, a=a)


def c_new2(cls, m, a):
    return cls(m, a)


class WordC(ClassContract):
    name = "Word"
    real = "h800.word:Word"
    spec = "specs.word:WordSpec"
    view = (IntRange(0, MAX48),)
    uses = ("BitField",)
    other = (0o1234567,)
    hint_files = ("h800/word.py", "h800/bitfield.py")

    @staticmethod
    def build(cls, value):
        return cls(value)

    @staticmethod
    def canon(s):
        return (s.data.v,)

    @staticmethod
    def config(a):
        return {}

    @staticmethod
    def observe(o):
        return [o.value, o.data[1:48], o.data[1], o.data[48]]

    ops = {
        "value": Op(f_value), "bits": Op(f_bits, BIT, BIT), "bit": Op(f_bit, BIT),
        "setvalue": Op(f_setvalue, VAL, weight=3),
        "setbits": Op(f_setbits, BIT, BIT, VAL),
        "new": Op(c_new, VAL, cls=True), "newkw": Op(c_kw, VAL, cls=True),
        "new0": Op(c_new0, cls=True),
    }


class InstructionWordC(ClassContract):
    name = "InstructionWord"
    real = "h800.word:InstructionWord"
    spec = "specs.word:InstructionWordSpec"
    view = (IntRange(0, 4095),) * 4
    uses = ("BitField",)
    other = (0o1234, 0o567, 0, 4095)
    hint_files = ("h800/word.py", "h800/bitfield.py")

    @staticmethod
    def build(cls, m, a, b, c):
        return cls(m, a, b, c)

    @staticmethod
    def canon(s):
        return (s.get(36), s.get(24), s.get(12), s.get(0))

    @staticmethod
    def observe(o):
        return [o.value, o.command, o.a, o.b, o.c]

    ops = {
        "value": Op(f_value), "command": Op(f_command), "a": Op(f_a), "b": Op(f_b),
        "c": Op(f_c), "all": Op(f_all), "bits": Op(f_bits, BIT, BIT),
        "setvalue": Op(f_setvalue, VAL, weight=2),
        "setcommand": Op(f_setcommand, FLD, weight=2), "seta": Op(f_seta, FLD, weight=2),
        "setb": Op(f_setb, FLD, weight=2), "setc": Op(f_setc, FLD, weight=2),
        "new": Op(c_new4, FLD, FLD, FLD, FLD, cls=True),
        "newkw": Op(c_new4kw, FLD, FLD, FLD, FLD, cls=True),
        "new2": Op(c_new2, FLD, FLD, cls=True),
        "new0": Op(c_new0, cls=True),
    }
