"""Contracts of the 12-bit command codes.

 bit 1     sequence / cosequence          (or, peripheral: bits 1-6 address)
 bits 2-6  mask                           (masked)
 bits 2-3  part of the operation code, bits 4-6 A, B, C designators (unmasked)
 bit 7     1: masked, peripheral, print; 0: unmasked
 bits 8-12 operation code
"""
from specs.optable import TABLE, PSEUDO
from specs.word import MAX48


def flag(x):
    if x is None:
        return 0
    if x != 0 and x != 1:
        raise ValueError("flag")
    return x


def encode(kind, b23, b7, op, sequence=None, mask=None, a=None, b=None, c=None, paddr=None):
    if b23 is not None and (b23 < 0 or b23 > 3):
        raise ValueError("bits 2-3")
    if b7 is not None and (b7 < 0 or b7 > 1):
        raise ValueError("bit 7")
    if op < 0 or op > 31:
        raise ValueError("bits 8-12")
    s = flag(sequence)
    if paddr is not None:
        if sequence is not None or mask is not None or a is not None or b is not None \
                or c is not None:
            raise ValueError("exclusive")
        if paddr < 0 or paddr > 63:
            raise ValueError("paddr")
    if mask is not None:
        if kind != "maskable" or a is not None or b is not None or c is not None:
            raise ValueError("mask")
        if mask < 0 or mask > 31:
            raise ValueError("mask")
        low = mask << 6
        high = b7
    else:
        low = (0 if b23 is None else b23) << 9
        low = low | flag(a) << 8 | flag(b) << 7 | flag(c) << 6
        high = b7 if kind == "peripheral" or kind == "print" else 0
    if high is None:
        high = 0
    if paddr is not None:
        # the peripheral address occupies all of bits 1-6
        return paddr << 6 | high << 5 | op
    return s << 11 | low | high << 5 | op


class Instruction:
    """The command code made from an operation code record."""

    def __init__(self, opcode, sequence=None, mask=None, a=None, b=None, c=None, paddr=None,
                 pseudo=False):
        self.value = encode(opcode.type, opcode.b23, opcode.b7, opcode.op, sequence, mask,
                            a, b, c, paddr)


class Maskable:
    def __init__(self, sequence=None, mask=None, a=None, b=None, c=None):
        t = TABLE[self.mn]
        self.value = encode(t[0], t[1], t[2], t[3], sequence, mask, a, b, c)


class Unmasked:
    def __init__(self, sequence, a, b, c):
        t = TABLE[self.mn]
        self.value = encode(t[0], t[1], t[2], t[3], sequence, None, a, b, c)


class Peripheral:
    def __init__(self, paddr):
        t = TABLE[self.mn]
        self.value = encode(t[0], t[1], t[2], t[3], paddr=paddr)


class Simulator:
    def __init__(self, sequence):
        t = TABLE[self.mn]
        self.value = encode(t[0], t[1], t[2], t[3], sequence)


class Proceed:
    def __init__(self):
        self.value = 0


BASES = {"maskable": Maskable, "unmasked": Unmasked, "print": Unmasked,
         "peripheral": Peripheral, "simulator": Simulator, "proceed": Proceed}


def classes():
    return {mn: type(mn, (BASES[t[0]],), {"mn": mn}) for mn, t in TABLE.items()}


# ---- numeric helpers
def make_masked_opcode(mnemonic, sequence, mask):
    return sequence << 11 | mask << 6 | 1 << 5 | TABLE[mnemonic][3]


def make_unmasked_opcode(mnemonic, sequence, a, b, c):
    t = TABLE[mnemonic]
    return sequence << 11 | t[1] << 9 | a << 8 | b << 7 | c << 6 | t[3]


def make_peripheral_opcode(mnemonic, paddr):
    return paddr << 6 | 1 << 5 | TABLE[mnemonic][3]


def make_print_opcode(mnemonic, sequence, a, b, c):
    return sequence << 11 | a << 8 | b << 7 | c << 6 | 1 << 5 | TABLE[mnemonic][3]


INSTRUCTIONS = list(TABLE) + PSEUDO


# ---- constants
class Constant:
    def __init__(self, data):
        if data < 0 or data > MAX48:
            raise ValueError("value")
        self.v = data

    @property
    def value(self):
        return self.v

    @value.setter
    def value(self, value):
        if value < 0 or value > MAX48:
            raise ValueError("value")
        self.v = value


def constants():
    from specs.optable import CONSTANTS
    return {c: Constant for c in CONSTANTS}
