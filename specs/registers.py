"""Contracts of the H-800 control memory: registers, groups of 32, 8 groups."""
from specs.bitfield import BitFieldSpec

# Section "special registers" of the reference manual: address -> designation.
NAMES = ["AU1", "AU2", "SC", "CSC", "SH", "CSH", "UTR", "MXR",
         "X0", "X1", "X2", "X3", "X4", "X5", "X6", "X7",
         "R0", "R1", "R2", "R3", "R4", "R5", "R6", "R7",
         "S0", "S1", "S2", "S3", "S4", "S5", "S6", "S7"]
ALIASES = ["RAC", "DRAC", "WAC", "DWAC"]       # of registers 28..31


def registerName(number):
    if number < 0 or number > 31:
        raise ValueError("number")
    return NAMES[number]


def registerAlias(number):
    if number < 0 or number > 31:
        raise ValueError("number")
    if number >= 28:
        return ALIASES[number - 28]
    return NAMES[number]


def registerNumber(name):
    for i in range(32):
        if NAMES[i] == name:
            return i
    for i in range(4):
        if ALIASES[i] == name:
            return 28 + i
    raise ValueError("name")


class RegisterSpec:
    def __init__(self, data=0, name=None, width=16):
        if width != 16 and width != 24:
            raise ValueError("width")
        if data < 0 or data > 2 ** width - 1:
            raise ValueError("value")
        if name and name not in NAMES and name not in ALIASES:
            raise ValueError("name")
        self.bf = BitFieldSpec(data, width, 3, 0)
        self.nm = name

    @property
    def value(self):
        return self.bf.v

    @value.setter
    def value(self, value):
        if value < 0 or value > 2 ** self.bf.w - 1:
            raise ValueError("value")
        self.bf.v = value

    @property
    def name(self):
        return self.nm

    @property
    def width(self):
        return self.bf.w

    def __getitem__(self, key):
        return self.bf[key]

    def __setitem__(self, key, value):
        self.bf[key] = value

    def __len__(self):
        return self.bf.w

    def __repr__(self):
        return "0o%06o" % self.bf.v

    def clear(self):
        self.bf.v = 0


class RegisterGroupSpec:
    """32 registers, addressed by number or by name."""

    def __init__(self, width=16):
        self.w = width
        self.regs = [RegisterSpec(0, n, width) for n in NAMES]

    @property
    def width(self):
        return self.w

    def where(self, key):
        if isinstance(key, slice):
            raise ValueError("slice")
        if isinstance(key, str):
            for i in range(32):
                if NAMES[i] == key:
                    return i
            raise ValueError("name")
        if key < 0 or key > 31:
            raise ValueError("number")
        return key

    def __getitem__(self, key):
        return self.regs[self.where(key)]

    def __setitem__(self, key, value):
        self.regs[self.where(key)] = value

    def __len__(self):
        return 32

    def __iter__(self):
        return iter(self.regs)

    def clear(self):
        for r in self.regs:
            r.clear()


class RegistersSpec:
    """Eight groups of 32 registers."""

    def __init__(self, width=16):
        self.w = width
        self.groups = [RegisterGroupSpec(width) for _ in range(8)]

    @property
    def width(self):
        return self.w

    def __getitem__(self, key):
        if not isinstance(key, int):
            raise ValueError("group")
        if key < 0 or key > 7:
            raise ValueError("group")
        return self.groups[key]

    def __len__(self):
        return 8

    def __iter__(self):
        return iter(self.groups)

    def clear(self):
        for g in self.groups:
            g.clear()
