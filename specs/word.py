"""Contracts of Word and InstructionWord: a 48-bit quantity, bits 1 (MSB) to 48;
an instruction word is four 12-bit groups, command, A, B, C."""
from specs.bitfield import BitFieldSpec

MAX48 = 2 ** 48 - 1


class WordSpec:
    def __init__(self, data=0):
        if data < 0 or data > MAX48:
            raise ValueError("value")
        self.data = BitFieldSpec(data, 48, 3, 0)

    @property
    def value(self):
        return self.data.v

    @value.setter
    def value(self, value):
        if value < 0 or value > MAX48:
            raise ValueError("value")
        self.data.v = value


class InstructionWordSpec(WordSpec):
    def __init__(self, command=0, a=0, b=0, c=0):
        if command < 0 or command > 4095 or a < 0 or a > 4095 or \
                b < 0 or b > 4095 or c < 0 or c > 4095:
            raise ValueError("field")
        self.data = BitFieldSpec(command << 36 | a << 24 | b << 12 | c, 48, 3, 0)

    def get(self, shift):
        return (self.data.v >> shift) & 4095

    def put(self, shift, value):
        if value < 0 or value > 4095:
            raise ValueError("field")
        v = self.data.v
        self.data.v = v - (((v >> shift) & 4095) << shift) + (value << shift)

    @property
    def command(self):
        return self.get(36)

    @command.setter
    def command(self, value):
        self.put(36, value)

    @property
    def a(self):
        return self.get(24)

    @a.setter
    def a(self, value):
        self.put(24, value)

    @property
    def b(self):
        return self.get(12)

    @b.setter
    def b(self, value):
        self.put(12, value)

    @property
    def c(self):
        return self.get(0)

    @c.setter
    def c(self, value):
        self.put(0, value)
