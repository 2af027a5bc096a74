"""Contracts of the main memory: banks of 2048 48-bit words."""
from specs.word import MAX48
from pyvc.contract import AnyReject

SIZE = 2048


class Cell:
    """A word of a bank, seen through iteration."""

    def __init__(self, bank, i):
        self.bank = bank
        self.i = i

    @property
    def value(self):
        return self.bank.m[self.i]

    @value.setter
    def value(self, v):
        if v < 0 or v > MAX48:
            raise ValueError("value")
        self.bank.m[self.i] = v


class MemoryBank:
    """m: the 2048 word values."""

    def __init__(self):
        self.m = [0] * SIZE

    @property
    def width(self):
        return 48

    def __len__(self):
        return SIZE

    def __getitem__(self, key):
        if isinstance(key, slice):
            if key.start >= key.stop:
                return []
            if key.start < 0 or key.stop > SIZE:
                raise AnyReject()
            return self.m[key.start:key.stop]
        if key < 0 or key >= SIZE:
            raise AnyReject()
        return self.m[key]

    def __setitem__(self, key, value):
        if isinstance(key, slice):
            if key.start >= key.stop:
                return
            if key.start < 0 or key.stop > SIZE:
                raise AnyReject()
            if value < 0 or value > MAX48:
                raise ValueError("value")
            for i in range(key.start, key.stop):
                self.m[i] = value
            return
        if key < 0 or key >= SIZE:
            raise AnyReject()
        if value < 0 or value > MAX48:
            raise ValueError("value")
        self.m[key] = value

    def __iter__(self):
        return iter([Cell(self, i) for i in range(SIZE)])

    def __next__(self):
        pass

    def clear(self):
        self.m = [0] * SIZE


class Module:
    """Banks of one memory module."""

    def __init__(self):
        self.banks = [MemoryBank() for i in range(self.N)]

    def __len__(self):
        return self.N

    def size(self):
        return self.N * SIZE

    def __getitem__(self, key):
        if isinstance(key, slice):
            if key.start >= key.stop:
                return []
            if key.start < 0 or key.stop > self.N:
                raise AnyReject()
            return [self.banks[i] for i in range(key.start, key.stop)]
        if key < 0 or key >= self.N:
            raise AnyReject()
        return self.banks[key]


class MemoryModule(Module):
    N = 4


class ExpansionMemoryModule(Module):
    N = 8
