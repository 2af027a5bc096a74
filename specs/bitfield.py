"""Contract of h800.bitfield.BitField.

View: (value, width, numbering, order).  `pos(i)` is the weight of bit index i
(0 = least significant), which depends on the numbering only; the order says in
which direction ranges are written and indices are listed.
"""

LSB_0, LSB_1, MSB_0, MSB_1 = 0, 1, 2, 3
MSB_LEFT, LSB_LEFT = 0, 1


class BitFieldSpec:
    DEFAULT_WIDTH = 8
    MAX_WIDTH = 64
    BIT_SCHEME_LSB_0 = 0
    BIT_SCHEME_LSB_1 = 1
    BIT_SCHEME_MSB_0 = 2
    BIT_SCHEME_MSB_1 = 3
    BIT_ORDER_MSB_LEFT = BIT_ORDER_LSB_RIGHT = 0
    BIT_ORDER_LSB_LEFT = BIT_ORDER_MSB_RIGHT = 1

    def __init__(self, value=0, width=8, numbering=0, order=1):
        if width > 64:
            raise ValueError("width")
        if value < 0 or value >= 2 ** width:
            raise ValueError("value")
        if numbering not in (0, 1, 2, 3):
            raise ValueError("numbering")
        if order not in (0, 1):
            raise ValueError("order")
        self.v = value
        self.w = width
        self.n = numbering
        self.o = order

    # ---- index arithmetic
    def pos(self, i):
        if self.n == LSB_0:
            p = i
        elif self.n == LSB_1:
            p = i - 1
        elif self.n == MSB_0:
            p = self.w - 1 - i
        else:
            p = self.w - i
        if p < 0 or p >= self.w:
            raise ValueError("index")
        return p

    def idx(self, p):
        if self.n == LSB_0:
            return p
        if self.n == LSB_1:
            return p + 1
        if self.n == MSB_0:
            return self.w - 1 - p
        return self.w - p

    def span(self, start, end):
        """(least significant position, number of bits) of a range."""
        a = self.pos(start)
        b = self.pos(end)
        if self.o == MSB_LEFT:
            if a < b:
                raise ValueError("range")
            return b, a - b + 1
        if a > b:
            raise ValueError("range")
        return a, b - a + 1

    # ---- reading
    @property
    def width(self):
        return self.w

    @property
    def maxval(self):
        return 2 ** self.w - 1

    @property
    def numbering(self):
        return self.n

    @property
    def order(self):
        return self.o

    @property
    def value(self):
        return self.v

    @property
    def indices(self):
        if self.o == MSB_LEFT:
            return [self.idx(self.w - 1 - k) for k in range(self.w)]
        return [self.idx(k) for k in range(self.w)]

    @property
    def lsb(self):
        return self.idx(0)

    @property
    def msb(self):
        return self.idx(self.w - 1)

    def __len__(self):
        return self.w

    def __int__(self):
        return self.v

    def __index__(self):
        return self.v

    def __getitem__(self, key):
        if isinstance(key, slice):
            lo, n = self.span(key.start, key.stop)
        else:
            lo, n = self.pos(key), 1
        return (self.v >> lo) & (2 ** n - 1)

    def isBit(self, index, value):
        return self[index] == value

    def isBitSet(self, index):
        return self[index] == 1

    def isBitClr(self, index):
        return self[index] == 0

    def isRange(self, start, end, value):
        lo, n = self.span(start, end)
        if value != 0 and value != 1:
            raise ValueError("value")
        field = (self.v >> lo) & (2 ** n - 1)
        if value == 0:
            return field == 0
        return field == 2 ** n - 1

    def isRangeSet(self, start, end):
        return self.isRange(start, end, 1)

    def isRangeClr(self, start, end):
        return self.isRange(start, end, 0)

    # ---- writing
    @value.setter
    def value(self, value):
        if value < 0 or value >= 2 ** self.w:
            raise ValueError("value")
        self.v = value

    def __setitem__(self, key, value):
        if isinstance(key, slice):
            lo, n = self.span(key.start, key.stop)
        else:
            lo, n = self.pos(key), 1
        if value < 0 or value >= 2 ** n:
            raise ValueError("value")
        mask = 2 ** n - 1
        self.v = (self.v ^ (((self.v >> lo) & mask) << lo)) | (value << lo)

    def set(self, index=None):
        if index is None:
            self.v = 2 ** self.w - 1
        else:
            self[index] = 1

    def clear(self, index=None):
        if index is None:
            self.v = 0
        else:
            self[index] = 0

    def __repr__(self):
        return format(self.v, "0%db" % self.w)
