"""Contracts of the instruction classes, helpers and constants."""
from pyvc.contract import FuncContract, Op
from pyvc.domains import Near, IntRange, Choice, Const, OneOf, Text
from specs.optable import TABLE, CLASSES, CONSTANTS, PSEUDO

HINT = ("h800/instructions.py", "h800/instruction.py")
FLAG = OneOf(Const(None), IntRange(0, 1))
FLAGX = OneOf(Const(None), Near(0, 1))
BIT = IntRange(0, 1)
KINDS = {k: [m for m in TABLE if TABLE[m][0] == k]
         for k in ("maskable", "unmasked", "print", "peripheral", "simulator", "proceed")}


def real_classes():
    import h800.instructions as I
    return {mn: getattr(I, c) for mn, c in CLASSES.items()}


def real_constants():
    import h800.instructions as I
    return {c: getattr(I, c) for c in CONSTANTS}


# ------------------------------------------------------------- C14: layout
def op_of(M, b23, b7, op, kind):
    return M.Opcode("XX", "Xx", b23, b7, op, kind)


def g_masked(M, b23, b7, op, kind, s, m):
    return M.Instruction(M.Opcode("XX", "Xx", b23, b7, op, kind), sequence=s, mask=m).value


def g_unmasked(M, b23, b7, op, kind, s, a, b, c):
    return M.Instruction(M.Opcode("XX", "Xx", b23, b7, op, kind), sequence=s, a=a, b=b,
                         c=c).value


def g_paddr(M, b23, b7, op, kind, p):
    return M.Instruction(M.Opcode("XX", "Xx", b23, b7, op, kind), paddr=p).value


def g_fields(M, b23, b7, op, kind, s, m):
    i = M.Instruction(M.Opcode("XX", "Xx", b23, b7, op, kind), sequence=s, mask=m)
    j = M.Instruction(M.Opcode("YY", "Yy", 1, 1, 9, "print"), sequence=1, a=1, b=0, c=1)
    return [i.value, j.value]


KIND = Choice("maskable", "unmasked", "print", "peripheral", "simulator")
B23 = OneOf(Const(None), IntRange(0, 3))
B7 = OneOf(Const(None), BIT)
OP = IntRange(0, 31)
MASK = OneOf(Const(None), IntRange(0, 31))


class InstructionLayoutC(FuncContract):
    name = "InstructionLayout"
    real = {"Instruction": "h800.instruction:Instruction", "Opcode": "h800.instructions:Opcode"}
    spec = {"Instruction": "specs.instructions:Instruction",
            "Opcode": "h800.instructions:Opcode"}
    uses = ("BitField",)
    hint_files = HINT
    ops = {
        "masked": Op(g_masked, B23, B7, OP, KIND, FLAG, IntRange(0, 31)),
        "unmasked": Op(g_unmasked, B23, B7, OP, KIND, FLAG, FLAG, FLAG, FLAG,
                       cases=[{3: Const(k)} for k in KIND.vals]),
        "paddr": Op(g_paddr, B23, B7, OP, KIND, OneOf(Const(None), IntRange(0, 63))),
        "two": Op(g_fields, B23, B7, OP, KIND, FLAG, MASK),
    }


# ---------------------------------------------------- C16: invalid arguments
def g_any(M, kind, s, m, a, b, c, p):
    return M.Instruction(M.Opcode("XX", "Xx", 2, 1, 9, kind), sequence=s, mask=m, a=a, b=b,
                         c=c, paddr=p).value


def g_code(M, b23, b7, op):
    return M.Instruction(M.Opcode("XX", "Xx", b23, b7, op, "unmasked"), sequence=0).value


def bad(*xs):
    return xs[-1] != 0 and xs[-1] != 1


def badmask(*xs):
    return xs[-1] < 0 or xs[-1] > 31


def badpaddr(*xs):
    return xs[-1] < 0 or xs[-1] > 63


def i_badflag(M, mn, k, v):
    x = [0, 0, 0, 0]
    x[k] = v
    return M.cls[mn](sequence=x[0], a=x[1], b=x[2], c=x[3]).value


def i_badmask(M, mn, s, v):
    return M.cls[mn](sequence=s, mask=v).value


def i_maskand(M, mn, m, a, b, c):
    return M.cls[mn](sequence=0, mask=m, a=a, b=b, c=c).value


def some(*xs):
    return xs[-1] is not None or xs[-2] is not None or xs[-3] is not None


def i_badpaddr(M, mn, v):
    return M.cls[mn](paddr=v).value


def i_badseq(M, mn, v):
    return M.cls[mn](sequence=v).value


OBIT = OneOf(Const(None), IntRange(0, 1))


def badops():
    r = {"any": Op(g_any, KIND, OBIT, OneOf(Const(None), IntRange(0, 31)), OBIT, OBIT, OBIT,
                   OneOf(Const(None), IntRange(0, 63)),
                   cases=[{0: Const(k)} for k in KIND.vals]),
         "code": Op(g_code, OneOf(Const(None), Near(0, 3)), OneOf(Const(None), Near(0, 1)),
                    Near(0, 31))}
    for mn in TABLE:
        k = TABLE[mn][0]
        if k in ("maskable", "unmasked", "print"):
            r[mn + ".flag"] = Op(i_badflag, Const(mn), Choice(0, 1, 2, 3), Near(0, 1), pre=bad)
        if k == "maskable":
            r[mn + ".mask"] = Op(i_badmask, Const(mn), Choice(0, 1), Near(0, 31), pre=badmask)
            r[mn + ".both"] = Op(i_maskand, Const(mn), IntRange(0, 31), OBIT, OBIT, OBIT,
                                 pre=some)
        if k == "peripheral":
            r[mn + ".paddr"] = Op(i_badpaddr, Const(mn), Near(0, 63), pre=badpaddr)
        if k == "simulator":
            r[mn + ".flag"] = Op(i_badseq, Const(mn), Near(0, 1), pre=bad)
    return r


class InstructionRejectC(FuncContract):
    name = "InstructionReject"
    real = {"Instruction": "h800.instruction:Instruction", "Opcode": "h800.instructions:Opcode",
            "cls": "@contracts.instructions:real_classes"}
    spec = {"Instruction": "specs.instructions:Instruction",
            "Opcode": "h800.instructions:Opcode", "cls": "@specs.instructions:classes"}
    uses = ("BitField",)
    hint_files = HINT
    ops = badops()


# ------------------------------------------------- C15: documented encodings
def i_masked(M, mn, s, m):
    return [M.cls[mn](sequence=s, mask=m).value, M.cls[mn](s, m).value]


def i_unmasked(M, mn, s, a, b, c):
    return M.cls[mn](sequence=s, a=a, b=b, c=c).value


def i_positional(M, mn, s, a, b, c):
    return M.cls[mn](s, a, b, c).value


def i_positional5(M, mn, s, a, b, c):
    return M.cls[mn](s, None, a, b, c).value


def i_plain(M, mn, s):
    return M.cls[mn](sequence=s).value


def i_paddr(M, mn, p):
    i = M.cls[mn](paddr=p)
    j = M.cls[mn](5)
    return [i.value, j.value]


def i_seq(M, mn, s):
    i = M.cls[mn](sequence=s)
    j = M.cls[mn](0)
    return [i.value, j.value]


def i_none(M, mn):
    return M.cls[mn]().value


def codeops():
    r = {}
    for mn in TABLE:
        k = TABLE[mn][0]
        c = Const(mn)
        if k == "maskable":
            r[mn + ".masked"] = Op(i_masked, c, FLAG, IntRange(0, 31))
            r[mn + ".unmasked"] = Op(i_unmasked, c, FLAG, FLAG, FLAG, FLAG)
            r[mn + ".positional"] = Op(i_positional5, c, BIT, BIT, BIT, BIT)
            r[mn + ".plain"] = Op(i_plain, c, FLAG)
        elif k in ("unmasked", "print"):
            r[mn + ".unmasked"] = Op(i_unmasked, c, FLAG, FLAG, FLAG, FLAG)
            r[mn + ".positional"] = Op(i_positional, c, BIT, BIT, BIT, BIT)
        elif k == "peripheral":
            r[mn + ".paddr"] = Op(i_paddr, c, IntRange(0, 63))
        elif k == "simulator":
            r[mn + ".seq"] = Op(i_seq, c, FLAG)
        else:
            r[mn + ".none"] = Op(i_none, c)
    return r


class InstructionCodesC(FuncContract):
    name = "InstructionCodes"
    real = {"cls": "@contracts.instructions:real_classes"}
    spec = {"cls": "@specs.instructions:classes"}
    uses = ("BitField",)
    hint_files = HINT
    ops = codeops()


# ------------------------------------------------------------- C17: helpers
def h_masked(M, mn, s, m):
    return [M.make_masked_opcode(mn, s, m), M.cls[mn](sequence=s, mask=m).value]


def h_unmasked(M, mn, s, a, b, c):
    return [M.make_unmasked_opcode(mn, s, a, b, c),
            M.cls[mn](sequence=s, a=a, b=b, c=c).value]


def h_proceed(M):
    return [M.make_unmasked_opcode("PR", 0, 0, 0, 0), M.cls["PR"]().value]


def h_paddr(M, mn, p):
    return [M.make_peripheral_opcode(mn, p), M.cls[mn](paddr=p).value]


def h_print(M, mn, s, a, b, c):
    return [M.make_print_opcode(mn, s, a, b, c), M.cls[mn](sequence=s, a=a, b=b, c=c).value]


def h_known(M, s):
    return s in M.INSTRUCTIONS


def h_unique(M):
    """Codes produced by more than one mnemonic."""
    seen = {}
    dup = []
    for mn in KINDS["maskable"]:
        for s in range(2):
            for m in range(32):
                note(seen, dup, mn, M.make_masked_opcode(mn, s, m))
            for k in range(8):
                note(seen, dup, mn, M.make_unmasked_opcode(mn, s, k >> 2, k >> 1 & 1, k & 1))
    for mn in KINDS["unmasked"]:
        for s in range(2):
            for k in range(8):
                note(seen, dup, mn, M.make_unmasked_opcode(mn, s, k >> 2, k >> 1 & 1, k & 1))
    for mn in KINDS["print"]:
        for s in range(2):
            for k in range(8):
                note(seen, dup, mn, M.make_print_opcode(mn, s, k >> 2, k >> 1 & 1, k & 1))
    for mn in KINDS["peripheral"]:
        for p in range(64):
            note(seen, dup, mn, M.make_peripheral_opcode(mn, p))
    return [sorted(dup), sorted(dup) == ALIASES]


# documented: FNN is the unmasked NA; the three print orders share one code
ALIASES = [["NA", "FNN"], ["PRA", "PRD"], ["PRA", "PRO"]]


def note(seen, dup, mn, code):
    if code in seen and seen[code] != mn:
        if [seen[code], mn] not in dup:
            dup.append([seen[code], mn])
    else:
        seen[code] = mn


def mnemonic(rng, h):
    r = rng.random()
    if r < 0.7:
        return rng.choice(list(TABLE) + PSEUDO)
    if r < 0.8:
        return rng.choice(list(TABLE)) + rng.choice("ABX1 ")
    return Text().rand(rng, h)


class InstructionHelpersC(FuncContract):
    name = "InstructionHelpers"
    _n = ("make_masked_opcode", "make_unmasked_opcode", "make_peripheral_opcode",
          "make_print_opcode", "INSTRUCTIONS")
    real = dict({n: "h800.instructions:" + n for n in _n},
                cls="@contracts.instructions:real_classes")
    spec = dict({n: "specs.instructions:" + n for n in _n}, cls="@specs.instructions:classes")
    uses = ("BitField",)
    hint_files = HINT
    ops = {
        "masked": Op(h_masked, Choice(*KINDS["maskable"]), BIT, IntRange(0, 31)),
        "unmasked": Op(h_unmasked, Choice(*(KINDS["maskable"] + KINDS["unmasked"])),
                       BIT, BIT, BIT, BIT,
                       cases=[{0: Choice(*(KINDS["maskable"] + KINDS["unmasked"])[i::8])}
                              for i in range(8)]),
        "paddr": Op(h_paddr, Choice(*KINDS["peripheral"]), IntRange(0, 63)),
        "print": Op(h_print, Choice(*KINDS["print"]), BIT, BIT, BIT, BIT),
        "proceed": Op(h_proceed),
        "known": Op(h_known, Text(mnemonic)),
        "unique": Op(h_unique, weight=0.02),
    }


# ----------------------------------------------------------- C18: constants
def k_value(M, c, v):
    k = M.cls[c](v)
    j = M.cls[c](7)
    return [k.value, j.value]


def k_set(M, c, v, w):
    k = M.cls[c](v)
    k.value = w
    return k.value


class ConstantsC(FuncContract):
    name = "Constants"
    real = {"cls": "@contracts.instructions:real_constants"}
    spec = {"cls": "@specs.instructions:constants"}
    uses = ("Word", "BitField")
    hint_files = HINT
    ops = {"value": Op(k_value, Choice(*CONSTANTS), Near(0, (1 << 48) - 1)),
           "set": Op(k_set, Choice(*CONSTANTS), IntRange(0, (1 << 48) - 1),
                     Near(0, (1 << 48) - 1))}
