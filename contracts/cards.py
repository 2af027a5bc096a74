"""Contracts of punch cards and ARGUS cards."""
from pyvc.contract import FuncContract, Op
from pyvc.domains import Near, Positive, Choice, Const, OneOf, Text
from specs.cards import COLUMNS, NAMES

HINT = ("h800/punchcard.py", "h800/arguscard.py", "h800/symbol_table.py")

WORDS = ["", "A", "L", "X1", "BACKUP", "S ZERO", "TS", "ALF,4", "SPEC", "SETLOC", "SETLOC,2",
         "EQUALS", "ASSIGN", " B", "A ,B", "B,MASK", "*", "-", "-1", "TX , 1", ",", "=Z", "f"]


def card_line(rng, h):
    """A line that looks like a card, with some irregularities."""
    r = rng.random()
    if r < 0.1:
        return Text().rand(rng, h)
    out = [" "] * 130
    ends = COLUMNS[1:] + [131]
    for i, c in enumerate(COLUMNS):
        if i == 0:
            w = rng.choice(["", "", "", "P", "R", "L", "*", "X", "$" if rng.random() < .3 else ""])
        elif i == 1:
            w = str(rng.randrange(100000))
        elif i == 2:
            w = rng.choice(["", "", "*", "@", "Z"])
        else:
            w = rng.choice(WORDS) if rng.random() < 0.7 else Text().rand(rng, h)[:14]
        w = w.replace("\n", " ").replace("#", "$") if i == 0 else w
        off = rng.choice([0, 0, 0, 1, 2])
        w = w[:ends[i] - c - off] if rng.random() < 0.9 else w
        for k, ch in enumerate(w):
            if c - 1 + off + k < 130:
                out[c - 1 + off + k] = ch
    s = "".join(out)
    if rng.random() < 0.7:
        s = s.rstrip()
    if rng.random() < 0.2:
        s = s[:rng.choice(COLUMNS) + rng.choice([-1, 0, 1])]
    if rng.random() < 0.05:
        s = "#" + s[1:]
    return s + rng.choice(["", "", "\n", "\n"])


LINE = Text(card_line)
FNAME = OneOf(Const(None), Text())


def p_basic(M, line, filename, linenum):
    c = M.PunchCard(line, filename=filename, linenum=linenum)
    return [c.line, c.isComment, c.comment, c.filename, c.linenum, str(c), c.layout]


def p_fields(M, line):
    c = M.PunchCard(line)
    return [c.fields, c.strippedFields]


def p_record(M, line, linenum):
    c = M.PunchCard(line, linenum=linenum)
    d = M.PunchCard("L", linenum=3)
    return [c.record, c.fields, d.fields]


def plain(*a):
    return not a[0].startswith("#")


NM = ["x", "y", "z", "u", "v", "w", "p", "q", "r", "s"]


def p_custom(M, line, width, *cols):
    c = M.PunchCard(line, width=width, fields=list(cols), fieldnames=NM[:len(cols)])
    return [c.layout, c.fields, c.strippedFields, c.record]


def layout_ok(line, width, *cols):
    if line.startswith("#"):
        return False
    p = 0
    for c in cols:
        if c <= p:
            return False
        p = c
    return p <= width


COL = Positive(200)


class PunchCardC(FuncContract):
    name = "PunchCard"

    real = {"PunchCard": "h800.punchcard:PunchCard"}
    spec = {"PunchCard": "specs.cards:PunchCard"}
    hint_files = HINT
    merge = True
    ops = {
        "basic": Op(p_basic, LINE, FNAME, Near(0, 9)),
        "fields": Op(p_fields, LINE, pre=plain, weight=2),
        "record": Op(p_record, LINE, Near(0, 9), pre=plain, weight=2),
        "custom1": Op(p_custom, LINE, COL, COL, pre=layout_ok),
        "custom2": Op(p_custom, LINE, COL, COL, COL, pre=layout_ok),
        "custom3": Op(p_custom, LINE, COL, COL, COL, COL, pre=layout_ok),
        "custom5": Op(p_custom, LINE, *[COL] * 6, pre=layout_ok),
        "custom10": Op(p_custom, LINE, *[COL] * 11, pre=layout_ok),
    }


def a_fields(M, line):
    c = M.Card(line)
    return [c.column1, c.lognum, c.column8, c.label, c.location, c.operation, c.operand1,
            c.addressa, c.operand2, c.addressb, c.operand3, c.addressc, c.sequence,
            c.remarks]


def a_instruction(M, line):
    return M.Card(line).instruction


def a_record(M, line, filename, linenum):
    c = M.Card(line, filename=filename, linenum=linenum)
    return [c.record, c.line, c.filename, c.linenum, c.isComment]


class CardC(FuncContract):
    name = "Card"

    real = {"Card": "h800.arguscard:Card"}
    spec = {"Card": "specs.cards:Card"}
    hint_files = HINT
    merge = True
    ops = {"fields": Op(a_fields, LINE, pre=plain, weight=2),
           "instruction": Op(a_instruction, LINE, pre=plain),
           "record": Op(a_record, LINE, FNAME, Near(0, 9), pre=plain)}
