"""Contracts of the symbol table."""
from specs.decks import ArgusDeck
from pyvc.contract import AnyReject

SUPPORTED = ('B', 'F', 'S', 'Z')


def parse_label(label):
    """(tag type, name) of a label, or None when it is ill-formed."""
    s = label.strip().replace(' ', '')
    if s.upper() != s:
        return None
    if ',' not in s:
        return (' ', s)
    if s.count(',') > 1:
        return None
    parts = s.split(',')
    if parts[0] not in SUPPORTED:
        return None
    return (parts[0], parts[1])


def same_value(a, b):
    return a.addressa == b.addressa and a.addressb == b.addressb and a.addressc == b.addressc


def define(symtab, seg, subseg, card):
    """Enter the label of a card; the number of errors (0 or 1)."""
    t = parse_label(card.label)
    if t is None or card.operation is None:
        return 1
    kind = "complex" if card.operation == "ASSIGN" else "simple"
    slot = symtab.setdefault(t[1], {}).setdefault(seg, {}).setdefault(subseg, {})
    if kind in slot:
        old = slot[kind]["card"]
        if card.operation == "EQUALS" and old.operation == "EQUALS" and same_value(card, old):
            return 0
        return 1
    slot[kind] = {"file": card.filename, "line": card.linenum, "lognum": card.lognum,
                  "tagtype": t[0], "card": card}
    return 0


def build_cards(cards, seg, symtab):
    errors = 0
    subseg = "1"
    for card in cards:
        if card.column8 == "*":
            continue
        op = card.operation
        if op and op.startswith("SETLOC"):
            subseg = op.split(',')[1].strip() if ',' in op else "0"
        if card.label:
            errors = errors + define(symtab, seg, subseg, card)
    return symtab, errors


def buildSymbolTable(filename, symtab, fs):
    return build_cards(ArgusDeck(file=filename, fs=fs).cards, filename.split('.')[0], symtab)


def defined(symtab, symbol, kind):
    """Has the symbol a definition of this kind?"""
    return any(kind in symtab[symbol][seg][sub] for seg in symtab[symbol]
               for sub in symtab[symbol][seg])


def checkSymbolTable(symtab, verbose=False, complexOnlyError=False):
    if not complexOnlyError:
        return []
    return [s for s in sorted(symtab) if defined(symtab, s, "complex")
            and not defined(symtab, s, "simple")]


def getAbsoluteSymbols(symtab):
    return [s for s in sorted(symtab) if defined(symtab, s, "simple")]


def findSymbolDef(symtab, name, symtype=None, begin=False, end=False):
    if not begin and not end:
        if name in symtab and (symtype is None or defined(symtab, name, symtype)):
            return symtab[name]
        return None
    out = []
    for s in sorted(symtab):
        if begin and s.startswith(name):
            out.append(s)
        if end and s.endswith(name):
            out.append(s)
    return out


# ---------------------------------------------------------- SymbolTable class
class Entry:
    def __init__(self, name, value=None, symtype=None, file=None, line=0, segment=None,
                 subsegment=None):
        self.name = name
        self.value = value
        self.absolute = symtype == "absolute"
        self.file = file
        self.line = line
        self.segment = segment
        self.subsegment = subsegment
        self.references = []

    def update(self, value=None, symtype=None):
        self.value = value
        self.absolute = symtype == "absolute"

    def isValid(self):
        return self.value is not None

    def isAbsolute(self):
        return self.value is not None and self.absolute

    def isComplex(self):
        return self.value is not None and not self.absolute

    def isMultiple(self):
        return False

    def addReference(self, ref):
        self.references.append(ref)


class SymbolTable:
    """Each name is defined at most once; names added without a value are undefined
    until pruned with a value."""

    def __init__(self):
        self.symbols = {}
        self.undefines = []

    def add(self, name, srcfile, linenum, value=None, symtype=None, segment=None,
            subsegment=None):
        if name and name not in self.symbols:
            self.symbols[name] = Entry(name, value, symtype, srcfile, linenum, segment,
                                       subsegment)
            if value is None:
                self.undefines.append(name)

    def update(self, name, value=None, symtype=None):
        if name and name in self.symbols:
            self.symbols[name].update(value, symtype)

    def pruneUndefines(self):
        self.undefines = [n for n in self.undefines if not self.symbols[n].isValid()]

    def resolve(self, maxPasses=10):
        if maxPasses > 0 and self.undefines:
            self.pruneUndefines()
            # a further pass finds nothing new to prune

    def getNumSymbols(self):
        return len(self.symbols)

    def getNumUndefs(self):
        return len(self.undefines)

    def lookup(self, name):
        return self.symbols[name] if name in self.symbols else None
