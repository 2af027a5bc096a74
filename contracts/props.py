"""Which contract operations decide which property."""

TRUSTED = [
    "pyvc: the verification-condition generator in /verif/pyvc (interprets the Python AST of "
    "/repo's current source; its model of Python expressions, statements and built-ins)",
    "z3 4.x (satisfiability verdicts)",
    "CPython's inspect/ast: the AST verified is the source of the module that is imported",
    "the contracts in /verif/specs",
]
ASSUMPTIONS = [
    "arguments have the types the contract's domains give (int, bool, str, slice of ints, None "
    "where listed); objects are used from one thread",
    "an object is reached through its public interface only (no writes to underscore attributes "
    "from outside)",
]


def second_iteration(d):
    """Known finding: Registers objects can be iterated over only once."""
    from h800.registers import Registers
    bad = "second iteration over a Registers object"
    try:
        o = Registers(16)
        o[3][5].value = 77
        one = [[r.value for r in g] for g in o]
        two = [[r.value for r in g] for g in o]
    except Exception as e:
        return [], "%s: %r" % (bad, e)
    if two == one:
        return [], None
    if two == []:
        return [bad + " yields no groups"], None
    return [], bad + " yields %r" % (two,)


READS = ["value", "maxval", "width", "int", "index", "len", "get", "getslice",
         "numbering", "order"]
PROPS = {
    "C01": {"units": [("BitField", READS)]},
    "C02": {"units": [("BitField", ["setvalue", "put", "putslice"])]},
    "C03": {"units": [("BitField", ["new", "new0", "new1", "new2", "new3", "new4"])]},
    "C04": {"units": [("BitField", ["indices", "lsb", "msb", "get", "put"])]},
    "C05": {"units": [("BitField", ["setbit", "clrbit", "setall", "clrall", "isbit",
                                    "isbitset", "isbitclr", "isrange", "israngeset",
                                    "israngeclr"])]},
    "C06": {"units": [("Word", None)]},
    "C07": {"units": [("InstructionWord", None)]},
    "C11": {"units": [("Register", None)]},
    "C12": {"units": [("RegisterGroup", None), ("RegisterNames", None)]},
    "C13": {"units": [("Registers", None), ("RegistersIter", None)],
            "extra": second_iteration},
    "C14": {"units": [("InstructionLayout", None)]},
    "C15": {"units": [("InstructionCodes", None)]},
    "C16": {"units": [("InstructionReject", None)]},
    "C17": {"units": [("InstructionHelpers", None)]},
    "C18": {"units": [("Constants", None)]},
    "C08": {"units": [("MemoryBank", ["len", "width", "read", "write", "new"])], "drive_s": 8},
    "C09": {"units": [("MemoryBank", ["slice", "fill", "clear", "iter", "twice", "whole",
                                      "through", "nested", "next"])], "drive_s": 10},
    "C10": {"units": [("MemoryModule", None), ("ExpansionModule", None)], "drive_s": 15},
    "C19": {"units": [("PunchCard", None)], "drive_s": 8},
    "C20": {"units": [("Card", None)], "drive_s": 8},
    "C21": {"units": [("Deck", None), ("TwoDecks", None)], "drive_s": 15},
    "C22": {"units": [("FileDeck", None)], "drive_s": 20},
    "C23": {"units": [("SymbolStep", None)], "drive": [("Symbols", None)], "drive_s": 20,
            "drivers": 2, "assumptions": [
                "The deck read from the source file is represented by what C20, C21 and C22 say "
                "about it; those are proved of the real Deck and ArgusCard by their own checks.",
                "A symbol table handed to buildSymbolTable has the documented shape (name, "
                "segment, subsegment, kind, entry); every such table is covered."]},
    "C24": {"units": [("SymbolList", None), ("SymbolListTwo", None), ("SymbolFind", None),
                      ("SymbolFindTwo", None)], "drive": [("SymbolQuery", None)], "drive_s": 12, "drivers": 2, "assumptions": [
                "A symbol table handed to a query has the documented shape (name, segment, "
                "subsegment, kind, entry); every such table is covered."]},
    "C25": {"units": [("SymbolTableStep", None)], "drive": [("SymbolTable", None)],
            "drive_s": 12, "drivers": 2, "assumptions": [
                "A symbol table consists of the mapping and the list that `symbols` and "
                "`undefines` show (found by identity, or by type); the undefined names differ "
                "and are names of symbols, which the contract keeps (obligations `named`); "
                "entries are what `add` creates for arbitrary arguments."]},
    "C26": {"units": [("Charset", None)]},
}
