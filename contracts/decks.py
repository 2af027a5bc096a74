"""Contracts of decks, symbol tables and the character set."""
import contextlib
import os
import shutil
import tempfile

import z3

from pyvc import sparse, files, maps, tables
from pyvc.values import SInt, SStr, SUnion, HDict, HList, HObj, Unsupported
from pyvc.contract import FuncContract, ClassContract, Op
from pyvc.domains import Near, IntRange, Choice, Const, OneOf, Text, Dom
from contracts.cards import card_line, HINT, WORDS, LINE
from specs.cards import COLUMNS, WIDTH, Card as SpecCard
import specs.symbols
from specs.decks import ArgusDeck


@contextlib.contextmanager
def tree(fs, card=None, kw=None):
    """A scratch directory holding the files of fs, as current directory."""
    for n in fs:
        if not n or "/" in n or "\0" in n or n in (".", ".."):
            raise ValueError("file name")
    d = tempfile.mkdtemp(prefix="pyvc")
    old = os.getcwd()
    try:
        for n, lines in fs.items():
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write("".join(lines))
        os.chdir(d)
        yield
    finally:
        os.chdir(old)
        shutil.rmtree(d)


@contextlib.contextmanager
def notree(fs, card, kw):
    yield


def with_fs(fs):
    return {"fs": fs}


def without_fs(fs):
    return {}


files.HOOKS[tree] = files.HOOKS[notree] = lambda it, a, k: files.World(a[0], a[1], {
    c[0]: c[1] for c in a[2].cells()})


class Lines(Dom):
    """Lists of any number of lines."""

    def sym(self, it, name):
        n = sparse.length(it, name + ".len")
        return sparse.mk_list(sparse.SD([[t, LINE.sym(it, name + ".")]
                                         for t in sparse.observed_in(it, 0, n)], 0, n, True))

    def rand(self, rng, h):
        n = rng.choice([0, 1, 2, 3, 5, 9])
        return [card_line(rng, h).replace("\n", "") for _ in range(n)]


def src_line(rng, h, later):
    r = rng.random()
    if r < 0.1:
        return "# " + rng.choice(WORDS) + "\n"
    if r < 0.25 and later:
        return "$" + rng.choice(["", " ", "  "]) + rng.choice(later) + \
            rng.choice(["", " ", "  remark"]) + "\n"
    if r < 0.27:
        return "$" + rng.choice(["", " ", "nofile"]) + "\n"
    if r < 0.32:
        return rng.choice(["\n", "   \n", " # not meta\n", " $ x\n"])
    s = card_line(rng, h).replace("\n", "").replace("\r", "")
    if s[:1] in ("$", "#"):
        s = " " + s[1:]
    return s + "\n"


class Tree(Dom):
    """Files a.arg, b.arg, c.arg: a file includes only later ones."""

    def __init__(self, line=src_line):
        self.line = line

    def rand(self, rng, h):
        names = ["a.arg"] + rng.choice([["b.inc", "c"], ["a.arg2", "a.arg"[:rng.randint(1, 4)]],
                                        ["x." + rng.choice(WORDS[1:4]), "ab.arg"],
                                        ["a.ar", "a.arg_"], ["A.ARG", "a.inc"],
                                        ["b.seg.arg", ".c.d"]])
        k = rng.choice([1, 2, 3, 3])
        fs = {}
        for i in range(k):
            later = names[i + 1:k]
            ls = [self.line(rng, h, later) for _ in range(rng.choice([0, 1, 3, 6, 12]))]
            if ls and rng.random() < 0.2:
                ls[-1] = ls[-1].rstrip("\n")
            # as the file is read back
            fs[names[i]] = "".join(ls).splitlines(keepends=True) if "\r" not in "".join(ls) \
                else [x.replace("\r", " ") for x in ls]
        return fs


class Files(Tree):
    def __init__(self, inner=1):
        Tree.__init__(self)
        self.inner = inner

    def sym(self, it, name):
        return files.AnyFS(self.inner).sym(it, name)


class FileName(Dom):
    def sym(self, it, name):
        v = Text().sym(it, name)
        it.ctx.assume(v.t != z3.StringVal(""), check=False)
        return v

    def rand(self, rng, h):
        return rng.choice(["a.arg", "a.arg", "a.arg", "b.inc", "c", "nofile"])


def view_card(c):
    return [c.line, c.filename, c.linenum, c.fields, c.strippedFields, c.record]


def view_deck(d):
    return [d.lines, d.fields, d.strippedFields, d.records, str(d),
            [view_card(c) for c in d.cards]]


def d_lines(M, lines):
    return view_deck(M.Deck(lines))


def d_layout(M, lines, width, cols):
    return view_deck(M.Deck(lines, width=width, fields=cols))


def d_two(M, lines, other):
    d = M.Deck(lines)
    e = M.Deck(other)
    return [view_deck(d), view_deck(e)]


def d_log(M, lines):
    d = M.ArgusDeck(lines)
    return [view_deck(d), d.log_section, d.log_section_col8]


def d_none(M):
    return M.Deck()


def file_deck(M, cls, card, fs, name, kw):
    with M.tree(fs, card, kw):
        return cls(file=name, **M.extra(fs), **kw)


def f_deck(M, fs, name):
    return view_deck(file_deck(M, M.Deck, M.PunchCard, fs, name, {}))


def f_argus(M, fs, name):
    d = file_deck(M, M.ArgusDeck, M.Card, fs, name, {})
    return [d.lines, [view_card(c) for c in d.cards], d.log_section, d.log_section_col8]


def f_layout(M, fs, cols):
    return view_deck(file_deck(M, M.Deck, M.PunchCard, fs, "a.arg",
                               {"width": 90, "fields": cols}))


DECKS = dict(real={"Deck": "h800.punchcard:Deck", "ArgusDeck": "h800.arguscard:Deck",
                   "PunchCard": "h800.punchcard:PunchCard", "Card": "h800.arguscard:Card",
                   "tree": "contracts.decks:tree", "extra": "contracts.decks:without_fs",
                   "native": "@contracts.decks:yes"},
             spec={"Deck": "specs.decks:Deck", "ArgusDeck": "specs.decks:ArgusDeck",
                   "PunchCard": "specs.cards:PunchCard", "Card": "specs.cards:Card",
                   "tree": "contracts.decks:notree", "extra": "contracts.decks:with_fs"})


def yes():
    return True


TEN = Choice(COLUMNS, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], [3, 6, 8, 10, 21, 30, 45, 60, 70, 80])


class DeckC(FuncContract):
    name = "Deck"
    merge = True
    sparse = dict(n=3)
    hint_files = HINT
    ops = {"lines": Op(d_lines, Lines()), "argus": Op(d_log, Lines(), weight=2),
           "layout": Op(d_layout, Lines(), IntRange(81, 130), TEN),
           "none": Op(d_none, weight=.05)}
    real, spec = DECKS["real"], DECKS["spec"]


class TwoDecksC(DeckC):
    """A deck is unaffected by the construction of another one."""
    name = "TwoDecks"
    sparse = dict(n=2)
    ops = {"two": Op(d_two, Lines(), Lines())}


class FileDeckC(FuncContract):
    name = "FileDeck"
    merge = True
    sparse = dict(n=2)

    @staticmethod
    def hypothesis(cards):
        return [view_card(c) for c in cards]

    hint_files = HINT
    NAME = FileName()
    FILES = Files()
    ops = {"deck": Op(f_deck, FILES, NAME), "argus": Op(f_argus, Files(2), NAME),
           "layout": Op(f_layout, FILES, TEN)}
    real, spec = DECKS["real"], DECKS["spec"]


# ------------------------------------------------------------- symbol tables
LABELS = ["A", "B", "X1", "A B", "AB", "B,A", "F,A", "S,X1", "Z,X1", "L,A", "X,A", "Q,A",
          "A,B,C", ",A", "A,", "B, A", "a", "Ab", "F,a", "MSG", "MSG 1", "MSG1"]
OPS = ["ASSIGN", "EQUALS", "EQUALS", "TS", "SETLOC", "SETLOC,2", "SETLOC, 3", "SETLOC,0",
       "ALF,4", "ASSIGN,1", "EQUALS,1", "SETLOCX", None, "TS", "SPEC"]
ARGS = ["", "A", "1,0", "S ZERO", "B"]


def sym_line(rng, h, later):
    r = rng.random()
    if r < 0.07:
        return "# comment\n"
    if r < 0.12 and later:
        return "$ " + rng.choice(later) + "\n"
    if r < 0.2:
        return src_line(rng, h, [])[:120].replace("$", " ").rstrip("\n") + "\n"
    out = [" "] * 81

    def put(col, s):
        for k, ch in enumerate(s):
            out[col - 1 + k] = ch
    put(1, rng.choice([" ", " ", " ", " ", "R", "L", "P", "*"]))
    put(2, "%04d" % rng.randrange(10000))
    put(8, rng.choice([" ", " ", " ", " ", " ", "*", "@"]))
    put(9, rng.choice(LABELS) if rng.random() < 0.75 else "")
    put(20, rng.choice(OPS) or "")
    put(33, rng.choice(ARGS))
    put(47, rng.choice(ARGS) if rng.random() < .3 else "")
    put(61, rng.choice(ARGS) if rng.random() < .3 else "")
    return "".join(out).rstrip() + "\n"


def build(M, fs, names):
    symtab = {}
    errs = []
    for n in names:
        if hasattr(M, "native"):
            with tree(fs):
                symtab, e = M.buildSymbolTable(n, symtab)
        else:
            symtab, e = M.buildSymbolTable(n, symtab, fs)
        errs.append(e)
    return symtab, errs


def show(symtab):
    return {n: {g: {s: {k: [e["file"], e["line"], e["lognum"], e["tagtype"], e["card"].line,
                            e["card"].linenum, e["card"].filename, sorted(e)]
                        for k, e in symtab[n][g][s].items()}
                    for s in symtab[n][g]} for g in symtab[n]} for n in symtab}


def s_build(M, fs):
    t, e = build(M, fs, ["a.arg"])
    return [show(t), e]


def s_many(M, fs):
    t, e = build(M, fs, sorted(fs))
    return [show(t), e]


def s_again(M, fs):
    """The same file twice: every definition is multiple, except equal EQUALS."""
    t, e = build(M, fs, ["a.arg", "a.arg"])
    return [show(t), e]


def s_check(M, t, flag):
    r = M.checkSymbolTable(t, complexOnlyError=flag)
    return [r, M.checkSymbolTable(t), t]


def s_abs(M, t):
    return [M.getAbsoluteSymbols(t), t]


def s_find(M, t, name, symtype):
    return [M.findSymbolDef(t, name, symtype=symtype), t]


def s_match(M, t, name, begin, end):
    if not begin and not end:
        begin = True
    return [M.findSymbolDef(t, name, begin=begin, end=end), t]


class Table(Dom):
    """Symbol tables: name -> segment -> subsegment -> {simple, complex} -> entry."""

    def rand(self, rng, h):
        t = {}
        for _ in range(rng.choice([0, 1, 2, 4, 8, 15])):
            n = rng.choice(["A", "B", "AB", "BA", "ABA", "X1", "X2", "ZX1", "MSG", "MSG1", "1",
                            "TEMP", "TEMPA", "", "a"])
            g = t.setdefault(n, {})
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                s = g.setdefault(rng.choice(["f", "g", "e"]), {})
                for _ in range(rng.choice([0, 1, 1, 2])):
                    e = s.setdefault(rng.choice(["0", "1", "2", "A"]), {})
                    for k in rng.choice([[], ["simple"], ["complex"], ["simple", "complex"],
                                         ["complex"], ["simple"]]):
                        e[k] = {"line": rng.randrange(9)}
        return t


SYMNAME = Choice("A", "B", "AB", "X1", "MSG", "1", "", "TEMP", "nope", "X", "a")
SYMT = ("buildSymbolTable", "checkSymbolTable", "getAbsoluteSymbols", "findSymbolDef")
SYMR = dict({n: "h800.symbol_table:" + n for n in SYMT}, native="@contracts.decks:yes")
SYMS = {n: "specs.symbols:" + n for n in SYMT}


# by proof: one file added to an arbitrary table
class AnyDeck(ArgusDeck):
    """What C20 and C22 say about a deck read from a file."""

    def __init__(self, lines=None, file=None, width=WIDTH, fields=COLUMNS, verbose=False):
        super().__init__(lines, file, width, fields, current_files())


def current_files():
    raise NotImplementedError


def reading(fs):
    raise NotImplementedError


files.HOOKS[current_files] = lambda it, a, k: it.world.fs
files.HOOKS[reading] = lambda it, a, k: files.World(a[0], SpecCard, {}, True)


def probe(t, n, g, s, k):
    """What a symbol table says at n, g, s, k."""
    for x in (n, g, s):
        if x not in t:
            return None
        t = t[x]
    if k not in t:
        return []
    e = t[k]
    return [e["file"], e["line"], e["lognum"], e["tagtype"], e["card"].line,
            e["card"].linenum, e["card"].filename, sorted(e)]


def s_file(M, fs, name, t, n, g, s, k):
    with reading(fs):
        t, e = M.buildSymbolTable(name, t, **M.extra(fs))
    return [probe(t, n, g, s, k), e]


def any_entry(it, base):
    """The definition of a symbol: of any card."""
    def f(n, sort=z3.StringSort()):
        return it.uf("%s:%s" % (n, base[0]), list(base[1]), sort)
    num = SInt(f("num", z3.IntSort()), 0, None)
    it.ctx.assume(num.t >= 0, check=False)
    line = SStr(f("text"))
    files.unlike(it, line.t, "#")
    card = it.call(SpecCard, [line], {"filename": SStr(f("cfile")), "linenum": num})
    some = f("logged", z3.BoolSort())
    e = HDict()
    for k, v in [("file", SStr(f("file"))), ("line", SInt(f("line", z3.IntSort()), None, None)),
                 ("lognum", SUnion([(some, SStr(f("log"))), (z3.Not(some), None)])),
                 ("tagtype", SStr(f("tag"))), ("card", card)]:
        it.dict_set(e, k, v)
    return e


def is_entry(it, e):
    if type(e) is not HDict or set(e.d) != {"file", "line", "lognum", "tagtype", "card"}:
        return False
    v = {k: c[1] for k, c in e.d.items()}
    texts = [v["file"], v["tagtype"]]
    logs = [x for _, x in v["lognum"].alts] if isinstance(v["lognum"], SUnion) else [v["lognum"]]
    return all(isinstance(x, (str, SStr)) for x in texts) and \
        isinstance(v["line"], (int, SInt)) and \
        all(x is None or isinstance(x, (str, SStr)) for x in logs) and \
        isinstance(v["card"], HObj) and v["card"].cls is SpecCard


class AnyTable(Dom):
    """Every symbol table."""

    def sym(self, it, name):
        return maps.mk(("table", ()), maps.Make(4, any_entry, is_entry))


class SymbolStepC(FuncContract):
    name = "SymbolStep"
    merge = True
    sparse = dict(n=1)
    carry = True
    forks = 7
    symbolic = True
    probe, probes = staticmethod(probe), 4
    callees = {"h800.arguscard:Deck": "contracts.decks:AnyDeck"}
    real = {"buildSymbolTable": "h800.symbol_table:buildSymbolTable",
            "extra": "contracts.decks:without_fs"}
    spec = {"buildSymbolTable": "specs.symbols:buildSymbolTable",
            "extra": "contracts.decks:with_fs"}
    ops = {"file": Op(s_file, Files(1), FileName(), AnyTable(), Text(), Text(), Text(), Text())}


class SymbolsC(FuncContract):
    name = "Symbols"
    native = True
    hint_files = HINT
    real, spec = SYMR, SYMS
    ops = {"build": Op(s_build, Tree(sym_line), weight=3), "many": Op(s_many, Tree(sym_line)),
           "again": Op(s_again, Tree(sym_line))}


class SymbolQueryC(FuncContract):
    name = "SymbolQuery"
    native = True
    hint_files = HINT
    real, spec = SYMR, SYMS
    ops = {"check": Op(s_check, Table(), Choice(False, True)), "absolute": Op(s_abs, Table()),
           "find": Op(s_find, Table(), SYMNAME, Choice(None, "simple", "complex", "other")),
           "match": Op(s_match, Table(), SYMNAME, Choice(False, True), Choice(False, True))}


# by proof: arbitrary tables
def hook_defined(it, a, k):
    m = it.getitem(a[0], a[1])
    if not isinstance(m, tables.KMap):
        raise Unsupported("table that is none")
    return tables.exists(it, m, a[2])


files.HOOKS[specs.symbols.defined] = hook_defined


def s_check1(M, t, flag):
    return [M.checkSymbolTable(t, complexOnlyError=flag)]


def s_check0(M, t):
    return [M.checkSymbolTable(t)]


def s_abs1(M, t):
    return [M.getAbsoluteSymbols(t)]


def s_find1(M, t, name, symtype):
    return [M.findSymbolDef(t, name, symtype=symtype)]


def s_match1(M, t, name, begin, end):
    if not begin and not end:
        begin = True
    return [M.findSymbolDef(t, name, begin=begin, end=end)]


FLAG = Choice(False, True)


def listing(t):
    return {"check": Op(s_check1, t, FLAG), "unchecked": Op(s_check0, t),
            "absolute": Op(s_abs1, t), "match": Op(s_match1, t, Text(), FLAG, FLAG)}


def finding(t):
    return {"find": Op(s_find1, t, Text(), OneOf(Const(None), Text()))}


class SymbolListC(FuncContract):
    """The results at one name."""
    name = "SymbolList"
    merge = True
    symbolic = True
    sparse = dict(n=1, exits=0, flags=2, ordered=True)
    real, spec = {n: SYMR[n] for n in SYMT}, SYMS
    ops = listing(tables.AnyTable(4))


class SymbolListTwoC(SymbolListC):
    """Two names: what happens at one does not depend on the other."""
    name = "SymbolListTwo"
    sparse = dict(n=2, exits=0, flags=2, ordered=True)
    ops = listing(tables.AnyTable(2))


class SymbolFindC(SymbolListC):
    """One name asked for and one at which a loop is left."""
    name = "SymbolFind"
    sparse = dict(n=2, exits=1, ask=1, flags=2, ordered=True)
    ops = finding(tables.AnyTable(4))


class SymbolFindTwoC(SymbolListC):
    """... and another one."""
    name = "SymbolFindTwo"
    sparse = dict(n=3, exits=1, ask=1, flags=2, ordered=True)
    ops = finding(tables.AnyTable(2))


# ------------------------------------------------------------ SymbolTable
def t_add(o, n, f, l, v, t, g, s):
    o.add(n, f, l, v, t, g, s)


def t_addkw(o, n, v):
    o.add(n, "f", 3, value=v)


def t_update(o, n, v, t):
    o.update(n, v, t)


def t_prune(o):
    o.pruneUndefines()


def t_resolve(o, k):
    o.resolve(k)


def t_resolve0(o):
    o.resolve()


def view_entry(e):
    if e is None:
        return None
    return [e.name, e.value, e.isValid(), e.isAbsolute(), e.isComplex(), e.isMultiple(),
            e.file, e.line, e.segment, e.subsegment, list(e.references)]


def t_lookup(o, n):
    return view_entry(o.lookup(n))


def t_ref(o, n, r):
    e = o.lookup(n)
    if e is not None:
        e.addReference(r)


def t_entry(o, n, v, t):
    e = o.lookup(n)
    if e is not None:
        e.update(v, t)


def t_counts(o):
    return [o.getNumSymbols(), o.getNumUndefs()]


def t_view(o):
    return [[(n, view_entry(o.symbols[n])) for n in o.symbols], list(o.undefines)]


class Names(Dom):
    """The history that builds a table: [name, value, type] in order of definition."""

    def rand(self, rng, h):
        ns = ["A", "B", "C", "D", "X1", "LONGNAME", "E F"]
        rng.shuffle(ns)
        return [[n, rng.choice([None, None, 0, 5, "A+1"]),
                 rng.choice([None, "absolute", "complex"])]
                for n in ns[:rng.choice([0, 1, 3, 5, 7])]]


def build_table(cls, hist):
    o = cls()
    for n, v, t in hist:
        o.add(n, "f.arg", 3, v, t)
    return o


TN = Choice("A", "B", "C", "D", "X1", "NEW", "", "LONGNAME", "E F")
TV = OneOf(Const(None), Near(0, 9), Choice("", "A+1"))
TT = Choice(None, "absolute", "complex", "other")


class SymbolTableC(ClassContract):
    name = "SymbolTable"
    native = True
    real = "h800.symbol_table:SymbolTable"
    spec = "specs.symbols:SymbolTable"
    view = (Names(),)
    hint_files = HINT
    max_steps = 14
    build = staticmethod(build_table)

    @staticmethod
    def observe(o):
        return t_view(o) + t_counts(o)

    ops = {"add": Op(t_add, TN, Choice("f", None), Near(0, 9), TV, TT, Choice(None, "s"),
                     Choice(None, "1"), weight=2),
           "addkw": Op(t_addkw, TN, TV),
           "update": Op(t_update, TN, TV, TT, weight=2), "prune": Op(t_prune),
           "resolve": Op(t_resolve, Near(0, 3)), "resolve0": Op(t_resolve0),
           "lookup": Op(t_lookup, TN), "reference": Op(t_ref, TN, Near(0, 9)),
           "entry": Op(t_entry, TN, TV, TT),
           "counts": Op(t_counts), "view": Op(t_view),
           "new": Op(lambda cls: cls(), cls=True, weight=.1)}


# by proof: one operation on an arbitrary table
def any_table(cls, refs=False):
    raise NotImplementedError


def swap(it, o, name, kind, new):
    """Give the attribute that holds the list or mapping o.name another value."""
    v = it.getattr(o, name)
    ks = [k for k, x in o.attrs.items() if x is v] or \
        [k for k, x in o.attrs.items() if type(x) is kind]
    if len(ks) != 1 or type(v) is not kind or (v.items if kind is HList else v.d):
        raise Unsupported("state of a new symbol table")
    o.attrs[ks[0]] = new


def some_list(it, name, elem, distinct=False):
    """A list of any length."""
    n = SInt(z3.Int("size:" + name), 0, None)
    it.ctx.assume(n.t >= 0, check=False)
    it.ctx.sparse.names.add(n.t.get_id())
    l = sparse.mk_list(sparse.SD([[t, elem(t)] for t in sparse.observed_in(it, 0, n)], 0, n, True))
    l.sd.distinct = distinct
    return l


def any_value(it, f):
    a, b = f("value?", z3.BoolSort()), f("number?", z3.BoolSort())
    return SUnion([(z3.Not(a), None), (z3.And(a, b), SInt(f("number", z3.IntSort()), None, None)),
                   (z3.And(a, z3.Not(b)), SStr(f("text")))])


def hook_table(it, a, k):
    """Every symbol table: symbols with any names and entries; undefined names that
    differ and are names of symbols."""
    cls, refs = a[0], a[1:] == [True]
    o = it.call(cls, [], {})

    def entry(it, base):
        def f(n, sort=z3.StringSort()):
            return it.uf("%s:entry" % n, list(base[1]), sort)

        def opt(n):
            c = f(n + "?", z3.BoolSort())
            return SUnion([(c, SStr(f(n))), (z3.Not(c), None)])
        name = SStr(base[1][0])
        it.ctx.assume(name.t != z3.StringVal(""), check=False)
        s = it.call(cls, [], {})
        it.call(it.getattr(s, "add"), [name, opt("file"), SInt(f("line", z3.IntSort()), None, None),
                                       any_value(it, f), opt("type"), opt("segment"),
                                       opt("subsegment")], {})
        e = it.call(it.getattr(s, "lookup"), [name], {})
        if not isinstance(e, HObj):
            raise Unsupported("entry of a symbol table")
        if refs:
            swap(it, e, "references", HList, some_list(
                it, "references:%s" % name.t,
                lambda t: SInt(it.uf("reference", [name.t, t.t], z3.IntSort()), None, None)))
        else:
            it.call(it.getattr(e, "addReference"),
                    [SInt(f("reference0", z3.IntSort()), None, None)], {})
        return e

    def element(t):
        x = SStr(it.uf("undefined", [t.t], z3.StringSort()))
        it.ctx.assume(z3.And(x.t != z3.StringVal(""), maps.has(it, m.sd, x).t), check=False)
        return x
    m = maps.mk(("symtab", ()), maps.Make(1, entry, None))
    swap(it, o, "symbols", HDict, m)
    u = some_list(it, "undefines", element, True)
    ts = [e[1].t for e in u.sd.vis]
    for i, x in enumerate(ts):
        for y in ts[:i]:
            it.ctx.assume(x != y, check=False)
    swap(it, o, "undefines", HList, u)
    return o


files.HOOKS[any_table] = hook_table


def look(o, q):
    """What can be seen of a table at name q."""
    return [view_entry(o.lookup(q)), q in o.symbols, list(o.undefines), o.getNumSymbols(),
            o.getNumUndefs()]


def p_add(M, n, f, l, v, t, g, s, q):
    o = any_table(M.SymbolTable)
    o.add(n, f, l, v, t, g, s)
    return look(o, q)


def p_update(M, n, v, t, q):
    o = any_table(M.SymbolTable)
    o.update(n, v, t)
    return look(o, q)


def p_entry(M, n, v, t, q):
    o = any_table(M.SymbolTable)
    e = o.lookup(n)
    if e is not None:
        e.update(v, t)
    return look(o, q)


def p_ref(M, n, r, q):
    o = any_table(M.SymbolTable, True)
    e = o.lookup(n)
    if e is not None:
        e.addReference(r)
    return look(o, q)


def p_prune(M, q):
    o = any_table(M.SymbolTable)
    o.pruneUndefines()
    return look(o, q)


def p_resolve(M, k, q):
    o = any_table(M.SymbolTable)
    o.resolve(k)
    return look(o, q)


def p_named(M, what, n, v, t):
    """What is assumed of the undefined names holds again."""
    o = any_table(M.SymbolTable)
    if what == "add":
        o.add(n, None, 0, v, t)
    if what == "update":
        o.update(n, v, t)
    if what == "prune":
        o.pruneUndefines()
    if what == "resolve":
        o.resolve()
    return M.names(o)


def p_resolve0(M, q):
    o = any_table(M.SymbolTable)
    o.resolve()
    return look(o, q)


def p_new(M, n, v, m, w, r, q):
    """A new table and two entries."""
    o = M.SymbolTable()
    a = look(o, q)
    o.add(n, "f", 1, v)
    o.add(m, "g", 2, w, "absolute")
    e = o.lookup(n)
    if e is not None:
        e.addReference(r)
    p = M.SymbolTable()
    return [a, look(o, q), look(o, n), look(o, m), look(p, q)]


def names_known(o):
    """Undefined names are names of symbols: part of what is assumed of a table."""
    return [u in o.symbols for u in o.undefines]


def all_known(o):
    return [True for u in o.undefines]


class Number(Dom):
    """Every int, as a mathematical integer."""

    def sym(self, it, name):
        return SInt(z3.Int(it.ctx.name(name)), None, None)


class Maybe(Dom):
    """None or any text."""

    def sym(self, it, name):
        n = it.ctx.name(name)
        c = z3.Bool(n + "?")
        return SUnion([(c, SStr(z3.Const(n, z3.StringSort()))), (z3.Not(c), None)])


class Value(Dom):
    """None, any number or any text."""

    def sym(self, it, name):
        n = it.ctx.name(name)
        return any_value(it, lambda k, sort=z3.StringSort(): z3.Const("%s:%s" % (n, k), sort))


OPT, VAL = Maybe(), Value()


class SymbolTableStepC(FuncContract):
    name = "SymbolTableStep"
    merge = True
    symbolic = True
    sparse = dict(n=3, exits=0, ask=1, lengths=True)
    real = {"SymbolTable": "h800.symbol_table:SymbolTable", "names": "contracts.decks:names_known"}
    spec = {"SymbolTable": "specs.symbols:SymbolTable", "names": "contracts.decks:all_known"}
    ops = {"add": Op(p_add, Text(), OPT, Number(), VAL, OPT, OPT, OPT, Text()),
           "update": Op(p_update, Text(), VAL, OPT, Text()),
           "entry": Op(p_entry, Text(), VAL, OPT, Text()),
           "reference": Op(p_ref, Text(), Number(), Text()), "prune": Op(p_prune, Text()),
           "resolve": Op(p_resolve, Number(), Text()), "resolve0": Op(p_resolve0, Text()),
           "named": Op(p_named, Choice("add", "update", "prune", "resolve"), Text(), VAL, OPT),
           "new": Op(p_new, Text(), VAL, Text(), VAL, Number(), Text())}


# ------------------------------------------------------------ character set
def ch_lookup(M, code):
    return M.CHARSET[code]


def ch_all(M):
    return [sorted(M.CHARSET), [M.CHARSET[i] for i in range(64)]]


def ch_encode(M, ch):
    """The codes of a character."""
    return [k for k in sorted(M.CHARSET) if M.CHARSET[k] == ch]


class CharsetC(FuncContract):
    name = "Charset"
    hint_files = ("h800/charset.py",)
    real = {"CHARSET": "h800.charset:CHARSET"}
    spec = {"CHARSET": "specs.charset:CHARSET"}
    ops = {"lookup": Op(ch_lookup, Near(0, 63)), "all": Op(ch_all, weight=.1),
           "encode": Op(ch_encode, Text())}
