"""Files of any length, and functions that call themselves for an included file.

A file system is an arbitrary function from names to nothing or a list of lines
(any number of them, observed at the indices of `sparse`).  Files are read only:
opening one for anything else is refused.

A function that calls itself (its source contains a call of its own name) is
verified by induction over the nesting of includes: when it is entered again, for
another file and with all other arguments the same, its result is assumed to be what
the contract says about that file: cards of arbitrary lines, files and line numbers,
the same ones for the code and the contract (or the same kind of rejection).
In return the call under verification must return what the contract's function
returns (obligation "hypothesis") and leave the objects it was given as they were.
Files that include themselves, where the recursion does not end, are not covered."""
import ast
import builtins
import os

import z3

from .values import HObj, HList, HDict, SInt, SBool, SStr, IterV, Unsupported, PyExc, BuiltinM
from . import sparse

SS = z3.StringSort()
HOOKS = {}


class FS:
    """An arbitrary file system."""

    def exists(self, it, name):
        return SBool(it.uf("fs_isfile", [it.sterm(name)], z3.BoolSort()))

    def memo(self, it, kind, name, make):
        m = it.ctx.memo
        k = (kind, it.sterm(name).get_id())
        if k not in m:
            m[k] = (it.sterm(name), make())
        return m[k][1]

    def lines(self, it, name):
        def make():
            t = it.sterm(name)
            n = sparse.length(it, "len:" + t.sexpr(), True)
            it.ctx.assume(n.t == it.uf("fs_len", [t], z3.IntSort()), check=False)
            return n, [[j, SStr(it.uf("fs_line", [t, j.t], SS))]
                       for j in sparse.observed_in(it, 0, n)]
        n, vis = self.memo(it, "file", name, make)
        return sparse.mk_list(sparse.SD([list(e) for e in vis], 0, n, True))

    def included(self, it, name):
        """What the contract says about an included file: (outcome, length, [position,
        line, file, number of the observed cards])."""
        def make():
            t = it.sterm(name)
            o = SInt(it.uf("inc_outcome", [t], z3.IntSort()), None, None)
            n = SInt(it.uf("inc_len", [t], z3.IntSort()), 0, None)
            it.ctx.assume(n.t >= 0, check=False)
            if it.world.trusted:        # positions of its cards are observed indices
                u, n = n, sparse.length(it, "cards:" + t.sexpr(), True)
                it.ctx.assume(n.t == u.t, check=False)
            out, prev = [], None
            for i in range(self.inner):
                k = SInt(z3.Int("inc%d:%s" % (i, t.sexpr())), 0, None)
                if it.world.trusted:
                    k = it.ctx.sparse.idx[i]
                num = SInt(it.uf("inc_num", [t, k.t], z3.IntSort()), 1, None)
                line = it.uf("inc_line", [t, k.t], SS)
                it.ctx.assume(z3.And(k.t >= 0 if prev is None else k.t > prev.t, num.t >= 1),
                              check=False)
                unlike(it, line, "#")
                unlike(it, line, "$")
                out.append((k, SStr(line), SStr(it.uf("inc_file", [t, k.t], SS)), num))
                prev = k
            return o, n, out
        return self.memo(it, "inc", name, make)

    def vcontains(self, it, name):
        return self.exists(it, name)

    def vgetitem(self, it, name):
        return self.lines(it, name)

    def vconc(self, model):
        from .contract import concretise
        out = []
        for (kind, _), (t, v) in self.ctx.memo.items():
            name = concretise(model, SStr(t))
            if not z3.is_true(model.eval(self.isfile(t), model_completion=True)):
                continue
            if kind == "file":
                n = concretise(model, v[0])
                vis = {concretise(model, j): concretise(model, x) for j, x in v[1]}
            else:
                n = concretise(model, v[1])
                vis = {concretise(model, k): concretise(model, x) for k, x, _, _ in v[2]}
            if not 0 <= n <= 4096:
                raise Unsupported("input too long")
            out.append([name, [vis.get(i, "").replace("\n", "").replace("\r", "") + "\n"
                               for i in range(n)]])
        return {"dict": out}


def unlike(it, line, start):
    """The text does not start like this."""
    from .builtin import str_method
    c = str_method(it, SStr(line), "startswith", [start], {})
    it.ctx.assume(z3.Not(c.t), check=False)


class AnyFS:
    """Domain of file systems."""

    def __init__(self, inner=1):
        self.inner = inner              # observed cards of an included file

    def sym(self, it, name):
        f = FS()
        f.inner = self.inner
        f.ctx = it.ctx
        f.isfile = lambda t: it.uf("fs_isfile", [t], z3.BoolSort())
        return f


class FileV:
    """An open file."""

    def __init__(self, fs, name):
        self.fs, self.name, self.read = fs, name, False

    def take(self, it):
        if self.read:
            raise Unsupported("file read twice")
        self.read = True
        return self.fs.lines(it, self.name)

    def venter(self, it):
        return self

    def vgetattr(self, it, name):
        if name in ("readlines", "close", "__iter__"):
            return Method(self, name)
        raise Unsupported("file.%s" % name)

    def viter(self, it):
        return it.iterate(self.take(it), True)

    def vobserved(self, it):
        return it.iterate(self.take(it), True)


class Method:
    def __init__(self, f, name):
        self.f, self.name = f, name

    def vcall(self, it, args, kwargs):
        if self.name == "close":
            return None
        if args or kwargs:
            raise Unsupported("file.%s with arguments" % self.name)
        if self.name == "__iter__":
            return IterV(it.iterate(self.f.take(it), True))
        return self.f.take(it)


def _name(v):
    if not isinstance(v, (str, SStr)):
        raise Unsupported("file name that is no text")
    return v


def isfile(it, args, kwargs):
    if it.world is None:
        raise Unsupported("file system")
    return it.world.fs.exists(it, _name(it.force(args[0])))


def open_(it, args, kwargs):
    mode = args[1] if len(args) > 1 else kwargs.get("mode", "r")
    if it.world is None or mode not in ("r", "rt") or len(args) > 2 or \
            set(kwargs) - {"mode", "encoding"}:
        raise Unsupported("open")
    name = _name(it.force(args[0]))
    if not it.ctx.branch(it.world.fs.exists(it, name)):
        raise it.exc(FileNotFoundError, "no such file")
    return FileV(it.world.fs, name)


HOOKS[os.path.isfile] = isfile
HOOKS[os.path.exists] = isfile


def calls(node):
    """Names of the functions a function may call of its own class or module."""
    a = node.args.posonlyargs + node.args.args
    me = a[0].arg if a else None
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name):
                out.add(f.id)
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and \
                    (f.value.id == me or f.value.id[:1].isupper()):
                out.add(f.attr)
    out.discard("__init__")
    return out


CYCLES = {}


def is_generator(node):
    from .interp import scope_info
    return scope_info(node)[3]


def cycle(fv):
    """The functions of its module that a function calls and is called by (by name);
    empty when it does not call itself, through others or directly."""
    node = fv.node
    if not isinstance(node, ast.FunctionDef):
        return frozenset()
    tree = getattr(node, "_module", None)
    r = CYCLES.get(node)
    if r is None:
        edges = {}
        for n in (ast.walk(tree) if tree is not None else ast.walk(node)):
            if isinstance(n, ast.FunctionDef):
                edges.setdefault(n.name, set()).update(calls(n))

        def reach(name):
            seen, todo = set(), [name]
            while todo:
                for m in edges.get(todo.pop(), ()):
                    if m in edges and m not in seen:
                        seen.add(m)
                        todo.append(m)
            return seen
        r = CYCLES[node] = frozenset(m for m in reach(node.name) if node.name in reach(m))
    return r


class World:
    """File system and induction hypothesis of a run."""

    def __init__(self, fs, card, kw, trusted=False):
        self.fs, self.card, self.kw = fs, card, kw
        self.trusted = trusted  # reading a file is verified elsewhere
        self.stack = []
        self.results = []
        self.nodes = []         # functions under way

    def venter(self, it):
        it.world = self
        return None

    def enter(self, it, fv, vals):
        """None: execute the function; else a one-element list with its assumed result."""
        if not cycle(fv):
            if fv.node in self.nodes:
                raise Unsupported("recursion through %s" % fv.name)
            return None
        if self.trusted:
            names = [v for v in vals.values() if isinstance(v, (str, SStr))]
            if len(names) != 1:
                raise Unsupported("recursive function")
            return [self.assumed(it, names[0])]
        for node, outer, snap in self.stack:
            if node is fv.node:
                break
        else:
            if fv.node in self.nodes:
                raise Unsupported("recursion through %s" % fv.name)
            return None
        diff = [k for k in vals if k not in outer or not same(vals[k], outer[k])]
        if len(diff) != 1 or vals.keys() != outer.keys() or \
                not isinstance(vals[diff[0]], (str, SStr)):
            raise Unsupported("recursive call outside the hypothesis")
        self.unchanged(snap)
        r = self.assumed(it, vals[diff[0]])
        return [IterV(it.iterate(r, True), "gen") if is_generator(fv.node) else r]

    def assumed(self, it, name):
        if not it.ctx.branch(self.fs.exists(it, name)):
            raise it.exc(SystemExit, 1)
        o, n, cards = self.fs.included(it, name)
        if it.ctx.branch(o.t == 1):
            raise it.exc(SystemExit, 1)
        if it.ctx.branch(o.t == 2):
            if it.role == "s":
                from .contract import AnyReject
                raise it.exc(AnyReject)
            raise it.exc(IndexError, "list index out of range")
        if it.ctx.branch(n.t == 0):
            return HList([])
        vis = []
        for k, line, fname, num in cards:
            if it.ctx.branch(k.t < n.t):
                kw = dict(self.kw)
                kw.update(filename=fname, linenum=num)
                vis.append([k, it.call(self.card, [line], kw)])
        return sparse.mk_list(sparse.SD(vis, 0, n, True))

    def push(self, it, fv, vals):
        self.nodes.append(fv.node)
        c = cycle(fv)
        if c and not any(n.name in c for n, _, _ in self.stack):
            self.stack.append((fv.node, dict(vals), (it, dict(it.gover), dict(it.cover),
                                                     reachable(vals))))

    def pop(self, it, fv, r, done):
        self.nodes.pop()
        if self.stack and self.stack[-1][0] is fv.node:
            _, _, snap = self.stack.pop()
            if done:
                self.unchanged(snap)
                self.results.append(it.yielded if is_generator(fv.node) else r)

    def unchanged(self, snap):
        it, gover, cover, objs = snap
        for a, b in [(gover, it.gover), (cover, it.cover)]:
            if a.keys() != b.keys() or any(a[k] is not b[k] for k in a):
                raise Unsupported("recursive function that changes module state")
        for o, c in objs:
            n = flat(o)
            if len(n) != len(c) or any(x is not y for x, y in zip(n, c)):
                raise Unsupported("recursive function that changes its objects")


def flat(o):
    if isinstance(o, HObj):
        return [x for k in o.attrs for x in (k, o.attrs[k])]
    if isinstance(o, sparse.AbsL) or isinstance(o, sparse.AbsD):
        return [x for e in o.sd.vis for x in e]
    if isinstance(o, HList):
        return list(o.items)
    return [x for c in o.cells() for x in c]


def reachable(vals):
    out, todo, seen = [], list(vals.values()), set()
    while todo:
        o = todo.pop()
        if isinstance(o, tuple):
            todo.extend(o)
        if isinstance(o, (HObj, HList, HDict)) and id(o) not in seen:
            seen.add(id(o))
            out.append((o, flat(o)))
            todo.extend(flat(o))
    return out


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.t.eq(b.t)
    return type(a) is type(b) and isinstance(a, (int, str, bool)) and a == b
