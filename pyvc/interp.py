"""Symbolic interpreter for the Python of /repo and of the contracts.

It executes the *real* abstract syntax trees: classes and functions are the
native objects obtained by importing the modules from /repo, and each function's
body is located in its source file by its code object.  Nothing is rewritten by
hand.  What is abstracted: text produced by string formatting (an uninterpreted
function of its arguments), output through print (dropped after evaluating the
arguments), and native library calls on symbolic data (Unsupported).
"""
import ast
import builtins
import collections
import functools
import inspect
import operator
import sys
import types

import z3

from .values import *          # noqa: F401,F403
from .values import (N, KBITS, Unsupported, SInt, SBool, SStr, HObj, HList,
                     HDict, SymKey, RangeV, SliceV, FuncV, BoundV, BuiltinM,
                     SuperV, IterV, ViewV, ExcV, PyExc, SUnion)
from .explore import PathEnd, Budget, MergeAbort
from . import values, merge, sparse, maps, files
from .merge import UNBOUND

MAX_STEPS = 3_000_000
MAX_UNROLL = 300

_file_index = {}


def _index_file(path):
    if path in _file_index:
        return _file_index[path]
    idx = {}
    try:
        with open(path, "rb") as f:
            tree = ast.parse(f.read(), path)
    except (OSError, SyntaxError):
        _file_index[path] = None
        return None
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            line = node.decorator_list[0].lineno if node.decorator_list \
                else node.lineno
            node._module = tree
            idx.setdefault((line, node.name), []).append(node)
        elif isinstance(node, ast.Lambda):
            idx.setdefault((node.lineno, "<lambda>"), []).append(node)
    _file_index[path] = idx
    return idx


_node_cache = {}


def func_node(fn):
    """AST node of a native Python function, or None."""
    code = fn.__code__
    if code in _node_cache:
        return _node_cache[code]
    idx = _index_file(code.co_filename)
    node = None
    if idx:
        c = idx.get((code.co_firstlineno, code.co_name), [])
        if len(c) > 1 and code.co_name == "<lambda>":
            cols = {p[2] for p in code.co_positions() if p[2] is not None}
            c = [n for n in c if n.body.col_offset in cols] or c
        if len(c) == 1:
            node = c[0]
    _node_cache[code] = node
    return node


_scope_cache = {}


def scope_info(node):
    """(local names, global names, nonlocal names, is generator)."""
    if node in _scope_cache:
        return _scope_cache[node]
    loc, glo, nonl = set(), set(), set()
    gen = [False]
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                visit(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    visit(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                visit(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            visit(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    loc.add(w.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            loc.add(n.name)
        for ch in ast.iter_child_nodes(n):
            visit(ch)

    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for st in node.body:
            visit(st)
    res = (loc - glo - nonl, glo, nonl, gen[0])
    _scope_cache[node] = res
    return res


class Frame:
    __slots__ = ("vars", "glb", "parent", "func", "locs", "glo", "nonl",
                 "self0", "yields", "exc")

    def __init__(self, glb, parent, func, locs, glo, nonl):
        self.vars = {}
        self.glb = glb
        self.parent = parent
        self.func = func
        self.locs = locs
        self.glo = glo
        self.nonl = nonl
        self.self0 = None
        self.yields = None
        self.exc = None
        if values.TRACK[0]:
            values.HEAP.append(self)


_ctl = {}


def control(st):
    """Does a statement transfer control: 'raise', 'jump' (return, break, continue
    of an enclosing loop) or None."""
    r = _ctl.get(id(st))
    if r is not None:
        return r[1]
    res = None
    stack = [(st, False)]
    while stack:
        n, inloop = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Raise, ast.Try, ast.Yield, ast.YieldFrom)):
            res = "raise"
            break
        if isinstance(n, ast.Return) or \
                isinstance(n, (ast.Break, ast.Continue)) and not inloop:
            res = "jump"
        il = inloop or isinstance(n, (ast.For, ast.While))
        stack.extend((c, il) for c in ast.iter_child_nodes(n))
    _ctl[id(st)] = (st, res)
    return res


FORK_ = object()
_counted = {}


def counted(st):
    """(variable, 0 or 1, bound, body) of a loop that counts up by one, or None."""
    k = id(st)
    if k in _counted and _counted[k][0] is st:
        return _counted[k][1]
    r = None
    t, last = st.test, st.body[-1]
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
            isinstance(t.ops[0], (ast.Lt, ast.LtE)) and len(st.body) > 1:
        n = t.left.id
        inc = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and \
            isinstance(last.target, ast.Name) and last.target.id == n and \
            isinstance(last.value, ast.Constant) and last.value.value == 1
        if not inc and isinstance(last, ast.Assign) and len(last.targets) == 1 and \
                isinstance(last.targets[0], ast.Name) and last.targets[0].id == n and \
                isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add):
            a, b = last.value.left, last.value.right
            if isinstance(a, ast.Constant):
                a, b = b, a
            inc = isinstance(a, ast.Name) and a.id == n and isinstance(b, ast.Constant) and \
                b.value == 1
        body = st.body[:-1]
        if inc and not any(
                isinstance(x, (ast.Continue, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) or
                isinstance(x, ast.Name) and x.id == n and not isinstance(x.ctx, ast.Load)
                for s in body for x in ast.walk(s)):
            r = (n, 1 if isinstance(t.ops[0], ast.LtE) else 0, t.comparators[0], body)
    _counted[k] = (st, r)
    return r


_steps = {}


def step_of(st):
    """(variable, constant) when st adds a constant to a variable, or None."""
    if isinstance(st, ast.AugAssign) and isinstance(st.op, (ast.Add, ast.Sub)) and \
            isinstance(st.target, ast.Name) and isinstance(st.value, ast.Constant) and \
            type(st.value.value) is int:
        c = st.value.value
        return st.target.id, c if isinstance(st.op, ast.Add) else -c
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
            isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.BinOp) and \
            isinstance(st.value.op, ast.Add):
        a, b = st.value.left, st.value.right
        if isinstance(a, ast.Constant):
            a, b = b, a
        if isinstance(a, ast.Name) and a.id == st.targets[0].id and \
                isinstance(b, ast.Constant) and type(b.value) is int:
            return a.id, b.value
    return None


def appended(st):
    """Variables whose lists a loop appends to."""
    return {n.func.value.id for x in st.body for n in ast.walk(x)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
            n.func.attr in ("append", "extend") and isinstance(n.func.value, ast.Name)} | \
        {n.target.id for x in st.body for n in ast.walk(x)
         if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}


def counters(st):
    """Variables that every iteration of a for loop changes by a constant, once."""
    k = id(st)
    if k in _steps and _steps[k][0] is st:
        return _steps[k][1]
    out = {}
    for i, s in enumerate(st.body):
        c = step_of(s)
        if c is None:
            continue
        rest = [st.target] + st.body[:i] + st.body[i + 1:]
        if not any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) or
                   isinstance(x, ast.Name) and x.id == c[0] and not isinstance(x.ctx, ast.Load)
                   for s2 in rest for x in ast.walk(s2)) and \
                not any(isinstance(x, (ast.Continue, ast.Try)) for s2 in st.body[:i]
                        for x in ast.walk(s2)):
            out[c[0]] = c[1]
    _steps[k] = (st, out)
    return out


class _Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


BRK = object()
CONT = object()
MISSING = object()

_IMMUT = (int, str, bool, float, bytes, type(None), type(Ellipsis), complex,
          frozenset)


def is_concrete(v):
    if isinstance(v, _IMMUT):
        return True
    if isinstance(v, tuple):
        return all(is_concrete(x) for x in v)
    if isinstance(v, (Sym, HObj, HList, HDict, RangeV, SliceV, FuncV, BoundV,
                      BuiltinM, SuperV, IterV, ViewV, ExcV)):
        return False
    return not (type(v).__module__.startswith("pyvc.") and hasattr(v, "viter"))


def type_name(v):
    return py_type(v).__name__


def py_type(v):
    """The Python type a value stands for."""
    if isinstance(v, SInt):
        return int
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SStr):
        return str
    if isinstance(v, SFloat):
        return float
    if isinstance(v, HObj):
        return v.cls
    if isinstance(v, HList):
        return list
    if isinstance(v, HDict):
        return set if v.isset else dict
    if isinstance(v, RangeV):
        return range
    if isinstance(v, SliceV):
        return slice
    if isinstance(v, ExcV):
        return v.cls
    if isinstance(v, (FuncV,)):
        return types.FunctionType
    if isinstance(v, BoundV):
        return types.MethodType
    if isinstance(v, IterV):
        return types.GeneratorType
    return type(v)


def is_user_class(cls):
    """Defined in Python source that the interpreter may execute."""
    if not isinstance(cls, type):
        return False
    m = sys.modules.get(cls.__module__)
    f = getattr(m, "__file__", None)
    return bool(f) and any(f.startswith(p) for p in USER_ROOTS)


from . import REPO, VERIF

USER_ROOTS = [REPO + "/", VERIF + "/specs/", VERIF + "/contracts/"]


class Interp:
    def __init__(self, ctx, subst=None, hooks=None):
        self.ctx = ctx
        self.subst = subst or {}      # real class -> contract (spec) class
        self.rsub = {v: k for k, v in self.subst.items()}
        self.steps = 0
        self.depth = 0
        self.lifted = {}              # id(native) -> (native, heap value)
        self.gover = {}               # (id(globals), name) -> value
        self.cover = {}               # (class, name) -> value
        self.called = set()           # functions executed (for the report)
        self.absobjs = []
        self.assumed = set()          # contracts used instead of bodies
        self.ufs = {}
        self.world = None               # files.World
        self.carry = None               # maps.Info
        self.nloops = 0
        self.last_loop = None
        self.bcache = {}
        self.role = id(self)

    # ------------------------------------------------------------ utilities
    def exc(self, cls, *args):
        return PyExc(cls, args)

    def lift(self, v):
        """Native value -> interpreter value."""
        if isinstance(v, _IMMUT):
            return v
        t = type(v)
        if t is tuple:
            if all(isinstance(x, _IMMUT) for x in v):
                return v
            return tuple(self.lift(x) for x in v)
        if t in (list, dict, set, collections.OrderedDict,
                 collections.defaultdict) or is_user_class(t) and \
                not issubclass(t, (tuple, type, BaseException, int, str)):
            k = id(v)
            if k in self.lifted:
                return self.lifted[k][1]
            n = len(values.HEAP)
            h = self.lift_new(v, t, k)
            if sparse.ACTIVE:
                sparse.adopt(values.HEAP[n:])
            return h
        if isinstance(v, slice):
            return SliceV(self.lift(v.start), self.lift(v.stop), self.lift(v.step))
        if isinstance(v, range):
            return RangeV(v.start, v.stop, v.step)
        if v is sys.stdout or v is sys.stderr or \
                v is sys.__stdout__ or v is sys.__stderr__:
            return values.STREAM
        if isinstance(v, types.GeneratorType) or \
                (hasattr(v, "__next__") and not isinstance(v, type)):
            raise Unsupported("native iterator")
        return v

    def lift_new(self, v, t, k):
        if t is list:
            h = HList()
            self.lifted[k] = (v, h)
            h.items = [self.lift(x) for x in v]
        elif t is set:
            h = HDict(True)
            self.lifted[k] = (v, h)
            for x in v:
                h.d[x] = [self.lift(x), None]
        elif t in (dict, collections.OrderedDict):
            h = HDict()
            self.lifted[k] = (v, h)
            for a, b in v.items():
                if isinstance(a, _IMMUT) or is_concrete(a):
                    h.d[a] = [a, self.lift(b)]
                else:
                    raise Unsupported("dict key %r" % (a,))
        elif t is collections.defaultdict:
            raise Unsupported("defaultdict")
        else:
            h = HObj(t)
            self.lifted[k] = (v, h)
            d = getattr(v, "__dict__", None)
            if d is None:
                raise Unsupported("instance without __dict__")
            h.attrs = {n: self.lift(x) for n, x in d.items()}
        return h

    def unlift(self, v):
        """Interpreter value -> native value when fully concrete."""
        if isinstance(v, Sym):
            raise Unsupported("symbolic value passed to native code")
        if isinstance(v, _IMMUT):
            return v
        if isinstance(v, tuple):
            if type(v) is not tuple:
                return v
            return tuple(self.unlift(x) for x in v)
        if isinstance(v, HList):
            return [self.unlift(x) for x in v.items]
        if isinstance(v, HDict):
            if v.isset:
                return {self.unlift(c[0]) for c in v.cells()}
            return {self.unlift(c[0]): self.unlift(c[1]) for c in v.cells()}
        if isinstance(v, RangeV):
            return range(self.unlift(v.start), self.unlift(v.stop),
                         self.unlift(v.step))
        if isinstance(v, SliceV):
            return slice(self.unlift(v.start), self.unlift(v.stop),
                         self.unlift(v.step))
        if isinstance(v, (HObj, FuncV, BoundV, BuiltinM, SuperV, IterV, ViewV,
                          ExcV)):
            raise Unsupported("interpreted object passed to native code")
        return v

    def tick(self):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Budget("step budget")
        if self.steps % 20000 == 0:
            import time
            if time.time() > self.ctx.deadline:
                raise Budget("time budget of the task exhausted")

    def uf(self, name, args, rsort):
        sorts = [a.sort() for a in args]
        key = (name, tuple(s.sexpr() for s in sorts), rsort.sexpr())
        f = self.ufs.get(key)
        if f is None:
            f = z3.Function(name, *(sorts + [rsort])) if args else None
            self.ufs[key] = f
        if "uninterpreted " + name not in self.ctx.inexact:
            self.ctx.inexact.append("uninterpreted " + name)
        return f(*args) if args else z3.Const(name, rsort)

    # tighten the interval of an int term using the path condition
    def bounded(self, v, cands):
        """v with an interval within one of cands [(lo,hi)], proved, else v."""
        if isinstance(v, int):
            return v
        if not v.bv:
            return v
        for lo, hi in cands:
            if v.lo is not None and v.lo >= lo and v.hi <= hi:
                return v
            key = (v.t.get_id(), lo, hi, len(self.ctx.pc))
            ok = self.bcache.get(key)
            if ok is None:
                cond = z3.And(v.t >= z3.BitVecVal(lo, N), v.t <= z3.BitVecVal(hi, N))
                h = self.ctx._holds(cond)
                if h is False:
                    ok = False
                else:
                    r, _ = self.ctx._solve([z3.Not(cond)])
                    ok = r == "unsat"
                self.bcache[key] = ok
            if ok:
                return SInt(v.t, max(lo, v.lo), min(hi, v.hi))
        return v

    # ------------------------------------------------------------- unions
    def force(self, v):
        """The alternative of a union that holds on this path (forks)."""
        while isinstance(v, SUnion):
            for g, x in v.alts[:-1]:
                if self.ctx.branch(g):
                    v = x
                    break
            else:
                v = v.alts[-1][1]
        return v

    # ----------------------------------------------------------- truth, eq
    def truth(self, v):
        """Python truth value as a concrete bool (forks)."""
        return self.ctx.branch(self.truthc(v))

    def truthc(self, v):
        """Python truth value as bool or SBool (no fork when possible)."""
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return v
        if isinstance(v, SInt):
            return cmp_ints("!=", v, 0)
        if isinstance(v, SStr):
            return mk_bool(v.t != z3.StringVal(""))
        if isinstance(v, SUnion):
            return self.disj([(g, self.truthc(x)) for g, x in v.alts])
        if isinstance(v, (sparse.AbsL, sparse.AbsD, maps.AnyMap)):
            return v.vtruth(self)
        if isinstance(v, HList):
            return len(v.items) > 0
        if isinstance(v, HDict):
            return len(v) > 0
        if isinstance(v, HObj):
            m = self.find(v.cls, "__bool__")
            if m is not MISSING:
                return self.truthc(self.call(self.bind(v, m, v.cls), [], {}))
            m = self.find(v.cls, "__len__")
            if m is not MISSING:
                return self.truthc(self.call(self.bind(v, m, v.cls), [], {}))
            return True
        if isinstance(v, RangeV):
            return self.truthc(self.length(v))
        if isinstance(v, SFloat):
            raise Unsupported("truth of a symbolic float")
        if isinstance(v, ViewV):
            return len(v.d) > 0
        if isinstance(v, (FuncV, BoundV, BuiltinM, IterV, ExcV, SliceV, SuperV)):
            return True
        r = self.abs_truth(v)
        if r is not None:
            return r
        return bool(v)

    def abs_truth(self, v):
        f = getattr(v, "vtruth", None)
        return f(self) if f else None

    def disj(self, gs):
        """Or of (guard and condition)."""
        return mk_bool(z3.Or(*[z3.And(g, z3.BoolVal(c) if isinstance(c, bool) else c.t)
                               for g, c in gs]))

    def conj(self, conds):
        ts = []
        for c in conds:
            if c is False:
                return False
            if c is True:
                continue
            ts.append(c.t)
        if not ts:
            return True
        return mk_bool(z3.And(*ts)) if len(ts) > 1 else mk_bool(ts[0])

    def notc(self, c):
        if isinstance(c, bool):
            return not c
        return mk_bool(z3.Not(c.t))

    def eq(self, a, b):
        """Python == as bool or SBool."""
        if a is b and not isinstance(a, (HObj, SFloat, float)):
            return True
        if isinstance(a, SUnion) or isinstance(b, SUnion):
            if not isinstance(a, SUnion):
                a, b = b, a
            return self.disj([(g, self.eq(x, b)) for g, x in a.alts])
        f = getattr(a, "veq", None)
        if f:
            return f(self, b)
        f = getattr(b, "veq", None)
        if f:
            return f(self, a)
        if isinstance(a, LenInt) and isinstance(b, LenInt) and sparse.COMPARING[0]:
            return self.eq(a.src, b.src)
        if is_intlike(a) and is_intlike(b):
            if isinstance(a, SBool) and isinstance(b, SBool):
                return mk_bool(a.t == b.t)
            if isinstance(a, SBool) and isinstance(b, bool):
                return a if b else self.notc(a)
            if isinstance(b, SBool) and isinstance(a, bool):
                return b if a else self.notc(b)
            return cmp_ints("==", as_int(a), as_int(b))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return mk_bool(self.sterm(a) == self.sterm(b))
        if isinstance(a, (HList,)) and isinstance(b, HList):
            if isinstance(a, sparse.AbsL):
                return a.veq(self, b)
            if isinstance(b, sparse.AbsL):
                return b.veq(self, a)
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, HDict) and isinstance(b, HDict):
            if isinstance(a, (sparse.AbsD, maps.AnyMap)):
                return a.veq(self, b)
            if isinstance(b, (sparse.AbsD, maps.AnyMap)):
                return b.veq(self, a)
            if a.isset != b.isset or len(a) != len(b):
                return False
            out = []
            for k, v in a.cells():
                c = self.dict_find(b, k)
                if c is None:
                    return False
                if not a.isset:
                    out.append(self.eq(v, c[1]))
            return self.conj(out)
        if isinstance(a, HObj) or isinstance(b, HObj):
            x, y = (a, b) if isinstance(a, HObj) else (b, a)
            m = self.find(x.cls, "__eq__")
            if m is not MISSING and not isinstance(m, types.WrapperDescriptorType):
                r = self.call(self.bind(x, m, x.cls), [y], {})
                if r is NotImplemented:
                    return a is b
                return self.truthc(r)
            return a is b
        if isinstance(a, SFloat) or isinstance(b, SFloat):
            raise Unsupported("comparison of symbolic floats")
        if isinstance(a, float) or isinstance(b, float):
            x, y = (a, b) if isinstance(a, float) else (b, a)
            if is_intlike(y):
                if isinstance(y, (int, bool)):
                    return x == y
                if x != int(x):
                    return False
                return self.eq(y, int(x))
        if isinstance(a, Sym) or isinstance(b, Sym):
            return False        # different kinds
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return self.eq(self.make_list(a), self.make_list(b))
        if isinstance(a, ViewV) or isinstance(b, ViewV):
            if isinstance(a, ViewV) and isinstance(b, ViewV):
                x = self.make_list(a)
                y = self.make_list(b)
                if len(x.items) != len(y.items):
                    return False
                return self.conj([self.contains(y, e) for e in x.items])
            raise Unsupported("comparison of dict views")
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return self.conj([self.eq(a.start, b.start), self.eq(a.stop, b.stop),
                              self.eq(a.step, b.step)])
        if isinstance(a, (HList, HDict, ExcV, FuncV, BoundV, IterV)) or \
                isinstance(b, (HList, HDict, ExcV, FuncV, BoundV, IterV)):
            if isinstance(a, BoundV) and isinstance(b, BoundV):
                return a.self_ is b.self_ and a.func is b.func
            return a is b
        return bool(a == b)

    def sterm(self, v):
        if isinstance(v, SStr):
            return v.t
        for ch in v:
            if ord(ch) > 0xffff:
                raise Unsupported("astral character")
        return z3.StringVal(v)

    def is_(self, a, b):
        if isinstance(a, SUnion) or isinstance(b, SUnion):
            if a is b:
                return True
            if not isinstance(a, SUnion):
                a, b = b, a
            return self.disj([(g, self.is_(x, b)) for g, x in a.alts])
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return self.eq(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is b:
                return True
            if py_type(a) is not py_type(b):
                return False
            raise Unsupported("identity of symbolic values")
        if isinstance(a, type) and isinstance(b, type):
            return self.rsub.get(a, a) is self.rsub.get(b, b)
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        if type(a) is type(b) is tuple and not a and not b:
            return True
        return a is b

    # -------------------------------------------------------------- dicts
    def dict_find(self, d, k):
        """Cell of key k or None (forks on symbolic keys)."""
        k = self.force(k)
        self.check_hashable(k)
        if type(d) is sparse.AbsD:
            return sparse.dfind(self, d, k)
        if type(d) is maps.AnyMap:
            return maps.find(self, d, k)
        conc = is_concrete(k) or self.by_identity(k)
        if conc and d.nsym == 0:
            return d.d.get(k)
        if conc and k in d.d:
            return d.d[k]
        for hk, cell in d.d.items():
            if conc and not isinstance(hk, SymKey):
                continue
            c = self.eq(cell[0], k)
            if c is not False and self.ctx.branch(c):
                return cell
        return None

    def by_identity(self, k):
        if isinstance(k, HObj):
            m = self.find(k.cls, "__eq__")
            h = self.find(k.cls, "__hash__")
            if isinstance(m, types.WrapperDescriptorType) and \
                    isinstance(h, types.WrapperDescriptorType):
                return True
            raise Unsupported("object with __eq__ used as a key")
        return isinstance(k, (FuncV,))

    def check_hashable(self, k):
        if isinstance(k, (HList, HDict, SliceV)):
            raise self.exc(TypeError, "unhashable type")

    def dict_set(self, d, k, v):
        k = self.force(k)
        if type(d) is maps.AnyMap:
            maps.put(self, d, k, v)
            return
        cell = self.dict_find(d, k)
        if cell is not None:
            cell[1] = v
            return
        if type(d) is sparse.AbsD:
            sparse.dinsert(self, d, k, v)
            return
        if is_concrete(k) or self.by_identity(k):
            d.d[k] = [k, v]
        else:
            d.d[SymKey(k)] = [k, v]
            d.nsym += 1

    def dict_del(self, d, k):
        if type(d) is maps.AnyMap:
            return maps.delete(self, d, self.force(k))
        cell = self.dict_find(d, k)
        if cell is None:
            raise self.exc(KeyError, k)
        for hk, c in list(d.d.items()):
            if c is cell:
                del d.d[hk]
                if isinstance(hk, SymKey):
                    d.nsym -= 1
                return cell[1]

    # ------------------------------------------------------- class lookups
    def find(self, cls, name):
        """Class attribute through the MRO, raw (not bound)."""
        for c in cls.__mro__:
            if (c, name) in self.cover:
                return self.cover[(c, name)]
            if name in c.__dict__:
                return c.__dict__[name]
        return MISSING

    def bind(self, obj, m, cls):
        """Apply the descriptor protocol to a raw class attribute."""
        if isinstance(m, types.FunctionType) or isinstance(m, FuncV):
            return BoundV(obj, m) if obj is not None else m
        if isinstance(m, staticmethod):
            return self.lift(m.__func__)
        if isinstance(m, classmethod):
            return BoundV(cls, m.__func__)
        if isinstance(m, property):
            if obj is None:
                return m
            if m.fget is None:
                raise self.exc(AttributeError, "unreadable attribute")
            return self.call(m.fget, [obj], {})
        if isinstance(m, functools.cached_property):
            raise Unsupported("cached_property")
        if isinstance(m, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return BuiltinM(obj, m.__name__)
        if isinstance(m, types.MemberDescriptorType):
            raise self.exc(AttributeError, m.__name__)
        if hasattr(type(m), "__get__") and not isinstance(m, type) and \
                not isinstance(m, (types.BuiltinFunctionType,)):
            raise Unsupported("descriptor %r" % (m,))
        return self.lift(m)

    def getattr(self, obj, name):
        if isinstance(obj, SUnion):
            obj = self.force(obj)
        if isinstance(obj, HObj):
            cls = obj.cls
            if name == "__class__":
                return self.rsub.get(cls, cls)
            if name == "__dict__":
                raise Unsupported("__dict__")
            raw = self.find(cls, name)
            if isinstance(raw, functools.cached_property):
                if name in obj.attrs:
                    return obj.attrs[name]
                v = self.call(raw.func, [obj], {})
                obj.attrs[name] = v
                return v
            if raw is not MISSING and isinstance(raw, property):
                return self.bind(obj, raw, cls)
            if name in obj.attrs:
                v = obj.attrs[name]
                if isinstance(v, Lazy):
                    v = obj.attrs[name] = v.force(self)
                return v
            if raw is not MISSING:
                return self.bind(obj, raw, cls)
            ga = self.find(cls, "__getattr__")
            if ga is not MISSING:
                return self.call(BoundV(obj, ga), [name], {})
            if cls in self.rsub:
                raise Unsupported("abstraction of %s breached: attribute %s" %
                                  (cls.__name__, name))
            raise self.exc(AttributeError, "%s has no attribute %s" %
                           (cls.__name__, name))
        if isinstance(obj, SuperV):
            mro = obj.obj.cls.__mro__ if isinstance(obj.obj, HObj) else \
                obj.obj.__mro__
            i = mro.index(obj.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    o = obj.obj if isinstance(obj.obj, HObj) else None
                    return self.bind(o, c.__dict__[name],
                                     obj.obj.cls if o is not None else obj.obj)
            raise self.exc(AttributeError, name)
        if isinstance(obj, type):
            if name in ("__name__", "__qualname__", "__module__", "__doc__"):
                return getattr(self.rsub.get(obj, obj), name)
            if is_user_class(obj):
                obj = self.subst.get(obj, obj)
                raw = self.find(obj, name)
                if raw is MISSING:
                    raw = self.find(type(obj), name)
                    if raw is MISSING:
                        raise self.exc(AttributeError, name)
                return self.bind(None, raw, obj)
            try:
                return self.lift(getattr(obj, name))
            except AttributeError as e:
                raise self.exc(AttributeError, str(e))
        if isinstance(obj, SliceV):
            if name in ("start", "stop", "step"):
                return getattr(obj, name)
            if name == "indices":
                return BuiltinM(obj, name)
            raise self.exc(AttributeError, name)
        if isinstance(obj, RangeV):
            if name in ("start", "stop", "step"):
                return getattr(obj, name)
            return BuiltinM(obj, name)
        if isinstance(obj, ExcV):
            if name == "args":
                return tuple(obj.args)
            if name in obj.attrs:
                return obj.attrs[name]
            if name == "code" and issubclass(obj.cls, SystemExit):
                return obj.args[0] if obj.args else None
            raw = self.find(obj.cls, name)
            if isinstance(raw, types.FunctionType):
                return BoundV(obj, raw)
            raise Unsupported("exception attribute %s" % name)
        if isinstance(obj, (FuncV,)):
            if name == "__name__":
                return obj.name
            raise Unsupported("function attribute %s" % name)
        if isinstance(obj, BoundV):
            if name == "__self__":
                return obj.self_
            if name == "__name__":
                return getattr(obj.func, "name", None) or obj.func.__name__
            raise Unsupported("method attribute %s" % name)
        f = getattr(obj, "vgetattr", None)
        if f:
            return f(self, name)
        if isinstance(obj, (Sym, HList, HDict, IterV, ViewV)):
            t = py_type(obj)
            if hasattr(t, name) or isinstance(obj, ViewV):
                if isinstance(obj, SInt) and name in ("real", "numerator"):
                    return obj
                return BuiltinM(obj, name)
            raise self.exc(AttributeError, "%s object has no attribute %s" %
                           (t.__name__, name))
        if isinstance(obj, types.ModuleType):
            d = obj.__dict__
            if (id(d), name) in self.gover:
                return self.gover[(id(d), name)]
            try:
                return self.lift(getattr(obj, name))
            except AttributeError as e:
                raise self.exc(AttributeError, str(e))
        # concrete native value
        try:
            v = getattr(obj, name)
        except AttributeError as e:
            raise self.exc(AttributeError, str(e))
        if callable(v) and isinstance(obj, (str, bytes, int, float, tuple)) \
                and not isinstance(v, type):
            return BuiltinM(obj, name)
        return self.lift(v)

    def setattr(self, obj, name, val):
        if isinstance(obj, SUnion):
            obj = self.force(obj)
        if isinstance(obj, HObj):
            raw = self.find(obj.cls, name)
            if isinstance(raw, property):
                if raw.fset is None:
                    raise self.exc(AttributeError, "can't set attribute")
                self.call(raw.fset, [obj, val], {})
                return
            sa = self.find(obj.cls, "__setattr__")
            if isinstance(sa, types.FunctionType):
                self.call(BoundV(obj, sa), [name, val], {})
                return
            if raw is MISSING and self.no_dict(obj.cls):
                raise self.exc(AttributeError, name)
            if obj.cls in self.rsub and name not in obj.attrs and \
                    self.depth_owner() is not obj:
                raise Unsupported("abstraction of %s breached: store to %s" %
                                  (obj.cls.__name__, name))
            obj.attrs[name] = val
            return
        if isinstance(obj, type) and is_user_class(obj):
            self.cover[(obj, name)] = val
            return
        if isinstance(obj, types.ModuleType):
            self.gover[(id(obj.__dict__), name)] = val
            return
        if isinstance(obj, ExcV):
            obj.attrs[name] = val
            return
        raise self.exc(AttributeError, name)

    def depth_owner(self):
        return self.cur_self[-1] if self.cur_self else None

    cur_self = None

    def no_dict(self, cls):
        for c in cls.__mro__:
            if c is object:
                continue
            if "__slots__" not in c.__dict__ or "__dict__" in c.__dict__:
                return False
        return True

    # -------------------------------------------------------------- calling
    def call(self, f, args, kwargs):
        self.tick()
        if isinstance(f, SUnion):
            f = self.force(f)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            h = files.HOOKS.get(f)
            if h is not None:
                return h(self, args, kwargs)
            fv = self.native_func(f)
            if fv is None:
                return self.call_native(f, args, kwargs)
            return self.call_func(fv, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [self.lift(f.__self__)] + list(args),
                             kwargs)
        if isinstance(f, BuiltinM):
            from . import builtin
            return builtin.call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, [self.lift(a) for a in f.args] + list(args), kw)
        if isinstance(f, HObj):
            m = self.find(f.cls, "__call__")
            if m is MISSING:
                raise self.exc(TypeError, "not callable")
            return self.call(self.bind(f, m, f.cls), args, kwargs)
        v = getattr(f, "vcall", None)
        if v:
            return v(self, args, kwargs)
        from . import builtin
        return builtin.call_builtin(self, f, args, kwargs)

    def native_func(self, f):
        """FuncV of a native Python function whose source is interpreted."""
        fn = f.__code__.co_filename
        if not any(fn.startswith(p) for p in USER_ROOTS):
            return None
        k = ("fn", id(f))
        if k in self.lifted:
            return self.lifted[k][1]
        while hasattr(f, "__wrapped__") and False:
            f = f.__wrapped__
        node = func_node(f)
        if node is None:
            raise Unsupported("no source for %s" % f.__qualname__)
        cells = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
        defaults = [self.lift(d) for d in (f.__defaults__ or ())]
        kwd = {n: self.lift(d) for n, d in (f.__kwdefaults__ or {}).items()}
        fv = FuncV(node, f.__globals__, None, defaults, kwd, f.__name__, cells,
                   None)
        fv.owner = f.__qualname__
        self.lifted[k] = (f, fv)
        return fv

    def call_native(self, f, args, kwargs):
        try:
            a = [self.unlift(x) for x in args]
            kw = {k: self.unlift(v) for k, v in kwargs.items()}
        except Unsupported as e:
            raise Unsupported("native %s on interpreted values (%s)" %
                              (getattr(f, "__qualname__", f), e))
        try:
            return self.lift(f(*a, **kw))
        except Unsupported:
            raise
        except Exception as e:
            raise PyExc(type(e), tuple(x if isinstance(x, _IMMUT) else None
                                       for x in e.args))

    def bind_args(self, fv, args, kwargs):
        a = fv.node.args
        pos = a.posonlyargs + a.args
        vals = {}
        args = list(args)
        kwargs = dict(kwargs)
        n = len(pos)
        if len(args) > n and not a.vararg:
            raise self.exc(TypeError, "%s() takes %d positional arguments but "
                           "%d were given" % (fv.name, n, len(args)))
        for p, v in zip(pos, args):
            vals[p.arg] = v
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[n:])
        po = {p.arg for p in a.posonlyargs}
        for k in list(kwargs):
            if any(p.arg == k for p in a.args) or \
                    any(p.arg == k for p in a.kwonlyargs):
                if k in vals:
                    raise self.exc(TypeError, "%s() got multiple values for "
                                   "argument %s" % (fv.name, k))
                vals[k] = kwargs.pop(k)
        if kwargs:
            if not a.kwarg:
                raise self.exc(TypeError, "%s() got an unexpected keyword "
                               "argument %s" % (fv.name, list(kwargs)[0]))
        if a.kwarg:
            d = HDict()
            for k, v in kwargs.items():
                d.d[k] = [k, v]
            vals[a.kwarg.arg] = d
        nd = len(fv.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vals:
                j = i - (n - nd)
                if j < 0:
                    raise self.exc(TypeError, "%s() missing argument %s" %
                                   (fv.name, p.arg))
                vals[p.arg] = fv.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in vals:
                if p.arg not in fv.kwdefaults:
                    raise self.exc(TypeError, "missing keyword-only argument")
                vals[p.arg] = fv.kwdefaults[p.arg]
        del po
        return vals

    def call_func(self, fv, args, kwargs):
        vals = self.bind_args(fv, args, kwargs)
        if self.world is not None:
            return self.call_world(fv, args, vals)
        return self.run_func(fv, args, vals)

    def call_world(self, fv, args, vals):
        w = self.world
        r = w.enter(self, fv, vals)
        if r is not None:
            return r[0]
        w.push(self, fv, vals)
        r, done = None, False
        try:
            r = self.run_func(fv, args, vals)
            done = True
        finally:
            w.pop(self, fv, r, done)
        return r

    def run_func(self, fv, args, vals):
        locs, glo, nonl, isgen = scope_info(fv.node)
        fr = Frame(fv.glb, fv.parent, fv, locs, glo, nonl)
        fr.vars = vals
        fr.self0 = args[0] if args else None
        if fv.owner:
            self.called.add((fv.glb.get("__name__", "?"), fv.owner))
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("call depth")
        if self.cur_self is None:
            self.cur_self = []
        self.cur_self.append(fr.self0)
        try:
            if isinstance(fv.node, ast.Lambda):
                return self.ev(fv.node.body, fr)
            if isgen:
                fr.yields = HList()
                r = self.block(fv.node.body, fr)
                ys = self.yielded = fr.yields
                if isinstance(ys, sparse.AbsL):
                    return IterV(self.iterate(ys, True), "gen")
                return IterV(iter(ys.items), "gen")
            r = self.block(fv.node.body, fr, "func")
            return r.v if isinstance(r, _Ret) else None
        finally:
            self.depth -= 1
            self.cur_self.pop()

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            init = self.find(cls, "__init__")
            e = ExcV(cls, tuple(args))
            if isinstance(init, types.FunctionType):
                self.call(init, [e] + list(args), kwargs)
            return e
        if not is_user_class(cls) or issubclass(cls, (tuple, int, str)):
            from . import builtin
            return builtin.call_builtin(self, cls, args, kwargs)
        if issubclass(cls, (list, dict, set, type)):
            raise Unsupported("class derived from a built-in container")
        if cls in self.subst:
            cls = self.subst[cls]
            self.assumed.add(cls)
        for c in cls.__mro__:
            if "__new__" in c.__dict__ and c is not object:
                raise Unsupported("__new__")
        if getattr(cls, "__abstractmethods__", None):
            raise self.exc(TypeError, "abstract class")
        o = HObj(cls)
        if cls in self.rsub:
            self.absobjs.append(o)
        init = self.find(cls, "__init__")
        if isinstance(init, (types.FunctionType, FuncV)):
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            raise self.exc(TypeError, "%s() takes no arguments" % cls.__name__)
        return o

    # ------------------------------------------------------------ variables
    def poisoned(self, v, name):
        if self.carry is not None and v.node is not None and v.node not in self.carry.loops:
            self.carry.loops[v.node] = set()
            self.carry.learn()
        raise Unsupported("variable of an unobserved iteration: %s" % name)

    def load(self, name, fr):
        f = fr
        if name in f.locs or name in f.vars:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, SUnion) and any(x is UNBOUND for _, x in v.alts):
                    v = f.vars[name] = self.force(v)
                if isinstance(v, sparse.Poison):
                    self.poisoned(v, name)
                if v is not UNBOUND:
                    return v
            raise self.exc(UnboundLocalError, name)
        if name not in f.glo:
            p = f.parent
            while p is not None:
                if name in p.vars:
                    v = p.vars[name]
                    if isinstance(v, SUnion) and any(x is UNBOUND for _, x in v.alts):
                        raise Unsupported("variable bound on some paths only")
                    if isinstance(v, sparse.Poison):
                        self.poisoned(v, name)
                    return v
                p = p.parent
            q = f
            while q is not None:
                if q.func is not None and name in q.func.cells:
                    return self.lift(q.func.cells[name])
                q = q.parent
        k = (id(fr.glb), name)
        if k in self.gover:
            return self.gover[k]
        if name in fr.glb:
            return self.lift(fr.glb[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise self.exc(NameError, "name %s is not defined" % name)

    def store(self, name, v, fr):
        if name in fr.glo:
            self.gover[(id(fr.glb), name)] = v
            return
        if name in fr.nonl:
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
            raise Unsupported("nonlocal into native closure")
        fr.vars[name] = v

    def assign(self, tgt, v, fr):
        if isinstance(tgt, ast.Name):
            self.store(tgt.id, v, fr)
        elif isinstance(tgt, ast.Attribute):
            self.setattr(self.ev(tgt.value, fr), tgt.attr, v)
        elif isinstance(tgt, ast.Subscript):
            self.setitem(self.ev(tgt.value, fr), self.ev(tgt.slice, fr), v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            elts = tgt.elts
            if len(elts) > 1 and isinstance(elts[-1], ast.Starred) and hasattr(v, "part") \
                    and isinstance(getattr(v, "sep", None), str):
                n = len(elts) - 1
                if not self.ctx.branch(v.more(self, n - 1)):
                    raise self.exc(ValueError, "not enough values to unpack")
                for i, e in enumerate(elts[:-1]):
                    self.assign(e, v.elem(self, i), fr)
                self.assign(elts[-1].value, v.part(self, SliceV(n, None)), fr)
                return
            items = self.make_list(v).items
            st = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                after = len(elts) - i - 1
                if len(items) < len(elts) - 1:
                    raise self.exc(ValueError, "not enough values to unpack")
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x, fr)
                mid = items[i:len(items) - after]
                self.assign(elts[i].value, HList(list(mid)), fr)
                for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
            else:
                if len(items) != len(elts):
                    raise self.exc(ValueError, "unpack length mismatch")
                for e, x in zip(elts, list(items)):
                    self.assign(e, x, fr)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, fr)
        else:
            raise Unsupported("assignment target %s" % type(tgt).__name__)

    # ----------------------------------------------------------- statements
    def block(self, stmts, fr, kind=None):
        """kind: 'func' or 'loop' when stmts is the body of a function or loop."""
        for i, st in enumerate(stmts):
            if type(st) is ast.If and values.MERGING[0] and fr.yields is None:
                r, done = self.merged_if(st, stmts[i + 1:], fr, kind)
                if done:
                    return r
            else:
                r = self.stmt(st, fr)
            if r is not None:
                return r
        return None

    def merged_if(self, st, rest, fr, kind):
        """(result, whether the rest of the block has been executed too)."""
        self.tick()
        c = self.truthc(self.ev(st.test, fr))
        ctl = control(st)
        if not isinstance(c, bool) and ctl != "raise" and (ctl is None or kind):
            if ctl is None:
                a, b = st.body, st.orelse
            else:
                a, b = st.body + rest, st.orelse + rest

            def combine(cond, x, y):
                if ctl is None:
                    if x is None and y is None:
                        return None
                elif kind == "loop":
                    if x in (None, CONT) and y in (None, CONT):
                        return CONT
                    if x is BRK and y is BRK:
                        return BRK
                if kind == "func" and ctl is not None:
                    x = x if x is not None else _Ret(None)
                    y = y if y is not None else _Ret(None)
                if isinstance(x, _Ret) and isinstance(y, _Ret):
                    return _Ret(merge.ite(cond, x.v, y.v))
                raise MergeAbort("control flow")
            k = kind if ctl is not None else None
            m = merge.merge(self, c, lambda: self.block(a, fr, k),
                            lambda: self.block(b, fr, k), combine)
            if m is not merge.FORK:
                if m[0] == "merged":
                    return m[1], ctl is not None
                c = m[1]
        if self.ctx.branch(c):
            return self.block(st.body, fr), False
        return self.block(st.orelse, fr), False

    def merged_value(self, c, fa, fb):
        """fa() if c else fb()"""
        if not isinstance(c, bool) and values.MERGING[0]:
            m = merge.merge(self, c, fa, fb, merge.ite)
            if m is not merge.FORK:
                if m[0] == "merged":
                    return m[1]
                c = m[1]
        return fa() if self.ctx.branch(c) else fb()

    def stmt(self, st, fr):
        self.tick()
        return getattr(self, "s_" + type(st).__name__, self.s_unsupported)(st, fr)

    def s_unsupported(self, st, fr):
        raise Unsupported("statement %s" % type(st).__name__)

    def s_Expr(self, st, fr):
        v = st.value
        if isinstance(v, ast.Constant):
            return None
        self.ev(v, fr)
        return None

    def s_Pass(self, st, fr):
        return None

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)
        return None

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)
        return None

    def s_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
            self.store(t.id, self.aug(op, cur, self.ev(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(op, cur, self.ev(st.value, fr)))
        else:
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.aug(op, cur, self.ev(st.value, fr)))
        return None

    def aug(self, op, cur, v):
        if isinstance(cur, HList) and op == "Add" and self.ctx.sparse is not None:
            from . import builtin
            builtin.list_method(self, cur, "extend", [v], {})
            return cur
        if isinstance(cur, HList) and op == "Add":
            cur.items.extend(self.make_list(v).items)
            return cur
        f = getattr(cur, "vaug", None)
        if f:
            return f(self, op, v)
        if isinstance(cur, HDict) and op == "BitOr":
            if cur.isset:
                for x in self.make_list(v).items:
                    self.dict_set(cur, x, None)
            else:
                for k, x in v.cells():
                    self.dict_set(cur, k, x)
            return cur
        return self.binop(op, cur, v)

    def s_Return(self, st, fr):
        return _Ret(self.ev(st.value, fr) if st.value else None)

    def s_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            return self.block(st.body, fr)
        return self.block(st.orelse, fr)

    def s_While(self, st, fr):
        if self.ctx.sparse is not None:
            r = self.counted_while(st, fr)
            if r is not FORK_:
                return r
        n = 0
        while True:
            c = self.truthc(self.ev(st.test, fr))
            if not isinstance(c, bool):
                n += 1
                if n > MAX_UNROLL:
                    raise Unsupported("while loop with a symbolic bound")
            if not self.ctx.branch(c):
                return self.block(st.orelse, fr)
            r = self.block(st.body, fr, "loop")
            if r is BRK:
                return None
            if r is CONT or r is None:
                continue
            return r

    def counted_while(self, st, fr):
        """while i < e: ...; i += 1   as a loop over range(i, e), when that is large."""
        c = counted(st)
        if c is None:
            return FORK_
        name, plus, bound, body = c
        i = self.load(name, fr)
        e = self.force(self.ev(bound, fr))
        if not (is_intlike(i) and is_intlike(e)):
            return FORK_
        i, e = as_int(i), as_int(e)
        stop = add_ints(e, plus) if plus else e
        r = RangeV(i, stop, 1)
        if not sparse.is_large(self, r):
            return FORK_
        g = sparse.range_iter(self, r)
        for x in g:
            try:
                self.store(name, x, fr)
                r = self.block(body, fr, "loop")
                if r is None:
                    f = self.force(self.ev(bound, fr))
                    if not (f is e or f == e if isinstance(f, int) else
                            isinstance(f, SInt) and isinstance(e, SInt) and f.t.eq(e.t)):
                        raise Unsupported("loop bound that changes")
            except PyExc:
                g.quit()
                raise
            if r is None:
                continue
            g.quit()
            return None if r is BRK else r
        self.store(name, stop if self.ctx.branch(cmp_ints("<", i, stop)) else i, fr)
        return self.block(st.orelse, fr)

    def s_For(self, st, fr):
        src = self.ev(st.iter, fr)
        g = self.iterate(src, True)
        if self.carry is None or not isinstance(g, sparse.SIter):
            return self.for_loop(st, fr, g)
        if st in self.carry.loops:
            return maps.loop(self, st, fr, g)
        try:
            return self.for_loop(st, fr, g)
        except Unsupported as e:
            # an iteration depends on earlier ones
            self.carry.why[st] = str(e)
            self.carry.loops[st] = set()
            self.carry.learn()

    def for_loop(self, st, fr, g):
        if isinstance(g, sparse.SIter):
            g.base_of().node = st
            self.last_loop = st
        cs = []
        if isinstance(g, sparse.SIter) and g.unit:
            for n, c in counters(st).items():
                v = fr.vars.get(n)
                if is_intlike(v):
                    cs.append((n, as_int(v), c))
        for x in g:
            for n, v, c in cs:
                k = add_ints(g.t, g.lo, -1)
                fr.vars[n] = norm_int(add_ints(v, k, c)) if c in (1, -1) else sparse.POISON
            try:
                self.assign(st.target, x, fr)
                r = self.block(st.body, fr, "loop")
            except PyExc:
                if isinstance(g, sparse.SIter):
                    g.quit()
                raise
            if r is CONT or r is None:
                continue
            if isinstance(g, sparse.SIter):
                g.quit()
            if r is BRK:
                return None
            return r
        if isinstance(g, sparse.SIter) and self.ctx.sparse.lengths:
            for n in appended(st):
                v = fr.vars.get(n)
                if type(v) is HList and not v.items:
                    sparse.derive(self, g.base_of(), sparse.into(v))
        if cs and self.ctx.branch(cmp_ints("<", g.lo, g.hi)):
            for n, v, c in cs:
                k = add_ints(g.hi, g.lo, -1)
                fr.vars[n] = norm_int(add_ints(v, k, c)) if c in (1, -1) else sparse.POISON
        return self.block(st.orelse, fr)

    def s_Break(self, st, fr):
        return BRK

    def s_Continue(self, st, fr):
        return CONT

    def s_Raise(self, st, fr):
        if st.exc is None:
            if fr.exc is None:
                raise Unsupported("bare raise")
            raise fr.exc
        v = self.ev(st.exc, fr)
        if st.cause:
            self.ev(st.cause, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.instantiate(v, [], {})
        if not isinstance(v, ExcV):
            raise self.exc(TypeError, "exceptions must derive from BaseException")
        raise PyExc(v.cls, v.args, v)

    def s_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            args = [self.ev(st.msg, fr)] if st.msg else []
            raise self.exc(AssertionError, *args)
        return None

    def s_Try(self, st, fr):
        res = None
        try:
            try:
                res = self.block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e, self.ev(h.type, fr)):
                        old = fr.exc
                        fr.exc = e
                        if h.name:
                            self.store(h.name, e.val, fr)
                        try:
                            res = self.block(h.body, fr)
                        finally:
                            fr.exc = old
                            if h.name:
                                fr.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if res is None:
                    res = self.block(st.orelse, fr)
        except PyExc:
            if st.finalbody:
                r = self.block(st.finalbody, fr)
                if r is not None:
                    return r
            raise
        if st.finalbody:
            r = self.block(st.finalbody, fr)
            if r is not None:
                return r
        return res

    def exc_match(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        return issubclass(e.cls, t)

    def s_With(self, st, fr):
        return self._with(st, 0, fr)

    def _with(self, st, i, fr):
        if i == len(st.items):
            return self.block(st.body, fr)
        it = st.items[i]
        cm = self.ev(it.context_expr, fr)
        f = getattr(cm, "venter", None)
        if f:
            v = f(self)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            return self._with(st, i + 1, fr)
        if not isinstance(cm, HObj):
            raise Unsupported("with %s" % type_name(cm))
        v = self.call(self.getattr(cm, "__enter__"), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            r = self._with(st, i + 1, fr)
        except PyExc as e:
            s = self.call(self.getattr(cm, "__exit__"), [e.cls, e.val, None], {})
            if self.truth(s):
                return None
            raise
        self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
        return r

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr, st.name)
        for d in reversed(st.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        self.store(st.name, f, fr)
        return None

    def make_func(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {p.arg: self.ev(d, fr)
               for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return FuncV(node, fr.glb, fr, defaults, kwd, name)

    def s_Global(self, st, fr):
        return None

    s_Nonlocal = s_Global

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.vars:
                    raise self.exc(NameError, t.id)
                del fr.vars[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, HObj) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise self.exc(AttributeError, t.attr)
            else:
                raise Unsupported("del")
        return None

    def s_Import(self, st, fr):
        for al in st.names:
            m = __import__(al.name)
            if al.asname:
                m = sys.modules[al.name]
                self.store(al.asname, m, fr)
            else:
                self.store(al.name.split(".")[0], m, fr)
        return None

    def s_ImportFrom(self, st, fr):
        import importlib
        pkg = fr.glb.get("__package__") if st.level else None
        m = importlib.import_module("." * st.level + (st.module or ""), pkg)
        for al in st.names:
            self.store(al.asname or al.name, self.lift(getattr(m, al.name)), fr)
        return None

    def s_Match(self, st, fr):
        v = self.ev(st.subject, fr)
        for c in st.cases:
            if self.pmatch(c.pattern, v, fr) and \
                    (c.guard is None or self.truth(self.ev(c.guard, fr))):
                return self.block(c.body, fr)
        return None

    def pmatch(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.ctx.branch(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.ctx.branch(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pmatch(p.pattern, v, fr):
                return False
            if p.name:
                self.store(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pmatch(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, HList)):
                return False
            items = v.items if isinstance(v, HList) else v
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported("match star")
            if len(items) != len(p.patterns):
                return False
            return all(self.pmatch(q, x, fr) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            from . import builtin
            return self.ctx.branch(builtin.b_isinstance(
                self, [v, self.ev(p.cls, fr)], {}))
        raise Unsupported("pattern %s" % type(p).__name__)

    # ---------------------------------------------------------- expressions
    def ev(self, e, fr):
        self.steps += 1
        t = type(e)
        if t is ast.Name:
            return self.load(e.id, fr)
        if t is ast.Constant:
            return e.value
        if t is ast.Attribute:
            return self.getattr(self.ev(e.value, fr), e.attr)
        self.tick()
        m = getattr(self, "e_" + t.__name__, None)
        if m is None:
            raise Unsupported("expression %s" % t.__name__)
        return m(e, fr)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        if op == "Not":
            c = self.truthc(v)
            return self.notc(c)
        v = self.force(v)
        if is_intlike(v):
            x = as_int(v)
            if op == "USub":
                return neg_int(x)
            if op == "UAdd":
                return x
            if op == "Invert":
                return add_ints(-1, x, -1)
        if isinstance(v, float):
            return {"USub": operator.neg, "UAdd": operator.pos}[op](v)
        if isinstance(v, HObj):
            n = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
            m = self.find(v.cls, n)
            if m is not MISSING:
                return self.call(self.bind(v, m, v.cls), [], {})
        if isinstance(v, SFloat):
            raise Unsupported("symbolic float")
        raise self.exc(TypeError, "bad operand type for unary %s" % op)

    def e_BoolOp(self, e, fr):
        return self.boolop(e.values, isinstance(e.op, ast.And), fr)

    def boolop(self, es, isand, fr):
        v = self.ev(es[0], fr)
        if len(es) == 1:
            return v
        c = self.truthc(v)
        if values.MERGING[0] and not isinstance(c, bool):
            def rest():
                return self.boolop(es[1:], isand, fr)

            def here():
                # the value is known to be false (and) or true (or)
                return (not isand) if isinstance(v, (bool, SBool)) else v
            return self.merged_value(c, rest if isand else here, here if isand else rest)
        if self.ctx.branch(c) != isand:
            return v
        return self.boolop(es[1:], isand, fr)

    def e_IfExp(self, e, fr):
        return self.merged_value(self.truthc(self.ev(e.test, fr)),
                                 lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        n = len(e.ops)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            res = self.compare(type(op).__name__, left, right)
            if i == n - 1:
                return res
            if not self.truth(res):
                return res if not isinstance(res, SBool) else False
            left = right
        return res

    def compare(self, op, a, b):
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return self.notc(self.is_(a, b))
        if op == "Eq":
            return self.eq(a, b)
        if op == "NotEq":
            if isinstance(a, HObj):
                m = self.find(a.cls, "__ne__")
                if isinstance(m, types.FunctionType):
                    return self.call(BoundV(a, m), [b], {})
            return self.notc(self.eq(a, b))
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            return self.notc(self.contains(b, a))
        a, b = self.force(a), self.force(b)
        sym = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
        if is_intlike(a) and is_intlike(b):
            return cmp_ints(sym, as_int(a), as_int(b))
        f = getattr(a, "vcmp", None)
        if f:
            return f(self, sym, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sym]
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sym]
            x, y = self.sterm(a), self.sterm(b)
            return mk_bool({"<": lambda: x < y, "<=": lambda: x <= y,
                            ">": lambda: y < x, ">=": lambda: y <= x}[sym]())
        if isinstance(a, (float, SFloat)) and isinstance(b, (float, SFloat, int, SInt)) or \
                isinstance(b, (float, SFloat)) and isinstance(a, (int, SInt)):
            return self.float_cmp(sym, a, b)
        for x, y, nm in ((a, b, {"<": "__lt__", "<=": "__le__", ">": "__gt__",
                                 ">=": "__ge__"}[sym]),
                         (b, a, {"<": "__gt__", "<=": "__ge__", ">": "__lt__",
                                 ">=": "__le__"}[sym])):
            if isinstance(x, HObj):
                m = self.find(x.cls, nm)
                if isinstance(m, types.FunctionType):
                    r = self.call(BoundV(x, m), [y], {})
                    if r is not NotImplemented:
                        return r
        if isinstance(a, (tuple, HList)) and type(a) is type(b):
            xs = a if isinstance(a, tuple) else a.items
            ys = b if isinstance(b, tuple) else b.items
            for x, y in zip(xs, ys):
                if self.ctx.branch(self.eq(x, y)):
                    continue
                return self.compare(op, x, y)
            return {"<": len(xs) < len(ys), "<=": len(xs) <= len(ys),
                    ">": len(xs) > len(ys), ">=": len(xs) >= len(ys)}[sym]
        if isinstance(a, HDict) and isinstance(b, HDict) and a.isset and b.isset:
            if sym == "<=":
                return self.conj([self.contains(b, c[0]) for c in a.cells()])
            raise Unsupported("set comparison")
        raise self.exc(TypeError, "'%s' not supported between %s and %s" %
                       (sym, type_name(a), type_name(b)))

    def float_cmp(self, sym, a, b):
        if isinstance(a, SFloat) or isinstance(b, SFloat):
            raise Unsupported("symbolic float comparison")
        import math
        # concrete float against a symbolic int: exact through floor/ceil
        if isinstance(a, float):
            inv = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[sym]
            return self.float_cmp(inv, b, a)
        if math.isinf(b) or math.isnan(b):
            raise Unsupported("inf")
        if sym == "<":
            return cmp_ints("<", a, math.ceil(b))
        if sym == "<=":
            return cmp_ints("<=", a, math.floor(b))
        if sym == ">":
            return cmp_ints(">", a, math.floor(b))
        return cmp_ints(">=", a, math.ceil(b))

    def contains(self, c, x):
        c = self.force(c)
        if not isinstance(c, (HList, tuple)):
            x = self.force(x)
        f = getattr(c, "vcontains", None)
        if f:
            return f(self, x)
        if isinstance(c, HDict):
            if self.dict_find(c, x) is not None:
                return True
            return False
        if isinstance(c, ViewV):
            if c.kind == "keys":
                return self.contains(c.d, x)
            return self.contains(self.make_list(c), x)
        if isinstance(c, (tuple, HList)):
            items = c if isinstance(c, tuple) else c.items
            ts = []
            for y in items:
                q = True if (y is x) else self.eq(y, x)
                if q is True:
                    return True
                if q is False:
                    continue
                ts.append(q.t)
            return mk_bool(z3.Or(*ts)) if ts else False
        if isinstance(c, (str, SStr)):
            if not isinstance(x, (str, SStr)):
                raise self.exc(TypeError, "'in <string>' requires string")
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(c, str) and len(c) <= 8:
                # a part of a short text is one of finitely many texts
                parts = sorted({c[i:j] for i in range(len(c)) for j in range(i + 1, len(c) + 1)}
                               | {""})
                xt = self.sterm(x)
                return mk_bool(z3.Or(*[xt == z3.StringVal(p) for p in parts]))
            return mk_bool(z3.Contains(self.sterm(c), self.sterm(x)))
        if isinstance(c, RangeV):
            if is_intlike(x):
                x = as_int(x)
                if c.step == 1:
                    return self.conj([cmp_ints(">=", x, c.start),
                                      cmp_ints("<", x, c.stop)])
                if all(isinstance(z, int) for z in (x, c.start, c.stop, c.step)):
                    return x in range(c.start, c.stop, c.step)
                raise Unsupported("in range with a step")
            return False
        if isinstance(c, HObj):
            m = self.find(c.cls, "__contains__")
            if m is not MISSING:
                return self.truthc(self.call(self.bind(c, m, c.cls), [x], {}))
            for y in self.iterate(c):
                if self.ctx.branch(self.eq(y, x)):
                    return True
            return False
        if isinstance(c, IterV):
            for y in self.iterate(c):
                if self.ctx.branch(self.eq(y, x)):
                    return True
            return False
        if isinstance(c, (Sym, type(None), int)):
            raise self.exc(TypeError, "argument is not iterable")
        if is_concrete(x):
            try:
                return x in c
            except TypeError as e:
                raise self.exc(TypeError, str(e))
        if isinstance(c, (frozenset,)):
            return self.contains(tuple(c), x)
        raise Unsupported("in %s" % type_name(c))

    _OPS = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul,
            "Div": operator.truediv, "FloorDiv": operator.floordiv,
            "Mod": operator.mod, "Pow": operator.pow, "LShift": operator.lshift,
            "RShift": operator.rshift, "BitAnd": operator.and_,
            "BitOr": operator.or_, "BitXor": operator.xor,
            "MatMult": operator.matmul}
    _DUN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv",
            "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
            "LShift": "lshift", "RShift": "rshift", "BitAnd": "and",
            "BitOr": "or", "BitXor": "xor", "MatMult": "matmul"}

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if op == "LShift" and isinstance(b, int) and b > 100000 or \
                    op == "Pow" and isinstance(b, int) and b > 100000:
                raise Unsupported("huge number")
            try:
                return self._OPS[op](a, b)
            except Exception as e:
                raise PyExc(type(e), e.args)
        if is_intlike(a) and is_intlike(b):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) and \
                    op in ("BitAnd", "BitOr", "BitXor"):
                x = a.t if isinstance(a, SBool) else z3.BoolVal(a)
                y = b.t if isinstance(b, SBool) else z3.BoolVal(b)
                return mk_bool({"BitAnd": z3.And, "BitOr": z3.Or,
                                "BitXor": z3.Xor}[op](x, y))
            return self.int_binop(op, as_int(a), as_int(b))
        f = getattr(a, "vbinop", None)
        if f:
            return f(self, op, b, False)
        f = getattr(b, "vbinop", None)
        if f:
            return f(self, op, a, True)
        if op == "Mod" and isinstance(a, (str, SStr)):
            from . import builtin
            return builtin.percent(self, a, b)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and op == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return SStr(z3.simplify(z3.Concat(self.sterm(a), self.sterm(b))))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, HList) and isinstance(b, HList) and op == "Add":
            if isinstance(a, sparse.AbsL) or isinstance(b, sparse.AbsL):
                return sparse.concat(a, b)
            return HList(a.items + b.items)
        if op == "Mult":
            x, y = (a, b) if not is_intlike(a) else (b, a)
            if self.ctx.sparse is not None and isinstance(x, HList) and \
                    (isinstance(y, SInt) or y >= sparse.LARGE):
                return sparse.repeated(self, x, y)
            if isinstance(y, int):
                if isinstance(x, HList):
                    return HList(x.items * y)
                if isinstance(x, (str, tuple)):
                    return x * y
                if isinstance(x, SStr) and 0 <= y < 50:
                    if y == 0:
                        return ""
                    r = x
                    for _ in range(y - 1):
                        r = self.binop("Add", r, x)
                    return r
            elif isinstance(y, SInt) and isinstance(x, (HList, str, tuple, SStr)):
                raise Unsupported("sequence repeated a symbolic number of times")
        for x, y, nm in ((a, b, "__%s__" % self._DUN[op]),
                         (b, a, "__r%s__" % self._DUN[op])):
            if isinstance(x, HObj):
                m = self.find(x.cls, nm)
                if m is not MISSING:
                    r = self.call(self.bind(x, m, x.cls), [y], {})
                    if r is not NotImplemented:
                        return r
        if isinstance(a, HDict) and isinstance(b, HDict):
            if a.isset and b.isset:
                r = HDict(True)
                if op == "BitOr":
                    for c in a.cells() + b.cells():
                        self.dict_set(r, c[0], None)
                    return r
                if op == "BitAnd":
                    for c in a.cells():
                        if self.truth(self.contains(b, c[0])):
                            self.dict_set(r, c[0], None)
                    return r
                if op == "Sub":
                    for c in a.cells():
                        if not self.truth(self.contains(b, c[0])):
                            self.dict_set(r, c[0], None)
                    return r
            elif op == "BitOr" and not a.isset and not b.isset:
                r = HDict()
                for c in a.cells() + b.cells():
                    self.dict_set(r, c[0], c[1])
                return r
        if isinstance(a, (SFloat, float)) or isinstance(b, (SFloat, float)):
            raise Unsupported("symbolic float arithmetic")
        if isinstance(a, ViewV) or isinstance(b, ViewV):
            raise Unsupported("operation on dict views")
        raise self.exc(TypeError, "unsupported operand type(s) for %s: %s and %s"
                       % (op, type_name(a), type_name(b)))

    def int_binop(self, op, a, b):
        if op == "Add":
            return add_ints(a, b)
        if op == "Sub":
            return add_ints(a, b, -1)
        if op == "Mult":
            return self.mul(a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            sym = {"BitAnd": "&", "BitOr": "|", "BitXor": "^"}[op]
            return bitop(sym, a, b)
        if op in ("LShift", "RShift"):
            neg = cmp_ints("<", b, 0)
            if neg is not False:
                b0 = self.bounded(b, [(0, 64), (0, 128)])
                neg = cmp_ints("<", b0, 0)
                if neg is not False and self.ctx.branch(neg):
                    raise self.exc(ValueError, "negative shift count")
            b = self.bounded(b, [(0, 64), (0, 128), (0, (1 << 72))])
            if op == "LShift":
                try:
                    return shl_int(a, b)
                except Unsupported:
                    a = self.bounded(a, [(0, (1 << 64) - 1), (0, 1 << 64),
                                         (-(1 << 72), 1 << 72)])
                    return shl_int(a, b)
            return shr_int(a, b)
        if op == "Pow":
            return self.pow(a, b)
        if op in ("FloorDiv", "Mod"):
            if isinstance(b, int):
                if b == 0:
                    raise self.exc(ZeroDivisionError, "division by zero")
                if b > 0:
                    q, r = divmod_const(a, b)
                    return q if op == "FloorDiv" else r
                q, r = divmod_const(neg_int(a), -b)
                return q if op == "FloorDiv" else neg_int(r)
            b = self.bounded(b, [(1, 64), (1, 1 << 64), (1, 1 << 72)])
            x, y = to_bv(a), to_bv(b)
            if x is not None and y is not None and b.lo is not None and b.lo >= 1:
                al, ah = iv(a)
                if al >= 0:
                    if op == "FloorDiv":
                        return mk_sint(z3.UDiv(x, y), 0, ah)
                    return mk_sint(z3.URem(x, y), 0, min(ah, b.hi - 1))
            raise Unsupported("division by a symbolic int")
        if op == "Div":
            if isinstance(b, int) and b == 0:
                raise self.exc(ZeroDivisionError, "division by zero")
            raise Unsupported("true division of symbolic ints")
        raise Unsupported("int operator %s" % op)

    def mul(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and x > 0 and x & (x - 1) == 0 and not isinstance(y, int) and y.bv:
                try:
                    return shl_int(y, x.bit_length() - 1)
                except Unsupported:
                    pass
        return mul_ints(a, b)

    def pow(self, a, b):
        if isinstance(a, int) and a > 1 and a & (a - 1) == 0 and isinstance(b, SInt):
            k = a.bit_length() - 1
            neg = cmp_ints("<", b, 0)
            if neg is not False:
                b = self.bounded(b, [(0, 64), (0, 128)])
                neg = cmp_ints("<", b, 0)
            if neg is not False and self.ctx.branch(neg):
                raise Unsupported("negative exponent")
            if k == 1:
                b = self.bounded(b, [(0, 64), (0, 128), (0, 150)])
                return shl_int(1, b)
            return shl_int(1, mul_ints(k, b))
        if isinstance(b, int) and 0 <= b <= 4:
            r = 1
            for _ in range(b):
                r = mul_ints(r, a)
            return r
        raise Unsupported("power of symbolic ints")

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev(e.slice, fr))

    def e_Slice(self, e, fr):
        g = lambda x: self.ev(x, fr) if x is not None else None
        return SliceV(g(e.lower), g(e.upper), g(e.step))

    def as_index(self, k):
        """Python __index__ protocol."""
        k = self.force(k)
        if is_intlike(k):
            return as_int(k)
        if isinstance(k, HObj):
            m = self.find(k.cls, "__index__")
            if m is not MISSING:
                return self.call(self.bind(k, m, k.cls), [], {})
        raise self.exc(TypeError, "indices must be integers, not %s" % type_name(k))

    def seq_index(self, n, k):
        """Concrete position of index k in a sequence of length n (forks)."""
        k = self.as_index(k)
        if isinstance(k, int):
            if k < 0:
                k += n
            if k < 0 or k >= n:
                raise self.exc(IndexError, "index out of range")
            return k
        if self.ctx.branch(self.notc(self.conj([cmp_ints(">=", k, -n),
                                               cmp_ints("<", k, n)]))):
            raise self.exc(IndexError, "index out of range")
        lo, hi = (-n, 0) if self.ctx.branch(cmp_ints("<", k, 0)) else (0, n)
        return self.concrete(k, lo, hi) % n

    def concrete(self, k, lo, hi):
        """The value of the symbolic k, known to lie in [lo, hi) (forks)."""
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.ctx.branch(cmp_ints("<", k, mid)):
                hi = mid
            else:
                lo = mid
        self.ctx.learn(k.t, lo)
        return lo

    def slice_bounds(self, n, s):
        for x in (s.start, s.stop, s.step):
            if not (x is None or isinstance(x, int)):
                raise Unsupported("symbolic slice of a concrete sequence")
        return slice(s.start, s.stop, s.step).indices(n)

    def getitem(self, o, k):
        o, k = self.force(o), self.force(k)
        f = getattr(o, "vgetitem", None)
        if f:
            return f(self, k)
        if isinstance(o, HObj):
            m = self.find(o.cls, "__getitem__")
            if m is MISSING:
                raise self.exc(TypeError, "object is not subscriptable")
            return self.call(self.bind(o, m, o.cls), [k], {})
        if isinstance(o, HDict):
            if o.isset:
                raise self.exc(TypeError, "set is not subscriptable")
            c = self.dict_find(o, k)
            if c is None:
                raise self.exc(KeyError, k)
            return c[1]
        if isinstance(o, HList):
            if isinstance(k, SliceV):
                return HList([o.items[i] for i in
                              range(*self.slice_bounds(len(o.items), k))])
            return o.items[self.seq_index(len(o.items), k)]
        if isinstance(o, tuple):
            if isinstance(k, SliceV):
                return tuple(o[i] for i in range(*self.slice_bounds(len(o), k)))
            return o[self.seq_index(len(o), k)]
        if isinstance(o, (str, SStr)):
            from . import builtin
            return builtin.str_getitem(self, o, k)
        if isinstance(o, RangeV):
            l = self.make_list(o)
            return self.getitem(l, k)
        if isinstance(o, (Sym, type(None), int, float)):
            raise self.exc(TypeError, "%s object is not subscriptable" % type_name(o))
        if isinstance(o, type):
            return o          # generic alias such as list[int]
        try:
            return self.lift(o[self.unlift(k)])
        except Unsupported:
            raise
        except Exception as e:
            raise PyExc(type(e), e.args)

    def setitem(self, o, k, v):
        o, k = self.force(o), self.force(k)
        f = getattr(o, "vsetitem", None)
        if f:
            return f(self, k, v)
        if isinstance(o, HObj):
            m = self.find(o.cls, "__setitem__")
            if m is MISSING:
                raise self.exc(TypeError, "object does not support item assignment")
            self.call(self.bind(o, m, o.cls), [k, v], {})
        elif isinstance(o, HDict) and not o.isset:
            self.dict_set(o, k, v)
        elif isinstance(o, HList):
            if isinstance(k, SliceV):
                s = slice(*[self.unlift(x) for x in (k.start, k.stop, k.step)])
                try:
                    o.items[s] = self.make_list(v).items
                except ValueError as e:
                    raise PyExc(ValueError, e.args)
            else:
                o.items[self.seq_index(len(o.items), k)] = v
        else:
            raise self.exc(TypeError, "'%s' object does not support item "
                           "assignment" % type_name(o))

    def delitem(self, o, k):
        o, k = self.force(o), self.force(k)
        f = getattr(o, "vdelitem", None)
        if f:
            return f(self, k)
        if isinstance(o, HObj):
            m = self.find(o.cls, "__delitem__")
            if m is MISSING:
                raise self.exc(TypeError, "object does not support item deletion")
            self.call(self.bind(o, m, o.cls), [k], {})
        elif isinstance(o, HDict):
            self.dict_del(o, k)
        elif isinstance(o, HList):
            if isinstance(k, SliceV):
                del o.items[slice(*self.slice_bounds(len(o.items), k))]
            else:
                del o.items[self.seq_index(len(o.items), k)]
        else:
            raise self.exc(TypeError, "item deletion")

    # -------------------------------------------------------------- iteration
    def length(self, v):
        v = self.force(v)
        f = getattr(v, "vlen", None)
        if f:
            return f(self)
        if isinstance(v, HList):
            return len(v.items)
        if isinstance(v, (HDict,)):
            return len(v)
        if isinstance(v, ViewV):
            return self.length(v.d)
        if isinstance(v, (str, tuple, bytes, frozenset)):
            return len(v)
        if isinstance(v, SStr):
            t = z3.Length(v.t)
            return norm_int(SInt(z3.simplify(t), 0, None))
        if isinstance(v, RangeV):
            if all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
                return len(range(v.start, v.stop, v.step))
            if v.step == 1:
                d = add_ints(v.stop, v.start, -1)
                if self.ctx.branch(cmp_ints("<", d, 0)):
                    return 0
                return d
            raise Unsupported("length of a symbolic range with step")
        if isinstance(v, HObj):
            m = self.find(v.cls, "__len__")
            if m is MISSING:
                raise self.exc(TypeError, "object has no len()")
            return self.call(self.bind(v, m, v.cls), [], {})
        if isinstance(v, (Sym, int, float, type(None))):
            raise self.exc(TypeError, "object of type %s has no len()" % type_name(v))
        try:
            return len(v)
        except TypeError as e:
            raise PyExc(TypeError, e.args)

    def iterate(self, v, hidden=False):
        """Python generator over the elements of v; `hidden` when the caller copes
        with unobserved elements."""
        v = self.force(v)
        if self.ctx.sparse is not None:
            g = self.observed(v)
            if g is not None:
                if not hidden:
                    raise Unsupported("iteration over unobserved elements")
                return g
        if isinstance(v, HList):
            return self._it_list(v)
        if isinstance(v, tuple):
            return iter(v)
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, RangeV):
            return self._it_range(v)
        if isinstance(v, HDict):
            return self._it_dict(v)
        if isinstance(v, ViewV):
            return self._it_view(v)
        if isinstance(v, IterV):
            return v.gen
        f = getattr(v, "viter", None)
        if f:
            return f(self)
        if isinstance(v, HObj):
            m = self.find(v.cls, "__iter__")
            if m is not MISSING:
                it = self.call(self.bind(v, m, v.cls), [], {})
                if isinstance(it, HObj):
                    return self._it_next(it)
                return self.iterate(it, hidden)
            m = self.find(v.cls, "__getitem__")
            if m is not MISSING:
                return self._it_getitem(v)
            raise self.exc(TypeError, "object is not iterable")
        if isinstance(v, SStr):
            raise Unsupported("iteration over a symbolic string")
        if isinstance(v, (Sym, int, float, type(None))):
            raise self.exc(TypeError, "'%s' object is not iterable" % type_name(v))
        if isinstance(v, (frozenset, bytes)):
            return iter(v)
        if isinstance(v, type):
            raise Unsupported("iteration over a class")
        try:
            return iter([self.lift(x) for x in v])
        except TypeError as e:
            raise PyExc(TypeError, e.args)

    def observed(self, v):
        """Iterator over the observed elements of v, when some are not."""
        if isinstance(v, sparse.AbsL):
            return sparse.list_iter(self, v)
        if isinstance(v, sparse.AbsD):
            return sparse.dict_iter(self, v, "keys")
        if isinstance(v, ViewV) and isinstance(v.d, sparse.AbsD):
            return sparse.dict_iter(self, v.d, v.kind)
        if isinstance(v, ViewV) and isinstance(v.d, maps.AnyMap):
            return v.d.vobserved(self)
        if isinstance(v, RangeV) and sparse.is_large(self, v):
            return sparse.range_iter(self, v)
        if isinstance(v, IterV) and isinstance(v._gen, sparse.SIter):
            return v.gen
        f = getattr(v, "vobserved", None)
        if f:
            return f(self)
        return None

    def _it_list(self, v):
        i = 0
        while i < len(v.items):
            self.tick()
            yield v.items[i]
            i += 1

    def _it_range(self, v):
        a, b, s = v.start, v.stop, v.step
        if all(isinstance(x, int) for x in (a, b, s)):
            for i in range(a, b, s):
                self.tick()
                yield i
            return
        if not isinstance(s, int):
            raise Unsupported("range with a symbolic step")
        if s == 0:
            raise self.exc(ValueError, "range() arg 3 must not be zero")
        if s in (1, -1):
            d = add_ints(b, a, -1) if s == 1 else add_ints(a, b, -1)
            if isinstance(d, SInt) and d.lo is not None and d.hi is not None \
                    and d.hi <= MAX_UNROLL and d.lo >= -1024:
                if self.ctx.branch(cmp_ints("<=", d, 0)):
                    return
                n = self.concrete(d, 1, d.hi + 1)
                if isinstance(a, int) and isinstance(b, SInt):
                    self.ctx.learn(b.t, a + s * n)
                elif isinstance(b, int):
                    self.ctx.learn(a.t, b - s * n)
                    a = b - s * n
                for i in range(n):
                    self.tick()
                    yield a
                    a = add_ints(a, s)
                return
        n = 0
        while True:
            c = cmp_ints("<" if s > 0 else ">", a, b)
            if not self.ctx.branch(c):
                return
            n += 1
            if n > MAX_UNROLL:
                raise Unsupported("range loop with a large symbolic bound")
            yield a
            a = add_ints(a, s)

    def _it_dict(self, v):
        n = len(v)
        for c in v.cells():
            if len(v) != n:
                raise self.exc(RuntimeError, "dictionary changed size during iteration")
            self.tick()
            yield c[0]
        if len(v) != n:
            raise self.exc(RuntimeError, "dictionary changed size during iteration")

    def _it_view(self, v):
        d = v.d
        n = len(d)
        for c in d.cells():
            if len(d) != n:
                raise self.exc(RuntimeError, "dictionary changed size during iteration")
            self.tick()
            yield {"keys": c[0], "values": c[1], "items": (c[0], c[1])}[v.kind]

    def _it_next(self, it):
        n = 0
        while True:
            n += 1
            if n > 5000:
                raise Unsupported("long iteration")
            try:
                x = self.call(self.getattr(it, "__next__"), [], {})
            except PyExc as e:
                if issubclass(e.cls, StopIteration):
                    return
                raise
            yield x

    def _it_getitem(self, v):
        i = 0
        while i < 5000:
            try:
                x = self.getitem(v, i)
            except PyExc as e:
                if issubclass(e.cls, IndexError):
                    return
                raise
            yield x
            i += 1
        raise Unsupported("long iteration")

    def make_list(self, v):
        v = self.force(v)
        if isinstance(v, sparse.AbsL):
            return v.vlist(self)
        if isinstance(v, HList):
            return HList(list(v.items))
        f = getattr(v, "vlist", None)
        if f:
            return f(self)
        m = v.d if isinstance(v, ViewV) and v.kind == "keys" else v
        if isinstance(m, maps.AnyMap):
            return ViewV(maps.copy(m), "keys")      # the keys as they are now
        g = self.iterate(v, True)
        if isinstance(g, sparse.SIter):
            vals = []
            for x in g:
                vals.append((g.t, x))
            return sparse.collect(self, g, vals)
        return HList(list(g))

    # ---------------------------------------------------------------- other
    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        if f is super and not e.args:
            cls = fr.func.cells.get("__class__") if fr.func else None
            q = fr
            while cls is None and q is not None:
                cls = q.func.cells.get("__class__") if q.func else None
                q = q.parent
            if cls is None:
                raise Unsupported("super()")
            return SuperV(cls, fr.self0)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, HDict):
                    raise Unsupported("** of a non-dict")
                for c in d.cells():
                    if not isinstance(c[0], str):
                        raise Unsupported("** with symbolic keys")
                    kwargs[c[0]] = c[1]
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs)

    def e_List(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return HList(out)

    def e_Tuple(self, e, fr):
        return tuple(self.e_List(e, fr).items)

    def e_Set(self, e, fr):
        d = HDict(True)
        for x in e.elts:
            self.dict_set(d, self.ev(x, fr), None)
        return d

    def e_Dict(self, e, fr):
        d = HDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                s = self.ev(v, fr)
                if not isinstance(s, HDict):
                    raise Unsupported("** of a non-dict")
                for c in s.cells():
                    self.dict_set(d, c[0], c[1])
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def comp_frame(self, fr):
        f = Frame(fr.glb, fr, None, set(), set(), set())
        f.self0 = fr.self0
        return f

    def comp_run(self, gens, i, fr, emit, its=None):
        """its: collects the iterators over unobserved elements (None: refuse them)."""
        if i == len(gens):
            emit()
            return
        g = gens[i]
        src = self.iterate(self.ev(g.iter, fr if i else fr), its is not None)
        if its is not None and isinstance(src, sparse.SIter):
            its.append(src)
        for x in src:
            try:
                self.assign(g.target, x, fr)
                if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                    self.comp_run(gens, i + 1, fr, emit, its)
            except PyExc:
                if isinstance(src, sparse.SIter):
                    src.quit()
                raise

    def e_ListComp(self, e, fr):
        f = self.comp_frame(fr)
        out, its, at = [], [], []

        def emit():
            out.append(self.ev(e.elt, f))
            at.append(its[0].t if its else None)
        self.comp_run(e.generators, 0, f, emit, its)
        if its:
            ok = len(e.generators) == 1 and not e.generators[0].ifs
            return sparse.collect(self, its[0], list(zip(at, out)), ok, len(e.generators) > 1)
        return HList(out)

    def e_GeneratorExp(self, e, fr):
        r = self.e_ListComp(e, fr)
        if isinstance(r, sparse.AbsL):
            return IterV(self.iterate(r, True), "gen")
        if isinstance(r, HList):
            return IterV(iter(r.items), "gen")
        return r

    def e_SetComp(self, e, fr):
        f = self.comp_frame(fr)
        d = HDict(True)
        self.comp_run(e.generators, 0, f,
                      lambda: self.dict_set(d, self.ev(e.elt, f), None))
        return d

    def e_DictComp(self, e, fr):
        f = self.comp_frame(fr)
        d = HDict()

        def emit():
            k = self.ev(e.key, f)
            self.dict_set(d, k, self.ev(e.value, f))
        self.comp_run(e.generators, 0, f, emit, [])
        return d

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.func is None and f.parent is not None:
            f = f.parent
        self.store(e.target.id, v, f)
        return v

    def e_JoinedStr(self, e, fr):
        from . import builtin
        return builtin.joined(self, e, fr)

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value else None
        f = fr
        while f.yields is None and f.parent is not None:
            f = f.parent
        if f.yields is None:
            raise Unsupported("yield")
        from . import builtin
        builtin.list_method(self, f.yields, "append", [v], {})
        if self.ctx.sparse is None and len(f.yields.items) > 20000:
            raise Unsupported("long generator")
        return None

    def e_YieldFrom(self, e, fr):
        from . import builtin
        builtin.list_method(self, fr.yields, "extend", [self.ev(e.value, fr)], {})
        return None
