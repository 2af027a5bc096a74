"""Built-in functions and methods on interpreted values."""
import ast
import builtins
import os
import string
import sys
import types

import z3

from .values import *          # noqa: F401,F403
from .values import (N, Unsupported, SInt, SBool, SStr, SFloat, HObj, HList,
                     HDict, RangeV, SliceV, FuncV, BoundV, BuiltinM, SuperV,
                     IterV, ViewV, ExcV, PyExc)
from . import interp as I
from . import strings, sparse, files, maps

SS = z3.StringSort()
IS = z3.IntSort()


def deref(x):
    return x


# ------------------------------------------------------------- formatting
def _fmt_arg_term(it, v):
    """z3 term standing for a value inside formatted text, or None."""
    if isinstance(v, SInt):
        return to_mint(v)
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, SStr):
        return v.t
    return None


def opaque_text(it, tag, vals):
    """Text that depends on symbolic values: an uninterpreted function."""
    parts = []
    terms = []
    for v in vals:
        t = _fmt_arg_term(it, v)
        if t is None:
            if isinstance(v, I._IMMUT) or isinstance(v, tuple) and I.is_concrete(v):
                parts.append(repr(v))
                continue
            # object, container: text unknown (fresh)
            n = it.ctx.name("text")
            it.ctx.inexact.append("opaque text")
            return SStr(z3.Const(n, SS))
        parts.append("$")
        terms.append(t)
    name = "fmt:%s:%s" % (tag, ",".join(parts))
    if not terms:
        return SStr(it.uf(name, [], SS))
    return SStr(it.uf(name, terms, SS))


def text_of(it, v):
    """str(v)"""
    if isinstance(v, str):
        return v
    if isinstance(v, SStr):
        return v
    if isinstance(v, HObj):
        for nm in ("__str__", "__repr__"):
            m = it.find(v.cls, nm)
            if isinstance(m, types.FunctionType):
                r = it.call(BoundV(v, m), [], {})
                if not isinstance(r, (str, SStr, sparse.AbsText)):
                    raise it.exc(TypeError, "__str__ returned non-string")
                return r
        return opaque_text(it, "obj", [v])
    if isinstance(v, ExcV):
        m = it.find(v.cls, "__str__")
        if isinstance(m, types.FunctionType):
            return it.call(BoundV(v, m), [], {})
        if len(v.args) == 0:
            return ""
        if len(v.args) == 1 and not issubclass(v.cls, KeyError):
            return text_of(it, v.args[0])
        return opaque_text(it, "exc", [v])
    if isinstance(v, Sym):
        return opaque_text(it, "str", [v])
    if isinstance(v, (HList, HDict, tuple)) and _deep_concrete(v):
        return str(it.unlift(v))
    if isinstance(v, (HList, HDict, tuple)):
        _touch_reprs(it, v)
        return opaque_text(it, "str", [v])
    if I.is_concrete(v):
        try:
            return str(v)
        except Exception as e:
            raise PyExc(type(e), e.args)
    return opaque_text(it, "str", [v])


def _touch_reprs(it, v):
    """repr() of a container calls the elements' __repr__ (may raise)."""
    if isinstance(v, maps.AnyMap):
        return
    if isinstance(v, HDict):
        for c in v.cells():
            _touch_reprs(it, c[0])
            _touch_reprs(it, c[1])
    elif isinstance(v, HList):
        for x in v.items:
            _touch_reprs(it, x)
    elif isinstance(v, tuple):
        for x in v:
            _touch_reprs(it, x)
    elif isinstance(v, HObj):
        m = it.find(v.cls, "__repr__")
        if isinstance(m, types.FunctionType):
            it.call(BoundV(v, m), [], {})


def _deep_concrete(v):
    if isinstance(v, HList):
        return type(v) is HList and all(_deep_concrete(x) for x in v.items)
    if isinstance(v, maps.AnyMap):
        return False
    if isinstance(v, HDict):
        return all(_deep_concrete(c[0]) and _deep_concrete(c[1]) for c in v.cells())
    if isinstance(v, tuple):
        return all(_deep_concrete(x) for x in v)
    if isinstance(v, (RangeV, SliceV)):
        return all(_deep_concrete(x) for x in (v.start, v.stop, v.step))
    return I.is_concrete(v)


def _parse_percent(fmt):
    """[(text, conv or None)] of a %-format string."""
    out = []
    i = 0
    lit = ""
    while i < len(fmt):
        ch = fmt[i]
        if ch != "%":
            lit += ch
            i += 1
            continue
        j = i + 1
        if j < len(fmt) and fmt[j] == "%":
            lit += "%"
            i = j + 1
            continue
        if j < len(fmt) and fmt[j] == "(":
            raise Unsupported("mapping format")
        while j < len(fmt) and fmt[j] in "#0- +.123456789":
            j += 1
        if j < len(fmt) and fmt[j] == "*":
            raise Unsupported("* in format")
        if j >= len(fmt):
            raise PyExc(ValueError, ("incomplete format",))
        out.append((lit, fmt[i:j + 1]))
        lit = ""
        i = j + 1
    out.append((lit, None))
    return out


def percent(it, fmt, args):
    if not isinstance(fmt, str):
        return opaque_text(it, "%", [fmt])
    vals = args if isinstance(args, tuple) else (args,)
    specs = _parse_percent(fmt)
    n = sum(1 for _, c in specs if c)
    if len(vals) < n:
        raise it.exc(TypeError, "not enough arguments for format string")
    if len(vals) > n and (isinstance(args, tuple) or
                          not isinstance(args, (HDict,))):
        raise it.exc(TypeError, "not all arguments converted during string formatting")
    out = ""
    k = 0
    for lit, c in specs:
        out = it.binop("Add", out, lit)
        if c is None:
            continue
        v = vals[k]
        k += 1
        conv = c[-1]
        if conv in "diuxXo":
            if isinstance(v, HObj):
                names = ("__index__", "__int__") if conv in "diu" else ("__index__",)
                for nm in names:
                    m = it.find(v.cls, nm)
                    if m is not I.MISSING:
                        v = it.call(it.bind(v, m, v.cls), [], {})
                        break
            if isinstance(v, float) and conv in "xXo":
                raise it.exc(TypeError, "%%%s format: an integer is required" % conv)
            if not (is_intlike(v) or isinstance(v, (float, SFloat))):
                raise it.exc(TypeError, "%%%s format: a real number is required, "
                             "not %s" % (conv, I.type_name(v)))
        elif conv in "eEfFgG":
            if not (is_intlike(v) or isinstance(v, (float, SFloat))):
                raise it.exc(TypeError, "must be real number")
        elif conv in "sra":
            if c == "%s":
                out = it.binop("Add", out, text_of(it, v))
                continue
            v = repr_of(it, v) if conv != "s" else text_of(it, v)
            if conv == "r" and c == "%r":
                out = it.binop("Add", out, v)
                continue
        elif conv == "c":
            pass
        else:
            raise it.exc(ValueError, "unsupported format character")
        if I.is_concrete(v):
            if conv == "r":
                c = c[:-1] + "s"
            try:
                out = it.binop("Add", out, c % v)
            except Exception as e:
                raise PyExc(type(e), e.args)
        else:
            if isinstance(v, SBool):
                v = as_int(v)
            out = it.binop("Add", out, opaque_text(it, c, [v]))
    return out


def repr_of(it, v):
    if isinstance(v, (HObj,)):
        m = it.find(v.cls, "__repr__")
        if isinstance(m, types.FunctionType):
            r = it.call(BoundV(v, m), [], {})
            if not isinstance(r, (str, SStr)):
                raise it.exc(TypeError, "__repr__ returned non-string")
            return r
        return opaque_text(it, "obj", [v])
    if _deep_concrete(v):
        return repr(it.unlift(v))
    if isinstance(v, (HList, HDict, tuple)):
        _touch_reprs(it, v)
    return opaque_text(it, "repr", [v])


def format_one(it, v, spec, conv=None):
    if conv == "r":
        v = repr_of(it, v)
    elif conv == "s":
        v = text_of(it, v)
    if not isinstance(spec, str):
        return opaque_text(it, "format", [v, spec])
    if spec == "":
        return text_of(it, v)
    if I.is_concrete(v):
        try:
            return format(v, spec)
        except Exception as e:
            raise PyExc(type(e), e.args)
    if isinstance(v, HObj):
        m = it.find(v.cls, "__format__")
        if isinstance(m, types.FunctionType):
            return it.call(BoundV(v, m), [spec], {})
        raise it.exc(TypeError, "unsupported format string passed to "
                     "object.__format__")
    t = spec[-1] if spec else ""
    if isinstance(v, (SInt, SBool)) and t in "s":
        raise it.exc(ValueError, "Unknown format code")
    if isinstance(v, SStr) and t in "bcdoxXeEfFgGn%":
        raise it.exc(ValueError, "Unknown format code")
    if v is None or isinstance(v, (HList, HDict, tuple)):
        raise it.exc(TypeError, "unsupported format string")
    if isinstance(v, (SInt,)) and not spec.replace("#", "").replace("0", "").replace(
            "b", "").replace("o", "").replace("x", "").replace("d", "").isalpha():
        pass
    return opaque_text(it, "format:" + spec, [v])


def joined(it, e, fr):
    out = ""
    for p in e.values:
        if isinstance(p, ast.Constant):
            out = it.binop("Add", out, p.value)
        else:
            v = it.ev(p.value, fr)
            spec = joined(it, p.format_spec, fr) if p.format_spec else ""
            conv = {-1: None, 115: "s", 114: "r", 97: "r"}[p.conversion]
            out = it.binop("Add", out, format_one(it, v, spec, conv))
    return out


def str_format(it, fmt, args, kwargs):
    if not isinstance(fmt, str):
        return opaque_text(it, "strformat", [fmt])
    out = ""
    auto = 0
    try:
        parts = list(string.Formatter().parse(fmt))
    except ValueError as e:
        raise PyExc(ValueError, e.args)
    for lit, field, spec, conv in parts:
        out = it.binop("Add", out, lit)
        if field is None:
            continue
        name = field
        rest = ""
        for i, ch in enumerate(field):
            if ch in ".[":
                name, rest = field[:i], field[i:]
                break
        if name == "":
            idx = auto
            auto += 1
            if idx >= len(args):
                raise it.exc(IndexError, "Replacement index out of range")
            v = args[idx]
        elif name.isdigit():
            if int(name) >= len(args):
                raise it.exc(IndexError, "Replacement index out of range")
            v = args[int(name)]
        else:
            if name not in kwargs:
                raise it.exc(KeyError, name)
            v = kwargs[name]
        if rest:
            if rest.startswith(".") and rest[1:].isidentifier():
                v = it.getattr(v, rest[1:])
            else:
                raise Unsupported("format field %s" % field)
        if "{" in spec:
            spec2 = str_format(it, spec, args[auto:] if "{}" in spec else args, kwargs)
            spec = spec2
        out = it.binop("Add", out, format_one(it, v, spec, conv))
    return out


# ---------------------------------------------------------------- strings
def _mint(it, v):
    return to_mint(v)


def str_getitem(it, s, k):
    if isinstance(k, SliceV):
        a, b, st = k.start, k.stop, k.step
        for x in (a, b, st):
            if x is not None and not is_intlike(x):
                raise it.exc(TypeError, "slice indices must be integers or None")
        if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (a, b, st)):
            try:
                return s[slice(a, b, st)]
            except ValueError as e:
                raise PyExc(ValueError, e.args)
        if st not in (None, 1):
            raise Unsupported("slice step on a symbolic string")
        t = it.sterm(s)
        n = z3.Length(t)

        def norm(x, default):
            if x is None:
                return default
            x = as_int(x)
            if isinstance(x, int):
                return z3.IntVal(x) if x >= 0 else _max0(n + x)
            if it.ctx.branch(cmp_ints("<", x, 0)):
                return _max0(n + to_mint(x))
            return to_mint(x)
        lo = norm(a, z3.IntVal(0))
        hi = norm(b, n)
        ln = z3.simplify(hi - lo)
        if z3.is_int_value(ln) and ln.as_long() <= 0:
            return ""
        # SubString yields "" when lo >= n or the length is not positive
        return SStr(substr(t, lo, hi - lo))
    k = it.as_index(k)
    if isinstance(s, str) and isinstance(k, int):
        try:
            return s[k]
        except IndexError as e:
            raise PyExc(IndexError, e.args)
    t = it.sterm(s)
    n = z3.Length(t)
    kk = to_mint(k)
    if it.ctx.branch(z3.Or(kk >= n, kk < -n)):
        raise it.exc(IndexError, "string index out of range")
    neg = cmp_ints("<", k, 0)
    if it.ctx.branch(neg):
        kk = n + kk
    return SStr(substr(t, kk, z3.IntVal(1)))


def _max0(t):
    return z3.If(t < 0, z3.IntVal(0), t)


def substr(t, lo, n):
    """z3 term of the n characters of t from position lo (lo >= 0)."""
    t, lo, n = z3.simplify(t), z3.simplify(lo), z3.simplify(n)
    if z3.is_int_value(n) and n.as_long() <= 0:
        return z3.StringVal("")
    k = t.decl().kind()
    if k == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(lo) and z3.is_int_value(t.arg(1)):
        s0, a, m = t.arg(0), t.arg(1), t.arg(2)
        rest = z3.simplify(m - lo)
        if z3.is_int_value(n) and z3.is_int_value(rest):
            # a slice of a slice
            return substr(s0, a + lo, z3.IntVal(min(n.as_long(), rest.as_long())))
        if n.eq(z3.simplify(z3.Length(t) - lo)):
            return substr(s0, a + lo, rest)
        if z3.is_int_value(n) and rest.eq(z3.simplify(z3.Length(s0) - (a + lo))):
            return substr(s0, a + lo, n)
    return z3.simplify(z3.SubString(t, lo, n))


def _starts(t, p):
    """t.startswith(p)"""
    if z3.is_string_value(p):
        k = len(strings.text(p))
        return substr(t, z3.IntVal(0), z3.IntVal(k)) == p if k else z3.BoolVal(True)
    return z3.PrefixOf(p, t)


def _ends(t, p):
    if z3.is_string_value(p):
        k = len(strings.text(p))
        return substr(t, z3.Length(t) - k, z3.IntVal(k)) == p if k else z3.BoolVal(True)
    return z3.SuffixOf(p, t)


def _head(t, sep):
    """The text before the first occurrence of sep (all of it without one)."""
    return z3.If(z3.Contains(t, sep), substr(t, z3.IntVal(0), z3.IndexOf(t, sep, z3.IntVal(0))),
                 t)


def _tail(t, sep):
    """The text after the first occurrence of sep."""
    i = z3.IndexOf(t, sep, z3.IntVal(0)) + z3.Length(sep)
    return substr(t, i, z3.Length(t) - i)


def _rparts(t, sep):
    """The texts before and after the last occurrence of sep."""
    i = z3.LastIndexOf(t, sep)
    j = i + z3.Length(sep)
    return substr(t, z3.IntVal(0), i), substr(t, j, z3.Length(t) - j)


class SplitV:
    """Result of str.split on a symbolic string: a list of unknown length with
    uninterpreted elements."""

    def __init__(self, s, sep):
        self.s = s
        self.sep = sep

    def elem(self, it, k):
        st = it.sterm(self.s)
        if self.sep is None:
            return SStr(it.uf("split_ws", [st, z3.IntVal(k)], SS))
        sep = it.sterm(self.sep)
        for _ in range(k):           # the caller knows that there are more than k parts
            st = _tail(st, sep)
        return SStr(z3.simplify(_head(st, sep)))

    def more(self, it, k):
        """More than k parts?"""
        if self.sep is None:
            return cmp_ints(">", self.count(it), k)
        st, sep = it.sterm(self.s), it.sterm(self.sep)
        cs = []
        for _ in range(k):
            cs.append(z3.Contains(st, sep))
            st = _tail(st, sep)
        return mk_bool(z3.And(*cs)) if cs else True

    def count(self, it):
        st = it.sterm(self.s)
        if self.sep is None:
            t = it.uf("nsplit_ws", [st], IS)
            it.ctx.assume(t >= 0, check=False)
            return SInt(t, 0, None)
        return add_ints(str_count(it, st, it.sterm(self.sep)), 1)

    def vgetitem(self, it, k):
        if isinstance(k, SliceV):
            return self.part(it, k)
        k = it.as_index(k)
        if not isinstance(k, int):
            raise Unsupported("symbolic index into a split")
        if k < 0:
            if not it.ctx.branch(self.more(it, -k - 1)):
                raise it.exc(IndexError, "list index out of range")
            st = it.sterm(self.s)
            return SStr(it.uf("split_back", [st, it.sterm(self.sep if self.sep is not None else ""), z3.IntVal(k)], SS))
        if not it.ctx.branch(self.more(it, k)):
            raise it.exc(IndexError, "list index out of range")
        return self.elem(it, k)

    def part(self, it, k):
        a, b = k.start if k.start is not None else 0, k.stop
        if not isinstance(a, int) or a < 0 or k.step not in (None, 1) or not isinstance(self.sep, str) or \
                not (b is None or isinstance(b, int) and 0 <= b <= 6):
            raise Unsupported("slice of a symbolic split")
        if b is None:
            # what follows the a-th separator is split in the same way
            if not it.ctx.branch(self.more(it, a)):
                return HList([])
            st = it.sterm(self.s)
            for _ in range(a):
                st = _tail(st, it.sterm(self.sep))
            return SplitV(SStr(st), self.sep)
        out = []
        for i in range(a, b):
            if not it.ctx.branch(self.more(it, i)):
                break
            out.append(self.elem(it, i))
        return HList(out)

    def vlen(self, it):
        return self.count(it)

    def vtruth(self, it):
        if isinstance(self.sep, str):
            return True
        return cmp_ints(">", self.count(it), 0)

    def viter(self, it):
        k = 0
        while it.ctx.branch(self.more(it, k)):
            yield self.elem(it, k)
            k += 1
            if k > 6:
                raise Unsupported("iteration over a symbolic split")


def str_count(it, t, sep):
    r = it.uf("str_count", [t, sep], IS)
    it.ctx.assume(r >= 0, check=False)
    it.ctx.assume((r >= 1) == z3.Contains(t, sep), check=False)
    it.ctx.assume((r >= 2) == z3.And(z3.Contains(t, sep), z3.Contains(_tail(t, sep), sep)),
                  check=False)
    return SInt(r, 0, None)


def _strip(it, name, t):
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), _strip(it, name, t.arg(1)), _strip(it, name, t.arg(2)))
    if z3.is_string_value(t):
        return z3.StringVal(getattr(strings.text(t), name)())
    inner = t.decl().name()
    if inner == "str_strip":
        # strip of a strip is the same text
        return t
    if name == "strip" and inner in ("str_lstrip", "str_rstrip"):
        t = t.arg(0)
    elif (name, inner) in (("lstrip", "str_rstrip"), ("rstrip", "str_lstrip")):
        return it.uf("str_strip", [t.arg(0)], SS)
    return it.uf("str_" + name, [t], SS)


def str_method(it, s, name, args, kwargs):
    args = [deref(a) for a in args]
    if isinstance(s, str) and all(I.is_concrete(a) or _deep_concrete(a) for a in args) and \
            all(I.is_concrete(v) for v in kwargs.values()) and name not in ("format",):
        try:
            return it.lift(getattr(s, name)(*[it.unlift(a) for a in args],
                                            **{k: it.unlift(v) for k, v in kwargs.items()}))
        except Unsupported:
            raise
        except Exception as e:
            raise PyExc(type(e), e.args)
    if name == "format":
        return str_format(it, s, args, kwargs)
    if kwargs:
        raise Unsupported("str.%s with keywords on a symbolic string" % name)
    t = it.sterm(s)

    def need_str(x):
        if not isinstance(x, (str, SStr)):
            raise it.exc(TypeError, "str.%s: must be str" % name)
        return it.sterm(x)
    if name in ("startswith", "endswith"):
        if len(args) != 1:
            raise Unsupported("startswith with a position")
        ps = args[0] if isinstance(args[0], tuple) else (args[0],)
        f = _starts if name == "startswith" else _ends
        return mk_bool(z3.Or(*[f(t, need_str(p)) for p in ps])) if ps else False
    if name in ("strip", "lstrip", "rstrip"):
        if args and args[0] is not None:
            r = it.uf("str_%s_chars" % name, [t, need_str(args[0])], SS)
            return SStr(r)
        return SStr(_strip(it, name, t))
    if name in ("upper", "lower", "swapcase", "title", "capitalize", "casefold", "expandtabs"):
        if args:
            raise Unsupported("str.%s with arguments" % name)
        return SStr(it.uf("str_" + name, [t], SS))
    if name == "replace":
        if len(args) != 2:
            raise Unsupported("replace with a count")
        r = it.uf("str_replace", [t, need_str(args[0]), need_str(args[1])], SS)
        if isinstance(args[0], str) and isinstance(args[1], str) and len(args[0]) == 1 \
                and args[0] not in args[1]:
            it.ctx.assume(z3.Not(z3.Contains(r, it.sterm(args[0]))), check=False)
            it.ctx.assume(z3.Implies(z3.Not(z3.Contains(t, it.sterm(args[0]))), r == t),
                          check=False)
        return SStr(r)
    if name == "split":
        sep = args[0] if args else None
        if isinstance(sep, str) and sep == "":
            raise it.exc(ValueError, "empty separator")
        if len(args) > 1:
            n = args[1]
            if not isinstance(n, int) or n > 4 or sep is None:
                raise Unsupported("split with maxsplit")
            if n < 0:
                return SplitV(s, sep)
            out = HList([])
            while n > 0 and it.ctx.branch(z3.Contains(t, need_str(sep))):
                out.items.append(SStr(z3.simplify(_head(t, need_str(sep)))))
                t = _tail(t, need_str(sep))
                n -= 1
            out.items.append(SStr(t))
            return out
        return SplitV(s, sep)
    if name == "rsplit":
        sep = args[0] if args else None
        if isinstance(sep, str) and sep == "":
            raise it.exc(ValueError, "empty separator")
        if len(args) < 2 or args[1] == -1:
            return SplitV(s, sep)
        if args[1] != 1 or sep is None:
            raise Unsupported("rsplit with maxsplit")
        if it.ctx.branch(z3.Contains(t, need_str(sep))):
            a, b = _rparts(t, need_str(sep))
            return HList([SStr(a), SStr(b)])
        return HList([s])
    if name in ("partition", "rpartition"):
        sep = args[0]
        sep = need_str(sep)
        if it.ctx.branch(z3.Contains(t, sep)):
            if name == "rpartition":
                a, b = _rparts(t, sep)
                return (SStr(a), SStr(sep), SStr(b))
            return (SStr(z3.simplify(_head(t, sep))), SStr(sep), SStr(_tail(t, sep)))
        return ("", "", s) if name == "rpartition" else (s, "", "")
    if name == "count":
        if len(args) != 1:
            raise Unsupported("count")
        return str_count(it, t, need_str(args[0]))
    if name == "isspace":
        # not empty, and nothing left when stripped
        return mk_bool(z3.And(t != z3.StringVal(""),
                              it.uf("str_strip", [t], SS) == z3.StringVal("")))
    if name in ("isdigit", "isalpha", "isupper", "islower", "isalnum",
                "isnumeric", "isdecimal", "isidentifier"):
        return SBool(it.uf("str_" + name, [t], z3.BoolSort()))
    if name in ("ljust", "rjust", "center", "zfill"):
        ts = [to_mint(as_int(args[0]))] + [need_str(a) for a in args[1:]]
        return SStr(it.uf("str_" + name, [t] + ts, SS))
    if name == "join":
        if isinstance(args[0], SplitV) and isinstance(args[0].sep, str):
            # joining the parts between separators replaces the separators
            return str_method(it, args[0].s, "replace", [args[0].sep, s], {})
        items = it.make_list(args[0])
        if isinstance(items, sparse.AbsL):
            for _, x in sparse.calm(items).vis:
                if not isinstance(x, (str, SStr)):
                    raise Unsupported("join of values that may not be strings")
            return sparse.AbsText(s, items)
        out = None
        for x in items.items:
            if not isinstance(x, (str, SStr)):
                raise it.exc(TypeError, "sequence item: expected str")
            out = x if out is None else it.binop("Add", it.binop("Add", out, s), x)
        return "" if out is None else out
    if name in ("find", "index", "rfind", "rindex"):
        if len(args) != 1:
            raise Unsupported("find")
        if name[0] == "r":
            r = z3.LastIndexOf(t, need_str(args[0]))
        else:
            r = z3.IndexOf(t, need_str(args[0]), z3.IntVal(0))
        if name in ("index", "rindex") and it.ctx.branch(r < 0):
            raise it.exc(ValueError, "substring not found")
        return SInt(r, -1, None)
    if name in ("removeprefix", "removesuffix"):
        p = need_str(args[0])
        f = _starts if name == "removeprefix" else _ends
        if it.ctx.branch(f(t, p)):
            if name == "removeprefix":
                return SStr(substr(t, z3.Length(p), z3.Length(t) - z3.Length(p)))
            return SStr(substr(t, z3.IntVal(0), z3.Length(t) - z3.Length(p)))
        return s
    if name == "__len__":
        return it.length(s)
    if name == "__contains__":
        return it.contains(s, args[0])
    raise Unsupported("str.%s on a symbolic string" % name)


# ------------------------------------------------------------- containers
def list_method(it, l, name, args, kwargs):
    if isinstance(l, sparse.AbsL):
        return sparse.list_method(it, l, name, args, kwargs)
    if name == "extend" and it.ctx.sparse is not None:
        return sparse.extend(it, l, args[0])
    xs = l.items
    if name == "append":
        xs.append(args[0])
        return None
    if name == "extend":
        if args[0] is l:
            xs.extend(list(xs))
        else:
            for x in it.iterate(args[0]):
                xs.append(x)
        return None
    if name == "insert":
        if not isinstance(args[0], int):
            raise Unsupported("symbolic insert")
        xs.insert(args[0], args[1])
        return None
    if name == "pop":
        if not xs:
            raise it.exc(IndexError, "pop from empty list")
        return xs.pop(it.seq_index(len(xs), args[0]) if args else -1)
    if name == "clear":
        xs.clear()
        return None
    if name == "copy":
        return HList(list(xs))
    if name == "reverse":
        xs.reverse()
        return None
    if name in ("remove", "index"):
        for i, x in enumerate(xs):
            if it.ctx.branch(it.eq(x, args[0])):
                if name == "remove":
                    del xs[i]
                    return None
                return i
        raise it.exc(ValueError, "not in list")
    if name == "count":
        r = 0
        for x in xs:
            if it.ctx.branch(it.eq(x, args[0])):
                r += 1
        return r
    if name == "sort":
        l.items[:] = sort_values(it, xs, kwargs)
        return None
    if name in ("__len__", "__getitem__", "__setitem__", "__contains__", "__iter__",
                "__delitem__"):
        return dunder(it, l, name, args)
    raise Unsupported("list.%s" % name)


def dunder(it, o, name, args):
    if name == "__len__":
        return it.length(o)
    if name == "__getitem__":
        return it.getitem(o, args[0])
    if name == "__setitem__":
        return it.setitem(o, args[0], args[1])
    if name == "__delitem__":
        return it.delitem(o, args[0])
    if name == "__contains__":
        return it.contains(o, args[0])
    if name == "__iter__":
        return IterV(it.iterate(o))
    raise Unsupported(name)


def sort_values(it, xs, kwargs):
    key = kwargs.get("key")
    rev = it.truth(kwargs.get("reverse", False))
    ks = [it.call(key, [x], {}) if key is not None else x for x in xs]
    if all(_deep_concrete(k) for k in ks):
        try:
            order = sorted(range(len(xs)), key=lambda i: it.unlift(ks[i]), reverse=rev)
        except TypeError as e:
            raise PyExc(TypeError, e.args)
        return [xs[i] for i in order]
    if len(xs) > 6:
        raise Unsupported("sorting symbolic values")
    # insertion sort with forks (stable)
    out = []
    for i, x in enumerate(xs):
        j = len(out)
        while j > 0:
            if rev:
                less = it.truth(it.compare("Lt", out[j - 1][0], ks[i]))
            else:
                less = it.truth(it.compare("Lt", ks[i], out[j - 1][0]))
            if not less:
                break
            j -= 1
        out.insert(j, (ks[i], x))
    return [x for _, x in out]


def dict_method(it, d, name, args, kwargs):
    if d.isset:
        return set_method(it, d, name, args, kwargs)
    if name in ("keys", "values", "items"):
        return ViewV(d, name)
    if name == "get":
        c = it.dict_find(d, args[0])
        return c[1] if c is not None else (args[1] if len(args) > 1 else None)
    if name == "setdefault":
        c = it.dict_find(d, args[0])
        if c is not None:
            return c[1]
        v = args[1] if len(args) > 1 else None
        it.dict_set(d, args[0], v)
        return v
    if name == "pop":
        c = it.dict_find(d, args[0])
        if c is None:
            if len(args) > 1:
                return args[1]
            raise it.exc(KeyError, args[0])
        return it.dict_del(d, c[0])
    if name == "update":
        if args:
            s = args[0]
            if isinstance(d, sparse.AbsD) or isinstance(s, (sparse.AbsD, maps.AnyMap)):
                raise Unsupported("update of a mapping with unobserved keys")
            if isinstance(s, HDict):
                for c in s.cells():
                    it.dict_set(d, c[0], c[1])
            else:
                for p in it.iterate(s):
                    k, v = it.make_list(p).items
                    it.dict_set(d, k, v)
        for k, v in kwargs.items():
            it.dict_set(d, k, v)
        return None
    if name == "clear":
        d.d.clear()
        d.nsym = 0
        return None
    if name == "copy":
        if isinstance(d, sparse.AbsD):
            return sparse.mk_dict(d.sd.copy())
        if isinstance(d, maps.AnyMap):
            raise Unsupported("copy of a mapping with unknown keys")
        r = HDict()
        r.nsym = d.nsym
        r.d = {k: list(c) for k, c in d.d.items()}
        return r
    if name.startswith("__"):
        return dunder(it, d, name, args)
    raise Unsupported("dict.%s" % name)


def set_method(it, d, name, args, kwargs):
    if name == "add":
        it.dict_set(d, args[0], None)
        return None
    if name in ("discard", "remove"):
        c = it.dict_find(d, args[0])
        if c is None:
            if name == "remove":
                raise it.exc(KeyError, args[0])
            return None
        it.dict_del(d, c[0])
        return None
    if name == "copy":
        r = HDict(True)
        r.nsym = d.nsym
        r.d = {k: list(c) for k, c in d.d.items()}
        return r
    if name in ("union", "intersection", "difference"):
        o = HDict(True)
        for x in it.iterate(args[0]):
            it.dict_set(o, x, None)
        return it.binop({"union": "BitOr", "intersection": "BitAnd",
                         "difference": "Sub"}[name], d, o)
    if name == "update":
        for a in args:
            for x in it.iterate(a):
                it.dict_set(d, x, None)
        return None
    if name == "issubset":
        return it.conj([it.contains(args[0], c[0]) for c in d.cells()])
    if name == "clear":
        d.d.clear()
        d.nsym = 0
        return None
    if name.startswith("__"):
        return dunder(it, d, name, args)
    raise Unsupported("set.%s" % name)


def int_method(it, v, name, args, kwargs):
    if name == "bit_length":
        if isinstance(v, SBool):
            v = as_int(v)
        x = v.t if v.bv else None
        if x is None:
            raise Unsupported("bit_length")
        raise Unsupported("bit_length of a symbolic int")
    if name in ("__index__", "__int__"):
        return as_int(v)
    ops = {"__and__": "BitAnd", "__or__": "BitOr", "__add__": "Add", "__sub__": "Sub"}
    if name in ops:
        return it.binop(ops[name], v, args[0])
    if name == "__eq__":
        return it.eq(v, args[0])
    raise Unsupported("int.%s" % name)


def call_method(it, o, name, args, kwargs):
    if not (isinstance(o, (HList, HDict)) and name in ("append", "insert", "setdefault")):
        args = [it.force(a) for a in args]
        kwargs = {k: it.force(v) for k, v in kwargs.items()}
    if isinstance(o, HList):
        return list_method(it, o, name, args, kwargs)
    if isinstance(o, HDict):
        return dict_method(it, o, name, args, kwargs)
    if isinstance(o, (str, SStr)):
        return str_method(it, o, name, args, kwargs)
    if isinstance(o, (SInt, SBool)):
        return int_method(it, o, name, args, kwargs)
    if isinstance(o, HObj):
        if name == "__init__":
            return None
        if name == "__setattr__":
            o.attrs[args[0]] = args[1]
            return None
        if name == "__eq__":
            return o is args[0] or NotImplemented
        if name in ("__str__", "__repr__"):
            return opaque_text(it, "obj", [o])
        if name == "__getattribute__":
            return it.getattr(o, args[0])
        raise Unsupported("object.%s" % name)
    if isinstance(o, ViewV):
        if name.startswith("__"):
            return dunder(it, o, name, args)
        raise Unsupported("view.%s" % name)
    if isinstance(o, IterV):
        if name == "__next__":
            return b_next(it, [o], {})
        if name == "__iter__":
            return o
        raise Unsupported("iterator.%s" % name)
    if isinstance(o, SliceV):
        if name == "indices":
            n = args[0]
            if isinstance(n, int):
                return it.slice_bounds(n, o)
            raise Unsupported("slice.indices")
        raise Unsupported("slice.%s" % name)
    if isinstance(o, RangeV):
        if name in ("index", "count"):
            return list_method(it, it.make_list(o), name, args, kwargs)
        return dunder(it, o, name, args)
    if isinstance(o, tuple) and name in ("index", "count"):
        return list_method(it, HList(list(o)), name, args, kwargs)
    if isinstance(o, tuple) and name == "_replace":
        return it.call_native(getattr(o, name), args, kwargs)
    if isinstance(o, int) and name in ("__index__", "__int__"):
        return int(o)
    if I.is_concrete(o):
        return it.call_native(getattr(o, name), args, kwargs)
    raise Unsupported("method %s of %s" % (name, I.type_name(o)))


# --------------------------------------------------------------- functions
def b_isinstance(it, args, kwargs):
    v, t = args
    if isinstance(t, tuple):
        return any(b_isinstance(it, [v, x], {}) for x in t)
    if isinstance(t, types.UnionType):
        return any(b_isinstance(it, [v, x], {}) for x in t.__args__)
    if not isinstance(t, type):
        raise it.exc(TypeError, "isinstance() arg 2 must be a type")
    pt = I.py_type(v)
    pt = it.rsub.get(pt, pt)
    t = it.rsub.get(t, t)
    f = getattr(v, "vtype", None)
    if f:
        pt = f
    try:
        return issubclass(pt, t)
    except TypeError as e:
        raise PyExc(TypeError, e.args)


def b_len(it, args, kwargs):
    return it.length(args[0])


def b_range(it, args, kwargs):
    vs = [it.as_index(a) for a in args]
    if len(vs) == 1:
        r = RangeV(0, vs[0], 1)
    elif len(vs) == 2:
        r = RangeV(vs[0], vs[1], 1)
    elif len(vs) == 3:
        r = RangeV(*vs)
    else:
        raise it.exc(TypeError, "range expected 1 to 3 arguments")
    if isinstance(r.step, int) and r.step == 0:
        raise it.exc(ValueError, "range() arg 3 must not be zero")
    return r


def b_int(it, args, kwargs):
    if not args:
        return 0
    v = args[0]
    if len(args) > 1 or kwargs:
        return it.call_native(int, args, kwargs)
    if is_intlike(v):
        return as_int(v)
    if isinstance(v, HObj):
        for nm in ("__int__", "__index__", "__trunc__"):
            m = it.find(v.cls, nm)
            if m is not I.MISSING:
                r = it.call(it.bind(v, m, v.cls), [], {})
                if not is_intlike(r):
                    raise it.exc(TypeError, "__int__ returned non-int")
                return as_int(r)
        raise it.exc(TypeError, "int() argument must be a string or a number")
    if isinstance(v, SStr):
        raise Unsupported("int() of a symbolic string")
    if isinstance(v, SFloat):
        raise Unsupported("int() of a symbolic float")
    return it.call_native(int, args, kwargs)


def b_bool(it, args, kwargs):
    return it.truthc(args[0]) if args else False


def b_minmax(which):
    op = "Lt" if which == "min" else "Gt"

    def f(it, args, kwargs):
        key = kwargs.get("key")
        items = list(args) if len(args) > 1 else it.make_list(args[0]).items
        if not items:
            if "default" in kwargs:
                return kwargs["default"]
            raise it.exc(ValueError, "empty")
        if key is None and len(items) == 2 and all(is_intlike(x) for x in items):
            a, b = as_int(items[0]), as_int(items[1])
            c = cmp_ints("<=" if which == "min" else ">=", a, b)
            if isinstance(c, bool):
                return a if c else b
            if (isinstance(a, int) or a.bv) and (isinstance(b, int) or b.bv):
                al, ah = iv(a)
                bl, bh = iv(b)
                g = min if which == "min" else max
                return mk_sint(z3.If(c.t, to_bv(a), to_bv(b)), g(al, bl), g(ah, bh))
        best = items[0]
        bk = it.call(key, [best], {}) if key else best
        for x in items[1:]:
            k = it.call(key, [x], {}) if key else x
            if it.truth(it.compare(op, k, bk)):
                best, bk = x, k
        return best
    return f


def b_abs(it, args, kwargs):
    v = args[0]
    if isinstance(v, (SInt, SBool)):
        v = as_int(v)
        if it.ctx.branch(cmp_ints("<", v, 0)):
            return neg_int(v)
        return v
    return it.call_native(abs, args, kwargs)


def b_sorted(it, args, kwargs):
    f = getattr(args[0], "vsorted", None)
    if f:
        return f(it, kwargs)
    if it.ctx.sparse is not None and isinstance(args[0], IterV):
        l = it.make_list(args[0])
        if isinstance(l, sparse.AbsL):
            return l.vsorted(it, kwargs)
        return HList(sort_values(it, l.items, kwargs))
    return HList(sort_values(it, it.make_list(args[0]).items, kwargs))


def b_enumerate(it, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get("start", 0)
    f = getattr(args[0], "venumerate", None)
    if f:
        return f(it, start)

    if it.ctx.sparse is not None:
        g = it.iterate(args[0], True)
        if isinstance(g, sparse.SIter):
            return IterV(sparse.enumerated(it, g, start), "enumerate")

    def gen(src, i):
        for x in it.iterate(src):
            yield (i, x)
            i = add_ints(i, 1)
    if isinstance(args[0], Sym) or args[0] is None:
        it.iterate(args[0])
    return IterV(gen(args[0], start), "enumerate")


def b_print(it, args, kwargs):
    for a in args:
        text_of(it, a)
    return None


def b_str(it, args, kwargs):
    if not args:
        return ""
    return text_of(it, args[0])


def b_repr(it, args, kwargs):
    return repr_of(it, args[0])


def b_list(it, args, kwargs):
    if not args:
        return HList()
    return it.make_list(args[0])


def b_tuple(it, args, kwargs):
    if not args:
        return ()
    return tuple(it.make_list(args[0]).items)


def b_dict(it, args, kwargs):
    d = HDict()
    if args:
        dict_method(it, d, "update", [args[0]], {})
    for k, v in kwargs.items():
        it.dict_set(d, k, v)
    return d


def b_set(it, args, kwargs):
    d = HDict(True)
    if args:
        for x in it.iterate(args[0]):
            it.dict_set(d, x, None)
    return d


def b_zip(it, args, kwargs):
    for a in args:
        if hasattr(a, "vzip"):
            raise Unsupported("zip of an abstract sequence")

    def gen(its):
        while True:
            row = []
            for g in its:
                try:
                    row.append(next(g))
                except StopIteration:
                    return
            yield tuple(row)
    if not args:
        return IterV(iter(()))
    if it.ctx.sparse is not None:
        its = [it.iterate(a, True) for a in args]
        if any(isinstance(g, sparse.SIter) for g in its):
            return IterV(sparse.zipped(it, its), "zip")
        return IterV(gen([iter(g) for g in its]), "zip")
    return IterV(gen([iter(it.iterate(a)) for a in args]), "zip")


def b_map(it, args, kwargs):
    f = args[0]
    if it.ctx.sparse is not None and len(args) == 2:
        g = it.iterate(args[1], True)
        if isinstance(g, sparse.SIter):
            vals = []
            for x in g:
                i = g.t
                try:
                    vals.append((i, it.call(f, [x], {})))
                except PyExc:
                    g.quit()
                    raise
            return IterV(it.iterate(sparse.collect(it, g, vals), True), "map")
        return IterV((it.call(f, [x], {}) for x in g), "map")
    if len(args) == 2:
        return IterV((it.call(f, [x], {}) for x in it.iterate(args[1])), "map")
    its = [iter(it.iterate(a)) for a in args[1:]]
    return IterV((it.call(f, list(r), {}) for r in zip(*its)), "map")


def b_filter(it, args, kwargs):
    f = args[0]
    if it.ctx.sparse is not None:
        g = it.iterate(args[1], True)
        if isinstance(g, sparse.SIter):
            vals = []
            for x in g:
                i = g.t
                try:
                    if it.truth(x if f is None else it.call(f, [x], {})):
                        vals.append((i, x))
                except PyExc:
                    g.quit()
                    raise
            return IterV(it.iterate(sparse.collect(it, g, vals, False), True), "filter")
    return IterV((x for x in it.iterate(args[1])
                  if it.truth(x if f is None else it.call(f, [x], {}))), "filter")


def b_reversed(it, args, kwargs):
    v = args[0]
    if isinstance(v, RangeV) and v.step == 1 and not all(
            isinstance(x, int) for x in (v.start, v.stop)):
        return RangeV(add_ints(v.stop, 1, -1), add_ints(v.start, 1, -1), -1)
    return IterV(iter(list(reversed(it.make_list(v).items))), "reversed")


def b_sum(it, args, kwargs):
    r = args[1] if len(args) > 1 else kwargs.get("start", 0)
    for x in it.iterate(args[0]):
        r = it.binop("Add", r, x)
    return r


def b_any(it, args, kwargs):
    g = it.iterate(args[0], True)
    for x in g:
        if it.truth(x):
            if isinstance(g, sparse.SIter):
                g.quit()
            return True
    return False


def b_all(it, args, kwargs):
    g = it.iterate(args[0], True)
    for x in g:
        if not it.truth(x):
            if isinstance(g, sparse.SIter):
                g.quit()
            return False
    return True


def b_hasattr(it, args, kwargs):
    try:
        it.getattr(args[0], args[1])
        return True
    except PyExc as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


def b_getattr(it, args, kwargs):
    if not isinstance(args[1], str):
        raise Unsupported("getattr with a symbolic name")
    try:
        return it.getattr(args[0], args[1])
    except PyExc as e:
        if len(args) > 2 and issubclass(e.cls, AttributeError):
            return args[2]
        raise


def b_setattr(it, args, kwargs):
    if not isinstance(args[1], str):
        raise Unsupported("setattr with a symbolic name")
    it.setattr(*args)
    return None


def b_iter(it, args, kwargs):
    v = args[0]
    if isinstance(v, HObj):
        m = it.find(v.cls, "__iter__")
        if m is not I.MISSING:
            return it.call(it.bind(v, m, v.cls), [], {})
    if isinstance(v, IterV):
        return v
    return IterV(iter(it.iterate(v, True)))


def b_next(it, args, kwargs):
    v = args[0]
    if isinstance(v, IterV):
        if isinstance(v._gen, sparse.SIter):
            return sparse.first(it, v._gen, args[1:])
        for x in v.gen:
            return x
        if len(args) > 1:
            return args[1]
        raise it.exc(StopIteration)
    if isinstance(v, HObj):
        try:
            return it.call(it.getattr(v, "__next__"), [], {})
        except PyExc as e:
            if len(args) > 1 and issubclass(e.cls, StopIteration):
                return args[1]
            raise
    raise it.exc(TypeError, "not an iterator")


def b_type(it, args, kwargs):
    if len(args) != 1:
        raise Unsupported("type()")
    t = I.py_type(args[0])
    return it.rsub.get(t, t)


def b_callable(it, args, kwargs):
    v = args[0]
    if isinstance(v, HObj):
        return it.find(v.cls, "__call__") is not I.MISSING
    return isinstance(v, (FuncV, BoundV, BuiltinM)) or callable(v)


def b_pow(it, args, kwargs):
    if len(args) == 2:
        return it.binop("Pow", args[0], args[1])
    return it.call_native(pow, args, kwargs)


def b_divmod(it, args, kwargs):
    return (it.binop("FloorDiv", args[0], args[1]), it.binop("Mod", args[0], args[1]))


def b_slice(it, args, kwargs):
    if len(args) == 1:
        return SliceV(None, args[0], None)
    return SliceV(*(list(args) + [None] * (3 - len(args))))


def b_text(tag):
    def f(it, args, kwargs):
        v = args[0]
        if I.is_concrete(v):
            return it.call_native(getattr(builtins, tag), args, kwargs)
        if isinstance(v, HObj):
            v = it.as_index(v)
            if isinstance(v, int):
                return getattr(builtins, tag)(v)
        if not isinstance(v, (SInt, SBool)):
            raise it.exc(TypeError, "%s()" % tag)
        return opaque_text(it, tag, [as_int(v)])
    return f


def b_format(it, args, kwargs):
    return format_one(it, args[0], args[1] if len(args) > 1 else "")


def b_super(it, args, kwargs):
    return SuperV(args[0], args[1])


def b_issubclass(it, args, kwargs):
    c, t = args
    ts = t if isinstance(t, tuple) else (t,)
    return any(issubclass(it.rsub.get(c, c), it.rsub.get(x, x)) for x in ts)


def b_id(it, args, kwargs):
    raise Unsupported("id()")


def b_hash(it, args, kwargs):
    raise Unsupported("hash()")


def b_copy(it, args, kwargs):
    v = args[0]
    if isinstance(v, HList):
        return list_method(it, v, "copy", [], {})
    if isinstance(v, HDict):
        return call_method(it, v, "copy", [], {})
    if isinstance(v, HObj):
        return HObj(v.cls, dict(v.attrs))
    return v


def b_deepcopy(it, args, kwargs, memo=None, leaf=None):
    memo = {} if memo is None else memo

    def cp(v):
        if leaf is not None and isinstance(v, (Sym, Lazy)):
            return leaf(v)
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, (sparse.AbsL, sparse.AbsD)):
            s = v.sd.copy()
            r = memo[id(v)] = (sparse.mk_list if isinstance(v, sparse.AbsL)
                               else sparse.mk_dict)(s)
            r.own = v.own
            for e in s.vis:
                e[1] = cp(e[1])
            return r
        if isinstance(v, HList):
            r = memo[id(v)] = HList()
            r.own = v.own
            r.items = [cp(x) for x in v.items]
            return r
        if isinstance(v, HDict):
            r = memo[id(v)] = HDict(v.isset)
            r.own = v.own
            r.nsym = v.nsym
            if leaf is not None and v.nsym:
                raise Unsupported("symbolic keys")
            r.d = {k: [c[0], cp(c[1])] for k, c in v.d.items()}
            return r
        if isinstance(v, HObj):
            r = memo[id(v)] = HObj(v.cls)
            r.own = v.own
            r.attrs = {k: cp(x) for k, x in v.attrs.items()}
            return r
        if type(v) is tuple:
            return tuple(cp(x) for x in v)
        if isinstance(v, I._IMMUT) or isinstance(v, (Sym, Lazy)) or isinstance(v, type):
            return v
        if isinstance(v, (RangeV, SliceV)):
            return v
        if isinstance(v, FuncV) and v.parent is None:
            r = memo[id(v)] = FuncV(v.node, v.glb, None, None, None, v.name, v.cells, v.owner)
            r.isgen = v.isgen
            r.defaults = [cp(x) for x in v.defaults]
            r.kwdefaults = {k: cp(x) for k, x in v.kwdefaults.items()}
            return r
        raise Unsupported("deepcopy of %s" % type(v).__name__)
    return cp(args[0])


def b_sysexit(it, args, kwargs):
    raise PyExc(SystemExit, tuple(args))


def b_ord(it, args, kwargs):
    if isinstance(args[0], str):
        return it.call_native(ord, args, kwargs)
    raise Unsupported("ord of symbolic")


TABLE = {
    isinstance: b_isinstance, len: b_len, range: b_range, int: b_int,
    bool: b_bool, max: b_minmax("max"), min: b_minmax("min"), abs: b_abs,
    sorted: b_sorted, enumerate: b_enumerate, print: b_print, str: b_str,
    repr: b_repr, list: b_list, tuple: b_tuple, dict: b_dict, set: b_set,
    zip: b_zip, map: b_map, filter: b_filter, reversed: b_reversed, sum: b_sum,
    any: b_any, all: b_all, hasattr: b_hasattr, getattr: b_getattr,
    setattr: b_setattr, iter: b_iter, next: b_next, type: b_type,
    callable: b_callable, pow: b_pow, divmod: b_divmod, slice: b_slice,
    bin: b_text("bin"), oct: b_text("oct"), hex: b_text("hex"),
    format: b_format, super: b_super, issubclass: b_issubclass, id: b_id,
    hash: b_hash, sys.exit: b_sysexit, ord: b_ord,
}

import copy as _copy           # noqa: E402
import operator as _op         # noqa: E402
import functools as _ft        # noqa: E402

TABLE[_copy.copy] = b_copy
TABLE[open] = files.open_
TABLE[_copy.deepcopy] = b_deepcopy
TABLE[_op.index] = lambda it, a, k: it.as_index(a[0])
for _n, _f in (("or_", "BitOr"), ("and_", "BitAnd"), ("add", "Add"),
               ("lshift", "LShift"), ("rshift", "RShift"), ("sub", "Sub"),
               ("mul", "Mult"), ("xor", "BitXor")):
    TABLE[getattr(_op, _n)] = (lambda o: lambda it, a, k: it.binop(o, a[0], a[1]))(_f)


def b_reduce(it, args, kwargs):
    xs = it.make_list(args[1]).items
    if len(args) > 2:
        acc = args[2]
    elif xs:
        acc = xs.pop(0)
    else:
        raise it.exc(TypeError, "reduce() of empty iterable")
    for x in xs:
        acc = it.call(args[0], [acc, x], {})
    return acc


TABLE[_ft.reduce] = b_reduce


def call_builtin(it, f, args, kwargs):
    try:
        h = TABLE.get(f)
    except TypeError:
        h = None
    if f is not print:
        args = [it.force(a) for a in args]
        kwargs = {k: it.force(v) for k, v in kwargs.items()}
    if h is not None:
        return h(it, list(args), kwargs)
    if f is object:
        return HObj(object)
    if isinstance(f, types.BuiltinMethodType) and f.__name__ == "__setattr__":
        raise Unsupported("native __setattr__")
    if not callable(f):
        raise it.exc(TypeError, "'%s' object is not callable" % I.type_name(f))
    # immutable records such as namedtuples may carry symbolic fields
    if isinstance(f, type) and issubclass(f, tuple) and hasattr(f, "_fields"):
        kw = {k: v for k, v in kwargs.items()}
        try:
            return f(*args, **kw)
        except TypeError as e:
            raise PyExc(TypeError, e.args)
    if isinstance(f, type) and issubclass(f, BaseException):
        return ExcV(f, tuple(args))
    return it.call_native(f, args, kwargs)
