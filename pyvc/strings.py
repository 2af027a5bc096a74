"""Strings by congruence: a query with string terms is first decided over an
abstraction (strings are an uninterpreted sort, string operations are functions
of it with instantiated lemmas).  Unsatisfiable there means unsatisfiable; when
it is satisfiable a path is explored (never dropped), and an obligation goes on
to z3's own string theory."""
import re

import z3

U = z3.DeclareSort("Str")
_abs = {}            # id -> (term, abstract, frozenset of string node ids)
_nodes = {}          # id -> (term, abstract, lemmas, application record or None)
_ufs = {}
_lits = {}           # text -> constant


def has_seq(t, memo={}):
    k = t.get_id()
    r = memo.get(k)
    if r is not None:
        return r[1]
    res = False
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if x.sort().kind() == z3.Z3_SEQ_SORT:
            res = True
            break
        stack.extend(x.children())
    memo[k] = (t, res)
    return res


def is_str(t):
    return t.sort().kind() == z3.Z3_SEQ_SORT


def text(t):
    """Python text of a string literal."""
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}|\\x([0-9a-fA-F]{2})",
                  lambda m: chr(int(m.group(1) or m.group(2), 16)), t.as_string())


def val(s):
    return z3.StringVal(s)


def lit(s):
    c = _lits.get(s)
    if c is None:
        c = z3.Const("lit:%r" % s, U)
        _lits[s] = c
    return c


def uf(name, args, rsort):
    key = (name, tuple(str(a.sort()) for a in args), str(rsort))
    f = _ufs.get(key)
    if f is None:
        f = z3.Function("@" + name, *([a.sort() for a in args] + [rsort]))
        _ufs[key] = f
    return f(*args)


LAST = z3.LastIndexOf(z3.String("a"), z3.String("b")).decl().name()
LEN = z3.Function("@len", U, z3.IntSort())


def ev_substr(s, a, n):
    return s[a:a + n] if 0 <= a < len(s) and n > 0 else ""


EVAL = {
    "str.substr": ev_substr,
    "str_strip": lambda s: s.strip(), "str_lstrip": lambda s: s.lstrip(),
    "str_rstrip": lambda s: s.rstrip(), "str_upper": lambda s: s.upper(),
    "str_lower": lambda s: s.lower(), "str_swapcase": lambda s: s.swapcase(),
    "str_title": lambda s: s.title(), "str_capitalize": lambda s: s.capitalize(),
    "str_casefold": lambda s: s.casefold(),
    "str_replace": lambda s, a, b: s.replace(a, b),
    "str.contains": lambda s, x: x in s, "str.prefixof": lambda x, s: s.startswith(x),
    "str.suffixof": lambda x, s: s.endswith(x), "str.indexof": lambda s, x, k: s.find(x, k),
    LAST: lambda s, x: s.rfind(x), "str_count": lambda s, x: s.count(x), "str.++": lambda *a: "".join(a),
    "str_strip_chars": lambda s, c: s.strip(c), "str_lstrip_chars": lambda s, c: s.lstrip(c),
    "str_rstrip_chars": lambda s, c: s.rstrip(c),
    "str_ljust": lambda s, n, *a: s.ljust(n, *a), "str_rjust": lambda s, n, *a: s.rjust(n, *a),
    "str_center": lambda s, n, *a: s.center(n, *a), "str_zfill": lambda s, n: s.zfill(n),
    "str_isspace": lambda s: s.isspace(), "str_isdigit": lambda s: s.isdigit(),
    "str_isalpha": lambda s: s.isalpha(), "str_isupper": lambda s: s.isupper(),
    "str_islower": lambda s: s.islower(), "str_isalnum": lambda s: s.isalnum(),
    "nsplit_ws": lambda s: len(s.split()),
    "split_ws": lambda s, k: s.split()[k] if k < len(s.split()) else None,
    "str.<": lambda a, b: a < b, "str.<=": lambda a, b: a <= b,
}


def absterm(t):
    """(abstract term, ids of the string nodes below it)."""
    r = _abs.get(t.get_id())
    if r is not None:
        return r[1], r[2]
    stack = [t]
    while stack:
        x = stack[-1]
        if x.get_id() in _abs:
            stack.pop()
            continue
        if not has_seq(x):
            _abs[x.get_id()] = (x, x, frozenset())
            stack.pop()
            continue
        if z3.is_quantifier(x):
            raise z3.Z3Exception("quantifier over strings")
        ch = x.children()
        miss = [c for c in ch if c.get_id() not in _abs]
        if miss:
            stack.extend(miss)
            continue
        _abs[x.get_id()] = build(x, ch)
        stack.pop()
    r = _abs[t.get_id()]
    return r[1], r[2]


def build(x, ch):
    ac = [_abs[c.get_id()][1] for c in ch]
    ids = frozenset().union(*[_abs[c.get_id()][2] for c in ch]) if ch else frozenset()
    k = x.decl().kind()
    if is_str(x) and z3.is_string_value(x):
        a = lit(text(x))
        _nodes[x.get_id()] = (x, a, [LEN(a) == len(text(x))], None)
        return (x, a, frozenset([x.get_id()]))
    if not ch:
        if is_str(x):
            a = z3.Const(x.decl().name(), U)
            _nodes[x.get_id()] = (x, a, lem_any(a), None)
            return (x, a, frozenset([x.get_id()]))
        return (x, x, ids)
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE) and any(is_str(c) for c in ch):
        if k == z3.Z3_OP_EQ:
            a = ac[0] == ac[1]
        elif k == z3.Z3_OP_DISTINCT:
            a = z3.Distinct(*ac)
        else:
            a = z3.If(ac[0], ac[1], ac[2])
        return (x, a, ids)
    nm = x.decl().name()
    if nm == "str.at":
        nm, ac = "str.substr", ac + [z3.IntVal(1)]
    if not is_str(x) and not any(is_str(c) for c in ch):
        return (x, x.decl()(*ac), ids)
    if nm == "str.len":
        return (x, LEN(ac[0]), ids)
    if nm == "str.++" and len(ch) > 2:
        a = ac[-1]
        for b in reversed(ac[:-1]):
            a = uf("str.++", [b, a], U)
        rec = None
    else:
        a = uf(nm, ac, U if is_str(x) else x.sort())
        rec = (nm, ac)
    lem = (lem_any(a) if is_str(x) else []) + lemmas(nm, a, ac, ch)
    # `x` itself is a node: its lemmas belong to any query it occurs in
    _nodes[x.get_id()] = (x, a, lem, rec)
    return (x, a, ids | {x.get_id()})


SUB = ("str.substr", "str.at")


def lem_any(a):
    return [LEN(a) >= 0, (LEN(a) == 0) == (a == lit(""))]


def lemmas(nm, a, ac, ch):
    if nm == "str.substr":
        s, i, n = ac
        ln = LEN(s)
        full = z3.And(i == 0, n >= ln)
        out = [LEN(a) == z3.If(z3.Or(i < 0, i >= ln, n <= 0), z3.IntVal(0),
                               z3.If(n <= ln - i, n, ln - i)),
               z3.Implies(full, a == s),
               z3.Implies(LEN(a) > 0, a == uf("sub", [s, i, LEN(a)], U))]
        # a slice of a slice is a slice of the whole
        x, at = ch[0], i
        while x.decl().name() in SUB:
            at = at + _abs[x.arg(1).get_id()][1]
            x = x.arg(0)
            out.append(z3.Implies(LEN(a) > 0,
                                  a == uf("sub", [_abs[x.get_id()][1], at, LEN(a)], U)))
        return out
    if nm == "str.++" and len(ac) == 2:
        return [LEN(a) == LEN(ac[0]) + LEN(ac[1]),
                z3.Implies(ac[0] == lit(""), a == ac[1]),
                z3.Implies(ac[1] == lit(""), a == ac[0])]
    if nm == "str_strip":
        return [LEN(a) <= LEN(ac[0]), uf("str_strip", [a], U) == a]
    if nm in ("str_lstrip", "str_rstrip"):
        out = [LEN(a) <= LEN(ac[0]),
               (a == lit("")) == (uf("str_strip", [ac[0]], U) == lit("")),
               uf(nm, [a], U) == a]
        x = ch[0]
        if x.decl().name() == "str_strip":
            return out + [a == ac[0]]
        # a prefix of a text without leading white space has none either, and
        # likewise a suffix: stripping one side strips both
        cond = []
        while x.decl().name() in SUB:
            s, i, n = ([_abs[c.get_id()][1] for c in x.children()] + [z3.IntVal(1)])[:3]
            cond.append(i == 0 if nm == "str_rstrip" else z3.Or(i + n >= LEN(s), n <= 0))
            x = x.arg(0)
            if x.decl().name() in ("str_strip", "str_lstrip" if nm == "str_rstrip"
                                   else "str_rstrip"):
                out.append(z3.Implies(z3.And(*cond), a == uf("str_strip", [ac[0]], U)))
                break
        return out
    if nm == "str.contains":
        out = [z3.Implies(a, LEN(ac[0]) >= LEN(ac[1])),
               z3.Implies(ac[1] == lit(""), a), z3.Implies(ac[0] == ac[1], a)]
        return out
    if nm == "str.indexof":
        c = uf("str.contains", [ac[0], ac[1]], z3.BoolSort())
        out = [a >= -1, z3.Implies(z3.And(a >= 0), a + LEN(ac[1]) <= LEN(ac[0]))]
        if z3.is_int_value(ac[2]) and ac[2].as_long() == 0:
            out.append((a >= 0) == c)
        return out
    if nm == LAST:
        c = uf("str.contains", [ac[0], ac[1]], z3.BoolSort())
        return [a >= -1, (a >= 0) == c, z3.Implies(a >= 0, a + LEN(ac[1]) <= LEN(ac[0])),
                a >= uf("str.indexof", [ac[0], ac[1], z3.IntVal(0)], z3.IntSort())]
    if nm in ("str_upper", "str_lower"):
        return [uf(nm, [a], U) == a]
    if nm == "str_replace":
        c = uf("str.contains", [ac[0], ac[1]], z3.BoolSort())
        return [z3.Implies(z3.Not(c), a == ac[0])]
    return []


def facts(fs):
    """What z3's string theory is told about the functions it does not know."""
    ids = set()
    for f in fs:
        ids |= absterm(f)[1]
    out = []
    for i in sorted(ids):
        x = _nodes[i][0]
        if x.decl().name() == "str_strip":
            t = x.arg(0)
            out.append(z3.Contains(t, x))
            for ws in (" ", "\n", "\t"):
                out.append(z3.Not(z3.PrefixOf(val(ws), x)))
                out.append(z3.Not(z3.SuffixOf(val(ws), x)))
    return out


class AbsModel:
    """Model of the abstraction: guides exploration, never refutes."""
    abstract = True

    def __init__(self, m):
        self.m = m

    def eval(self, t, model_completion=True):
        return self.m.eval(absterm(t)[0], model_completion=model_completion)


def check(fs, timeout):
    """(verdict, model) for the conjunction of fs over the abstraction."""
    from .explore import Model
    s = z3.Solver()
    s.set("timeout", max(1, timeout))
    ids = set()
    for f in fs:
        a, i = absterm(f)
        s.add(a)
        ids |= i
    nodes = [_nodes[i] for i in sorted(ids)]
    texts = {""}
    for x, a, lem, rec in nodes:
        s.add(*lem)
        if is_str(x) and z3.is_string_value(x):
            texts.add(text(x))
    s.add(LEN(lit("")) == 0)
    texts = sorted(texts)
    if len(texts) > 1:
        s.add(z3.Distinct(*[lit(x) for x in texts]))
    done = set()
    for _ in range(60):
        r = s.check()
        if r != z3.sat:
            return ("unsat" if r == z3.unsat else "unknown"), None
        m = s.model()
        val = {}
        for x in texts:
            val[m.eval(lit(x), model_completion=True).get_id()] = x
        new = refine(m, nodes, val, done)
        if not new:
            return "sat", Model(AbsModel(m))
        for f, extra in new:
            s.add(f)
            if extra is not None and extra not in texts:
                s.add(*[lit(extra) != lit(x) for x in texts])
                s.add(LEN(lit(extra)) == len(extra))
                texts.append(extra)
    return "sat", Model(AbsModel(m))


def refine(m, nodes, val, done):
    """Evaluation facts that the model contradicts."""
    out = []
    for x, a, lem, rec in nodes:
        if rec is None or rec[0] not in EVAL:
            continue
        vs = []
        for c in rec[1]:
            v = m.eval(c, model_completion=True)
            if c.sort().eq(U):
                p = val.get(v.get_id())
            elif z3.is_int_value(v):
                p = v.as_long()
            else:
                p = None
            if p is None:
                break
            vs.append(p)
        else:
            key = (rec[0],) + tuple(vs)
            if key in done:
                continue
            try:
                r = EVAL[rec[0]](*vs)
            except Exception:
                continue
            if r is None:
                continue
            got = m.eval(a, model_completion=True)
            if isinstance(r, bool):
                ok, want, extra = z3.is_true(got) == r, z3.BoolVal(r), None
            elif isinstance(r, int):
                ok, want, extra = z3.is_int_value(got) and got.as_long() == r, z3.IntVal(r), None
            else:
                ok, want, extra = val.get(got.get_id()) == r, lit(r), r
            if ok:
                continue
            done.add(key)
            args = [lit(v) if isinstance(v, str) else z3.IntVal(v) for v in vs]
            out.append((uf(rec[0], args, a.sort()) == want, extra))
    return out
