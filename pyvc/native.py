"""Native execution of contracts: replay of counterexamples and random histories.

Runs the real code of /repo under CPython against the contract classes, which
are executed natively too.  Used (a) to confirm a counter-model of a failed
obligation, (b) as a cross-check of the verifier on every run, and (c) as the
bounded stand-in for tasks the verifier cannot decide.
"""
import ast
import contextlib
import io
import json
import os
import random
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from pyvc import registry, REPO                                        # noqa: E402
from pyvc.contract import (ClassContract, AnyReject, resolve)    # noqa: E402
from pyvc.domains import Hints                                   # noqa: E402

STEP_S = 20


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


class NSn:
    def __init__(self, d):
        self.__dict__.update(d)


def decode(v):
    if isinstance(v, dict):
        if "slice" in v:
            return slice(*[decode(x) for x in v["slice"]])
        if "tuple" in v:
            return tuple(decode(x) for x in v["tuple"])
        if "dict" in v:
            return {decode(a): decode(b) for a, b in v["dict"]}
        raise ValueError(v)
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def encode(v):
    if isinstance(v, slice):
        return {"slice": [encode(v.start), encode(v.stop)]}
    if isinstance(v, tuple):
        return {"tuple": [encode(x) for x in v]}
    if isinstance(v, list):
        return [encode(x) for x in v]
    if isinstance(v, dict):
        return {"dict": [[encode(a), encode(b)] for a, b in v.items()]}
    return v


def outcome(f, *args):
    """('ret', v) | ('exc', class) | ('hang', None); output is discarded."""
    buf = io.StringIO()
    signal.setitimer(signal.ITIMER_REAL, STEP_S)
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            v = f(*args)
        return "ret", v
    except Hang:
        return "hang", None
    except AnyReject:
        return "exc", AnyReject
    except RecursionError:
        return "exc", RecursionError
    except (Exception, SystemExit) as e:
        return "exc", type(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def same(real, spec):
    kr, vr = real
    ks, vs = spec
    if kr != ks:
        return False
    if kr == "exc":
        if vs is AnyReject:
            return issubclass(vr, Exception)
        return vr is vs
    return plain_eq(vr, vs)


def plain_eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and \
            all(plain_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(plain_eq(a[k], b[k]) for k in a)
    if isinstance(a, str) != isinstance(b, str):
        return False
    if (a is None) != (b is None):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def show(o):
    k, v = o
    if k == "exc":
        return "raises " + v.__name__
    if k == "hang":
        return "does not return"
    r = repr(v)
    return "returns " + (r if len(r) < 400 else r[:400] + "...")


class ClassRun:
    """A pair (real object, contract object) with the same view."""

    def __init__(self, contract, view):
        self.c = contract
        self.real = resolve(contract.real)
        self.spec = resolve(contract.spec)
        self.view = view
        kr = outcome(contract.build, self.real, *view)
        ks = outcome(contract.build, self.spec, *view)
        self.bad = None
        if kr[0] != "ret" or ks[0] != "ret":
            if kr[0] != ks[0]:
                self.bad = "construction %s; contract: %s" % (show(kr), show(ks))
            self.r = self.s = None
            return
        self.r, self.s = kr[1], ks[1]

    def observe(self):
        a = outcome(self.c.observe, self.r)
        b = outcome(self.c.observe, self.s)
        if not same(a, b):
            return "observation %s; contract: %s" % (show(a), show(b))
        return None

    def step(self, opname, args):
        op = self.c.ops[opname]
        a = outcome(op.f, self.r, *copyargs(args))
        b = outcome(op.f, self.s, *copyargs(args))
        if not same(a, b):
            return "%s%s %s; contract: %s" % (opname, tuple(args), show(a), show(b))
        return None


def copyargs(args):
    import copy
    return [copy.deepcopy(a) if isinstance(a, (list, dict)) else a for a in args]


def run_ctor(contract, opname, args):
    op = contract.ops[opname]
    a = outcome(op.f, resolve(contract.real), *copyargs(args))
    b = outcome(op.f, resolve(contract.spec), *copyargs(args))
    if a[0] == "ret" and b[0] == "ret":
        x = outcome(contract.observe, a[1])
        y = outcome(contract.observe, b[1])
        if not same(x, y):
            return "%s%s: observation %s; contract: %s" % (opname, tuple(args), show(x), show(y))
        return None
    if not same(a, b):
        return "%s%s %s; contract: %s" % (opname, tuple(args), show(a), show(b))
    return None


def run_func(contract, opname, args):
    op = contract.ops[opname]
    R = NSn({k: resolve(p) for k, p in contract.real.items()})
    S = NSn({k: resolve(p) for k, p in contract.spec.items()})
    a = outcome(op.f, R, *copyargs(args))
    b = outcome(op.f, S, *copyargs(args))
    if not same(a, b):
        return "%s%s %s; contract: %s" % (opname, short(args), show(a), show(b))
    return None


def short(args):
    r = repr(tuple(args))
    return r if len(r) < 600 else r[:600] + "..."


def run_history(reg, h, mine=None):
    """h: {contract, kind: class|ctor|func, ...}. Returns None or a message.
    With `mine`, a divergence caused by another operation ends the history
    without a verdict: it is the business of the property that owns it."""
    c = reg[h["contract"]]
    if h["kind"] == "ctor":
        return run_ctor(c, h["op"], decode(h["args"]))
    if h["kind"] == "func":
        return run_func(c, h["op"], decode(h["args"]))
    runs = []
    for v in h["views"]:
        r = ClassRun(c, decode(v))
        if r.bad:
            return r.bad
        if r.r is None:
            return None
        runs.append(r)
    for r in runs:
        m = r.observe()
        if m:
            return m
    for i, (who, op, args) in enumerate(h["steps"]):
        m = runs[who].step(op, decode(args))
        if m and mine is not None and op not in mine:
            return None
        if m:
            return "step %d on object %d: %s" % (i + 1, who, m)
        for j, r in enumerate(runs):
            m = r.observe()
            if m and mine is not None and op not in mine:
                return None
            if m:
                return "after step %d (%s%s on object %d), object %d: %s" % (
                    i + 1, op, short(decode(args)), who, j, m)
    return None


# ----------------------------------------------------------------- driving
def harvest(files):
    ints, strs = set(), set()
    for f in files:
        try:
            tree = ast.parse(open(os.path.join(REPO, f), encoding="latin-1").read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    continue
                if isinstance(n.value, int):
                    ints.update((n.value, n.value - 1, n.value + 1, -n.value))
                elif isinstance(n.value, str) and len(n.value) < 40:
                    strs.add(n.value)
            elif isinstance(n, ast.BinOp):
                try:
                    v = eval(compile(ast.Expression(n), "?", "eval"), {"__builtins__": {}})
                    if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 1 << 80:
                        ints.update((v, v - 1, v + 1))
                except Exception:
                    pass
    return Hints(sorted(ints), sorted(strs))


def gen_view(c, rng, h):
    if hasattr(c, "rand_view"):
        return c.rand_view(rng, h)
    for _ in range(500):
        v = [d.rand(rng, h) for d in c.view]
        if c.inv(*v):
            return v
    return None


def gen_args(op, rng, h, view=None):
    for _ in range(50):
        a = [d.rand(rng, h) for d in op.doms]
        if hasattr(op, "rand"):
            a = op.rand(rng, h)
        if op.pre is None:
            return a
        try:
            if op.pre(*((list(view) if view is not None else []) + a)):
                return a
        except Exception:
            continue
    return None


def drive(reg, cname, ops, seed, budget_s, max_steps=12):
    c = reg[cname]
    rng = random.Random("%s/%s/%s" % (seed, cname, sorted(ops)))
    files = getattr(c, "hint_files", ())
    h = harvest(files)
    t0 = time.time()
    stats = {"contract": cname, "evaluations": 0, "histories": 0, "distinct": 0,
             "samples": [], "per_op": {}}
    seen = set()
    is_cls = isinstance(c, type) and issubclass(c, ClassContract)
    names = list(ops)
    ctor = [n for n in names if is_cls and c.ops[n].cls]
    meth = [n for n in names if n not in ctor]
    # auxiliary operations may be needed to reach interesting states
    aux = [n for n in c.ops if is_cls and not c.ops[n].cls] if is_cls else []
    weights = [c.ops[n].weight for n in meth]
    limit = getattr(c, "drive_limit", None)
    while time.time() - t0 < budget_s:
        if limit and stats["histories"] >= limit:
            break
        stats["histories"] += 1
        if not is_cls or (ctor and (not meth or rng.random() < 0.3)):
            n = rng.choice(ctor if is_cls else names)
            a = gen_args(c.ops[n], rng, h)
            if a is None:
                continue
            hist = {"contract": cname, "kind": "ctor" if is_cls else "func",
                    "op": n, "args": encode(a)}
            stats["evaluations"] += 1
            stats["per_op"][n] = stats["per_op"].get(n, 0) + 1
            msg = run_history(reg, hist)
        else:
            v1 = gen_view(c, rng, h)
            v2 = gen_view(c, rng, h)
            if v1 is None or v2 is None:
                continue
            steps = []
            k = rng.randint(1, getattr(c, "max_steps", max_steps))
            for _ in range(k):
                if rng.random() < 0.7 or not aux:
                    n = rng.choices(meth, weights)[0]
                else:
                    n = rng.choice(aux)
                who = 0 if rng.random() < 0.7 else 1
                a = gen_args(c.ops[n], rng, h, (v1, v2)[who])
                if a is None:
                    continue
                steps.append([who, n, encode(a)])
                stats["evaluations"] += 1
                stats["per_op"][n] = stats["per_op"].get(n, 0) + 1
            hist = {"contract": cname, "kind": "class",
                    "views": [encode(v1), encode(v2)], "steps": steps}
            msg = run_history(reg, hist, set(names))
        key = hash(json.dumps(hist, sort_keys=True, default=str))
        if key not in seen:
            seen.add(key)
            stats["distinct"] += 1
        if len(stats["samples"]) < 3:
            s = json.dumps(hist, default=str)
            stats["samples"].append(hist if len(s) < 1500 else s[:1500])
        if msg:
            hist, msg = shrink(reg, hist, msg, set(names))
            stats["violation"] = {"history": hist, "message": msg}
            break
    stats["wall_s"] = time.time() - t0
    return stats


def search(reg, hist, seed, budget_s):
    """Continue a history at random until the divergence shows."""
    c = reg[hist["contract"]]
    rng = random.Random("%s/search" % seed)
    h = harvest(getattr(c, "hint_files", ()))
    t0 = time.time()
    aux = [n for n in c.ops if not c.ops[n].cls]
    if not aux:
        return None, None
    while time.time() - t0 < budget_s:
        steps = list(hist["steps"])
        for _ in range(rng.randint(1, 8)):
            n = rng.choice(aux)
            a = gen_args(c.ops[n], rng, h, decode(hist["views"][0]))
            if a is not None:
                steps.append([0, n, encode(a)])
        h2 = dict(hist, steps=steps)
        m = run_history(reg, h2)
        if m:
            return shrink(reg, h2, m)
    return None, None


def shrink(reg, hist, msg, mine=None):
    if hist["kind"] != "class":
        return hist, msg
    t0 = time.time()
    steps = hist["steps"]
    # only the operations up to the failure matter
    i = 0
    while i < len(steps) and time.time() - t0 < 20:
        h2 = dict(hist, steps=steps[:i] + steps[i + 1:])
        m = run_history(reg, h2, mine)
        if m:
            steps = h2["steps"]
            hist, msg = h2, m
        else:
            i += 1
    if all(s[0] == 0 for s in steps) and len(hist["views"]) > 1:
        h2 = dict(hist, views=hist["views"][:1])
        m = run_history(reg, h2, mine)
        if m:
            hist, msg = h2, m
    return hist, msg


def main():
    signal.signal(signal.SIGALRM, _alarm)
    reg = registry.load()
    cmd = sys.argv[1]
    if cmd == "replay":
        with open(sys.argv[2]) as f:
            doc = json.load(f)
        m = run_history(reg, doc["history"]) if doc.get("history") else None
        print(json.dumps({"message": m}))
        sys.exit(1 if m else 0)
    elif cmd == "batch":
        # several candidate histories: replay each, then search behind them
        req = json.loads(sys.stdin.read())
        out = {"message": None}
        for h in req["histories"]:
            m = run_history(reg, h)
            if m:
                out = {"message": m, "history": h}
                break
        else:
            n = max(1, len([h for h in req["histories"] if h["kind"] == "class"]))
            for h in req["histories"]:
                if h["kind"] != "class":
                    continue
                h2, m = search(reg, h, req["seed"], req["budget"] / n)
                if m:
                    out = {"message": m, "history": h2}
                    break
        print(json.dumps(out))
    elif cmd == "drive":
        req = json.loads(sys.argv[2])
        res = []
        for u in req["units"]:
            o = drive(reg, u["contract"], u["ops"], req["seed"], u["budget"])
            res.append(o)
            if "violation" in o:
                break
        print(json.dumps(res, default=str))


if __name__ == "__main__":
    main()
