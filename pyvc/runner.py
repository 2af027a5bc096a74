"""Runs the verification tasks of a property and decides its verdict."""
import concurrent.futures as cf
import copy
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

from . import registry
from .contract import ClassContract, Task, op_cases, run_task

PY = sys.executable
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

_reg = None


def _init():
    global _reg
    import z3
    z3.set_param("memory_max_size", 6000)
    _reg = registry.load()


def _work(args):
    cname, op, case, inline, budget, override, free = args
    if override:
        reg = dict(_reg)
        reg[cname] = specialise(_reg[cname], override)
    else:
        reg = _reg
    r = run_task(reg, Task(cname, op, case, inline, free), budget)
    r["override"] = override
    return r


def specialise(contract, override):
    """Contract restricted to a concrete configuration {view index: value}."""
    from .domains import Const
    ov = {int(k): Const(v) for k, v in override.items()}
    ops = {}
    for n, op in contract.ops.items():
        if op.cls:
            if n not in contract.ctor_args:
                ops[n] = op
                continue
            if contract.ctor_args[n] is None:      # irrelevant to a configuration
                continue
            ca = {i: ov[vi] for i, vi in enumerate(contract.ctor_args[n]) if vi in ov}
            op = copy.copy(op)
            op.cases = [{**c, **ca} for c in (op.cases or [{}])]
        ops[n] = op
    vcs = []
    for vc in contract.view_cases or [{}]:
        if all(not isinstance(vc.get(i), Const) or vc[i].v == d.v for i, d in ov.items()):
            vcs.append({**vc, **ov})
    return type(contract.__name__ + "At", (contract,),
                {"view_cases": vcs or [ov], "ops": ops})


def all_tasks(reg, units, inline=(), override=None, free=()):
    out = []
    for cname, ops in units:
        c = reg[cname]
        if override:
            c = specialise(c, override)
        for op in (ops or list(c.ops)):
            if c.ops[op].native:
                continue
            for k in range(len(op_cases(c, c.ops[op]))):
                out.append((cname, op, k, tuple(inline), None, override,
                            () if c.ops[op].cls else tuple(free)))
    return out


class Pool:
    def __init__(self, jobs):
        self.ex = cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context("spawn"),
                                         initializer=_init)

    def run(self, tasks, budget, deadline, stop=None):
        """stop(): the deadline, once something makes it earlier."""
        futs = {}
        for t in tasks:
            t = t[:4] + (budget,) + t[5:]
            futs[self.ex.submit(_work, t)] = t
        res = []
        done = set()
        while len(done) < len(futs):
            deadline = min(deadline, stop() if stop else deadline)
            if time.time() > deadline:
                break
            ready, _ = cf.wait(set(futs) - done, timeout=1, return_when=cf.FIRST_COMPLETED)
            for f in ready:
                done.add(f)
                try:
                    res.append((f, f.result()))
                except Exception as e:
                    res.append((f, blank(futs[f], "worker: %s" % e)))
        for f, t in futs.items():
            if f not in done:
                f.cancel()
                res.append((f, blank(t, "time budget of the check")))
        order = {id(f): i for i, f in enumerate(futs)}
        return [r for _, r in sorted(((order[id(f)], r) for f, r in res), key=lambda x: x[0])]

    def close(self):
        for p in list((getattr(self.ex, "_processes", None) or {}).values()):
            p.kill()
        self.ex.shutdown(wait=False, cancel_futures=True)


def blank(t, why):
    return {"id": "%s.%s#%d" % (t[0], t[1], t[2]), "contract": t[0], "op": t[1],
            "case": t[2], "inline": list(t[3]), "free": [], "status": "undecided",
            "undecided": [["task", why]], "failures": [], "called": [],
            "assumed": [], "obligations": {}, "wall_s": 0.0, "override": t[5],
            "stats": {"obligations": 0, "discharged": 0, "paths": 0,
                      "complete_paths": 0, "queries": 0, "solver_s": 0.0}}


def native(args, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        p = subprocess.run([PY, os.path.join(HERE, "native.py")] + args,
                           capture_output=True, text=True, timeout=timeout, env=env,
                           cwd=VERIF)
    except subprocess.TimeoutExpired:
        return None
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return {"error": p.stderr[-2000:]}


def history_of(reg, r, failure):
    i = failure.get("inputs")
    if not i:
        return None
    c = reg[r["contract"]]
    if "ctor" in i:
        return {"contract": r["contract"], "kind": "ctor", "op": i["ctor"],
                "args": i["args"]}
    if "func" in i:
        return {"contract": r["contract"], "kind": "func", "op": i["func"],
                "args": i["args"]}
    if issubclass(c, ClassContract):
        views = [i["view"]]
        if c.other is not None:
            from .native import encode
            views.append([encode(x) for x in c.other])
        return {"contract": r["contract"], "kind": "class", "views": views,
                "steps": [[0, i["op"], i["args"]]]}
    return None
