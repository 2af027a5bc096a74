"""Decides a property: proofs, dependencies, replays, verdict, evidence."""
import json
import os
import subprocess
import sys
import time

from . import registry, runner
from .contract import ClassContract, resolve
from .runner import (Pool, all_tasks, history_of, HERE, VERIF, PY)

EVID = os.environ.get("PYVC_EVID") or os.path.join(VERIF, "evidence")


def soft(r):
    """Undecided only because time ran out (not an answer about the code)."""
    return r["status"] == "undecided" and all(
        any(k in u[1] for k in ("time budget", "gave no answer", "path budget",
                                "worker:", "timeout", "canceled"))
        for u in r["undecided"])


def trans_uses(reg, name, acc=None):
    acc = set() if acc is None else acc
    for u in reg[name].uses:
        if u not in acc:
            acc.add(u)
            trans_uses(reg, u, acc)
    return acc


def brief(r):
    out = {"task": r["id"], "status": r["status"],
           "obligations": r["stats"]["obligations"],
           "discharged": r["stats"]["discharged"], "paths": r["stats"]["complete_paths"],
           "wall_s": round(r["wall_s"], 2)}
    if r.get("override"):
        out["configuration"] = r["override"]
    if r["inline"]:
        out["inlined"] = r["inline"]
    if r["free"]:
        out["free_leaves"] = r["free"]
    if r["status"] != "proved":
        out["why"] = [f["obligation"] for f in r["failures"]][:5] or \
            [u[:2] for u in r["undecided"]][:3]
    return out


GRACE = 75


class Decision:
    def __init__(self, pid, tier, jobs, verbose):
        self.pid, self.tier, self.verbose = pid, tier, verbose
        self.jobs = jobs or min(8, os.cpu_count() or 4)
        self.seed = int(os.environ.get("VERIF_SEED") or "1")
        self.reg = registry.load()
        from contracts.props import PROPS
        self.prop = PROPS[pid]
        self.t0 = time.time()
        self.limit = 420 if tier == "quick" else 3000
        self.task_budget = 240 if tier == "quick" else 1500
        self.drive_s = self.prop.get("drive_s", 6) * (1 if tier == "quick" else 25)
        self.bounded_ops = ["%s.%s" % (c, o) for c, ops in self.prop["units"]
                            for o in (ops or self.reg[c].ops) if self.reg[c].ops[o].native]

    def log(self, *a):
        if self.verbose:
            print("[%6.1f]" % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------- driver
    def start_driver(self):
        units = []
        us = [(c, ops or list(self.reg[c].ops)) for c, ops in
              self.prop["units"] + self.prop.get("drive", [])
              if not getattr(self.reg[c], "symbolic", False)]
        for c, ops in us:
            units.append({"contract": c, "ops": ops, "budget": self.drive_s / len(us)})
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        self.drivers = []
        self.driven, self.until = {}, self.t0 + self.limit
        for k in range(self.prop.get("drivers", 4 if self.bounded_ops else 1)):
            seed = self.seed if k == 0 else "%s/%d" % (self.seed, k)
            req = json.dumps({"units": units, "seed": seed})
            self.drivers.append(subprocess.Popen(
                [PY, os.path.join(HERE, "native.py"), "drive", req], stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, text=True, env=env, cwd=VERIF))

    def stop(self):
        """When the native run has found a violation, the proofs get another minute."""
        for d in self.drivers:
            if d.poll() is not None and d not in self.driven:
                try:
                    self.driven[d] = d.communicate()[0]
                except ValueError:
                    self.driven[d] = ""
                if '"violation"' in self.driven[d]:
                    self.until = min(self.until, time.time() + GRACE)
        return self.until

    def join_driver(self):
        res = []
        for d in self.drivers:
            try:
                out = self.driven[d] if d in self.driven else \
                    d.communicate(timeout=self.drive_s + 120)[0]
                res += json.loads(out.strip().splitlines()[-1])
            except (subprocess.TimeoutExpired, ValueError, IndexError) as e:
                d.kill()
                res.append({"error": str(e), "evaluations": 0, "distinct": 0, "samples": []})
        return res

    # ------------------------------------------------------------- proofs
    def verify(self, reqs):
        """reqs: (contract, configuration, inlined).  Verifies every operation of
        each contract; when an operation lets a representation leaf drift, every
        operation is verified again for every value of that leaf."""
        free = {q: set() for q in reqs}
        out = {q: {} for q in reqs}
        todo = list(reqs)
        for _ in range(5):
            tasks, owner = [], {}
            for q in todo:
                c, cfg, inl = q
                ov = {str(k): v for k, v in cfg} if cfg else None
                ts = all_tasks(self.reg, [(c, self.scope(c))], inl, ov, sorted(free[q]))
                for t in ts:
                    old = out[q].get((t[1], t[2]))
                    if old is not None and (set(t[6]) <= set(old["free"]) or
                                            old["status"] != "proved"):
                        continue
                    owner[len(tasks)] = q
                    tasks.append(t)
            res = self.pool.run(tasks, self.task_budget, self.t0 + self.limit, self.stop)
            for i, r in enumerate(res):
                out[owner[i]][(r["op"], r["case"])] = r
            todo = []
            for q in reqs:
                d = set()
                for r in out[q].values():
                    if r["status"] == "proved":
                        d |= set(r["free"])
                if not d <= free[q]:
                    free[q] |= d
                    todo.append(q)
            if not todo:
                break
        return {q: [out[q][k] for k in sorted(out[q])] for q in reqs}

    def scope(self, cname):
        """A class contract is an induction over all its operations; scenario
        contracts are independent of each other."""
        c = self.reg[cname]
        if issubclass(c, ClassContract) or cname not in dict(self.prop["units"]):
            return None
        return dict(self.prop["units"])[cname]

    def prove(self):
        reg = self.reg
        self.pool = Pool(self.jobs)
        mine = {c: set(ops or reg[c].ops) for c, ops in self.prop["units"]}
        top = self.verify([(c, None, ()) for c in mine])
        self.aux = [r for rs in top.values() for r in rs if r["op"] not in mine[r["contract"]]]
        clients = [r for rs in top.values() for r in rs if r["op"] in mine[r["contract"]]]
        self.log("clients", summary(clients), "other operations", summary(self.aux))
        deps = {}
        todo = {tuple(a) for rs in top.values() for r in rs for a in r["assumed"]}
        bad_deps = set()
        while todo:
            res = self.verify([(u, cfg, ()) for u, cfg in sorted(todo, key=repr)])
            nxt = set()
            for (u, cfg, _), rs in res.items():
                deps[(u, cfg)] = rs
                if any(r["status"] != "proved" for r in rs):
                    bad_deps.add(u)
                nxt |= {tuple(a) for r in rs for a in r["assumed"]}
            self.log("deps", sorted(todo, key=repr), {k: summary(v) for k, v in res.items()})
            todo = {x for x in nxt if x not in deps}
        # clients whose proof is not available modularly: verify with bodies inlined
        final, again = [], []
        for c in mine:
            tu = trans_uses(reg, c)
            rs = [r for r in clients if r["contract"] == c]
            if tu and (any(r["status"] != "proved" for r in rs) or tu & bad_deps):
                again.append((c, None, tuple(sorted(tu))))
            else:
                final += rs
        if again:
            res = self.verify(again)
            self.log("inlined", {k: summary(v) for k, v in res.items()})
            for (c, _, _), rs in res.items():
                final += [r for r in rs if r["op"] in mine[c]]
        self.deps = deps
        self.bad_deps = bad_deps
        return final

    # ------------------------------------------------------------- replay
    def confirm(self, bad):
        hs = []
        for r in bad:
            for f in r["failures"][:3] * (not getattr(self.reg[r["contract"]], "symbolic", False)):
                h = history_of(self.reg, r, f)
                if h is not None:
                    hs.append(h)
        if not hs:
            return None
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        req = json.dumps({"histories": hs[:60], "seed": self.seed, "budget": 20})
        try:
            p = subprocess.run([PY, os.path.join(HERE, "native.py"), "batch"], input=req,
                               capture_output=True, text=True, timeout=240, env=env,
                               cwd=VERIF)
            o = json.loads(p.stdout.strip().splitlines()[-1])
        except (subprocess.TimeoutExpired, ValueError, IndexError):
            return None
        return o if o["message"] else None

    # ------------------------------------------------------------- run
    def run(self):
        os.makedirs(EVID, exist_ok=True)
        self.start_driver()
        final = self.prove()
        self.pool.close()
        bad = [r for r in final if r["status"] != "proved"]
        failed = [r for r in bad if r["status"] == "failed"]
        hard = [r for r in bad if r["status"] == "undecided" and not soft(r)]
        for r in bad[:6]:
            self.log("NOT PROVED", r["id"], str(r["failures"][:1])[:300], r["undecided"][:2])
        viol = None
        conf = self.confirm(failed) if failed else None
        drv = self.join_driver()
        dv = next((d["violation"] for d in drv if "violation" in d), None)
        known, knewviol = [], None
        if self.prop.get("extra"):
            known, knewviol = self.prop["extra"](self)
            known = ["KNOWN-FINDING: property=%s %s" % (self.pid, k) for k in known]
            with open(os.path.join(VERIF, "known-findings.txt")) as f:
                listed = {x.strip() for x in f}
            for k in known:
                if k not in listed:
                    knewviol = k
        replay = os.path.join(EVID, "replay-%s.json" % self.pid)
        rel = os.path.relpath(replay, VERIF)
        doc = {"property": self.pid,
               "failed_obligations": [brief(r) for r in bad],
               "verifier_output": [{"task": r["id"], "failures": r["failures"][:3],
                                    "undecided": r["undecided"][:3]} for r in bad][:20],
               "how": "python3-vt /verif/pyvc/native.py replay <this file>"}
        if conf:
            doc.update(history=conf["history"], message=conf["message"],
                       source="counter-model of the failed obligation, replayed on the real code")
            viol = "VIOLATION property=%s replay=%s" % (self.pid, rel)
        elif dv:
            doc.update(history=dv["history"], message=dv["message"],
                       source="native run of the contract beside the real code")
            viol = "VIOLATION property=%s replay=%s" % (self.pid, rel)
        elif knewviol:
            doc.update(message=knewviol, source="native run")
            viol = "VIOLATION property=%s replay=%s" % (self.pid, rel)
        elif [r for r in failed + hard if not self.expected_bounded(r)]:
            viol = "VIOLATION property=%s replay=%s no-failing-input-found" % (self.pid, rel)
        for k in known:
            print(k)
        self.evidence(final, drv, viol)
        if viol:
            with open(replay, "w") as f:
                json.dump(doc, f, indent=1, default=str)
            if doc.get("message"):
                print("  " + doc["message"])
            for r in bad[:4]:
                print("  not discharged: %s %s" % (r["id"], brief(r).get("why")))
            print(viol)
            return 1
        print("%s: held (%d tasks, %d proved, %.1f s)" % (
            self.pid, len(final), len([r for r in final if r["status"] == "proved"]),
            time.time() - self.t0))
        return 0

    def expected_bounded(self, r):
        """Operations registered as out of the verifier's reach (bounded)."""
        return [r["contract"], r["op"]] in [list(x) for x in self.prop.get("bounded", [])]

    # ------------------------------------------------------------- evidence
    def evidence(self, final, drv, viol):
        deps = [r for m in self.deps.values() for r in m]
        allr = final + deps
        ob = sum(r["stats"]["obligations"] for r in allr)
        di = sum(r["stats"]["discharged"] for r in allr)
        unproved = [r for r in final if r["status"] != "proved"]
        called = sorted({c for r in allr for c in r["called"] })
        level = "proof" if final and not unproved and not self.bounded_ops else "other"
        if not final and self.bounded_ops:
            level = "exploration"
        from contracts.props import TRUSTED, ASSUMPTIONS
        cov = {
            "obligations": ob, "discharged": di,
            "checker_cmd": "VERIF_TIER=%s python3-vt check.py %s" % (self.tier, self.pid),
            "trusted_base": TRUSTED,
            "tasks": len(final), "tasks_proved": len(final) - len(unproved),
            "functions_under_contract": called,
            "contracts_assumed_by_callers_and_proved_here": [
                {"contract": u, "configuration": dict(cfg) if cfg else "all",
                 "tasks": len(m), "proved": len([r for r in m if r["status"] == "proved"])}
                for (u, cfg), m in sorted(self.deps.items(), key=repr)],
            "paths": sum(r["stats"]["complete_paths"] for r in allr),
            "backend": "z3 %s (QF_BV, sequences, uninterpreted functions)" % z3v(),
            "solver_queries": sum(r["stats"]["queries"] for r in allr),
            "solver_s": round(sum(r["stats"]["solver_s"] for r in allr), 2),
            "per_task": [brief(r) for r in final],
            "not_discharged": [brief(r) for r in unproved],
            "native_cross_check": {
                "evaluations": sum(d["evaluations"] for d in drv),
                "distinct_histories": sum(d["distinct"] for d in drv),
                "per_contract": [{k: v for k, v in d.items() if k not in ("samples", "violation")}
                                 for d in drv],
                "samples": [s for d in drv for s in d["samples"][:1]],
                "rule": "random histories of contract operations on two interleaved objects, "
                        "real code and contract side by side, observation after every step",
            },
        }
        nat = cov["native_cross_check"]
        if self.bounded_ops:
            cov["bounded_stand_ins"] = {
                "operations": self.bounded_ops,
                "bound": "the random histories executed natively in this run (%d evaluations, "
                         "%d distinct)" % (nat["evaluations"], nat["distinct_histories"])}
            cov["evaluations"] = nat["evaluations"]
            cov["distinct_nontrivial"] = nat["distinct_histories"]
            cov["rule"] = nat["rule"]
            cov["samples"] = nat["samples"]
            cov["explanation"] = (
                "Operations listed under bounded_stand_ins are decided by executing the contract "
                "beside the real code on the stated number of inputs (bounded, not proved); every "
                "other operation is proved.")
        if unproved:
            cov["explanation"] = (
                "Not every obligation was discharged by the verifier in this run; the tasks "
                "listed under not_discharged were only exercised natively (bounded: the "
                "histories counted under native_cross_check).")
        doc = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
               "coverage": cov, "assumptions": ASSUMPTIONS + self.prop.get("assumptions", []),
               "wall_s": round(time.time() - self.t0, 2), "violations": 1 if viol else 0}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(doc, f, indent=1, default=str)


def z3v():
    import z3
    return z3.get_version_string()


def summary(res):
    c = {}
    for r in res:
        c[r["status"]] = c.get(r["status"], 0) + 1
    return c


def run(pid, tier, jobs, verbose):
    return Decision(pid, tier, jobs, verbose).run()
