"""Runs the cases of a check in parallel worker processes and reports.

A check module (``checks/pXX.py``) defines

    ID, TITLE, LEVEL, RULE            strings for the evidence
    ASSUMPTIONS                       list of strings
    plan(tier) -> [(kind, n), ...]    how many cases of which kind
    run(c)                            one case, ``c`` is a Case
    TIMEOUT                           seconds per case (default 60)

Every case is a deterministic function of (seed, check, kind, index).  The
oracle calls ``c.bad(...)`` (or ``c.ok(cond, ...)``) to report a violation.
Any exception out of ``run`` which happens again when the case is run again is
a violation as well: on correct code no case raises.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env


class Violation(Exception):
    def __init__(self, what, **detail):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


class Skip(Exception):
    """The case turned out not to exercise anything."""


class Case:
    def __init__(self, mod, kind, idx, seed, tier, root):
        self.mod, self.kind, self.idx, self.seed, self.tier = mod, kind, idx, seed, tier
        self.r = random.Random("%s/%s/%s/%d" % (seed, mod.ID, kind, idx))
        self._root = root
        self._tmp = None
        self.n = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.evals = 0
        self.log = []

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="c", dir=self._root)
        return self._tmp

    def path(self, name="f.h5"):
        return os.path.join(self.tmp, name)

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # oracle side
    def ev(self, sig=None, n=1):
        """n oracle evaluations were made on something described by sig."""
        self.evals += n
        if sig is not None:
            self.sigs.add(int.from_bytes(hashlib.blake2b(repr(sig).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big"))

    def count(self, key, n=1):
        self.n[key] += n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(str(s)[:400])

    def note(self, s):
        """Kept for the replay file only."""
        self.log.append(str(s)[:2000])
        if len(self.log) > 200:
            del self.log[0]

    def bad(self, what, **detail):
        raise Violation(what, **detail)

    def ok(self, cond, what, **detail):
        if not cond:
            raise Violation(what, **detail)


def _run_case(mod, kind, idx, seed, tier, root):
    c = Case(mod, kind, idx, seed, tier, root)
    random.seed("%s/%s/%s/%d/g" % (seed, mod.ID, kind, idx))
    env.np.random.seed(random.getrandbits(32))
    res = {"kind": kind, "idx": idx, "viol": None}
    try:
        mod.run(c)
    except Skip:
        c.count("skipped")
    except Violation as e:
        res["viol"] = {"what": e.what, "detail": {k: str(v)[:1500] for k, v in e.detail.items()},
                       "log": c.log, "where": traceback.format_exc()[-1500:]}
    except MemoryError:
        res["inconclusive"] = "MemoryError"
    except OSError as e:
        if e.errno in (28, 24, 23, 12):  # ENOSPC, EMFILE, ENFILE, ENOMEM
            res["inconclusive"] = repr(e)
        else:
            res["exc"] = traceback.format_exc()[-3000:]
            res["excname"] = type(e).__name__
            res["log"] = c.log
    except Exception as e:
        res["exc"] = traceback.format_exc()[-3000:]
        res["excname"] = type(e).__name__
        res["log"] = c.log
    finally:
        c.close()
    res.update(evals=c.evals, sigs=c.sigs, n=c.n, samples=c.samples)
    return res


def _worker(conn, modname, seed, tier, root):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    mod = importlib.import_module(modname)
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    while True:
        t = conn.recv()
        if t is None:
            break
        res = _run_case(mod, t[0], t[1], seed, tier, root)
        if res.get("exc"):
            again = _run_case(mod, t[0], t[1], seed, tier, root)
            if again.get("viol"):
                res = again
            elif again.get("exc"):
                res["viol"] = {"what": "unexpected exception", "detail": {"traceback": res["exc"]}, "log": res.get("log", []), "where": ""}
            else:
                res["inconclusive"] = "exception that did not happen again: " + res["exc"][-600:]
        conn.send(res)
    os._exit(0)


class Runner:
    def __init__(self, mod, tier, seed, jobs, budget, scale=1.0):
        self.mod, self.tier, self.seed, self.jobs, self.budget = mod, tier, seed, jobs, budget
        self.scale = scale
        self.evals = 0
        self.sigs = set()
        self.n = collections.Counter()
        self.bykind = collections.Counter()
        self.samples = []
        self.viol = []
        self.inconclusive = []
        self.planned = 0
        self.done = 0

    def _spawn(self):
        a, b = multiprocessing.Pipe()
        p = self.ctx.Process(target=_worker, args=(b, self.mod.__name__, self.seed, self.tier, self.root))
        p.start()
        b.close()
        return [p, a, None, 0.0]

    def _kill(self, w):
        try:
            os.killpg(w[0].pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(w[0].pid, signal.SIGKILL)
            except OSError:
                pass
        w[0].join()
        w[1].close()

    def go(self):
        self.ctx = multiprocessing.get_context("fork")
        tasks = []
        per = [(k, max(1, int(n * self.scale))) for k, n in self.mod.plan(self.tier)]
        # interleave the kinds evenly so that an early stop is balanced
        for k, n in per:
            tasks += [((i + 0.5) / n, k, i) for i in range(n)]
        tasks.sort()
        tasks = [(k, i) for _, k, i in tasks]
        self.planned = len(tasks)
        self.root = tempfile.mkdtemp(prefix="vf-%s-" % self.mod.ID, dir=env.scratch_root())
        timeout = getattr(self.mod, "TIMEOUT", 60)
        if self.tier == "thorough":
            timeout *= 2
        t0 = time.time()
        retry = collections.Counter()
        workers = []
        pos = 0
        queue = collections.deque(tasks)
        try:
            workers = [self._spawn() for _ in range(min(self.jobs, len(tasks)))]
            while True:
                now = time.time()
                stop = now - t0 > self.budget or len(self.viol) >= 3
                for w in workers:
                    if w[2] is None and queue and not stop:
                        w[2], w[3] = queue.popleft(), now
                        w[1].send(w[2])
                busy = [w for w in workers if w[2] is not None]
                if not busy:
                    break
                if len(self.viol) >= 3:
                    break
                ready = multiprocessing.connection.wait([w[1] for w in busy] + [w[0].sentinel for w in busy], timeout=1.0)
                for i, w in enumerate(workers):
                    if w[2] is None:
                        continue
                    if w[1] in ready or w[0].sentinel in ready:
                        try:
                            if not w[1].poll(0):
                                raise EOFError
                            res = w[1].recv()
                        except (EOFError, OSError):
                            w[0].join()
                            code = w[0].exitcode
                            self._retry(w[2], retry, queue, "the process running the case died (exit status %s)" % code)
                            w[1].close()
                            workers[i] = self._spawn()
                            continue
                        self._take(res)
                        w[2] = None
                    elif now - w[3] > timeout:
                        self._kill(w)
                        self._retry(w[2], retry, queue, "the case did not end within %d s" % timeout)
                        workers[i] = self._spawn()
        finally:
            for w in workers:
                self._kill(w)
            shutil.rmtree(self.root, ignore_errors=True)
        self.wall = time.time() - t0

    def _retry(self, task, retry, queue, why):
        retry[task] += 1
        if retry[task] < 2:
            queue.appendleft(task)
        else:
            self.viol.append(dict(kind=task[0], idx=task[1], what=why + ", twice", detail={}, log=[], where=""))

    def _take(self, res):
        self.done += 1
        self.evals += res["evals"]
        self.sigs |= res["sigs"]
        self.n.update(res["n"])
        self.bykind[res["kind"]] += 1
        if res["samples"] and len(self.samples) < 12 and sum(1 for s in self.samples if s["kind"] == res["kind"]) < 3:
            self.samples.append({"kind": res["kind"], "index": res["idx"], "case": res["samples"]})
        if res.get("inconclusive"):
            self.inconclusive.append("%s/%d: %s" % (res["kind"], res["idx"], res["inconclusive"]))
        if res["viol"]:
            v = dict(res["viol"], kind=res["kind"], idx=res["idx"])
            self.viol.append(v)


def known_findings():
    out = []
    fn = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith("known: "):
                # known: property=P01 key=<kind/what> | description
                head, _, desc = line[len("known: "):].partition("|")
                d = dict(x.split("=", 1) for x in head.split() if "=" in x)
                out.append((d.get("property"), d.get("key"), desc.strip()))
    return out


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--case", help="KIND:INDEX, run in this process")
    a = ap.parse_args(argv)
    mod = importlib.import_module("checks." + a.id.lower())
    if a.replay or a.case:
        if a.replay:
            d = json.load(open(a.replay))
            kind, idx, seed, tier = d["kind"], d["index"], d["seed"], d["tier"]
        else:
            kind, idx = a.case.rsplit(":", 1)
            idx, seed, tier = int(idx), a.seed, a.tier
        if hasattr(mod, "worker_init"):
            mod.worker_init()
        root = tempfile.mkdtemp(prefix="vf-replay-", dir=env.scratch_root())
        try:
            res = _run_case(mod, kind, idx, seed, tier, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        v = res["viol"] or (res.get("exc") and {"what": "unexpected exception", "detail": {"traceback": res["exc"]}, "log": res["log"]})
        if v:
            print("case %s:%d violates %s: %s" % (kind, idx, mod.ID, v["what"]))
            for k, x in v["detail"].items():
                print("  %s: %s" % (k, x))
            for x in v["log"]:
                print("  | " + x)
            return 1
        print("case %s:%d is fine (%d evaluations)" % (kind, idx, res["evals"]))
        return 0
    budget = a.budget or (300.0 if a.tier == "quick" else 700.0)
    r = Runner(mod, a.tier, a.seed, a.jobs, budget, a.scale)
    r.go()
    known = known_findings()
    hits, new = {}, []
    for v in r.viol:
        key = v["detail"].get("key")
        m = [k for k in known if k[0] == mod.ID and key is not None and k[1] == key]
        if m:
            hits[m[0]] = 1
        else:
            new.append(v)
    for k in known:
        if k[0] == mod.ID:
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, k[2]))
    cov = {
        "evaluations": r.evals, "distinct_nontrivial": len(r.sigs), "rule": mod.RULE,
        "samples": r.samples or ["none"], "cases_planned": r.planned, "cases_run": r.done,
        "cases_by_kind": dict(sorted(r.bykind.items())), "observed": dict(sorted(r.n.items())),
    }
    if r.inconclusive:
        cov["inconclusive"] = r.inconclusive[:20]
    if hasattr(mod, "finish"):
        for what in mod.finish(r, cov) or ():
            r.inconclusive.append(what)
    ev = {"property": mod.ID, "tier": a.tier, "seed": a.seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(r.wall, 2), "violations": len(new)}
    os.makedirs(os.path.join(env.VERIF, "evidence", "replays"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s %s seed=%d: %d/%d cases, %d evaluations, %d distinct, %.1f s, %d violations%s" % (
        mod.ID, a.tier, a.seed, r.done, r.planned, r.evals, len(r.sigs), r.wall, len(new),
        ", %d inconclusive" % len(r.inconclusive) if r.inconclusive else ""))
    for v in new[:3]:
        fn = os.path.join(env.VERIF, "evidence", "replays", "%s-%s-%d.json" % (mod.ID, v["kind"], v["idx"]))
        with open(fn, "w") as f:
            json.dump({"property": mod.ID, "kind": v["kind"], "index": v["idx"], "seed": a.seed, "tier": a.tier,
                       "what": v["what"], "detail": v["detail"], "log": v["log"], "where": v["where"],
                       "how": "./check %s --replay %s" % (mod.ID, fn)}, f, indent=1, default=str)
            f.write("\n")
        print("  %s:%d %s" % (v["kind"], v["idx"], v["what"][:300]))
        for k, x in list(v["detail"].items())[:6]:
            print("    %s: %s" % (k, str(x)[-600:].replace("\n", "\n      ")))
        print("VIOLATION property=%s replay=%s" % (mod.ID, fn))
    if new:
        return 1
    if r.inconclusive:
        for x in r.inconclusive[:5]:
            print("inconclusive: " + x)
        return 2
    if r.evals == 0 or r.done < min(r.planned, 1 + r.planned // 10):
        print("inconclusive: only %d of %d cases were run" % (r.done, r.planned))
        return 2
    return 0
