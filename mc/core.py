"""Check runner: exhaustive, deterministic enumeration of cases on forked workers.

A check provides   cases(tier) -> list of plain (repr-able) cases, simplest first
             and   run(case, ctx) -> raises Violation (or anything else) if the property is broken.
Cases are cut into contiguous chunks; each chunk runs in a freshly forked process, so that a violation that
depends on earlier cases of its chunk (leaked module state) is replayable as well: the replay file holds the chunk
prefix.  The reported violation is the one with the smallest case index found.
"""
import hashlib
import json
import os
import pickle
import random
import re
import select
import signal
import sys
import time
import traceback

from . import env

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_TIMEOUT = 150


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class CaseTimeout(BaseException):
    pass


def expect(cond, message, *args, key=None):
    if not cond:
        raise Violation(message % args if args else message, key)


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.states = set()
        self.nontrivial = set()
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.sample = None

    def state(self, key):
        """A distinct state / configuration of the explored space (canonical key)."""
        self.states.add(h64(key))

    def nt(self, key):
        """A distinct non-trivial case, by the check's rule."""
        self.nontrivial.add(h64(key))

    def step(self, n=1):
        """n operations executed on the implementation."""
        self.transitions += n

    def trace(self, n=1):
        """n complete executions compared step by step with the reference model."""
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def seen(self, name, value):
        self.extra.setdefault("set:" + name, set()).add(value)

    def peak(self, name, value):
        self.extra["max:" + name] = max(self.extra.get("max:" + name, value), value)


def merge_extra(a, b):
    for k, v in b.items():
        if k.startswith("set:"):
            a.setdefault(k, set()).update(v)
        elif k.startswith("max:"):
            a[k] = max(a.get(k, v), v)
        else:
            a[k] = a.get(k, 0) + v


def _alarm(signum, frame):
    raise CaseTimeout()


def short_tb(e):
    lines = traceback.format_exception(type(e), e, e.__traceback__)
    return "".join(lines)[-2500:]


def run_case(check, case, ctx, seed):
    """Returns None or (message, key)."""
    import matplotlib.pyplot as plt
    env.quiet_random(seed)
    env._Seam.source = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(check, "case_timeout", CASE_TIMEOUT))
    try:
        check.run(case, ctx)
        return None
    except Violation as v:
        return (str(v), v.key)
    except CaseTimeout:
        return ("no answer within %d s" % getattr(check, "case_timeout", CASE_TIMEOUT), None)
    except (MemoryError, SystemExit):
        raise
    except KeyboardInterrupt as e:
        return ("%s escaped: %s" % (type(e).__name__, short_tb(e)), None)
    except Exception as e:
        return ("%s: %s\n%s" % (type(e).__name__, e, short_tb(e)), None)
    finally:
        signal.alarm(0)
        env._Seam.source = None
        plt.close("all")


def _child(check, cases, lo, hi, tier, seed, known, wfd):
    ctx = Ctx(tier)
    out = {"lo": lo, "done": 0, "bad": None, "known": [], "samples": []}
    for i in range(lo, hi):
        ctx.sample = None
        r = run_case(check, cases[i], ctx, seed)
        out["done"] += 1
        if r is not None:
            if r[1] is not None and r[1] in known:
                out["known"].append((i, r[0], r[1]))
            else:
                out["bad"] = (i, r[0], r[1])
                break
        elif i == lo:
            out["samples"].append((i, ctx.sample))
    out["states"] = ctx.states
    out["nontrivial"] = ctx.nontrivial
    out["transitions"] = ctx.transitions
    out["traces"] = ctx.traces
    out["extra"] = ctx.extra
    data = pickle.dumps(out, protocol=4)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
        f.flush()


class HarnessError(Exception):
    pass


def run_chunks(check, cases, tier, seed, known, budget_s, chunk=None):
    n = len(cases)
    if chunk is None:
        chunk = max(1, min(getattr(check, "chunk", 64), (n + WORKERS * 3 - 1) // (WORKERS * 3)))
    bounds = [(i, min(n, i + chunk)) for i in range(0, n, chunk)]
    if hasattr(check, "heavy"):         # dispatched first, each on its own
        heavy = [i for i in range(n) if check.heavy(cases[i])]
        cut = set(heavy)
        bounds, run = [(i, i + 1) for i in heavy], None
        for i in range(n + 1):
            if i == n or i in cut or (run is not None and i - run >= chunk):
                if run is not None:
                    bounds.append((run, i))
                run = None
            if i < n and i not in cut and run is None:
                run = i
    total = {"states": set(), "nontrivial": set(), "transitions": 0, "traces": 0, "extra": {}, "done": 0,
             "bad": [], "known": [], "samples": [], "capped": False}
    live = {}
    t0 = time.time()
    nxt = 0
    stop = False
    while live or (nxt < len(bounds) and not stop):
        while not stop and nxt < len(bounds) and len(live) < WORKERS:
            if budget_s is not None and time.time() - t0 > budget_s:
                total["capped"] = True
                stop = True
                break
            r, w = os.pipe()
            lo, hi = bounds[nxt]
            nxt += 1
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for fd in [v[0] for v in live.values()]:
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                    _child(check, cases, lo, hi, tier, seed, known, w)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            live[pid] = [r, [], lo, hi]
        if not live:
            break
        fds = {v[0]: pid for pid, v in live.items()}
        ready, _, _ = select.select(list(fds), [], [], 5)
        for fd in ready:
            pid = fds[fd]
            buf = os.read(fd, 1 << 20)
            if buf:
                live[pid][1].append(buf)
                continue
            os.close(fd)
            _, status = os.waitpid(pid, 0)
            lo, hi = live[pid][2:]
            data = b"".join(live[pid][1])
            del live[pid]
            if status != 0 or not data:
                for p, v in live.items():
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                raise HarnessError("worker for cases %d..%d ended with status %d" % (lo, hi, status))
            out = pickle.loads(data)
            total["states"] |= out["states"]
            total["nontrivial"] |= out["nontrivial"]
            total["transitions"] += out["transitions"]
            total["traces"] += out["traces"]
            total["done"] += out["done"]
            merge_extra(total["extra"], out["extra"])
            total["known"] += out["known"]
            total["samples"] += out["samples"]
            if out["bad"] is not None:
                total["bad"].append(out["bad"] + (lo,))
                stop = True
    total["bad"].sort(key=lambda b: b[0])
    return total


def load_known(prop):
    path = os.path.join(env.VERIF, "known_findings.txt")
    res = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def isolated(check, cases, tier, seed):
    """Runs the cases in order in a fresh fork; returns the violation message of the last one or None."""
    t = run_chunks(check, cases, tier, seed, {}, None, chunk=len(cases))
    return t["bad"][0] if t["bad"] else None


def jsonable(x):
    return json.loads(json.dumps(x, default=repr))


def main_check(check, tier, seed):
    prop = check.id
    t0 = time.time()
    known = load_known(prop)
    if hasattr(check, "prepare"):
        check.prepare(tier)
    cases = list(check.cases(tier))
    if not cases:
        raise HarnessError("no cases")
    budget = getattr(check, "budget", {"quick": 600, "thorough": 6 * 3600})[tier]
    total = run_chunks(check, cases, tier, seed, known, budget)
    violations = 0
    replay = None
    if total["bad"]:
        violations = len(total["bad"])
        idx, msg, key, lo = total["bad"][0]
        # shrink: the case alone, else with the prefix of its chunk
        alone = isolated(check, [cases[idx]], tier, seed)
        prefix = [cases[idx]] if alone is not None else cases[lo:idx + 1]
        os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
        replay = os.path.join(env.VERIF, "replays", "%s-%016x.json" % (prop, h64((prop, cases[idx], msg[:80]))))
        with open(replay, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "cases": [repr(c) for c in prefix],
                       "case_index": idx, "message": msg, "key": key,
                       "how": "bash run.sh replay %s" % os.path.relpath(replay, env.VERIF)}, f, indent=1)
    for k in sorted({k[2] for k in total["known"]}):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    # determinism probe: one case replayed twice must cover exactly the same states
    extra = {}
    for k, v in sorted(total["extra"].items()):
        extra[k.split(":", 1)[-1] if ":" in k[:4] else k] = len(v) if isinstance(v, set) else v
    samples = sorted(total["samples"], key=lambda s: s[0])
    pick = [samples[i] for i in sorted({0, len(samples) // 3, 2 * len(samples) // 3, len(samples) - 1})] if samples else []
    coverage = {
        "evaluations": total["done"],
        "distinct_nontrivial": len(total["nontrivial"]),
        "rule": check.rule,
        "states": len(total["states"]),
        "transitions": total["transitions"],
        "traces_validated_against_impl": total["traces"],
        "samples": [{"case_index": i, "case": repr(cases[i])[:1500], "observed": jsonable(s)} for i, s in pick] or
                   [{"case": repr(cases[0])[:1500]}],
        "exhaustive": (not total["capped"]) and not total["bad"] and total["done"] == len(cases),
        "bound": check.bound(tier) if callable(getattr(check, "bound", None)) else getattr(check, "bounds", {}).get(tier, ""),
        "cases_enumerated": len(cases),
        "measured": extra,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
          "assumptions": getattr(check, "assumptions", []), "wall_s": round(time.time() - t0, 3),
          "violations": violations}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(env.VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(env.VERIF, "evidence", prop + ".json"))
    print("%s %s: cases=%d/%d states=%d transitions=%d traces=%d nontrivial=%d wall=%.1fs%s" % (
        prop, tier, total["done"], len(cases), coverage["states"], coverage["transitions"],
        coverage["traces_validated_against_impl"], coverage["distinct_nontrivial"], ev["wall_s"],
        " CAPPED" if total["capped"] else ""))
    if extra:
        print("   " + " ".join("%s=%s" % kv for kv in extra.items()))
    if total["bad"]:
        idx, msg, key, lo = total["bad"][0]
        print("case %d: %s" % (idx, repr(cases[idx])[:1000]))
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


def main_replay(path, registry):
    d = json.load(open(path))
    check = registry(d["property"])
    if hasattr(check, "prepare"):
        check.prepare(d["tier"])
    cases = [eval(c, {"nan": float("nan"), "inf": float("inf")}) for c in d["cases"]]
    res = []
    for _ in range(2):
        bad = isolated(check, cases, d["tier"], d["seed"])
        res.append(None if bad is None else bad[1])
    print("replayed %d case(s) twice: %s" % (len(cases), "same outcome" if (res[0] is None) == (res[1] is None) else "DIVERGED"))
    if res[0] is not None:
        print(res[0])
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("the property held on this replay")
    return 0
