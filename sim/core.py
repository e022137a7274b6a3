"""Driver of the deterministic simulations: seeds, processes, minimisation, replay, evidence."""

import argparse
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CAP = {"quick": 300.0, "thorough": 840.0}
RUN_TIMEOUT = 60.0


def seed_of(base: int, prop: str, index: int) -> int:
    h = hashlib.sha256(f"{base}|{prop}|{index}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def canonical(obj) -> str:
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


def digest(obj) -> str:
    return hashlib.sha256(canonical(obj).encode()).hexdigest()[:16]


# --------------------------------------------------------------------------------------
# What one simulated run reports
# --------------------------------------------------------------------------------------


class Violation(Exception):
    def __init__(self, kind: str, msg: str):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class Invalid(Exception):
    """The plan makes no sense (only arises while minimising)."""


class Run:
    """Collects the history, the counters and the coverage keys of one simulated run."""

    def __init__(self):
        self.now = 0.0  # simulated time
        self.faults: dict[str, int] = {}
        self.cover: set[str] = set()
        self.real: set[str] = set()
        self.checks = 0
        self._log = hashlib.sha256()

    def fault(self, kind: str, n: int = 1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def reach(self, *keys: str):
        self.cover.update(keys)

    def log(self, *items):
        self._log.update(repr(items).encode())

    def check(self, ok, kind: str, msg):
        self.checks += 1
        if not ok:
            raise Violation(kind, msg() if callable(msg) else msg)

    def result(self, status="ok", **extra):
        return {
            "status": status,
            "now": self.now,
            "faults": self.faults,
            "cover": sorted(self.cover),
            "real": sorted(self.real),
            "checks": self.checks,
            "log": self._log.hexdigest()[:16],
            **extra,
        }


# --------------------------------------------------------------------------------------
# Executing a plan (in a forked child of the pristine image)
# --------------------------------------------------------------------------------------


def load(prop: str):
    return importlib.import_module(f"sim.props.{prop.lower()}")


def short_tb(exc: BaseException) -> str:
    frames = traceback.extract_tb(exc.__traceback__)
    return " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(frames[-4:]))


def _reexecuted(plan):
    # the plan passes through JSON exactly as the replay file does
    return json.loads(json.dumps(plan))


def execute(mod, plan) -> dict:
    run = Run()
    plan = _reexecuted(plan)
    try:
        for before in plan.pop("past", []):  # what the process did earlier
            run.fault("earlier-use")
            try:
                mod.execute(before, run)
            except Invalid:
                pass
        mod.execute(plan, run)
    except Violation as v:
        return run.result("violation", kind=v.kind, msg=v.msg[:2000])
    except Invalid as e:
        return run.result("invalid", msg=str(e))
    except MemoryError:
        return run.result("harness", msg="MemoryError in " + traceback.format_exc()[-1500:])
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/src/komm/" in f.filename]
        site = where[-1].name if where else tb[-1].name
        return run.result(
            "violation",
            kind=f"unexpected-exception:{type(e).__name__}",
            msg=f"{type(e).__name__}: {e} at {site} [{short_tb(e)}]"[:2000],
        )
    return run.result("ok")


def in_child(fn, timeout: float) -> dict:
    """Run fn() in a forked child; returns its dict, or a status of 'timeout' / 'crash'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            data = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BrokenPipeError:  # the driver has already stopped the search
            pass
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks, start = [], time.monotonic()
    deadline = start + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        ready = left > 0 and select.select([r], [], [], left)[0]
        if not ready:
            if time.monotonic() - start < 8 * timeout and starved(pid, 0.7 * timeout):
                deadline = time.monotonic() + timeout / 4
                continue
            timed_out = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        for q in tree(pid):
            for sig_to in (os.killpg, os.kill):
                try:
                    sig_to(q, signal.SIGKILL)
                except OSError:
                    pass
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {"status": "timeout"}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"status": "crash", "signal": os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0,
                "exit": os.WEXITSTATUS(st) if os.WIFEXITED(st) else None}


def stat(path):
    """The fields of a /proc stat file after the name (state, parent, ...); None if it is gone."""
    try:
        with open(path) as f:
            return f.read().rpartition(")")[2].split()
    except OSError:
        return None


def tree(pid):
    """The process and its descendants."""
    kids = {}
    for d in os.listdir("/proc"):
        v = stat(f"/proc/{d}/stat") if d.isdigit() else None
        if v:
            kids.setdefault(int(v[1]), []).append(int(d))
    out = [pid]
    for q in out:
        out += kids.get(q, [])
    return out


def starved(pid, enough):
    """Has the process (with its descendants) been kept off the processors, rather than stuck or looping?"""

    def look():
        used, ready = 0, False
        for q in tree(pid):
            v = stat(f"/proc/{q}/stat")
            if v:
                used += sum(map(int, v[11:15]))
            try:
                tasks = os.listdir(f"/proc/{q}/task")
            except OSError:
                continue
            for t in tasks:
                v = stat(f"/proc/{q}/task/{t}/stat")
                ready = ready or bool(v) and v[0] in "RD"
        return used / os.sysconf("SC_CLK_TCK"), ready

    for _ in range(5):
        used, ready = look()
        if used >= enough:
            return False
        if ready:
            return True
        time.sleep(0.1)
    return False


def nested(fn, timeout=45.0) -> dict:
    """fn() in a fresh fork of the caller; errors of the library come back as violations."""

    def safe():
        try:
            return fn()
        except Exception as e:
            return {"status": "exc", "kind": f"unexpected-exception:{type(e).__name__}",
                    "msg": f"{type(e).__name__}: {e} [{short_tb(e)}]"}

    r = in_child(safe, timeout)
    if r["status"] == "exc":
        raise Violation(r["kind"], r["msg"])
    if r["status"] == "timeout":
        raise Violation("no-progress", f"no answer within {timeout} s")
    if r["status"] == "crash":
        raise Violation("process-crash", f"interpreter died: {r}")
    return r


EMPTY = {"now": 0.0, "faults": {}, "cover": [], "real": [], "checks": 0, "log": ""}


def run_plan(mod, plan, timeout=RUN_TIMEOUT) -> dict:
    res = in_child(lambda: execute(mod, plan), timeout)
    if res["status"] in ("timeout", "crash"):
        again = in_child(lambda: execute(mod, plan), 2 * timeout)
        if again["status"] == "timeout":
            return {**EMPTY, "status": "violation", "kind": "no-progress",
                    "msg": f"run made no progress within {2 * timeout:.0f} s (step budget exceeded twice)"}
        if again["status"] == "crash":
            if again.get("signal") == signal.SIGKILL or again.get("exit") == 3:
                return {**EMPTY, "status": "harness", "msg": f"child ended: {again}"}
            return {**EMPTY, "status": "violation", "kind": "process-crash",
                    "msg": f"interpreter died: {again}"}
        return again
    return res


def _leaves(x, path=()):
    """Scalars of a plan by path, long lists left out."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from _leaves(v, path + (k,))
    elif isinstance(x, list):
        if len(x) <= 6:
            for i, v in enumerate(x):
                yield from _leaves(v, path + (i,))
    else:
        yield path, x


def past(mod, plan, seed, tier):
    """Plans executed earlier in the same process: of many random ones, those most like the given plan."""
    rng = random.Random(seed)
    mine = set(_leaves(plan))
    others = [mod.generate(random.Random(rng.getrandbits(64)), tier) for _ in range(rng.choice([1, 20, 300]))]
    others.sort(key=lambda o: sum(leaf in mine for leaf in _leaves(o)), reverse=True)
    return others[:rng.choice([1, 1, 2])]


def one(mod, prop, base, index, tier):
    rng = random.Random(seed_of(base, prop, index))
    plan = mod.generate(rng, tier)
    if getattr(mod, "PAST", True) and random.Random(seed_of(base, prop, index) ^ 1).random() < 0.15:
        plan["past"] = past(mod, plan, seed_of(base, prop, index) ^ 2, tier)
    plan["property"] = prop
    plan["seed"] = [base, index]
    return plan


# --------------------------------------------------------------------------------------
# Pristine image
# --------------------------------------------------------------------------------------


def pristine():
    warnings.simplefilter("ignore")
    sys.path.insert(0, os.path.join(REPO, "src"))
    import numpy  # noqa: F401
    from sim import locks

    locks.install()
    import komm

    here = os.path.realpath(os.path.dirname(komm.__file__))
    if not here.startswith(os.path.realpath(REPO)):
        raise RuntimeError(f"komm imported from {here}, not from {REPO}")
    import pkgutil

    for m in pkgutil.walk_packages(komm.__path__, "komm."):
        importlib.import_module(m.name)
    numpy.seterr(all="ignore")
    gc.collect()
    from sim import points

    points.collect(here)
    import _weakrefset

    import tqdm

    # progress bars of all threads share one lock (the simulated kind) and one weak set
    tqdm.tqdm.set_lock(threading.RLock())
    for m in (tqdm.std, _weakrefset):
        points.collect(m.__file__, points.HOST)
    gc.freeze()


# --------------------------------------------------------------------------------------
# Search
# --------------------------------------------------------------------------------------


def worker(mod, prop, base, tier, w, nworkers, total, deadline, out_fd):
    out = os.fdopen(out_fd, "w")
    for i in range(w, total, nworkers):
        if time.monotonic() > deadline:
            out.write(json.dumps({"i": i, "skipped": True}) + "\n")
            continue
        try:
            plan = one(mod, prop, base, i, tier)
        except Exception:
            out.write(json.dumps({"i": i, "res": {**EMPTY, "status": "harness",
                      "msg": "generate: " + traceback.format_exc()[-1500:]}}) + "\n")
            out.flush()
            continue
        res = run_plan(mod, plan)
        rec = {"i": i, "digest": digest({k: v for k, v in plan.items() if k != "seed"}), "res": res}
        if res["status"] in ("violation", "harness") or i < 2:
            rec["plan"] = plan
        out.write(json.dumps(rec) + "\n")
        out.flush()
        if res["status"] == "violation":
            break
    out.close()
    os._exit(0)


def search(mod, prop, base, tier, total, nworkers, deadline):
    pipes, pids = [], []
    for w in range(nworkers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in pipes:
                    os.close(fd)
                worker(mod, prop, base, tier, w, nworkers, total, deadline, wr)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(4)
        os.close(wr)
        pipes.append(r)
        pids.append(pid)
    bufs = {fd: b"" for fd in pipes}
    records, stop_at = [], None
    live = set(pipes)
    while live:
        ready, _, _ = select.select(list(live), [], [], 5.0)
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if not b:
                live.discard(fd)
                os.close(fd)
                continue
            bufs[fd] += b
            *lines, bufs[fd] = bufs[fd].split(b"\n")
            for ln in lines:
                rec = json.loads(ln)
                records.append(rec)
                if rec.get("res", {}).get("status") == "violation" and stop_at is None:
                    stop_at = time.monotonic()
        if stop_at is not None and time.monotonic() - stop_at > 0.2:
            break
    for pid in pids:
        if stop_at is not None:
            subprocess.run(["pkill", "-KILL", "-P", str(pid)], check=False)
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    bad_exit = False
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        if st != 0 and stop_at is None:
            bad_exit = True
    return sorted(records, key=lambda r: r["i"]), bad_exit


# --------------------------------------------------------------------------------------
# Minimisation
# --------------------------------------------------------------------------------------


def _paths(plan, pattern):
    """All concrete paths matching a pattern such as 'frames.*.flips'."""
    res = [((), plan)]
    for part in pattern.split("."):
        nxt = []
        for path, node in res:
            if part == "*":
                if isinstance(node, list):
                    nxt += [(path + (i,), x) for i, x in enumerate(node)]
                elif isinstance(node, dict):
                    nxt += [(path + (k,), node[k]) for k in node]
            elif isinstance(node, dict) and part in node:
                nxt.append((path + (part,), node[part]))
        res = nxt
    return [p for p, _ in res]


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _with(plan, path, value):
    plan = json.loads(json.dumps(plan))
    node = plan
    for p in path[:-1]:
        node = node[p]
    node[path[-1]] = value
    return plan


def minimise(mod, plan, kind, budget):
    end = time.monotonic() + budget
    tried = 0

    def fails(p):
        nonlocal tried
        tried += 1
        r = in_child(lambda: execute(mod, p), 20.0)
        return r["status"] == "violation" and r["kind"] == kind

    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for pattern in ["past", *getattr(mod, "SHRINK", [])]:
            for path in _paths(plan, pattern):
                try:
                    value = _get(plan, path)
                except (KeyError, IndexError, TypeError):
                    continue
                if isinstance(value, list):
                    size = max(1, len(value) // 2)
                    while size >= 1 and time.monotonic() < end:
                        j, hit = 0, False
                        while j < len(value) and time.monotonic() < end:
                            cand_v = value[:j] + value[j + size:]
                            cand = _with(plan, path, cand_v)
                            if len(cand_v) < len(value) and fails(cand):
                                plan, value, changed, hit = cand, cand_v, True, True
                            else:
                                j += size
                        if size == 1 and not hit:
                            break
                        size = max(1, size // 2) if size > 1 else (1 if hit else 0)
                elif isinstance(value, bool):
                    if value and fails(_with(plan, path, False)):
                        plan, changed = _with(plan, path, False), True
                elif isinstance(value, int):
                    for c in (0, 1, value // 2, value - 1):
                        if 0 <= c < value and time.monotonic() < end:
                            cand = _with(plan, path, c)
                            if fails(cand):
                                plan, changed = cand, True
                                break
    return plan, tried


def minimise_safely(mod, plan, kind, budget):
    try:
        return minimise(mod, plan, kind, budget)
    except Exception:
        traceback.print_exc()
        return plan, 0


# --------------------------------------------------------------------------------------
# Known findings
# --------------------------------------------------------------------------------------


def check_known(mod, prop):
    """Dedicated probes of findings that are recorded, not repaired.  Each probe runs exact inputs:
    the recorded wrong answer -> KNOWN-FINDING line; the right answer -> nothing;
    any other answer -> violation."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return [], None
    with open(path) as f:
        entries = [e for e in json.load(f)["findings"] if e["property"] == prop]
    lines = []
    from sim import known

    for e in entries:
        res = in_child(lambda: known.probe(e), 120.0)
        if res.get("status") == "known":
            lines.append(f"KNOWN-FINDING: property={prop} {e['what']}")
        elif res.get("status") != "fixed":
            return lines, {"entry": e["id"], "res": res}
    return lines, None


# --------------------------------------------------------------------------------------
# Main
# --------------------------------------------------------------------------------------


def write_evidence(prop, tier, base, mod, records, wall, violations, extra):
    done = [r for r in records if "res" in r]
    ok = [r for r in done if r["res"]["status"] == "ok"]
    faults, cover, real, now, checks = {}, set(), set(), 0.0, 0
    for r in done:
        for k, v in r["res"]["faults"].items():
            faults[k] = faults.get(k, 0) + v
        cover.update(r["res"]["cover"])
        real.update(r["res"]["real"])
        now += r["res"]["now"]
        checks += r["res"]["checks"]
    nontrivial = {r["digest"] for r in done if r["res"]["faults"] and "digest" in r}
    groups = {}
    for c in cover:
        g = c.split(":", 1)[0]
        groups[g] = groups.get(g, 0) + 1
    hours = max(wall, 1e-9) / 3600
    ev = {
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE + " A run counts as non-trivial when at least one fault, cut, interleaving or "
            "other injected event actually fired in it; runs are distinct when their plans differ.",
            "samples": [r["plan"] for r in records if "plan" in r][:2],
            "runs_ok": len(ok),
            "runs_skipped_by_time_cap": sum(1 for r in records if r.get("skipped")),
            "runs_per_hour": round(len(done) / hours),
            "seeds_per_hour": round(len(done) / hours),
            "simulated_time": {"total": round(now, 3), "unit": mod.TIME_UNIT},
            "oracle_checks": checks,
            "faults_fired": dict(sorted(faults.items())),
            "distinct_states": {"total": len(cover), "measure": "distinct coverage keys reached", "by_kind": groups},
            "probes_at_zero": [p for p in getattr(mod, "PROBES", []) if not any(c.startswith(p) for c in cover)
                               and p not in faults],
            "components_real": sorted(real),
            "components_stub": list(mod.STUBS),
            **extra,
        },
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    for s in ev["coverage"]["samples"]:
        if len(canonical(s)) > 20000:
            s.clear()
            s["note"] = "plan too long to print; regenerate it from the seed"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    tmp = path + f".tmp{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)


def report(prop, mod, plan, res, tag):
    """Minimise, store and replay a violation; prints the VIOLATION line."""
    kind = res["kind"]
    small, tried = plan, 0
    if kind not in ("no-progress", "process-crash"):
        small, tried = minimise_safely(mod, plan, kind, 60.0)
    final = run_plan(mod, small)
    if final["status"] != "violation":
        small, final = plan, res
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    # a minimised plan that does not replay in a fresh process is replaced by the original one
    for small, final in ((small, final), (plan, res)):
        doc = {"property": prop, "kind": final["kind"], "message": final["msg"], "plan": small,
               "original_seed": plan.get("seed"), "minimisation_runs": tried}
        path = os.path.join(VERIF, "replays", f"{prop}-{tag}-{digest(small)}.json")
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        rp = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path],
                            capture_output=True, text=True, timeout=300)
        same = rp.returncode == 1 and "VIOLATION" in rp.stdout
        if same or small is plan:
            break
    print(f"seed={plan.get('seed')} kind={final['kind']}\n  {final['msg']}")
    print(f"  minimised with {tried} runs; replay in a fresh process: {'reproduced' if same else 'NOT reproduced'}")
    if not same:
        print(rp.stdout[-500:], rp.stderr[-500:])
        return 2
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


def main(argv) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--selftest", type=int)
    ap.add_argument("--index", type=int, help="print the plan and result of one run")
    a = ap.parse_args(argv)
    base = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    pristine()

    if a.replay:
        with open(a.replay) as f:
            doc = json.load(f)
        mod = load(doc["property"])
        if doc.get("known_probe"):
            _, bad = check_known(mod, doc["property"])
            if bad:
                print(f"VIOLATION property={doc['property']} replay={a.replay}")
                return 1
            return 0
        res = run_plan(mod, doc["plan"])
        print(json.dumps({k: res.get(k) for k in ("status", "kind", "msg", "log")}, indent=1))
        if res["status"] == "violation":
            print(f"VIOLATION property={doc['property']} replay={a.replay}")
            return 1
        return 0 if res["status"] == "ok" else 2

    prop = a.prop.upper()
    mod = load(prop)
    if a.index is not None:
        plan = one(mod, prop, base, a.index, a.tier)
        print(json.dumps(plan)[:4000])
        print(json.dumps(run_plan(mod, plan), indent=1))
        return 0
    if a.selftest:
        return selftest(mod, prop, base, a.tier, a.selftest, a.workers)

    total = a.runs or mod.RUNS[a.tier]
    print(f"property={prop} tier={a.tier} VERIF_SEED={base} runs={total} workers={a.workers}", flush=True)
    known_lines, known_bad = check_known(mod, prop)
    for ln in known_lines:
        print(ln)
    if known_bad:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}-known-{known_bad['entry']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "known_probe": known_bad["entry"], "detail": known_bad}, f, indent=1)
        write_evidence(prop, a.tier, base, mod, [], time.monotonic() - t0, 1, {})
        print(f"recorded finding {known_bad['entry']} now fails differently: {known_bad['res']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    deadline = t0 + CAP[a.tier]
    records, bad_exit = search(mod, prop, base, a.tier, total, a.workers, deadline)
    bad = [r for r in records if r.get("res", {}).get("status") == "violation"]
    harness = [r for r in records if r.get("res", {}).get("status") in ("harness", "invalid")]
    done = [r for r in records if "res" in r]
    extra = {"known_findings_reported": len(known_lines)}
    # determinism recheck on a sample of the runs just made
    if not bad and not harness and done:
        sample = random.Random(base).sample(done, min(6, len(done)))
        for r in sample:
            res = run_plan(mod, one(mod, prop, base, r["i"], a.tier))
            if res["log"] != r["res"]["log"] or res["status"] != r["res"]["status"]:
                print(f"non-deterministic run {r['i']}: {res['log']} vs {r['res']['log']}")
                harness.append(r)
        extra["determinism_rechecks"] = len(sample)
    wall = time.monotonic() - t0
    write_evidence(prop, a.tier, base, mod, records, wall, len(bad), extra)
    if bad:
        r = bad[0]
        code = report(prop, mod, r["plan"], r["res"], f"{a.tier}{r['i']}")
        return code
    if harness:
        print("HARNESS ERROR", harness[0].get("i"), harness[0]["res"].get("msg"))
        return 2
    if bad_exit or not done:
        print("HARNESS ERROR: a worker ended abnormally")
        return 2
    skipped = sum(1 for r in records if r.get("skipped"))
    print(f"held on {len(done)} runs ({skipped} skipped by the time cap), {wall:.1f} s")
    return 0


def selftest(mod, prop, base, tier, n, workers):
    """Same seeds, two passes with different worker counts: event logs must be identical."""
    far = time.monotonic() + 3600
    recs1, _ = search(mod, prop, base, tier, n, workers, far)
    recs2, _ = search(mod, prop, base, tier, n, max(1, workers // 2 - 1), far)
    a = {r["i"]: (r["res"]["status"], r["res"]["log"]) for r in recs1}
    b = {r["i"]: (r["res"]["status"], r["res"]["log"]) for r in recs2}
    diff = [i for i in a if a[i] != b.get(i)]
    h = hashlib.sha256(repr(sorted(a.items())).encode()).hexdigest()[:16]
    print(f"{prop}: {len(a)} seeds twice, {len(diff)} differ; log digest {h}; statuses "
          f"{sorted(set(s for s, _ in a.values()))}")
    return 0 if not diff else 2
