"""Exhaustive exploration driver.

A property module (mc/props/<id>.py) defines

    ID      the property id
    BOUNDS  {tier: text} - the bounds of the spaces explored
    spaces(tier) -> [(name, generator function, run function)]

Each generator enumerates a *finite* space of JSON-able cases completely and in a
deterministic order; `run(case, st)` drives the real opt_einsum code through that
case and raises `Violation` if the property fails on it.  No case is sampled: every
worker walks the whole generator and executes its residue class of the cases.
"""

import faulthandler
import gc
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CASE_TIMEOUT = 60.0  # processor seconds
CASE_WALL = 200.0  # elapsed seconds (a case that waits for ever)
MAX_VIOLATIONS = 3


class Violation(Exception):
    """The property fails on this case."""


class CaseTimeout(BaseException):
    pass


class Stats:
    def __init__(self):
        self.cases = 0
        self.states = 0  # distinct configurations / model states visited
        self.transitions = 0  # operations executed on the implementation (or model moves)
        self.traces = 0  # complete implementation runs compared against the oracle
        self.counters = {}
        self.outcomes = {}
        self.samples = []
        self.cpu = 0.0
        self.longest = 0.0  # processor seconds of the longest case

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def outcome(self, name, value):
        """Record the distinct outcomes seen, to show the exploration reached different behaviours."""
        s = self.outcomes.setdefault(name, set())
        if len(s) < 5000:
            s.add(value)

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def merge(self, o):
        for k in ("cases", "states", "transitions", "traces"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.counters.items():
            self.count(k, v)
        for k, v in o.outcomes.items():
            self.outcomes.setdefault(k, set()).update(v)
        self.samples.extend(o.samples)
        self.cpu += o.cpu
        self.longest = max(self.longest, o.longest)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def check_repo():
    import opt_einsum

    f = os.path.realpath(opt_einsum.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        print(f"wrong copy of opt_einsum imported: {f}")
        sys.exit(2)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as fh:
        data = json.load(fh)
    return [e for e in data["findings"] if e["property"] == pid and e["status"] == "open"]


def canon(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True)


def run_one(space, run, case, st, timeout=CASE_TIMEOUT):
    """Run a single case; returns None or a message describing the violation."""

    def on_alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    oldp = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL)
    signal.setitimer(signal.ITIMER_PROF, timeout)
    t0 = time.process_time()
    try:
        run(case, st)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return f"no answer within {timeout:g} s (does not terminate?)"
    except RecursionError as e:
        return f"unexpected {type(e).__name__}: {e}"
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-4:]]
        return f"unexpected {type(e).__name__}: {str(e)[:300]} at {' < '.join(reversed(where))}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGPROF, oldp)
        st.longest = max(st.longest, time.process_time() - t0)


def worker(mod, tier, w, nw, deadline):
    out = {"stats": {}, "violations": [], "complete": True}
    for name, gen, run in mod.spaces(tier):
        st = Stats()
        out["stats"][name] = st
        t0 = time.time()
        if callable(gen):
            cases = gen()
        else:
            cases = iter(gen)
        for i, case in enumerate(cases):
            if i % nw != w:
                continue
            st.cases += 1
            if st.cases == 1:
                st.sample(case)
            msg = run_one(name, run, case, st)
            st.cpu = time.time() - t0
            if msg is not None:
                out["violations"].append((name, case, msg))
                if len(out["violations"]) >= MAX_VIOLATIONS + 8:
                    out["complete"] = False
                    return out
            if deadline and time.time() > deadline:
                out["complete"] = False
                return out
    return out


def fork_workers(mod, tier, nw, deadline):
    """Fork nw workers, return their pickled results."""
    procs = []
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                res = worker(mod, tier, w, nw, deadline)
                data = pickle.dumps(res)
                with os.fdopen(wfd, "wb") as fh:
                    fh.write(data)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        procs.append((pid, r))
    results = []
    for pid, r in procs:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            results.append(None)
        else:
            results.append(pickle.loads(data))
    return results


def write_replay(pid, space, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "space": space, "case": case, "message": msg}
    h = hashlib.sha1(canon([pid, space, case]).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{pid}-{h}.json")
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1)
    return path


def main(pid, tier, nw=None):
    faulthandler.enable()
    t0 = time.time()
    check_repo()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = importlib.import_module(f"mc.props.{pid.lower()}")
    nw = nw or int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    nw = getattr(mod, "WORKERS", nw)
    limit = float(os.environ.get("MC_DEADLINE", "0")) or (780.0 if tier == "quick" else 0)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    gc.collect()
    gc.freeze()
    results = fork_workers(mod, tier, nw, t0 + limit if limit else None)

    total, spaces, violations, complete = Stats(), {}, [], True
    dead = 0
    for res in results:
        if res is None:
            dead += 1
            continue
        complete &= res["complete"]
        violations += res["violations"]
        for name, st in res["stats"].items():
            spaces.setdefault(name, Stats()).merge(st)
    for st in spaces.values():
        total.merge(st)

    known = load_known(pid)
    known_keys = {canon([e["space"], e["case"]]): e for e in known}
    seen_known, fresh = {}, []
    for name, case, msg in violations:
        k = canon([name, case])
        if k in known_keys:
            seen_known[k] = known_keys[k]
        else:
            fresh.append((name, case, msg))
    for e in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {e['what']}")

    coverage = {
        "states": total.states,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "exhaustive": bool(complete and not dead),
        "samples": total.samples[:6],
        "bounds": mod.BOUNDS[tier] if tier in mod.BOUNDS else mod.BOUNDS["quick"],
        "spaces": {
            n: {
                "cases": s.cases,
                "states": s.states,
                "transitions": s.transitions,
                "traces": s.traces,
                "worker_seconds": round(s.cpu, 1),
                "longest_case_seconds": round(s.longest, 1),
                **({"counters": dict(sorted(s.counters.items()))} if s.counters else {}),
                **({"distinct_outcomes": {k: len(v) for k, v in sorted(s.outcomes.items())}} if s.outcomes else {}),
            }
            for n, s in spaces.items()
        },
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))

    for name, case, msg in fresh[:MAX_VIOLATIONS]:
        p = write_replay(pid, name, case, msg)
        print(f"  [{name}] {canon(case)[:400]}\n    {msg[:1000]}")
        print(f"VIOLATION property={pid} replay={p}")
    print(
        f"{pid} {tier}: {total.cases} cases, {total.states} states, {total.transitions} transitions, "
        f"{total.traces} traces, {len(fresh)} violations, {ev['wall_s']} s (longest case {total.longest:.1f} s), exhaustive={coverage['exhaustive']}"
    )
    sys.stdout.flush()
    if fresh:
        return 1
    if dead:
        print(f"{dead} worker(s) died")
        return 2
    if total.cases == 0 or total.states == 0 or total.traces == 0:
        print("nothing was explored")
        return 2
    for name, minimum in getattr(mod, "MINIMUM", {}).items():
        if name not in spaces or spaces[name].cases < minimum:
            print(f"space {name} was not explored as intended")
            return 2
    return 0


def replay(path):
    check_repo()
    with open(path) as fh:
        body = json.load(fh)
    mod = importlib.import_module(f"mc.props.{body['property'].lower()}")
    if hasattr(mod, "prepare"):
        mod.prepare("quick")
    for tier in ("quick", "thorough"):
        for name, _, run in mod.spaces(tier):
            if name == body["space"]:
                msg = run_one(name, run, body["case"], Stats())
                print("holds" if msg is None else f"VIOLATION property={body['property']} replay={path}\n{msg}")
                return 0 if msg is None else 1
    print("unknown space")
    return 2
