"""Helpers of the drivers, which run the code under test and record what it did (they judge nothing)."""
import ctypes, json, sys, signal, os, random, zlib, resource, traceback
import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class ScenarioTimeout(BaseException):
    pass


def _alarm(*a):
    raise ScenarioTimeout()


signal.signal(signal.SIGALRM, _alarm)


def guard(fn, timeout=20):
    """Returns (outcome, value): outcome is "ok", "exc:<Type>" or "timeout"."""
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        v = fn()
        signal.setitimer(signal.ITIMER_REAL, 0)
        return "ok", v
    except ScenarioTimeout:
        return "timeout", None
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return "exc:" + type(e).__name__, str(e)[:300]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def tok(v):
    """An opaque token for a Python value: distinguishes types as well as values."""
    if v is None:
        return "N"
    if isinstance(v, np.generic):
        return "np." + type(v).__name__ + ":" + repr(v)
    if isinstance(v, bool):
        return "b:" + str(v)
    if isinstance(v, int):
        return "i:" + str(v)
    if isinstance(v, float):
        return "f:" + repr(v)
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (list, tuple)):
        return ("l[" if isinstance(v, list) else "t[") + ",".join(tok(x) for x in v) + "]"
    if isinstance(v, dict):
        return "d{" + ",".join(sorted(tok(k) + "=" + tok(x) for k, x in v.items())) + "}"
    if isinstance(v, np.ndarray):
        return "nd:" + repr(v.tolist())
    return type(v).__name__ + ":" + repr(v)


def untok(s):
    if s == "N":
        return None
    if s[:2] == "t[":       # (flat)
        return tuple(untok(x) for x in s[2:-1].split(",") if x)
    k, _, r = s.partition(":")
    return {"b": lambda: r == "True", "i": lambda: int(r), "f": lambda: float(r), "s": lambda: r}[k]()


def attr_rec(d):
    return {str(k): tok(v) for k, v in d.items()}


RESERVED = ("in", "out", "incoming", "outgoing")


def net_rec(n, rot=True):
    """Projection of a Network through its public accessors."""
    if n is None:
        return {"nodes": ["<none>"], "na": {}, "inc": {}, "rot": []}
    nodes = list(n.nodes)
    r = {"nodes": [tok(x) for x in nodes],
         "na": {tok(x): attr_rec({k: v for k, v in n[x].items() if k not in RESERVED}) for x in nodes},
         "inc": {tok(x): [[tok(s), [attr_rec(a) for a in es]] for s, es in n.in_edges(x).items()] for x in nodes}}
    rs = n.rotation_system
    r["rot"] = [] if rs is None else [[tok(k), [tok(x) for x in v]] for k, v in rs.items()]
    return r


def acts_rec(a):
    return {tok(k): tok(v) for k, v in a.items()}


def fresh(l):
    """An equal label that is another object."""
    return int(str(l)) if type(l) is int else "".join(list(l)) if type(l) is str else l


def given(seed, defaults, **kw):
    """The arguments to pass: some that equal their default are left out."""
    return {k: v for k, v in kw.items() if not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k] and h(str(seed), k) % 2)}


def h(*xs):
    """A deterministic hash, independent of PYTHONHASHSEED."""
    return zlib.crc32(repr(xs).encode())


def main(execute, generate):
    """execute(scenario) -> trace record; generate(rng, tier, args) -> list of scenarios."""
    req = json.load(open(sys.argv[1]))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    try:
        scns = req["scenarios"]
        if scns is None:
            scns = generate(random.Random("%s/%s" % (req["seed"], json.dumps(req["args"], sort_keys=True))), req["tier"], req["args"])
    except Exception:
        traceback.print_exc()
        sys.exit(1)
    n = min(WORKERS, len(scns) // 40) or 1
    if n == 1:
        traces = run_all(execute, scns)
    else:
        # shards of scenarios, each in a process of its own (a scenario's record doesn't depend on the others)
        pids = []
        for w in range(n):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # end with the parent
                    part = run_all(execute, scns[w::n])
                    with open("%s.%d" % (req["out"], w), "w") as f:
                        json.dump(part, f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        rcs = [os.waitpid(p, 0)[1] for p in pids]
        if any(rcs):
            sys.stderr.write("a shard ended with status %s\n" % rcs)
            sys.exit(1)
        traces = [None] * len(scns)
        for w in range(n):
            with open("%s.%d" % (req["out"], w)) as f:
                traces[w::n] = json.load(f)
            os.unlink("%s.%d" % (req["out"], w))
    with open(req["out"], "w") as f:
        json.dump(traces, f)


WORKERS = 6


def run_all(execute, scns):
    traces = []
    for s in scns:
        random.seed(s.get("seed", 0))
        np.random.seed(s.get("seed", 0) % (2 ** 32))
        traces.append(execute(s))
    return traces
