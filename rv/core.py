"""Runtime-monitoring harness: runs the real PyNite code on generated workloads under monitors, merges what the monitors
observed, writes evidence and reports violations.

A check is a function  case(r, mon, i)  registered for a property.  `r` is a random.Random seeded from the property,
VERIF_SEED and the case index, so that every case can be replayed alone.  `mon` records events and verdicts.
"""
import concurrent.futures as cf
import contextlib, hashlib, importlib, io, json, math, os, random, resource, signal, sys, time, traceback
from . import env
import numpy as np

CHECKS = {}


class Check:
    pass


def check(pid, rule, quick, thorough=None, probes=None, needs=(), seconds=60, assumptions=()):
    """Register a case function for property `pid`.  quick/thorough: number of cases. needs: monitor events that must
    have been observed at least once for the run to count.  probes: known-finding probes {mech: fn -> text or None}."""
    def deco(fn):
        c = Check()
        c.pid, c.fn, c.rule, c.quick, c.thorough = pid, fn, rule, quick, thorough or quick * 20
        c.probes, c.needs, c.seconds, c.assumptions = probes or {}, tuple(needs), seconds, list(assumptions)
        CHECKS[pid] = c
        return fn
    return deco


class Skip(Exception):
    pass


class HarnessError(Exception):
    """A defect of the harness itself, never of the code under test."""


class Hang(BaseException):
    pass


class Mon:
    """What one case observed."""

    def __init__(self):
        self.events = {}
        self.maxima = {}
        self.sharp = {}
        self.fails = []
        self.skipped = None
        self.sigs = None
        self.spec = None
        self.notes = {}
        self.hung = False

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def max(self, name, v):
        v = float(v)
        if math.isfinite(v):
            self.maxima[name] = max(self.maxima.get(name, 0.0), v)

    def case(self, spec):
        self.spec = spec

    def sig(self, *parts):
        """Signature of the case: distinct signatures are counted as distinct non-trivial cases."""
        self.sigs = json.dumps(parts, sort_keys=True, default=str)

    def skip(self, reason):
        raise Skip(reason)

    def fail(self, kind, detail):
        if len(self.fails) < 20:
            self.fails.append((kind, str(detail)[:2000]))

    def true(self, kind, cond, detail=""):
        self.ev(kind)
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail)
        return bool(cond)

    def near(self, kind, got, want, tol, detail=""):
        """|got - want| <= tol elementwise (tol scalar or array); NaN never passes."""
        got, want = np.asarray(got, float), np.asarray(want, float)
        self.ev(kind, max(got.size, 1))
        if got.shape != want.shape:
            try:
                want = np.broadcast_to(want, got.shape)
            except ValueError:
                self.fail(kind, f"{detail} shape {got.shape} instead of {want.shape}")
                return False
        err = np.abs(got - want)
        bad = ~(err <= tol)
        with np.errstate(all="ignore"):
            q = err / tol
        if q.size:
            self.max(kind + " error/tolerance", np.nanmax(q) if np.any(np.isfinite(q)) else 0)
            w = np.abs(want)
            k = self.sharp.setdefault(kind, [0, 0])
            k[0] += int(np.count_nonzero(w > 0))
            k[1] += int(np.count_nonzero(w > 100 * np.asarray(tol, float)))
        if np.any(bad):
            ix = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(bad)))
            g, w = np.atleast_1d(got)[ix], np.atleast_1d(want)[ix]
            self.fail(kind, f"{detail() if callable(detail) else detail} at {ix}: got {g!r} expected {w!r} "
                            f"tol {float(np.broadcast_to(tol, np.atleast_1d(got).shape)[ix]):.3g}")
            return False
        return True


@contextlib.contextmanager
def quiet():
    """Swallow everything the code under test prints; yields the buffer."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def _run_case(chk, seed, i):
    mon = Mon()
    r = random.Random(f"{chk.pid}:{seed}:{i}")

    def on_timer(sig, frm):
        mon.hung = True
        raise Hang()
    signal.signal(signal.SIGVTALRM, on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, chk.seconds, 5)
    try:
        with quiet():
            chk.fn(r, mon, i)
    except Skip as e:
        mon.skipped = str(e)
    except Hang:
        pass
    except HarnessError:
        raise
    except Exception as e:
        if not mon.hung:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/PyNite/" in f.filename), "harness")
            mon.fail("unexpected exception", f"{type(e).__name__}: {e} (in {where})\n" + "".join(traceback.format_tb(e.__traceback__)[-6:]))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if mon.hung:
        mon.fails = [("no answer", f"the call did not return within {chk.seconds} s of CPU time")]
    return mon


def _worker(pid, seed, idx):
    chk = CHECKS[pid]
    out = dict(events={}, maxima={}, sharp={}, fails=[], skipped={}, sigs=[], n=0, samples=[])
    for i in idx:
        m = _run_case(chk, seed, i)
        out["n"] += 1
        for k, v in m.events.items():
            out["events"][k] = out["events"].get(k, 0) + v
        for k, v in m.maxima.items():
            out["maxima"][k] = max(out["maxima"].get(k, 0), v)
        for k, v in m.sharp.items():
            o = out["sharp"].setdefault(k, [0, 0])
            o[0] += v[0]
            o[1] += v[1]
        if m.skipped is not None:
            out["skipped"][m.skipped] = out["skipped"].get(m.skipped, 0) + 1
        elif m.events:
            out["sigs"].append(hashlib.sha1((m.sigs or str(i)).encode()).hexdigest()[:16])
            if i < 3:
                out["samples"].append(dict(case=i, events=dict(m.events), spec=_short(m.spec)))
        if m.fails:
            out["fails"].append(dict(case=i, fails=m.fails, spec=m.spec))
    return out


def _short(spec):
    try:
        t = json.dumps(spec, default=str)
        return json.loads(t) if len(t) < 6000 else t[:6000] + "..."
    except Exception:
        return str(spec)[:2000]


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def known_for(pid):
    out = {}
    p = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                w = dict(t.split("=", 1) for t in line.split()[1:3])
                if w.get("property") == pid:
                    out[w["mech"]] = line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ""
    return out


def run(pid, tier, seed, replay=None, jobs=None, n=None, wall=None):
    t0 = time.time()
    env.check_import()
    importlib.import_module(f"rv.checks.{pid.lower()}")
    chk = CHECKS[pid]
    if replay:
        d = json.load(open(replay))
        m = _run_case(chk, d["seed"], d["case"])
        if m.fails:
            for k, t in m.fails[:5]:
                print(f"  {k}: {t}")
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        print(f"case {d['case']} of seed {d['seed']}: no violation", "(skipped: %s)" % m.skipped if m.skipped else "")
        return 0
    n = n or (chk.quick if tier == "quick" else chk.thorough)
    wall = wall or (600 if tier == "quick" else 560)
    jobs = jobs or 8
    agg = dict(events={}, maxima={}, sharp={}, fails=[], skipped={}, sigs=[], n=0, samples=[])
    size = max(1, min(16, n // (jobs * 4) or 1))
    chunks = [list(range(a, min(a + size, n))) for a in range(0, n, size)]
    with cf.ProcessPoolExecutor(jobs, initializer=_init, mp_context=__import__("multiprocessing").get_context("fork")) as ex:
        pend, it = set(), iter(chunks)
        stop = False
        while True:
            while not stop and len(pend) < jobs * 2:
                c = next(it, None)
                if c is None:
                    stop = True
                    break
                pend.add(ex.submit(_worker, pid, seed, c))
            if not pend:
                break
            done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in done:
                o = f.result()
                agg["n"] += o["n"]
                for k, v in o["events"].items():
                    agg["events"][k] = agg["events"].get(k, 0) + v
                for k, v in o["maxima"].items():
                    agg["maxima"][k] = max(agg["maxima"].get(k, 0), v)
                for k, v in o["sharp"].items():
                    a = agg["sharp"].setdefault(k, [0, 0])
                    a[0] += v[0]
                    a[1] += v[1]
                for k, v in o["skipped"].items():
                    agg["skipped"][k] = agg["skipped"].get(k, 0) + v
                agg["fails"] += o["fails"]
                agg["sigs"] += o["sigs"]
                agg["samples"] += o["samples"]
            if len(agg["fails"]) >= 5 or time.time() - t0 > wall:
                stop = True
    # known findings: deterministic probes of the listed defects
    kn = known_for(pid)
    findings = []
    for mech, text in kn.items():
        if mech not in chk.probes:
            raise HarnessError(f"known finding {mech} of {pid} has no probe")
        with quiet():
            still = chk.probes[mech]()
        if still:
            findings.append(mech)
            print(f"KNOWN-FINDING: property={pid} {mech}: {text} [{still}]")
    agg["fails"].sort(key=lambda f: f["case"])
    missing = [k for k in chk.needs if not agg["events"].get(k)]
    ev = dict(property=pid, tier=tier, seed=int(seed), level="exploration", violations=len(agg["fails"]),
              wall_s=round(time.time() - t0, 2), assumptions=chk.assumptions,
              coverage=dict(evaluations=agg["n"], distinct_nontrivial=len(set(agg["sigs"])), rule=chk.rule,
                            monitor_events=dict(sorted(agg["events"].items())),
                            largest_error_over_tolerance={k: float(f"{v:.3g}") for k, v in sorted(agg["maxima"].items())},
                            share_of_nonzero_values_over_100_tolerances={k: round(v[1] / v[0], 3) for k, v in sorted(agg["sharp"].items()) if v[0]},
                            skipped=agg["skipped"], known_findings_still_present=findings,
                            samples=agg["samples"][:3] or ["none"]))
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    tot = sum(agg["events"].values())
    print(f"{pid} {tier} seed={seed}: {agg['n']} cases, {len(set(agg['sigs']))} distinct non-trivial, {sum(agg['skipped'].values())} skipped, "
          f"{tot} monitor events, {time.time() - t0:.1f} s")
    if agg["fails"]:
        for f in agg["fails"][:3]:
            for k, t in f["fails"][:3]:
                print(f"  case {f['case']}: {k}: {t}")
        os.makedirs(os.path.join(env.VERIF, "out"), exist_ok=True)
        f = agg["fails"][0]
        path = os.path.join("out", f"{pid}-{seed}-{f['case']}.json")
        with open(os.path.join(env.VERIF, path), "w") as fh:
            json.dump(dict(property=pid, seed=seed, case=f["case"], fails=f["fails"], spec=f["spec"]), fh, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if missing or not agg["sigs"]:
        print(f"inconclusive: monitors never reached: {missing}")
        return 2
    return 0
