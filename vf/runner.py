"""Runs the sub-checks of one property over generated cases, in parallel."""
import errno
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

from vf.engine import CaseTimeout, D, Reject, Violation, shrink

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 120
# Checks whose cases take milliseconds: a case that computes for most of the time limit hangs.
FAST = {"C01", "C02", "C03", "C04", "C05", "C08", "C09", "C16", "C17", "C18", "C19", "C20", "C25", "C26", "C27"}
HANG_CPU = 60


class Sub:
    """One sub-check: fn(d) generates a case and decides it."""

    def __init__(self, name, fn, quick, thorough=None, ends=False):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.fast = self.ends = ends  # ends: a case that does not end is a violation


class Check:
    def __init__(self, pid, subs, rule, assumptions=(), level="exploration"):
        self.pid, self.subs, self.rule = pid, subs, rule
        self.assumptions, self.level = list(assumptions), level
        for s in subs:
            s.fast = s.ends or pid in FAST


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {
        e["key"]: e["what"] for e in data.get("findings", []) if e["property"] == pid
    }


def _in_repo(tb):
    for fr in traceback.extract_tb(tb):
        fn = fr.filename
        if "wfa_planning_evaluation_framework" in fn or fn.startswith("/repo/"):
            return True
    return False


def _alarm(signum, frame):
    raise CaseTimeout()


class Outcome:
    __slots__ = ("kind", "message", "key", "d", "trace")

    def __init__(self, kind, d, message="", key=None, trace=""):
        self.kind, self.d, self.message, self.key, self.trace = kind, d, message, key, trace


def run_case(sub, d):
    """-> Outcome of kind ok / reject / timeout / violation / error."""
    import numpy as np

    gs = d.seed()
    np.random.seed(gs)
    random.seed(gs)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    cpu = time.process_time()
    try:
        sub.fn(d)
        return Outcome("ok", d)
    except Reject:
        return Outcome("reject", d)
    except CaseTimeout:
        if sub.fast and time.process_time() - cpu > HANG_CPU:
            return Outcome("violation", d, f"the case did not end within {CASE_TIMEOUT} s (usually a few at most)", "hang", traceback.format_exc())
        return Outcome("timeout", d)
    except Violation as v:
        return Outcome("violation", d, str(v), v.key, traceback.format_exc())
    except MemoryError:
        return Outcome("error", d, "MemoryError", trace=traceback.format_exc())
    except Exception as e:
        # A result the check could not work with (missing file, key or element, None, ...) is the
        # fault of the code under test; names and signatures that are gone are the fault of the check.
        unusable = not isinstance(e, (AttributeError, NameError, ImportError, TypeError)) or "NoneType" in str(e)
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN):
            unusable = False
        if unusable or _in_repo(sys.exc_info()[2]):
            return Outcome(
                "violation",
                d,
                f"unexpected {type(e).__name__} from the code under test: {e}",
                f"exception:{type(e).__name__}",
                traceback.format_exc(),
            )
        return Outcome("error", d, f"{type(e).__name__}: {e}", trace=traceback.format_exc())
    finally:
        signal.alarm(0)


def fresh_d(seed, pid, sub, idx, big):
    return D(rng=random.Random(f"{seed}:{pid}:{sub.name}:{idx}"), big=big)


def _worker(check, w, nw, seed, big, counts, deadline, outdir, start, known):
    """Runs the cases idx = w (mod nw) of every sub-check; results in a file."""
    warnings.filterwarnings("ignore")
    st = {
        "subs": {},
        "failures": [],
        "errors": [],
        "known": {},
        "stopped_early": False,
    }
    progress = os.path.join(outdir, f"progress.{w}")

    def save():
        tmp = os.path.join(outdir, f"result.{w}.{start[0]}.{start[1]}.tmp")
        with open(tmp, "w") as f:
            json.dump(st, f, default=str)
        os.rename(tmp, tmp[:-4] + ".json")

    last_save = time.monotonic()
    for si, sub in enumerate(check.subs):
        if si < start[0]:
            continue
        s = st["subs"].setdefault(
            sub.name,
            {
                "evaluations": 0,
                "nontrivial": [],
                "discarded": 0,
                "timeouts": 0,
                "labels": {},
                "samples": [],
            },
        )
        idx = w if si > start[0] else start[1]
        while idx < counts[sub.name]:
            if time.monotonic() > deadline:
                st["stopped_early"] = True
                break
            with open(progress, "w") as f:
                f.write(f"{si} {idx}")
            d = fresh_d(seed, check.pid, sub, idx, big)
            o = run_case(sub, d)
            s["evaluations"] += 1
            if o.kind == "reject":
                s["discarded"] += 1
            elif o.kind == "timeout":
                s["timeouts"] += 1
            elif o.kind == "error":
                st["errors"].append({"sub": sub.name, "idx": idx, "trace": o.trace})
                break
            elif o.kind == "violation" and o.key in known:
                st["known"][o.key] = st["known"].get(o.key, 0) + 1
            elif o.kind == "violation":
                st["failures"].append(
                    _shrunk(check, sub, idx, d.choices, big, o, known, deadline)
                )
                break
            if o.kind in ("ok", "violation") and d.is_nontrivial:
                h = hashlib.sha1(repr(d.choices[1:]).encode()).hexdigest()[:16]
                s["nontrivial"].append(h)
                if len(s["samples"]) < 2:
                    s["samples"].append(_render(d))
            for lab in d.labels:
                s["labels"][lab] = s["labels"].get(lab, 0) + 1
            idx += nw
            if time.monotonic() - last_save > 5:
                save()
                last_save = time.monotonic()
    st["done"] = True
    save()


def _render(d):
    try:
        r = d.shown if d.shown is not None else {"choices": d.choices[:60]}
        text = r if isinstance(r, str) else repr(r)
        return text[:1500]
    except Exception as e:
        return f"<unprintable {e}>"


def _shrunk(check, sub, idx, choices, big, o, known, deadline):
    signature = (o.kind, o.key)

    def run(cand):
        d2 = D(choices=cand, big=big)
        o2 = run_case(sub, d2)
        if o2.kind == "violation" and o2.key not in known and o2.key == signature[1]:
            return d2.choices
        return None

    stop = time.monotonic() + 45
    hang = o.key == "hang"  # not shrunk: every attempt would take the whole time limit
    reproducible = hang or run(choices) is not None
    best = list(choices)
    evals = 0
    if reproducible and not hang:
        best, evals = shrink(run, choices, max_evals=500, deadline=stop)
    d3 = D(choices=best, big=big)
    o3 = o if hang else run_case(sub, d3)
    final = o3 if o3.kind == "violation" else o
    return {
        "sub": sub.name,
        "idx": idx,
        "big": big,
        "choices": best,
        "original_choices": list(choices),
        "reproducible": reproducible,
        "shrink_evaluations": evals,
        "message": final.message,
        "case": _render(d3 if o3.kind == "violation" and not hang else o.d),
        "trace": final.trace,
    }


def load_check(pid):
    return importlib.import_module("vf.checks." + pid.lower()).CHECK


def replay(pid, path):
    check = load_check(pid)
    with open(path) as f:
        r = json.load(f)
    sub = next(s for s in check.subs if s.name == r["sub"])
    o = run_case(sub, D(choices=r["choices"], big=r.get("big", False)))
    print(f"{pid} {sub.name}: {o.kind} {o.message}")
    print("case:", _render(o.d))
    if o.trace:
        print(o.trace)
    if o.kind == "violation":
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0 if o.kind in ("ok", "reject") else 3


def main(pid, scale=1.0, only=None):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    big = tier == "thorough"
    check = load_check(pid)
    if only:
        check.subs = [s for s in check.subs if s.name in only]
    known = known_findings(pid)
    budget = float(os.environ.get("VERIF_BUDGET", "420" if not big else "5400"))
    deadline = t0 + budget
    counts = {
        s.name: max(1, int((s.thorough if big else s.quick) * scale)) for s in check.subs
    }
    nw = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    nw = max(1, min(nw, max(counts.values())))
    scratch = tempfile.mkdtemp(prefix=f"vf_{pid}_")
    os.environ["VF_SCRATCH"] = scratch
    crashes = []
    try:
        results = _run_parallel(
            check, nw, seed, big, counts, deadline, scratch, known, crashes
        )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return _report(check, results, crashes, tier, seed, t0, counts, known, nw)


def _run_parallel(check, nw, seed, big, counts, deadline, scratch, known, crashes):
    procs = {}

    def spawn(w, start):
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                sys.stdin.close()
                _worker(check, w, nw, seed, big, counts, deadline, scratch, start, known)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        procs[pid] = (w, start)

    for w in range(nw):
        spawn(w, (0, w))
    hard = deadline + 240
    while procs:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.monotonic() > hard:
                for p in procs:
                    os.kill(p, signal.SIGKILL)
                crashes.append("hard deadline: workers killed")
                break
            time.sleep(0.05)
            continue
        if pid not in procs:
            continue
        w, start = procs.pop(pid)
        if status != 0:
            # the interpreter itself died (PyPy and C extensions): skip that case
            try:
                with open(os.path.join(scratch, f"progress.{w}")) as f:
                    si, idx = map(int, f.read().split())
            except Exception:
                si, idx = 0, w
            crashes.append(f"worker {w} ended with status {status} at {si}:{idx}")
            if len(crashes) <= 12:
                spawn(w, (si, idx + nw))
    out = []
    for name in sorted(os.listdir(scratch)):
        if name.startswith("result.") and name.endswith(".json"):
            with open(os.path.join(scratch, name)) as f:
                out.append(json.load(f))
    return out


def _report(check, results, crashes, tier, seed, t0, counts, known, nw):
    subs, failures, errors, known_hits = {}, [], [], {}
    stopped = False
    for r in results:
        failures += r["failures"]
        errors += r["errors"]
        stopped = stopped or r["stopped_early"]
        for k, n in r["known"].items():
            known_hits[k] = known_hits.get(k, 0) + n
        for name, s in r["subs"].items():
            t = subs.setdefault(
                name,
                {
                    "evaluations": 0,
                    "nontrivial": set(),
                    "discarded": 0,
                    "timeouts": 0,
                    "labels": {},
                    "samples": [],
                },
            )
            t["evaluations"] += s["evaluations"]
            t["discarded"] += s["discarded"]
            t["timeouts"] += s["timeouts"]
            t["nontrivial"].update(s["nontrivial"])
            t["samples"] += s["samples"]
            for k, n in s["labels"].items():
                t["labels"][k] = t["labels"].get(k, 0) + n
    samples = []
    for name, s in subs.items():
        for x in s["samples"][:2]:
            samples.append({"sub_check": name, "case": x})
    total = sum(s["evaluations"] for s in subs.values())
    distinct = sum(len(s["nontrivial"]) for s in subs.values())
    failures.sort(key=lambda f: (f["idx"], f["sub"]))
    evidence = {
        "property": check.pid,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": distinct,
            "rule": check.rule,
            "samples": samples[:14],
            "sub_checks": {
                n: {
                    "cases": s["evaluations"],
                    "nontrivial": len(s["nontrivial"]),
                    "discarded": s["discarded"],
                    "timed_out": s["timeouts"],
                    "labels": dict(sorted(s["labels"].items())),
                }
                for n, s in subs.items()
            },
            "stopped_early": stopped,
            "workers": nw,
            "interpreter_crashes": crashes,
            "known_finding_cases": known_hits,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", f"{check.pid}.json")
    tmp = path + f".{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(tmp, path)

    for key, what in known.items():
        print(f"KNOWN-FINDING: property={check.pid} {what}")
    print(
        f"{check.pid}: {total} cases, {distinct} distinct non-trivial, "
        f"{len(failures)} failures, {evidence['wall_s']} s"
        + (", stopped early" if stopped else "")
        + (f", {len(crashes)} interpreter crashes" if crashes else "")
    )
    if failures:
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for f in failures:
            if f["sub"] in seen:
                continue
            seen.add(f["sub"])
            rp = os.path.join(rdir, f"{check.pid}-{f['sub']}.json")
            with open(rp, "w") as fh:
                json.dump({"property": check.pid, "seed": seed, **f}, fh, indent=1, default=str)
            print(f"--- {f['sub']} (case {f['idx']}, reproducible={f['reproducible']})")
            print("    " + f["message"][:2000])
            print("    case: " + str(f["case"])[:2000])
            print(f"VIOLATION property={check.pid} replay={rp}")
        return 1
    if errors:
        for e in errors[:3]:
            print(f"HARNESS ERROR in {e['sub']} case {e['idx']}:\n{e['trace']}", file=sys.stderr)
        return 3
    missing = [n for n in counts if not subs.get(n, {}).get("evaluations")]
    if len(crashes) > 12 or total == 0 or (missing and not stopped):
        print(f"ERROR: sub-checks not run: {missing}; crashes: {crashes}", file=sys.stderr)
        return 3
    if distinct == 0:
        print("ERROR: vacuous run, no non-trivial case", file=sys.stderr)
        return 3
    return 0
