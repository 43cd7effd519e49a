"""Drive the facets of one property over several processes, collect evidence"""
import argparse
import importlib
import json
import logging
import mmap
import os
import pickle
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOT = 1 << 18

HANG_CPU = 90.0     # cpu seconds a single case may burn before it is a hang
QUICK_SCALE = 4.0
SHRINK_SECS = 12.0


def _setup_env():
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import viscid
    p = os.path.realpath(viscid.__file__)
    if not p.startswith("/repo/"):
        print("harness error: viscid imported from {0}".format(p))
        sys.exit(2)
    viscid.logger.setLevel(logging.CRITICAL + 1)
    warnings.simplefilter("ignore")


def _load(prop):
    return importlib.import_module("checks." + prop.lower())


def _write_slot(mm, counter, facet, case):
    b = json.dumps([facet, case]).encode()[:SLOT - 24]
    mm[8:24 + len(b)] = struct.pack("<qq", len(b), 0) + b
    mm[0:8] = struct.pack("<q", counter)


def _read_slot(mm):
    n, = struct.unpack("<q", mm[8:16])
    try:
        return json.loads(bytes(mm[24:24 + n]).decode())
    except ValueError:
        return None


def describe_exc(e):
    from vf.core import Violation
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    return "unexpected exception\n" + "".join(tb[-6:])


def run_one(facet, case):
    """Run one case; returns (status, message); status in ok/discard/fail"""
    from vf import core
    core.reset_labels()
    try:
        facet.check(case)
    except core.Discard:
        return "discard", None
    except core.HarnessError:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # noqa: every other exception breaks the property
        if type(e).__module__.startswith("hypothesis"):
            raise
        return "fail", describe_exc(e)
    return "ok", None


def worker(prop, iw, nw, tier, seed, deadline, out, mm, scale):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from vf import core

    mod = _load(prop)
    counter = 0
    results = []
    workdir = tempfile.mkdtemp(prefix="vf-{0}-{1}-".format(prop, iw),
                               dir=os.environ["VF_SCRATCH"])
    os.chdir(workdir)
    for facet in mod.FACETS:
        nworkers = min(nw, facet.workers or nw)
        res = dict(facet=facet.name, evaluations=0, discarded=0, nontrivial=set(),
                   labels={}, samples=[], fail=None, rule=facet.rule, distinct=set(),
                   truncated=False)
        if iw >= nworkers:
            results.append(res)
            continue
        total = facet.quick if tier == "quick" else facet.thorough
        n = max(1, int(round(total * scale / nworkers)))
        state = dict(best=None, tfail=None)

        def execute(case):
            nonlocal counter
            counter += 1
            _write_slot(mm, counter, facet.name, case)
            status, msg = run_one(facet, case)
            lab = core._labels
            res["evaluations"] += 1
            if status == "discard":
                res["discarded"] += 1
                return None
            h = core.case_hash(facet.name, case)
            res["distinct"].add(h)
            if lab["nontrivial"] and h not in res["nontrivial"]:
                res["nontrivial"].add(h)
                if len(res["samples"]) < 3 and res["evaluations"] > 4 + 5 * len(res["samples"]):
                    res["samples"].append(case)
            for l in lab["labels"]:
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if status == "fail":
                size = len(json.dumps(case))
                if state["best"] is None or size <= state["best"][0]:
                    state["best"] = (size, case, msg)
                if state["tfail"] is None:
                    state["tfail"] = time.monotonic()
                return msg
            return None

        t0 = time.monotonic()
        if iw == 0:
            for case in facet.examples:
                msg = execute(case)
                if msg is not None:
                    break

        class Stop(BaseException):
            pass

        class Failed(Exception):
            pass

        if state["best"] is None:
            fseed = core.case_hash(facet.name, [seed, iw]) % (2**63)

            @hypothesis.seed(fseed)
            @settings(max_examples=n, deadline=None, database=None,
                      derandomize=False, report_multiple_bugs=False,
                      print_blob=False, phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=list(HealthCheck))
            @hypothesis.given(facet.gen)
            def test(case):
                now = time.monotonic()
                if state["tfail"] is not None:
                    if now - state["tfail"] > SHRINK_SECS:
                        raise Stop()
                elif now > deadline:
                    res["truncated"] = True
                    raise Stop()
                if execute(case) is not None:
                    raise Failed()

            try:
                test()
            except (Stop, Failed):
                pass
            except core.HarnessError:
                raise
            except BaseException as e:
                if state["best"] is None:
                    raise
        if state["best"] is not None:
            res["fail"] = (state["best"][1], state["best"][2])
        res["secs"] = time.monotonic() - t0
        results.append(res)
    with open(out + ".tmp", "wb") as f:
        pickle.dump(results, f)
    os.replace(out + ".tmp", out)
    os.chdir("/")
    shutil.rmtree(workdir, ignore_errors=True)


def _cpu(pid):
    try:
        with open("/proc/{0}/stat".format(pid)) as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / float(os.sysconf("SC_CLK_TCK"))
    except (OSError, IndexError, ValueError):
        return 0.0


def _die_with_parent():
    """no worker outlives this program"""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, int(signal.SIGKILL), 0, 0, 0)
    except (OSError, AttributeError):
        pass


def _kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass


def write_replay(prop, facet, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    safe = "".join(c if c.isalnum() else "_" for c in facet)
    path = os.path.join(d, "{0}-{1}.json".format(prop, safe))
    with open(path, "w") as f:
        json.dump(dict(property=prop, facet=facet, case=case, message=msg), f, indent=1)
    return path


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.isfile(path):
        return {"known": [], "fixed": []}
    with open(path) as f:
        return json.load(f)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--scale", type=float, default=None)
    ap.add_argument("--facet", default=None)
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    prop = args.prop
    if args.scale is None:
        # the facets' numbers of cases are for about five seconds a check
        args.scale = QUICK_SCALE if args.tier == "quick" else 1.0
    t0 = time.monotonic()
    sys.path.insert(0, VERIF)

    scratch = tempfile.mkdtemp(prefix="vf-scratch-")
    os.environ["VF_SCRATCH"] = scratch
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        rc = _main(args, prop, t0, scratch)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _main(args, prop, t0, scratch):
    _setup_env()
    mod = _load(prop)
    if args.facet:
        mod.FACETS = [f for f in mod.FACETS if args.facet in f.name]

    os.chdir(scratch)
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        facet = [f for f in mod.FACETS + getattr(mod, "KNOWN", []) if f.name == rep["facet"]][0]
        status, msg = run_one(facet, rep["case"])
        print(status)
        if msg:
            print(msg)
            print("VIOLATION property={0} replay={1}".format(prop, args.replay))
            return 1
        return 0

    known = load_known()
    known_hit = []
    pid_known = None
    # known findings: each is one specific case; replayed so that it is still reported
    for k in known["known"]:
        if k["property"] != prop:
            continue
        facet = [f for f in mod.FACETS + getattr(mod, "KNOWN", []) if f.name == k["facet"]]
        if not facet:
            continue
        status, msg = run_one(facet[0], k["case"])
        if status == "fail":
            print("KNOWN-FINDING: property={0} {1}".format(prop, k["what"]))
            known_hit.append(k["what"])

    nw = args.workers
    budget = float(os.environ.get("VF_BUDGET", "420" if args.tier == "quick" else "5400"))
    deadline = time.monotonic() + budget
    procs = {}
    sys.stdout.flush()
    for iw in range(nw):
        mm = mmap.mmap(-1, SLOT)
        out = os.path.join(scratch, "out-{0}.pkl".format(iw))
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.setpgid(0, 0)
                _die_with_parent()
                if not args.verbose:
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                worker(prop, iw, nw, args.tier, args.seed, deadline, out, mm, args.scale)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        procs[pid] = dict(iw=iw, mm=mm, out=out, last=(-1, 0.0))

    failures = []   # (facet, case, msg)
    errors = []
    hard = deadline + 240
    live = dict(procs)
    while live:
        time.sleep(0.02)
        for pid in list(live):
            p = live[pid]
            wpid, status = os.waitpid(pid, os.WNOHANG)
            if wpid == pid:
                del live[pid]
                p["status"] = status
                _kill_group(pid)
                if os.WIFSIGNALED(status):
                    sig = os.WTERMSIG(status)
                    cur = _read_slot(p["mm"])
                    if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE,
                               signal.SIGBUS, signal.SIGILL) and cur:
                        failures.append((cur[0], cur[1], "the process died of signal {0}".format(sig)))
                    else:
                        errors.append("worker {0} died of signal {1}".format(p["iw"], sig))
                elif os.WEXITSTATUS(status) != 0:
                    errors.append("worker {0} exited with {1}".format(p["iw"], os.WEXITSTATUS(status)))
                continue
            cnt, = struct.unpack("<q", p["mm"][0:8])
            cpu = _cpu(pid)
            if cnt != p["last"][0]:
                p["last"] = (cnt, cpu)
            elif cnt > 0 and cpu - p["last"][1] > HANG_CPU:
                cur = _read_slot(p["mm"])
                _kill_group(pid)
                os.waitpid(pid, 0)
                del live[pid]
                if cur:
                    failures.append((cur[0], cur[1], "this case did not finish in {0:g} s of "
                                     "cpu time".format(HANG_CPU)))
                else:
                    errors.append("worker {0} hung".format(p["iw"]))
            elif time.monotonic() > hard:
                _kill_group(pid)
                os.waitpid(pid, 0)
                del live[pid]
                errors.append("worker {0} ran out of time".format(p["iw"]))

    merged = {}
    for p in procs.values():
        if not os.path.isfile(p["out"]):
            continue
        with open(p["out"], "rb") as f:
            for res in pickle.load(f):
                m = merged.setdefault(res["facet"], dict(
                    evaluations=0, discarded=0, nontrivial=set(), distinct=set(), labels={},
                    samples=[], rule=res["rule"], truncated=False, secs=0.0))
                m["evaluations"] += res["evaluations"]
                m["discarded"] += res["discarded"]
                m["nontrivial"] |= res["nontrivial"]
                m["distinct"] |= res["distinct"]
                m["truncated"] |= res["truncated"]
                m["secs"] = max(m["secs"], res.get("secs", 0.0))
                for k, v in res["labels"].items():
                    m["labels"][k] = m["labels"].get(k, 0) + v
                if len(m["samples"]) < 2:
                    m["samples"] += res["samples"][:2 - len(m["samples"])]
                if res["fail"]:
                    failures.append((res["facet"], res["fail"][0], res["fail"][1]))

    best = {}
    for facet, case, msg in failures:
        size = len(json.dumps(case))
        if facet not in best or size < best[facet][0]:
            best[facet] = (size, case, msg)

    wall = time.monotonic() - t0
    samples = []
    for name, m in merged.items():
        for s in m["samples"]:
            samples.append({"facet": name, "case": s})
    evidence = dict(
        property=prop, tier="thorough" if args.tier == "thorough" else "quick",
        seed=args.seed, level="exploration",
        coverage=dict(
            evaluations=sum(m["evaluations"] for m in merged.values()),
            distinct_nontrivial=sum(len(m["nontrivial"]) for m in merged.values()),
            rule=getattr(mod, "RULE", "") or " | ".join(
                "{0}: {1}".format(n, m["rule"]) for n, m in merged.items()),
            samples=samples,
            distinct=sum(len(m["distinct"]) for m in merged.values()),
            discarded=sum(m["discarded"] for m in merged.values()),
            facets={n: dict(evaluations=m["evaluations"], distinct=len(m["distinct"]),
                            distinct_nontrivial=len(m["nontrivial"]),
                            discarded=m["discarded"], classes=dict(sorted(m["labels"].items())),
                            stopped_by_budget=m["truncated"], secs=round(m["secs"], 2),
                            rule=m["rule"])
                    for n, m in merged.items()},
            known_findings_seen=known_hit,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=len(best))
    if not args.no_evidence:
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, prop + ".json"))

    for n, m in merged.items():
        print("{0:28s} evals {1:6d} distinct {2:6d} nontrivial {3:6d} discarded {4:4d} {5:6.1f}s{6}"
              "".format(n, m["evaluations"], len(m["distinct"]), len(m["nontrivial"]),
                        m["discarded"], m["secs"], " (budget)" if m["truncated"] else ""))
        if args.verbose:
            print("      ", dict(sorted(m["labels"].items())))
    print("{0}: {1} cases in {2:.1f} s".format(prop, evidence["coverage"]["evaluations"], wall))
    for e in errors:
        print("harness error:", e)
    for facet, (_, case, msg) in sorted(best.items()):
        path = write_replay(prop, facet, case, msg)
        print("--- {0}/{1}".format(prop, facet))
        print("case:", json.dumps(case)[:1500])
        print(msg)
        print("VIOLATION property={0} replay={1}".format(prop, path))
    sys.stdout.flush()
    if best:
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
