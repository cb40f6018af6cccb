"""Check driver: shards the monitored workloads of one property over worker
processes, merges what the monitors observed, writes evidence, reports.

    python -m vk.runner P01 quick
    python -m vk.runner P01 quick --replay replays/P01-....json
"""
from __future__ import annotations

import hashlib
import importlib
import json
import logging
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

ROOT = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / "evidence"
REPLAYS = ROOT / "replays"
KNOWN = ROOT / "known_findings.jsonl"
REPO = "/repo"
CASE_TIMEOUT = 240


class CaseTimeout(BaseException):
    pass


class StopCase(Exception):
    """Raised by a monitor to abandon a case after a violation."""


class Ctx:
    """Collects what the monitors observe in one worker."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts, self.sigs, self.samples = {}, set(), []
        self.violations, self.known_hits = [], []
        self.case_id = None
        self._case_viol = set()
        self.evaluations = 0

    # -- observation ------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def sig(self, *parts):
        raw = json.dumps(parts, sort_keys=True, default=str)
        self.sigs.add(hashlib.sha1(raw.encode()).hexdigest()[:16])

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(json.loads(json.dumps(obj, default=str)))

    # -- verdicts ---------------------------------------------------------
    def check(self, cond, key, msg=""):
        """One oracle evaluation."""
        self.evaluations += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def fail(self, key, msg=""):
        if key in self._case_viol:
            return
        self._case_viol.add(key)
        self.violations.append(
            {"case": self.case_id, "key": key, "msg": str(msg)[:2000]}
        )

    def expect_raises(self, fn, exc, key, msg=""):
        """The code must refuse: fn() must raise one of exc."""
        self.evaluations += 1
        try:
            out = fn()
        except exc:
            return True
        except Exception as e:  # wrong error type is still a refusal
            self.count("refused_with_other_error:" + type(e).__name__)
            return True
        self.fail(key, f"{msg}; accepted, returned {str(out)[:200]}")
        return False


def load_prop(pid):
    return importlib.import_module(f"vk.props.{pid.lower()}")


def case_list(mod, tier):
    """Named deterministic cases first, then numbered random cases."""
    named = [f"n:{name}" for name in sorted(getattr(mod, "NAMED", {}))]
    n = mod.CASES[tier]
    return named + [f"r:{i}" for i in range(n)]


def rng_for(pid, seed, case_id):
    import numpy as np

    h = int.from_bytes(hashlib.sha256(f"{pid}|{case_id}".encode()).digest()[:8], "big")
    return np.random.default_rng([int(seed), h])


def in_repo_tb(exc):
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(REPO + "/kmcpy") for f in frames)


def run_case(mod, ctx, case_id):
    ctx.case_id = case_id
    ctx._case_viol = set()
    rng = rng_for(ctx.prop, ctx.seed, case_id)
    scratch = tempfile.mkdtemp(prefix="vkcase-")
    old = os.getcwd()
    os.chdir(scratch)

    def on_alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    try:
        if case_id.startswith("n:"):
            mod.NAMED[case_id[2:]](ctx, rng)
        else:
            mod.case(ctx, rng, int(case_id[2:]))
    except StopCase:
        pass
    except CaseTimeout:
        ctx.fail("hang", "case did not finish")
    except Exception as exc:
        if in_repo_tb(exc):
            ctx.fail(
                "unexpected-exception:" + type(exc).__name__,
                "".join(traceback.format_exception(exc))[-1800:],
            )
        elif isinstance(exc, (ImportError, AssertionError)) or (
            isinstance(exc, AttributeError) and "NoneType" not in str(exc)
        ):
            raise
        else:  # the monitor could not digest what the code produced
            ctx.fail(
                "malformed-output:" + type(exc).__name__,
                "".join(traceback.format_exception(exc))[-1800:],
            )
    finally:
        signal.alarm(0)
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.count("cases")


def worker(pid, tier, seed, shard, nshards, deadline, out):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    sys.stdout = sys.stderr
    import kmcpy

    assert pathlib.Path(kmcpy.__file__).resolve().is_relative_to(REPO), kmcpy.__file__
    mod = load_prop(pid)
    ctx = Ctx(pid, tier, seed)
    skipped = 0
    for i, cid in enumerate(case_list(mod, tier)):
        if i % nshards != shard:
            continue
        if time.time() > deadline and not cid.startswith("n:"):
            skipped += 1
            continue
        run_case(mod, ctx, cid)
        if len(ctx.violations) > 20:
            break
    json.dump(
        {
            "counts": ctx.counts,
            "sigs": sorted(ctx.sigs),
            "samples": ctx.samples,
            "violations": ctx.violations,
            "evaluations": ctx.evaluations,
            "skipped": skipped,
        },
        open(out, "w"),
    )


def known_findings(pid):
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out[(d["case"], d["key"])] = d["what"]
    return out


def main(argv):
    pid, tier = argv[0], argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in argv:
        rep = json.load(open(argv[argv.index("--replay") + 1]))
        logging.disable(logging.CRITICAL)
        warnings.simplefilter("ignore")
        ctx = Ctx(pid, rep["tier"], rep["seed"])
        run_case(load_prop(pid), ctx, rep["case"])
        print(json.dumps(ctx.violations, indent=1))
        return 1 if ctx.violations else 0

    t0 = time.time()
    mod = load_prop(pid)
    budget = {"quick": 300, "thorough": 700}[tier]
    budget = min(budget, getattr(mod, "BUDGET", {}).get(tier, budget))
    ncases = len(case_list(mod, tier))
    nshards = max(1, min(getattr(mod, "SHARDS", 8), ncases, os.cpu_count() or 8))
    tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"vk-{pid}-"))
    try:
        procs = []
        for s in range(nshards):
            out = tmp / f"s{s}.json"
            log = open(tmp / f"s{s}.log", "w")
            wd = tmp / f"w{s}"
            wd.mkdir()
            env = dict(os.environ, TMPDIR=str(wd))
            procs.append(
                (
                    subprocess.Popen(
                        [sys.executable, "-X", "utf8", "-m", "vk.runner", "--worker", pid, tier,
                         str(seed), str(s), str(nshards), str(t0 + budget), str(out)],
                        stdout=log, stderr=subprocess.STDOUT, cwd=wd, env=env,
                    ),
                    out, tmp / f"s{s}.log",
                )
            )
        results, broken = [], []
        for p, out, log in procs:
            try:
                rc = p.wait(timeout=max(5, t0 + 860 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            if rc == 0 and out.exists():
                results.append(json.load(open(out)))
            else:
                broken.append((rc, log.read_text(errors="replace")[-3000:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    counts, sigs, samples, viols = {}, set(), [], []
    evaluations = skipped = 0
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(r["sigs"])
        samples += r["samples"]
        viols += r["violations"]
        evaluations += r["evaluations"]
        skipped += r["skipped"]

    known = known_findings(pid)
    fresh, hits = [], {}
    for v in viols:
        k = (v["case"], v["key"])
        if k in known:
            hits[k] = known[k]
        else:
            fresh.append(v)
    for k in sorted(hits):
        print(f"KNOWN-FINDING: property={pid} {hits[k]}")

    minimum = getattr(mod, "MIN", {})
    if broken:
        for rc, text in broken:
            print(f"worker failed rc={rc}\n{text}", file=sys.stderr)

    EVIDENCE.mkdir(exist_ok=True)
    level, level_note = mod.LEVEL
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:5] or [{"note": "none"}],
            "observed": counts,
            "cases_planned": ncases,
            "cases_run": counts.get("cases", 0),
            "cases_skipped_for_time": skipped,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    (EVIDENCE / f"{pid}.json").write_text(json.dumps(ev, indent=1))

    if fresh:
        REPLAYS.mkdir(exist_ok=True)
        seen = set()
        for v in fresh:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            path = REPLAYS / f"{pid}-{h}.json"
            path.write_text(
                json.dumps({"property": pid, "tier": tier, "seed": seed, **v}, indent=1)
            )
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  case={v['case']} key={v['key']}: {v['msg'][:600]}")
        return 1
    if broken:
        return 2
    # slow machines skip cases for time; ask of the rest the same density, with slack
    share = 0.6 * (ncases - skipped) / ncases
    for k, v in minimum.items():
        v = int(v * share)
        have = evaluations if k == "evaluations" else counts.get(k, 0)
        if have < v:
            print(f"monitor saw too little: {k}={have} < {v}", file=sys.stderr)
            return 2
    print(
        f"OK property={pid} tier={tier} evaluations={evaluations} "
        f"distinct={len(sigs)} cases={counts.get('cases', 0)} wall={ev['wall_s']}s"
    )
    return 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--worker"]:
        pid, tier, seed, shard, nshards, deadline, out = sys.argv[2:9]
        worker(pid, tier, int(seed), int(shard), int(nshards), float(deadline), out)
        sys.exit(0)
    sys.exit(main(sys.argv[1:]))
