"""Exploration harness: deterministic task lists, a fork pool, evidence, replays and known findings.

A check is a module ``checks/<ID>.py`` (upper case id) with

* ``tasks(tier)``  -> iterable of JSON-able task descriptions, in a deterministic order, simplest first;
* ``work(task, R)`` -> explores one task completely and reports to the recorder ``R``;
* ``META``         -> dict with ``technique``, ``bounds`` (text per tier) and ``assumptions``.

The task list *is* the bounded space: every task is executed (nothing is sampled); if the wall-clock guard
ever stops a run early, the evidence says so (``exhaustive: false``) and lists how many tasks were done.
"""

from __future__ import annotations

import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


class Timeout(Exception):
    """A single exploration step did not come back in time."""


class HarnessError(Exception):
    """The machinery itself is wrong (never reported as a violation)."""


class Recorder:
    """Per-task recorder: coverage counters, violations, samples."""

    def __init__(self, task):
        self.task = task
        self.c = collections.Counter()
        self.bads = []
        self.sample = None
        self.outcomes = set()
        self.current = None

    def state(self, n=1):
        self.c["states"] += n

    def trans(self, n=1):
        self.c["transitions"] += n

    def trace(self, n=1):
        self.c["traces_validated_against_impl"] += n

    def count(self, name, n=1):
        self.c[name] += n

    def outcome(self, o):
        """Remember a distinct observed outcome (vacuity evidence)."""
        if len(self.outcomes) < 64:
            self.outcomes.add(str(o))

    def at(self, what):
        """Name the sub-case being explored, so that an unexpected exception can be identified."""
        self.current = what

    def bad(self, key, msg):
        """Report a violation. ``key`` identifies the specific input (used to match known findings)."""
        if len(self.bads) < 40:
            self.bads.append((str(key), str(msg)[:4000]))
        self.c["violating_cases"] += 1

    def show(self, s):
        if self.sample is None:
            self.sample = s


def _alarm(signum, frame):
    raise Timeout


def _limit():
    return int(os.environ.get("VERIF_TASK_TIMEOUT", "240"))


_MOD = None


def _run_one(item):
    idx, task = item
    rec = Recorder(task)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, _limit())
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _MOD.work(task, rec)
    except HarnessError:
        err = traceback.format_exc()
    except Timeout:
        rec.bad(f"timeout:{rec.current}", f"no answer within {_limit()} s while exploring {rec.current!r}")
    except MemoryError:
        err = traceback.format_exc()
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{Path(f.filename).name}:{f.name}" for f in reversed(tb) if "graphix" in f.filename), "?")
        rec.bad(
            f"exception:{type(e).__name__}:{rec.current}",
            f"unexpected {type(e).__name__} ({where}) while exploring {rec.current!r}: {e}\n"
            + "".join(traceback.format_exception(e)[-6:]),
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return idx, dict(rec.c), rec.bads, rec.sample, list(rec.outcomes), err


def load_known(prop):
    known = {}
    path = VERIF / "KNOWN_FINDINGS.jsonl"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.strip():
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    known[d["key"]] = d
    return known


def _match_known(known, key):
    for k, d in known.items():
        if k == key:
            return d
    return None


def run_check(prop, mod, tier, seed, replay=None, jobs=None):
    global _MOD
    _MOD = mod
    t0 = time.time()
    meta = mod.META
    deadline = t0 + float(os.environ.get("VERIF_DEADLINE", "840" if tier == "quick" else "36000"))
    if replay is not None:
        data = json.loads(Path(replay).read_text())
        tasks = [data["task"]]
    else:
        tasks = list(mod.tasks(tier))
    if not tasks:
        raise HarnessError("no tasks")
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    total = collections.Counter()
    bads = []  # (task index, key, msg)
    samples = []
    outcomes = set()
    errors = []
    done = 0
    capped = False
    items = list(enumerate(tasks))
    max_bads = int(os.environ.get("VERIF_MAX_BADS", "200"))
    if replay is not None or jobs == 1:
        it = map(_run_one, items)
        pool = None
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(min(jobs, len(items)))
        it = pool.imap_unordered(_run_one, items)
    try:
        while True:
            try:
                if pool is not None:
                    res = it.next(timeout=max(0.1, deadline - time.time()))
                else:
                    res = next(it)
            except StopIteration:
                break
            except mp.TimeoutError:
                capped = True
                break
            idx, c, b, sample, outs, err = res
            done += 1
            total.update(c)
            for key, msg in b:
                bads.append((idx, key, msg))
            if sample is not None and (len(samples) < 4 or idx % 97 == 0) and len(samples) < 8:
                samples.append({"task": tasks[idx], "case": sample})
            outcomes.update(outs)
            if err:
                errors.append((idx, err))
                if len(errors) > 5:
                    break
            if len(bads) >= max_bads:
                capped = True
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    wall = time.time() - t0
    if errors:
        for idx, err in errors[:3]:
            print(f"HARNESS-ERROR task={json.dumps(tasks[idx])}\n{err}", file=sys.stderr)
        return 2
    bads.sort(key=lambda x: (x[0], x[1]))
    known = load_known(prop)
    hit_known = {}
    new = []
    for idx, key, msg in bads:
        d = _match_known(known, key)
        if d is not None:
            hit_known.setdefault(key, d)
        else:
            new.append((idx, key, msg))
    cov = {
        "states": total.pop("states", 0),
        "transitions": total.pop("transitions", 0),
        "traces_validated_against_impl": total.pop("traces_validated_against_impl", 0),
        "tasks_total": len(tasks),
        "tasks_explored": done,
        "exhaustive": not capped and done == len(tasks),
        "bounds": meta["bounds"].get(tier, meta["bounds"].get("quick")),
        "distinct_outcomes": len(outcomes),
        "outcome_examples": sorted(outcomes)[:12],
        "samples": sorted(samples, key=lambda s: json.dumps(s["task"]))[:6] or [{"task": tasks[0]}],
    }
    cov.update({k: v for k, v in sorted(total.items())})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": meta.get("level", "model_checking"),
        "coverage": cov,
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if replay is None:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    print(
        f"{prop} [{tier}]: tasks {done}/{len(tasks)} states={cov['states']} transitions={cov['transitions']} "
        f"traces={cov['traces_validated_against_impl']} outcomes={len(outcomes)} wall={wall:.1f}s"
        + (" CAPPED" if capped else "")
    )
    for key, d in sorted(hit_known.items()):
        print(f"KNOWN-FINDING: property={prop} {d['what']} [{key}]")
    if new:
        idx, key, msg = new[0]
        h = hashlib.sha256(f"{json.dumps(tasks[idx], sort_keys=True)}|{key}".encode()).hexdigest()[:12]
        rdir = VERIF / "evidence" / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        rpath = rdir / f"{prop}-{h}.json"
        rpath.write_text(
            json.dumps(
                {
                    "property": prop,
                    "task": tasks[idx],
                    "key": key,
                    "message": msg,
                    "rerun": f"cd /verif && ./run.sh {prop} --replay {rpath}",
                },
                indent=1,
            )
            + "\n"
        )
        for i, k, m in new[:5]:
            print(f"  task#{i} key={k}\n    {m[:1500]}")
        print(f"  ({len(new)} violating cases recorded)")
        print(f"VIOLATION property={prop} replay={rpath}")
        return 1
    if replay is None and not capped and cov["states"] == 0:
        print("HARNESS-ERROR nothing explored", file=sys.stderr)
        return 2
    return 0


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"checks.{a.prop}")
    import graphix

    if not str(Path(graphix.__file__).resolve()).startswith(str(REPO.resolve())):
        print(f"HARNESS-ERROR graphix imported from {graphix.__file__}, not {REPO}", file=sys.stderr)
        return 2
    return run_check(a.prop, mod, a.tier, seed, a.replay, a.jobs)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
