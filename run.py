"""Runner: `run.py PID [--tier quick|thorough] [--replay FILE] [--jobs N]`.

Exit 0: the property held on everything explored. Exit 1: violation. Otherwise: error.
"""
import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)

from vp import env  # noqa

env.setup_environment()

KNOWN = os.path.join(VERIF, "known_findings.json")


def declared(pid):
    """The sub-checks of a property. Does not import the code under test."""
    return importlib.import_module(f"checks.{pid.lower()}").CHECK


def load_check(pid):
    env.setup_hypothesis()
    env.load_sut()
    return importlib.import_module(f"checks.{pid.lower()}").CHECK


def known_for(pid):
    with open(KNOWN) as f:
        data = json.load(f)
    return [x for x in data["findings"] if x["property"] == pid]


def corpus_for(pid):
    d = os.path.join(VERIF, "corpus", pid)
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".json")]


def save_replay(pid, sub, case, msg):
    from vp.core import dumps, key_of

    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{sub}-{key_of(case)}.json")
    with open(path, "w") as f:
        f.write(dumps(dict(property=pid, sub=sub, case=case, message=msg), indent=1))
    return os.path.relpath(path, VERIF)


def worker(pid, spec_path, out_path):
    """Run a list of jobs, and write the result."""
    from vp.core import HarnessError, Job, Known, Violation, dumps, execute, run_sub

    with open(spec_path) as f:
        spec = json.load(f)
    check = load_check(pid)
    job = Job()
    listed = {x["id"] for x in known_for(pid)}
    hb_path = out_path + ".hb"

    def heartbeat(sub, case):
        with open(hb_path, "w") as f:
            f.write(dumps(dict(sub=sub.name, case=case)))

    res = dict(failure=None, known_seen=[], times={})

    def unlisted(fid):
        return fid not in listed

    # Wrap: known findings which are not listed are violations.
    def guard(sub):
        run = sub.run

        def wrapped(case):
            try:
                return run(case)
            except Known as e:
                if unlisted(e.fid):
                    raise Violation(f"{e.fid}: {e}")
                raise

        sub.run = wrapped
        return sub

    subs = {k: guard(v) for k, v in check.subs.items()}

    if "replay" in spec:
        sub = subs[spec["replay"]["sub"]]
        heartbeat(sub, spec["replay"]["case"])
        try:
            execute(sub, spec["replay"]["case"])
        except Violation as e:
            res["failure"] = dict(
                sub=sub.name, case=spec["replay"]["case"], message=str(e)
            )
        except Known as e:
            res["known_seen"].append(e.fid)
    for item in spec.get("corpus", []):
        if item["sub"] not in subs:
            raise HarnessError(f"unknown sub-check {item['sub']} in the corpus")
        sub = subs[item["sub"]]
        heartbeat(sub, item["case"])
        job.evaluations += 1
        t0 = time.time()
        try:
            r = execute(sub, item["case"])
            job.add(sub, item["case"], r)
        except Violation as e:
            res["failure"] = dict(sub=sub.name, case=item["case"], message=str(e))
            break
        except Known as e:
            res["known_seen"].append(e.fid)
        res["times"]["corpus"] = res["times"].get("corpus", 0) + time.time() - t0
    if res["failure"] is None:
        for item in spec.get("subs", []):
            sub = subs[item["sub"]]
            t0 = time.time()
            fail = run_sub(sub, item["n"], item["seed"], job, heartbeat, item["shard"])
            res["times"][sub.name] = time.time() - t0
            if fail is not None:
                res["failure"] = dict(sub=sub.name, case=fail[0], message=fail[1])
                break
    res["job"] = job.to_dict()
    with open(out_path + ".tmp", "w") as f:
        f.write(dumps(res))
    os.replace(out_path + ".tmp", out_path)


class Pool:
    """Run workers in parallel, each in its own session."""

    def __init__(self, pid, jobs, timeout):
        self.pid, self.jobs = pid, jobs
        self.deadline = time.time() + timeout
        self.dir = tempfile.mkdtemp(prefix="vp_run_")
        self.procs = []

    def start(self, i, spec):
        sp, op = os.path.join(self.dir, f"{i}.spec"), os.path.join(self.dir, f"{i}.out")
        with open(sp, "w") as f:
            json.dump(spec, f)
        log = open(os.path.join(self.dir, f"{i}.log"), "w")
        p = subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), self.pid, "--worker", sp, op],
            stdout=log,
            stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL,
            cwd=self.dir,
            start_new_session=True,
        )
        return dict(i=i, p=p, out=op, spec=spec, log=log.name)

    def kill(self):
        for w in self.procs:
            if w["p"].poll() is None:
                try:
                    os.killpg(w["p"].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                w["p"].wait()

    def run(self, specs, stop_on_failure=True):
        queue = list(enumerate(specs))
        done = []
        try:
            while queue or self.procs:
                while queue and len(self.procs) < self.jobs:
                    self.procs.append(self.start(*queue.pop(0)))
                time.sleep(0.05)
                for w in list(self.procs):
                    rc = w["p"].poll()
                    if rc is None:
                        continue
                    self.procs.remove(w)
                    res = None
                    if rc == 0 and os.path.exists(w["out"]):
                        with open(w["out"]) as f:
                            res = json.load(f)
                    w.update(rc=rc, res=res)
                    done.append(w)
                    if stop_on_failure and res and res["failure"]:
                        return done
                if time.time() > self.deadline:
                    for w in self.procs:
                        w.update(rc="timeout", res=None)
                        done.append(w)
                    return done
        finally:
            self.kill()
        return done

    def cleanup(self):
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)


def tail(path, n=3000):
    with open(path, errors="replace") as f:
        return f.read()[-n:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--worker", nargs=2)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VP_JOBS", "8")))
    ap.add_argument("--only", help="only these sub-checks (comma-separated)")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.worker:
        return worker(a.pid, *a.worker)

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    timeout = float(
        os.environ.get("VP_TIMEOUT_S", "840" if a.tier == "quick" else "10800")
    )
    pool = Pool(a.pid, a.jobs, timeout)

    try:
        if a.replay:
            with open(a.replay) as f:
                item = json.load(f)
            specs = [dict(replay=dict(sub=item["sub"], case=item["case"]))]
        else:
            from vp.core import seed_of
            specs = []
            corpus = []
            for path in corpus_for(a.pid):
                with open(path) as f:
                    corpus.append(json.load(f))
            known = known_for(a.pid)
            for x in known:
                corpus.append(dict(sub=x["sub"], case=x["case"]))
            groups = {}
            for s in declared(a.pid).subs.values():
                if a.only and s.name not in a.only.split(","):
                    continue
                n = s.quick if a.tier == "quick" else s.thorough
                n = max(1, int(n * a.scale))
                shards = s.shards if a.tier == "quick" else 8
                shards = max(1, min(shards, n))
                per = -(-n // shards)
                for k in range(shards):
                    item = dict(
                        sub=s.name, n=per, seed=seed_of(seed, a.pid, s.name, k), shard=(k, shards)
                    )
                    g = (s.group or s.name, k)
                    groups.setdefault(g, []).append(item)
            specs = [dict(subs=v) for v in groups.values()]
            if corpus:
                # Put the corpus with the first job, unless it is big.
                if len(corpus) > 3 or not specs:
                    specs.insert(0, dict(corpus=corpus))
                else:
                    specs[0]["corpus"] = corpus
        done = pool.run(specs)
        return finish(a, pool, specs, done, seed, t0)
    finally:
        pool.kill()
        pool.cleanup()


def finish(a, pool, specs, done, seed, t0):
    failure, errors = None, []
    for w in done:
        if w["res"] and w["res"]["failure"] and failure is None:
            failure = w["res"]["failure"]
    if failure is None:
        for w in done:
            if w["res"] is None:
                hb = w["out"] + ".hb"
                if isinstance(w["rc"], int) and w["rc"] < 0 and os.path.exists(hb):
                    # Died from a signal: see whether one case alone does that.
                    with open(hb) as f:
                        item = json.load(f)
                    again = pool.run([dict(replay=item)] * 2)
                    if all(
                        x["res"] is None and isinstance(x["rc"], int) and x["rc"] in (-11, -6, -8, -4)
                        for x in again
                    ):
                        failure = dict(
                            **item, message=f"the process died from signal {-w['rc']}"
                        )
                        break
                errors.append(f"worker ended with {w['rc']}:\n{tail(w['log'])}")

    agg = dict(evaluations=0, nontrivial=set(), classes={}, samples=[], stats={})
    known_count, known_seen, times = {}, set(), {}
    for w in done:
        if not w["res"]:
            continue
        j = w["res"].get("job") or {}
        agg["evaluations"] += j.get("evaluations", 0)
        agg["nontrivial"] |= set(j.get("nontrivial", []))
        for k, v in j.get("classes", {}).items():
            agg["classes"][k] = agg["classes"].get(k, 0) + v
        agg["samples"] += j.get("samples", [])
        for k, v in j.get("stats", {}).items():
            agg["stats"][k] = max(agg["stats"].get(k, v), v)
        for k, v in j.get("known", {}).items():
            known_count[k] = known_count.get(k, 0) + v
        known_seen |= set(w["res"]["known_seen"])
        for k, v in w["res"]["times"].items():
            times[k] = round(times.get(k, 0) + v, 2)

    for x in known_for(a.pid):
        if x["id"] in known_seen or x["id"] in known_count:
            print(f"KNOWN-FINDING: property={a.pid} {x['id']}: {x['what']}")

    code = 0
    if failure is not None:
        path = save_replay(a.pid, failure["sub"], failure["case"], failure["message"])
        print(failure["message"][:4000])
        print(f"minimal case: {json.dumps(failure['case'])[:3000]}")
        print(f"VIOLATION property={a.pid} replay={path}")
        code = 1
    elif errors:
        for e in errors:
            print("ERROR", e, file=sys.stderr)
        code = 2

    if not a.replay:
        check = declared(a.pid)
        # Spread the samples over the sub-checks.
        samples, count = [], {}
        for s in agg["samples"]:
            if count.get(s["sub"], 0) < 2:
                count[s["sub"]] = count.get(s["sub"], 0) + 1
                samples.append(s)
        ev = dict(
            property=a.pid,
            tier=a.tier if a.tier in ("quick", "thorough") else "quick",
            seed=seed,
            level="exploration",
            coverage=dict(
                evaluations=agg["evaluations"],
                distinct_nontrivial=len(agg["nontrivial"]),
                rule=" | ".join(f"{s.name}: {s.rule}" for s in check.subs.values()),
                samples=samples[:16],
                classes=dict(sorted(agg["classes"].items())),
                worst=dict(sorted(agg["stats"].items())),
                excluded_known_findings=known_count,
                seconds_per_sub=times,
                processes=len(done),
                planned_processes=len(specs),
            ),
            assumptions=check.assumptions,
            wall_s=round(time.time() - t0, 2),
            violations=1 if failure else 0,
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{a.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(
            f"{a.pid}: {agg['evaluations']} cases, {len(agg['nontrivial'])} distinct "
            f"non-trivial, {time.time() - t0:.1f} s, exit {code}"
        )
    elif code == 0:
        print("replay: no violation")
    return code


if __name__ == "__main__":
    sys.exit(main())
