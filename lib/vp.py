"""
Shared machinery for the property checks in /verif/checks.

A check is a set of *subs*.  Each sub is a pair (strategy, run): the strategy
generates JSON-able cases, run(case) executes the case against the code in
/repo and raises on any disagreement with the oracle.  Because a case is plain
JSON, the shrunk failing case *is* the replay file.

Every sub runs in its own forked process (nrpy keeps global registries), with a
private scratch directory (HOME, XDG_CACHE_HOME, TMPDIR and cwd), which is
removed afterwards.  /repo's sources are always compiled from source: stale
.pyc files and NRPy's own on-disk caches cannot stand in for the working tree.
"""

import atexit
import hashlib
import importlib.machinery
import io
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
EXTRA = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


# --------------------------------------------------------------------------
# bootstrap
# --------------------------------------------------------------------------
def _bootstrap():
    """Re-exec under the project's interpreter with a fixed environment."""
    if os.environ.get("VP_BOOT") != "1":
        env = dict(os.environ)
        env.update(
            VP_BOOT="1",
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            LANG="C.UTF-8",
            LC_ALL="C.UTF-8",
            PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            OMP_NUM_THREADS="2",
            OMP_WAIT_POLICY="passive",
        )
        env.pop("PYTHONPATH", None)
        os.execve(PY, [PY] + sys.argv, env)


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def set_data(self, *a, **k):
        pass


def install_repo():
    """Make /repo importable, always compiled from the current sources."""

    def hook(path):
        if path == REPO or path.startswith(REPO + "/"):
            if not os.path.isdir(path):
                raise ImportError
            return importlib.machinery.FileFinder(
                path, (_NoCacheLoader, importlib.machinery.SOURCE_SUFFIXES)
            )
        raise ImportError

    sys.path_hooks.insert(0, hook)
    sys.path.insert(0, REPO)
    if EXTRA not in sys.path:
        sys.path.append(EXTRA)
    sys.path_importer_cache.clear()


if __name__ != "__main__":
    _bootstrap()
    if EXTRA not in sys.path:
        sys.path.append(EXTRA)
    install_repo()
    sys.setrecursionlimit(20000)


# --------------------------------------------------------------------------
# scratch
# --------------------------------------------------------------------------
_SCRATCH = None


def scratch_root():
    global _SCRATCH
    if _SCRATCH is None:
        base = "/dev/shm" if False else "/tmp"
        _SCRATCH = tempfile.mkdtemp(prefix="vp_", dir=base)
        owner = os.getpid()

        def _clean():
            if os.getpid() == owner:
                shutil.rmtree(_SCRATCH, ignore_errors=True)

        atexit.register(_clean)
    return _SCRATCH


_WORK = None


def work():
    """This sub-process's private scratch directory."""
    global _WORK
    if _WORK is None:
        _WORK = tempfile.mkdtemp(prefix="w", dir=scratch_root())
    return _WORK


_COUNT = [0]


def fresh_dir():
    _COUNT[0] += 1
    d = os.path.join(work(), f"d{_COUNT[0]}")
    os.makedirs(d)
    return d


class Violation(Exception):
    """The property is broken.  signature identifies a listable finding."""

    def __init__(self, msg, signature=None):
        super().__init__(msg)
        self.signature = signature


class HarnessError(Exception):
    """The machinery itself failed (missing tool, ...): no verdict."""


class _Stop(KeyboardInterrupt):
    pass


def require(cond, msg, signature=None):
    if not cond:
        raise Violation(msg, signature)


# --------------------------------------------------------------------------
# running sub-processes
# --------------------------------------------------------------------------
def sh(cmd, cwd=None, timeout=120, input=None, env=None, check=False):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(
            cmd,
            cwd=cwd or work(),
            timeout=timeout,
            input=input,
            env=e,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
        )
    except FileNotFoundError as ex:
        raise HarnessError(f"tool missing: {ex}") from ex
    except subprocess.TimeoutExpired as ex:
        raise Violation(f"command did not finish in {timeout}s: {cmd}") from ex
    if check and p.returncode:
        raise Violation(
            f"command failed rc={p.returncode}: {cmd}\n{p.stderr.decode(errors='replace')[-3000:]}"
        )
    return p


def compile_c(src, out=None, flags=(), libs=("-lm",), cc="gcc", cwd=None, extra=()):
    """Compile C text (or a list of paths); a compile error is a Violation."""
    d = cwd or fresh_dir()
    out = out or os.path.join(d, "a.out")
    if isinstance(src, str):
        path = os.path.join(d, "main.c")
        with open(path, "w") as f:
            f.write(src)
        srcs = [path]
    else:
        srcs = list(src)
    cmd = [cc, "-std=gnu99", "-w"] + list(flags) + srcs + list(extra) + ["-o", out] + list(libs)
    p = sh(cmd, cwd=d, timeout=300)
    if p.returncode:
        err = p.stderr.decode(errors="replace")
        raise Violation(f"generated C does not compile:\n{err[:2500]}")
    return out


def run_exe(exe, args=(), timeout=60, input=None, cwd=None, env=None):
    p = sh([exe] + list(args), cwd=cwd or os.path.dirname(exe), timeout=timeout, input=input, env=env)
    if p.returncode < 0 or p.returncode in (134, 139):
        raise Violation(
            f"generated program died rc={p.returncode}: {p.stderr.decode(errors='replace')[-2000:]}"
        )
    return p


# --------------------------------------------------------------------------
# the check driver
# --------------------------------------------------------------------------
class Sub:
    def __init__(self, name, strategy, run, quick, thorough, shards_q, shards_t,
                 budget_q, budget_t, rule, cases=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Check:
    def __init__(self, pid, assumptions=()):
        self.pid = pid
        self.subs = {}
        self.assumptions = list(assumptions)

    def add(self, name, strategy, run, quick=50, thorough=1000, shards=1,
            shards_thorough=None, budget=60, budget_thorough=900, rule=""):
        """strategy: () -> hypothesis strategy of JSON-able cases."""
        self.subs[name] = Sub(name, strategy, run, quick, thorough, shards,
                              shards_thorough or max(shards, 4), budget, budget_thorough, rule)

    def add_list(self, name, cases, run, budget=120, budget_thorough=900, shards=1, rule=""):
        """cases: (tier, rng) -> list of JSON-able cases (an enumerated configuration
        space, each entry carrying seeded random inputs)."""
        self.subs[name] = Sub(name, None, run, 0, 0, shards, shards, budget,
                              budget_thorough, rule, cases=cases)

    # -- known findings
    def known(self):
        path = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(path):
            return {}
        with open(path) as f:
            data = json.load(f)
        return {
            e["signature"]: e
            for e in data.get("findings", [])
            if e["property"] == self.pid and e.get("status") == "open"
        }

    # -- one sub, in a forked child
    def _run_sub(self, sub, shard, nshards, tier, seed, outpath):
        import random

        d = work()
        os.environ.update(
            HOME=d, XDG_CACHE_HOME=os.path.join(d, "cache"), TMPDIR=os.path.join(d, "t")
        )
        os.makedirs(os.environ["TMPDIR"], exist_ok=True)
        tempfile.tempdir = None
        os.chdir(d)
        log = open(os.path.join(d, "log.txt"), "w")
        real_out = os.dup(1)
        os.dup2(log.fileno(), 1)
        if os.environ.get("VP_DEBUG") is None:
            os.dup2(log.fileno(), 2)
        sys.stdout = log

        known = self.known()
        st = dict(
            name=sub.name, shard=shard, evaluations=0, nontrivial=[], samples=[],
            known={}, failure=None, error=None, exhausted=False, skipped=0, labels={},
        )
        budget = sub.budget_q if tier == "quick" else sub.budget_t
        t0 = time.time()
        deadline = t0 + budget
        shrink_limit = 40 if tier == "quick" else 120
        fail = {"first": None, "best": None, "msg": None}
        seen = set()

        def one(case):
            key = json.dumps(case, sort_keys=True, default=str)
            now = time.time()
            if fail["first"] is None and now > deadline:
                st["exhausted"] = True
                raise _Stop()
            if fail["first"] is not None and now > fail["first"] + shrink_limit:
                raise _Stop()
            st["evaluations"] += 1
            try:
                tag = sub.run(case)
            except HarnessError:
                raise
            except (KeyboardInterrupt, MemoryError):
                raise
            except BaseException as ex:
                if type(ex).__module__.startswith("hypothesis") and type(ex).__name__ in (
                    "UnsatisfiedAssumption", "StopTest", "Frozen"
                ):
                    raise
                sig = getattr(ex, "signature", None)
                if sig is not None and sig in known:
                    st["known"][sig] = st["known"].get(sig, 0) + 1
                    tag = getattr(ex, "tag", None)  # the rest of the case was decided as usual
                    if not tag:
                        return
                else:
                    if fail["first"] is None:
                        fail["first"] = time.time()
                    msg = f"{type(ex).__name__}: {ex}"
                    if not isinstance(ex, Violation):
                        msg += "\n" + "".join(traceback.format_exception(ex))[-3000:]
                    if fail["best"] is None or len(key) < len(fail["best"]):
                        fail["best"], fail["msg"], fail["sig"] = key, msg, sig
                    raise
            if tag:
                h = hashlib.sha1(key.encode()).hexdigest()
                if h not in seen:
                    seen.add(h)
                    if len(st["samples"]) < 3 or (len(st["samples"]) < 6 and random.random() < 0.05):
                        s = key if len(key) < 1500 else key[:1500] + "..."
                        st["samples"].append(s)
                if isinstance(tag, str):
                    st["labels"][tag] = st["labels"].get(tag, 0) + 1

        try:
            if sub.cases is not None:
                rng = random.Random(f"{seed}:{sub.name}")
                cases = sub.cases(tier, rng)
                for i, case in enumerate(cases):
                    if i % nshards != shard:
                        continue
                    try:
                        one(json.loads(json.dumps(case)))
                    except _Stop:
                        break
                    except HarnessError:
                        raise
                    except Exception:
                        if fail["best"] is None:
                            raise
                        if time.time() - fail["first"] > 5:
                            break
            else:
                import hypothesis
                from hypothesis import HealthCheck, Phase, given, settings

                n = sub.quick if tier == "quick" else sub.thorough
                per = max(1, n // nshards)
                sseed = int.from_bytes(
                    hashlib.sha256(f"{seed}:{self.pid}:{sub.name}:{shard}".encode()).digest()[:6], "big"
                )
                phases = [Phase.generate, Phase.shrink]

                @hypothesis.seed(sseed)
                @settings(
                    max_examples=per, database=None, deadline=None, phases=phases,
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    report_multiple_bugs=False,
                )
                @given(sub.strategy())
                def test(case):
                    one(case)

                try:
                    test()
                except _Stop:
                    pass
                except HarnessError:
                    raise
                except BaseException:
                    if fail["best"] is None:
                        raise
        except HarnessError as ex:
            st["error"] = f"harness: {ex}"
        except BaseException as ex:
            st["error"] = "".join(traceback.format_exception(ex))[-4000:]
        if fail["best"] is not None:
            st["failure"] = dict(case=json.loads(fail["best"]), msg=fail["msg"], signature=fail.get("sig"))
            st["error"] = None
        st["nontrivial"] = sorted(seen)
        st["wall"] = time.time() - t0
        with open(outpath + ".tmp", "w") as f:
            json.dump(st, f)
        os.rename(outpath + ".tmp", outpath)
        os.dup2(real_out, 1)
        try:
            os.chdir("/")
            if os.environ.get("VP_KEEP") is None:
                shutil.rmtree(d, ignore_errors=True)
        finally:
            os._exit(0)

    def main(self, argv=None):
        import argparse

        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
        ap.add_argument("--only", default=None)
        ap.add_argument("--replay", default=None)
        ap.add_argument("--scale", type=float, default=1.0)
        ap.add_argument("-j", type=int, default=int(os.environ.get("VP_JOBS", "8")))
        ap.add_argument("--no-evidence", action="store_true")
        a = ap.parse_args(argv)
        tier = "thorough" if a.tier == "thorough" else "quick"
        seed = int(os.environ.get("VERIF_SEED") or 1)
        if a.replay:
            return self._replay(a.replay)
        t0 = time.time()
        root = scratch_root()
        import hypothesis  # preload before forking
        import sympy  # noqa

        jobs = []
        for sub in self.subs.values():
            if a.only and sub.name not in a.only.split(","):
                continue
            sub.quick = max(1, int(sub.quick * a.scale))
            sub.thorough = max(1, int(sub.thorough * a.scale))
            n = sub.shards_q if tier == "quick" else sub.shards_t
            for k in range(n):
                jobs.append((sub, k, n))
        # longest budget first
        running, results, pending = {}, [], jobs
        stopped = False
        hard = {}
        while pending or running:
            while pending and len(running) < a.j:
                sub, k, n = pending.pop(0)
                out = os.path.join(root, f"r_{sub.name}_{k}.json")
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                    except OSError:
                        pass
                    global _WORK
                    _WORK = None
                    self._run_sub(sub, k, n, tier, seed, out)
                    os._exit(3)
                running[pid] = (sub, k, out, time.time())
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (sub, k, out, ts) in list(running.items()):
                    lim = (sub.budget_q if tier == "quick" else sub.budget_t) * 1.5 + 150
                    if now - ts > lim:
                        try:
                            os.killpg(p, signal.SIGKILL)
                        except OSError:
                            pass
                        hard[p] = True
                time.sleep(0.02)
                continue
            if pid not in running:
                continue
            sub, k, out, ts = running.pop(pid)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                why = "exceeded its hard time limit" if hard.get(pid) else f"died with status {status}"
                results.append(dict(name=sub.name, shard=k, evaluations=0, nontrivial=[], samples=[],
                                    known={}, failure=None, labels={}, wall=time.time() - ts, exhausted=False,
                                    error=f"sub-process {why}"))
        return self._report(results, tier, seed, time.time() - t0, a)

    def _report(self, results, tier, seed, wall, a):
        known = self.known()
        fails = [r for r in results if r["failure"]]
        errors = [r for r in results if r["error"]]
        hits = {}
        for r in results:
            for s, n in r["known"].items():
                hits[s] = hits.get(s, 0) + n
        sub_stats, samples, total, nontriv = {}, [], 0, set()
        for r in results:
            s = sub_stats.setdefault(
                r["name"], dict(evaluations=0, distinct_nontrivial=0, wall_s=0.0, time_limited=0, labels={},
                                rule=self.subs[r["name"]].rule))
            s["evaluations"] += r["evaluations"]
            s["wall_s"] = round(s["wall_s"] + r.get("wall", 0), 1)
            s["time_limited"] += 1 if r.get("exhausted") else 0
            for l, n in r["labels"].items():
                s["labels"][l] = s["labels"].get(l, 0) + n
            if len(s["labels"]) > 60:
                s["labels"] = dict(list(s["labels"].items())[:60])
            total += r["evaluations"]
            for h in r["nontrivial"]:
                if (r["name"], h) not in nontriv:
                    nontriv.add((r["name"], h))
                    s["distinct_nontrivial"] += 1
            for x in r["samples"][: 2 if r["shard"] == 0 else 0]:
                samples.append({"sub": r["name"], "case": x})
        violations = []
        repdir = os.path.join(VERIF, "evidence", "replays")
        for r in fails:
            os.makedirs(repdir, exist_ok=True)
            body = dict(property=self.pid, sub=r["name"], case=r["failure"]["case"], message=r["failure"]["msg"])
            h = hashlib.sha1(json.dumps(body["case"], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(repdir, f"{self.pid}-{r['name']}-{h}.json")
            with open(path, "w") as f:
                json.dump(body, f, indent=1)
            if all(v["replay"] != path for v in violations):
                violations.append(dict(sub=r["name"], replay=path, message=r["failure"]["msg"][:600]))
        if not a.no_evidence and not a.only:
            ev = dict(
                property=self.pid, tier=tier, seed=seed, level="exploration",
                coverage=dict(
                    evaluations=total,
                    distinct_nontrivial=len(nontriv),
                    rule="A case counts when its run exercised the property (see each sub's rule) and its JSON differs from every other case of the same sub.",
                    samples=samples[:40],
                    subs=sub_stats,
                    known_findings_hit=hits,
                ),
                wall_s=round(wall, 1),
                violations=violations,
                assumptions=self.assumptions,
            )
            if errors:
                ev["coverage"]["harness_errors"] = [dict(sub=r["name"], error=r["error"][-500:]) for r in errors]
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            p = os.path.join(VERIF, "evidence", f"{self.pid}.json")
            with open(p + ".tmp", "w") as f:
                json.dump(ev, f, indent=1)
            os.rename(p + ".tmp", p)
        for s, e in known.items():
            print(f"KNOWN-FINDING: property={self.pid} {e['what']}" + ("" if s in hits else " (not reproduced in this run)"))
        for n, s in sub_stats.items():
            print(f"  {n}: evaluations={s['evaluations']} nontrivial={s['distinct_nontrivial']} cpu={s['wall_s']}s"
                  + (f" time-limited={s['time_limited']}" if s["time_limited"] else ""))
        for v in violations:
            print(f"--- {v['sub']}: {v['message']}")
            print(f"VIOLATION property={self.pid} replay={v['replay']}")
        print(f"{self.pid} {tier} seed={seed}: evaluations={total} nontrivial={len(nontriv)} wall={wall:.1f}s")
        sys.stdout.flush()
        if violations:
            return 1
        if errors:
            for r in errors:
                print(f"HARNESS-ERROR {r['name']}[{r['shard']}]: {r['error'][-3000:]}", file=sys.stderr)
            return 2
        return 0

    def _replay(self, path):
        with open(path) as f:
            body = json.load(f)
        d = work()
        os.environ.update(HOME=d, XDG_CACHE_HOME=os.path.join(d, "cache"), TMPDIR=os.path.join(d, "t"))
        os.makedirs(os.environ["TMPDIR"], exist_ok=True)
        os.chdir(d)
        try:
            self.subs[body["sub"]].run(body["case"])
        except BaseException as ex:
            traceback.print_exc()
            print(f"VIOLATION property={self.pid} replay={path}")
            os.chdir("/")
            return 1
        os.chdir("/")
        print("replay: property held")
        return 0
