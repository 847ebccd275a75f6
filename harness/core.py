"""Runs a check: model check the specification, derive cases from it, run them on the real code,
and let TLC judge what was observed.  The oracle is always the TLA+ specification."""
import hashlib
import itertools
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("FS_REPO", "/repo")
SRC = os.path.join(REPO, "src")
WORKROOT = os.path.join(VERIF, ".work")
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")


class Machinery(Exception):
    """The check itself failed, nothing is known about the property."""


def setup_imports():
    sys.dont_write_bytecode = True
    shim = os.path.join(VERIF, "harness", "shim")
    for p in (SRC, shim):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, shim)
    import fs_shim  # noqa
    sys.path.insert(0, SRC)
    import fedservice  # noqa
    if not fedservice.__file__.startswith(SRC):
        raise Machinery(f"fedservice imported from {fedservice.__file__}, not from {SRC}")
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


# ------------------------------------------------------------------------------------------ TLC

class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.completed = "Model checking completed. No error has been found." in out
        # Could not be evaluated, as opposed to out of time or memory
        self.stuck = not self.completed and rc != -9 and "Error:" in out and "OutOfMemory" not in out and "StackOverflow" not in out \
            and "Parsing or semantic analysis failed" not in out
        self.marks = {}
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"') and line.endswith('"') and len(line) > 5:
                try:
                    line = json.loads(line)
                except ValueError:
                    continue
                tag, _, rest = line.partition(" ")
                if rest.startswith("{") or rest.startswith("["):
                    try:
                        self.marks.setdefault(tag, []).append(json.loads(rest))
                    except ValueError:
                        pass


def tlc(module, cfg=None, env=None, workers=4, timeout=600, args=(), work=None, heap="4g"):
    cfg = cfg or module + ".cfg"
    meta = os.path.join(work, f"tlc-{module}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS,
           f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={meta}", "tlc2.TLC", "-noTE",
           "-metadir", os.path.join(meta, "states"), "-workers", str(workers),
           "-config", os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module + ".tla")]
    _env = dict(os.environ)
    _env.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env,
                           timeout=timeout, text=True, errors="replace", cwd=meta)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as err:
        out = err.stdout or ""
        if isinstance(out, bytes):
            out = out.decode("utf-8", "replace")
        rc = -9
    shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(out, rc, time.time() - t0)


# ------------------------------------------------------------------------------------- checking

def from_repo(tb) -> bool:
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


_EXEC = None


class Hang(BaseException):
    """The code under test did not come back"""


CASE_SECONDS = 40
_HANGS = multiprocessing.get_context("fork").Value("i", 0)


def _alarm(*a):
    raise Hang()


def unusable(err):
    """The driver asked the code something and could not read the answer: nothing where there should be something, something
    left out, or not what it should be made of. That is not so when the driver does not know how to ask (something was renamed)."""
    if isinstance(err, (KeyError, IndexError)):
        return True
    if isinstance(err, (TypeError, ValueError)):
        return "argument" not in str(err) or "of type" in str(err)
    return isinstance(err, AttributeError) and err.obj is None


def _exec_one(case):
    if _HANGS.value >= 6:
        return ("skipped", None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        return ("ok", _EXEC(case))
    except Hang as err:
        _HANGS.value += 1
        if from_repo(err.__traceback__):
            return ("hang", f"no result after {CASE_SECONDS} s\n{traceback.format_exc(limit=-6)}")
        return ("error", traceback.format_exc())
    except RecursionError as err:
        return ("crash", f"RecursionError\n{traceback.format_exc(limit=-6)}")
    except Exception as err:
        if from_repo(err.__traceback__):
            return ("crash", f"{type(err).__name__}: {err}\n{traceback.format_exc(limit=-6)}")
        if unusable(err):
            return ("unusable", f"{type(err).__name__}: {err}\n{traceback.format_exc(limit=-6)}")
        return ("error", traceback.format_exc())
    finally:
        signal.alarm(0)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.work = os.path.join(WORKROOT, f"{pid}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        self.rng = random.Random(f"{seed}-{pid}")
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.validated = 0
        self.samples = []
        self.coverage = {}
        self.bad = []  # (case, what)
        self.failed = []  # what the driver could not do
        self.known = []  # messages
        self.assumptions = []
        self.budget = 60 if self.quick else 780

    def left(self):
        return self.budget - (time.time() - self.t0)

    # -- 1. the specification itself
    def model_check(self, module, cfg=None, env=None, workers=8, timeout=None, expect_min=2, heap="6g"):
        r = tlc(module, cfg, env=env, workers=workers, work=self.work,
                timeout=timeout or (300 if self.quick else 840), heap=heap)
        if not r.completed:
            raise Machinery(f"TLC did not accept {module} {cfg}:\n{r.out[-6000:]}")
        if r.distinct < expect_min:
            raise Machinery(f"{module} {cfg}: only {r.distinct} states, vacuous")
        self.states += r.distinct
        self.transitions += r.generated
        self.coverage.setdefault("model_checked", []).append(
            {"module": module, "cfg": cfg or module + ".cfg", "distinct_states": r.distinct,
             "generated": r.generated, "wall_s": round(r.wall, 1)})
        return r

    # -- 2. cases out of the specification
    def generate(self, module, cfg=None, env=None, tag="CASE", timeout=300, simulate=None,
                 workers=4, limit=None):
        """Cases that TLC enumerates: what is printed with the tag."""
        args = []
        if simulate:
            num, depth = simulate
            args = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed)]
        r = tlc(module, cfg, env=env, workers=1 if simulate else workers, work=self.work,
                timeout=timeout, args=args)
        cases = r.marks.get(tag, [])
        if not cases or (not simulate and not r.completed):
            raise Machinery(f"{module} {cfg} generated no cases:\n{r.out[-4000:]}")
        self.states += r.distinct
        self.transitions += r.generated
        uniq = {}
        for c in cases:
            uniq.setdefault(json.dumps(c, sort_keys=True), c)
        cases = [uniq[k] for k in sorted(uniq)]
        self.coverage.setdefault("generated_by_tlc", []).append(
            {"module": module, "cfg": cfg or module + ".cfg", "cases": len(cases),
             "distinct_states": r.distinct})
        if limit and len(cases) > limit:
            random.Random(self.seed).shuffle(cases)
            cases = cases[:limit]
        return cases

    # -- 3. run on the real code
    def execute(self, fn, cases, procs=8):
        """fn(case) -> list of traces (or one trace). Returns [(case, trace)]"""
        global _EXEC
        _EXEC = fn
        cases = list(cases)
        out = []
        if len(cases) < 40 or procs == 1:
            results = [_exec_one(c) for c in cases]
        else:
            with multiprocessing.get_context("fork").Pool(procs) as pool:
                results = pool.map(_exec_one, cases, chunksize=max(1, len(cases) // (procs * 8)))
        for c, (status, res) in zip(cases, results):
            if status == "ok":
                out.append((c, res))
            elif status in ("crash", "hang", "unusable"):
                self.bad.append((c, {"clause": status, "what": res}))
            elif status != "skipped":
                self.failed.append(f"driver failed on {json.dumps(c)[:2000]}\n{res}")
        if self.failed and not out:
            raise Machinery(self.failed[0])
        return out

    # -- 4. let the specification judge
    def judge(self, module, pairs, cfg=None, env=None, known=None, steps_key="steps", chunks=None,
              timeout=600):
        """pairs: [(case, trace)]; a trace is a dict with a list of steps. TLC walks every trace
        and prints BAD {t, l, clause, ...} for a step the specification does not allow."""
        if not pairs:
            return
        n = len(pairs)
        chunks = chunks or max(1, min(8, n // 400))
        size = (n + chunks - 1) // chunks
        jobs = []
        for ci in range(chunks):
            part = pairs[ci * size:(ci + 1) * size]
            if not part:
                continue
            fn = os.path.join(self.work, f"{module}-{ci}-{time.time_ns()}.ndjson")
            with open(fn, "w") as fp:
                for _, tr in part:
                    fp.write(json.dumps(tr) + "\n")
            jobs.append((fn, part))
        from concurrent.futures import ThreadPoolExecutor

        def one(job):
            fn, part = job
            e = {"TRACE_FILE": fn}
            e.update(env or {})
            r = tlc(module, cfg, env=e, workers=1 if len(jobs) > 1 else 4, work=self.work,
                    timeout=timeout)
            return r

        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(one, jobs))
        total_bad = 0
        nsteps = 0
        for (fn, part), r in zip(jobs, results):
            if not r.completed:
                shutil.copy(fn, os.path.join(WORKROOT, "last-failed.ndjson"))
                if not r.stuck:
                    raise Machinery(f"TLC could not judge {module}:\n{r.out[-5000:]}")
                # A trace with something in it that is not what the specification is about
                case, what = self.culprit(module, cfg, part, env, timeout)
                self.bad.append((case, {"clause": "not_of_the_kind_specified", "what": what}))
                total_bad += 1
                continue
            want = sum(len(tr[steps_key]) + 1 for _, tr in part)
            if r.distinct != want:
                raise Machinery(f"{module}: {r.distinct} states, expected {want}")
            self.states += r.distinct
            self.transitions += r.generated
            nsteps += want - len(part)
            first = {}
            for b in r.marks.get("BAD", []):
                k = b["t"]
                if k not in first or b["l"] < first[k]["l"]:
                    first[k] = b
            for t, b in sorted(first.items()):
                case, tr = part[t - 1]
                if known:
                    msg = known(case, tr, b)
                    if msg:
                        if msg not in self.known:
                            self.known.append(msg)
                        continue
                total_bad += 1
                self.bad.append((case, b))
            os.unlink(fn)
        self.validated += n
        for c, tr in pairs[:: max(1, n // 2)][:2]:
            if len(self.samples) < 8:
                self.samples.append({"module": module, "trace": shorten(tr)})
        self.coverage.setdefault("trace_validation", []).append(
            {"module": module, "traces": n, "steps": nsteps, "rejected": total_bad})

    def culprit(self, module, cfg, part, env, timeout):
        """The first one of those that TLC can not walk through"""
        what = ""
        while part:
            half = part[:max(1, len(part) // 2)]
            fn = os.path.join(self.work, f"{module}-c-{time.time_ns()}.ndjson")
            with open(fn, "w") as fp:
                for _, tr in half:
                    fp.write(json.dumps(tr) + "\n")
            r = tlc(module, cfg, env={"TRACE_FILE": fn, **(env or {})}, workers=1, work=self.work, timeout=timeout)
            if r.stuck:
                what = r.out[r.out.find("Error:"):][:1500]
                if len(half) == 1:
                    return half[0][0], what
                part = half
            else:
                if not r.completed or len(part) == 1:
                    break
                part = part[len(half):]
        raise Machinery(f"TLC could not judge {module} and not say why")

    def note(self, key, value):
        self.coverage[key] = value

    def count(self, key, labels):
        d = self.coverage.setdefault(key, {})
        for la in labels:
            d[la] = d.get(la, 0) + 1

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def shorten(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def known_findings(pid):
    with open(os.path.join(VERIF, "known_findings.json")) as fp:
        return [k for k in json.load(fp)["findings"] if k["property"] == pid]


def write_evidence(ctx, level, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.validated, "samples": ctx.samples}
    cov.update(ctx.coverage)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": violations}
    fn = os.path.join(VERIF, "evidence", f"{ctx.pid}.json")
    with open(fn + ".tmp", "w") as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
    os.replace(fn + ".tmp", fn)


def write_replay(ctx, case, what):
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    s = json.dumps({"property": ctx.pid, "case": case, "what": what}, indent=1, sort_keys=True)
    fn = os.path.join(VERIF, "replay",
                      f"{ctx.pid}-{hashlib.sha1(s.encode()).hexdigest()[:10]}.json")
    with open(fn, "w") as fp:
        fp.write(s)
    return fn


def main(pid, argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ns = ap.parse_args(argv)
    setup_imports()
    prop = importlib.import_module(f"props.{pid.lower()}")
    ctx = Ctx(pid, ns.tier, ns.seed)
    try:
        broken = None
        if ns.replay:
            with open(ns.replay) as fp:
                rep = json.load(fp)
            prop.replay(ctx, rep["case"])
        else:
            try:
                prop.run(ctx)
            except Machinery as err:
                if not ctx.bad:
                    raise
                broken = err
            if ctx.failed and not ctx.bad:
                raise Machinery(ctx.failed[0])
        for m in ctx.known:
            print(f"KNOWN-FINDING: property={pid} {m}")
        if not ns.replay:
            write_evidence(ctx, getattr(prop, "LEVEL", "model_checking"), len(ctx.bad))
        if ctx.bad:
            seen = set()
            for case, what in ctx.bad:
                key = (what.get("clause") if isinstance(what.get("clause"), str)
                       else json.dumps(what.get("clause")))
                if key in seen or len(seen) >= 5:
                    continue
                seen.add(key)
                fn = write_replay(ctx, case, what)
                print(f"  {json.dumps(what)[:1500]}")
                print(f"VIOLATION property={pid} replay={fn}")
            print(f"{len(ctx.bad)} violations")
            if broken or ctx.failed:
                print(f"not all was explored: {str(broken or ctx.failed[0])[:300]}")
            return 1
        print(f"OK property={pid} tier={ctx.tier} states={ctx.states} "
              f"traces={ctx.validated} wall={time.time() - ctx.t0:.1f}s")
        return 0
    except Machinery as err:
        print(f"MACHINERY FAILURE property={pid}: {err}", file=sys.stderr)
        return 2
    finally:
        ctx.close()
