#!/usr/bin/python3
"""check.py <property> [--tier quick|thorough] | check.py --replay <file> | check.py --setup

Builds what the property needs from /repo's working tree, runs its generated cases, writes evidence/<property>.json.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself could not run."""

import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build  # noqa: E402
import plans  # noqa: E402

CPUS = 8
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")

CHILD_ENV = dict(build.ENV)
CHILD_ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=1:handle_segv=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:report_signal_unsafe=0",
})


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Infra(Exception):
    pass


# ---------------------------------------------------------------- running pbt

class Job:
    def __init__(self, prop, libs=(), cases=100, flavour="plain", opts=None, valgrind=False, limit=90, deadline=None,
                 tag="", kind="pbt", argv=None, optional=False):
        self.prop, self.libs, self.cases, self.flavour = prop, list(libs), cases, flavour
        self.opts, self.valgrind, self.limit, self.deadline = dict(opts or {}), valgrind, limit, deadline
        self.tag, self.kind, self.argv, self.optional = tag, kind, argv, optional
        self.seed = 0

    def spec(self):
        return {"prop": self.prop, "libs": [".".join(map(str, x)) for x in self.libs], "cases": self.cases,
                "flavour": self.flavour, "opts": self.opts, "valgrind": self.valgrind, "limit": self.limit,
                "seed": self.seed, "tag": self.tag, "kind": self.kind, "argv": self.argv}

    @staticmethod
    def from_spec(d):
        libs = []
        for x in d["libs"]:
            g, o, m, n = x.split(".")
            libs.append((g, o, m, int(n)))
        j = Job(d["prop"], libs, d["cases"], d["flavour"], d["opts"], d["valgrind"], d["limit"], None, d["tag"],
                d["kind"], d["argv"])
        j.seed = d["seed"]
        return j


class Runner:
    def __init__(self, prop):
        self.dir = tempfile.mkdtemp(prefix=f"run.{prop}.", dir=build.BUILD)
        self.allow = None
        self.n = 0
        self.lock = threading.Lock()
        self.procs = set()
        self.stopping = False

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, f"{self.n}.{suffix}")

    def base_cmd(self, job, mode):
        cmd = []
        if job.valgrind:
            cmd += ["/usr/bin/valgrind", "--tool=memcheck", "-q", "--error-limit=no", "--undef-value-errors=yes",
                    "--leak-check=no", "--main-stacksize=268435456", "--max-stackframe=33554432", "--num-callers=8"]
        cmd += [os.path.join(build.BUILD, "harness." + job.flavour, "pbt"), mode, "--prop", job.prop, "--allow",
                ",".join(self.allow) or "-", "--limit", str(job.limit)]
        for g, o, m, n in job.libs:
            cmd += ["--lib", f"{g}.{o}.{m}.{n}={build.BUILD}/{g}.{o}.{m}/frodo{n}.so"]
        for k, v in job.opts.items():
            cmd += ["--opt", f"{k}={str(v).replace('@BUILD@', build.BUILD)}"]
        return cmd

    def stop(self):
        """Ends the jobs that are still running: one has reported a failure."""
        with self.lock:
            self.stopping = True
            for p in self.procs:
                try:
                    os.killpg(p, 9)
                except ProcessLookupError:
                    pass

    def call(self, cmd, timeout, keep=False):
        logf = self.path("log")
        with open(logf, "wb") as f:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, env=CHILD_ENV,
                                 cwd=self.dir, start_new_session=True)
            with self.lock:
                self.procs.add(p.pid)
                if self.stopping and not keep:
                    os.killpg(p.pid, 9)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = None
            with self.lock:
                self.procs.discard(p.pid)
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
        with open(logf, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            text = f.read(20000).decode(errors="replace")
            if n > 20000:
                text += "\n...\n"
        return rc, text

    def run(self, job, first=0, cases=None, timeout=None):
        """Returns the result dict; result['failure'] is None or a dict; result['infra'] marks an unusable run."""
        out, shared = self.path("json"), self.path("shared")
        cmd = self.base_cmd(job, "run") + ["--seed", str(job.seed), "--cases", str(cases or job.cases), "--first",
                                           str(first), "--out", out, "--shared", shared]
        if job.deadline:
            cmd += ["--deadline", str(job.deadline)]
        rc, text = self.call(cmd, timeout or (job.deadline or 3000) + job.limit + 120)
        res = None
        if rc in (0, 1):
            try:
                res = json.load(open(out))
            except (OSError, ValueError):
                res = None
        if res is None:
            idx, choices, state = 0, [], 0
            try:
                with open(shared, "rb") as f:
                    d = f.read()
                idx, n, state = struct.unpack_from("<QQQ", d)
                n = min(n, 1 << 16)
                choices = list(struct.unpack_from(f"<{n}Q", d, 24))
            except (OSError, struct.error):
                pass
            res = {"evaluations": idx + 1, "planned": job.cases, "distinct_nontrivial": idx + 1, "samples": [],
                   "classes": {}, "failure": None, "wall": 0}
            if rc == 3 or state == 0:
                res["infra"] = f"exit {rc}: {text[-600:]}"
            else:
                kind = ("does not return" if rc in (97, None) or state == 2 else
                        "sanitizer report" if rc == 99 else f"crash (exit {rc})")
                res["failure"] = {"case": idx, "msg": f"{kind}: {summarise(text)}", "note": "", "choices": choices,
                                  "crash": True, "hang": rc in (97, None) or state == 2, "killed": rc == -9}
        elif res["failure"] and job.valgrind:
            res["failure"]["msg"] += " | " + summarise(text)
        try:
            os.unlink(shared)
        except OSError:
            pass
        return res

    def replay(self, job, choices, timeout=None):
        """True if the case fails again, with its message."""
        cf_ = self.path("choices")
        with open(cf_, "w") as f:
            f.write(" ".join(map(str, choices)))
        rc, text = self.call(self.base_cmd(job, "replay") + ["--choices", cf_], timeout or job.limit + 120)
        if rc == 3:
            raise Infra(text[-500:])
        return rc != 0, text

    def shrink(self, job, choices, budget):
        cf_, out = self.path("choices"), self.path("json")
        with open(cf_, "w") as f:
            f.write(" ".join(map(str, choices)))
        rc, _ = self.call(self.base_cmd(job, "shrink") + ["--choices", cf_, "--out", out, "--budget", str(budget)],
                          budget + job.limit + 60)
        try:
            return json.load(open(out))["choices"]
        except (OSError, ValueError, KeyError):
            return choices


def summarise(text):
    keep = []
    for ln in text.splitlines():
        s = ln.strip()
        if any(k in s for k in ("runtime error", "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "SUMMARY",
                                "Conditional jump", "Use of uninitialised", "FAILED", "Syscall param")) or \
                (s.startswith("#") and ".c:" in s) or (": " in s and "(" in s and "0x" in s and s.startswith("==")):
            keep.append(s[:200])
        if len(keep) >= 6:
            break
    return " / ".join(keep)[:900] or text.strip()[-300:]


# ---------------------------------------------------------------- other runners (python, emulator builds)

def run_py(runner, job, extra=(), timeout=None):
    out = runner.path("json")
    cmd = [a.replace("@VERIF@", VERIF).replace("@BUILD@", build.BUILD) for a in job.argv]
    cmd += ["--seed", str(job.seed), "--cases", str(job.cases), "--out", out, *extra]
    if job.deadline:
        cmd += ["--deadline", str(job.deadline)]
    rc, text = runner.call(cmd, timeout or (job.deadline or 3000) + 300)
    try:
        res = json.load(open(out))
    except (OSError, ValueError):
        res = {"evaluations": 0, "planned": job.cases, "distinct_nontrivial": 0, "samples": [], "classes": {},
               "failure": None, "wall": 0, "infra": f"exit {rc}: {text[-1500:]}"}
    return res


# ---------------------------------------------------------------- building

def prepare(runner, jobs, need):
    """Builds everything; drops libraries whose configuration does not build."""
    specs = list(dict.fromkeys([lib[:3] for j in jobs for lib in j.libs] + list(need.get("groups", []))))
    flavours = list(dict.fromkeys([j.flavour for j in jobs if j.kind == "pbt"]))
    problems = {}
    with cf.ThreadPoolExecutor(6) as ex:
        hf = {f: ex.submit(build.harness, f) for f in flavours}
        al = ex.submit(build.allowed_internals)
        gl = ex.submit(build.glue) if any(j.kind == "py" for j in jobs) else None
        gf = {s: ex.submit(build.group, *s) for s in specs}
        mf = {m: ex.submit(build.mips, *m) for m in need.get("mips", [])}
        for f, fu in hf.items():
            fu.result()
        runner.allow = al.result()
        if gl:
            gl.result()
        for s, fu in {**gf, **mf}.items():
            try:
                fu.result()
            except build.BuildError as e:
                problems[s] = str(e)[-800:]
    for s, e in problems.items():
        log(f"note: configuration {'.'.join(map(str, s))} does not build and is left out: {e}")
    out = []
    for j in jobs:
        if j.kind == "py":
            names = [b for b in j.opts.get("builds", []) if tuple(b.split(".")) not in problems]
            j.argv = [*j.argv, "--builds", ",".join(names)]
        had = len(j.libs)
        j.libs = [x for x in j.libs if x[:3] not in problems]
        if (had and not j.libs) or (j.opts.get("needs") and tuple(j.opts["needs"].split(".")) in problems):
            continue
        out.append(j)
    if jobs and not out:
        raise Infra("no configuration builds: " + "; ".join(f"{s}: {e[-300:]}" for s, e in problems.items()))
    return out, [".".join(map(str, s)) for s in problems]


# ---------------------------------------------------------------- deciding

def settle(runner, prop, job, res, tier):
    """A job reported a failure: reproduce it, shrink it, write the replay file. Returns (path, message) or None."""
    f = res["failure"]
    rep = {"property": prop, "job": job.spec(), "message": f["msg"], "note": f.get("note", ""), "tier": tier}
    if job.kind == "py":
        rep.update(kind="py", data=f.get("data"))
        return write_replay(prop, rep), f["msg"]
    fails, tries, t1, text = 0, 0, time.time(), ""
    for _ in range(3):
        again, out = runner.replay(job, f["choices"])
        tries += 1
        fails += again
        text = out if again else text
        if fails and time.time() - t1 > 40:
            break
    if fails == 0:
        # the failure may need the cases that came before it
        r2 = runner.run(job, cases=f["case"] + 1)
        if r2.get("failure"):
            rep.update(kind="campaign", cases=f["case"] + 1)
            return write_replay(prop, rep), f["msg"]
        if f.get("crash") and (f.get("hang") or f.get("killed")):
            log(f"note: not reproduced, counted as an interrupted run: {f['msg'][:300]}")
            return None
        if not job.opts.get("racy"):
            r3 = runner.run(job, cases=f["case"] + 1)
            if not r3.get("failure"):
                log(f"note: observed once, not reproduced: {f['msg'][:300]}")
        rep.update(kind="campaign", cases=f["case"] + 1)
        return write_replay(prop, rep), f["msg"]
    if time.time() - t1 > 40:  # a long case or one that does not return: keep it as it is
        rep.update(kind="choices", choices=f["choices"], original_choices=f["choices"], reproduced=f"{fails}/{tries}",
                   replay_output=text[-3000:])
        return write_replay(prop, rep), f["msg"]
    budget = (15 if tier == "quick" else 60) * (3 if job.valgrind else 1)
    small = runner.shrink(job, f["choices"], budget)
    still, text = runner.replay(job, small)
    if not still:
        small = f["choices"]
        still, text = runner.replay(job, small)
    rep.update(kind="choices", choices=small, original_choices=f["choices"], reproduced=f"{fails}/{tries}",
               replay_output=text[-3000:])
    return write_replay(prop, rep), f["msg"]


def write_replay(prop, rep):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(REPLAYS, f"{prop}-{h}.json")
    with open(p, "w") as f:
        json.dump(rep, f, indent=1)
    return p


def known_findings(prop):
    """Lines 'known: property=<id> match=<text> :: <what fails>' of the committed file."""
    out = []
    try:
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("known:") and f"property={prop} " in ln:
                m, _, what = ln.split("match=", 1)[1].partition(" :: ")
                out.append((m, what))
    except OSError:
        pass
    return out


def decide(prop, tier, seed):
    t0 = time.time()
    plan = plans.PLANS[prop](tier, Job)
    jobs = plan["jobs"]
    os.makedirs(build.BUILD, exist_ok=True)
    runner = Runner(prop)
    try:
        jobs, dropped = prepare(runner, jobs, plan)
        tb = time.time() - t0
        for i, j in enumerate(jobs):
            j.seed = int.from_bytes(hashlib.sha256(f"{seed}/{prop}/{i}/{j.tag}".encode()).digest()[:6], "big")
        results, stop, once = [], threading.Event(), threading.Lock()
        kn = known_findings(prop)

        def one(j):
            if stop.is_set():
                return j, None
            r = run_py(runner, j) if j.kind == "py" else runner.run(j)
            if r.get("infra") and not stop.is_set():  # once more, then give up on it
                r = run_py(runner, j) if j.kind == "py" else runner.run(j)
            with once:
                if stop.is_set() and (r.get("infra") or (r["failure"] or {}).get("crash")):
                    return j, None  # ended because another job had failed
                if r["failure"] and not any(k[0] in r["failure"]["msg"] for k in kn):
                    stop.set()
                    runner.stop()
            return j, r

        with cf.ThreadPoolExecutor(plan.get("workers", CPUS)) as ex:
            results = list(ex.map(one, jobs))
        results = [(j, r) for j, r in results if r is not None]
        infra = [(j, r["infra"]) for j, r in results if r.get("infra")]
        runner.stopping = False
        violations, hits = [], set()
        for j, r in results:
            if not r["failure"]:
                continue
            m = next((k for k in kn if k[0] in r["failure"]["msg"]), None)
            if m:
                hits.add(m[1])
                continue
            v = settle(runner, prop, j, r, tier)
            if v:
                violations.append(v)
                break
        write_evidence(prop, tier, seed, plan, results, dropped, len(violations), time.time() - t0, tb)
        for w in sorted(hits):
            print(f"KNOWN-FINDING: property={prop} {w}")
        if violations:
            print(f"{prop}: {violations[0][1][:600]}")
            print(f"VIOLATION property={prop} replay={violations[0][0]}", flush=True)
            return 1
        if infra and len(infra) == len(results):
            raise Infra(infra[0][1])
        for j, e in infra:
            log(f"note: job {j.tag} gave no result: {e[-400:]}")
        if infra and not plan.get("tolerate_infra"):
            raise Infra("a job could not run")
        tot = sum(r["evaluations"] for _, r in results)
        print(f"{prop}: held on {tot} cases ({time.time() - t0:.0f} s)")
        return 0
    finally:
        runner.close()


def write_evidence(prop, tier, seed, plan, results, dropped, nviol, wall, tbuild):
    classes, samples = {}, []
    for _, r in results:
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
    for i in range(3):
        for _, r in results:
            if i < len(r["samples"]) and len(samples) < 12:
                samples.append(r["samples"][i])
    cov = {
        "evaluations": sum(r["evaluations"] for _, r in results),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for _, r in results),
        "rule": plan["rule"],
        "samples": samples or ["none: the run stopped before a case completed"],
        "planned": sum(r["planned"] for _, r in results),
        "jobs": len(results),
        "builds": sorted({".".join(map(str, x)) for j, _ in results for x in j.libs}),
        "builds_left_out": dropped,
        "classes": dict(sorted(classes.items())),
        "build_s": round(tbuild, 1),
    }
    for _, r in results:
        for k, v in (r.get("extra") or {}).items():
            cov[k] = cov.get(k, 0) + v if isinstance(v, (int, float)) else v
    if plan.get("exhaustive"):
        cov["exhaustive_note"] = plan["exhaustive"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": plan.get("level", "exploration"), "coverage": cov,
          "assumptions": plan.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))


def do_replay(path):
    rep = json.load(open(path))
    job = Job.from_spec(rep["job"])
    runner = Runner("replay")
    try:
        plan = plans.PLANS[rep["property"]]("quick", Job)
        jobs, _ = prepare(runner, [job], {"groups": plan.get("groups", []), "mips": plan.get("mips", [])})
        if not jobs:
            raise Infra("the configuration does not build")
        if rep["kind"] == "py":
            f = runner.path("in.json")
            json.dump(rep["data"], open(f, "w"))
            r = run_py(runner, job, ["--replay", f])
            if r.get("infra"):
                raise Infra(r["infra"])
            bad, text = bool(r["failure"]), (r["failure"] or {}).get("msg", "HELD")
        elif rep["kind"] == "campaign":
            r = runner.run(job, cases=rep["cases"])
            if r.get("infra"):
                raise Infra(r["infra"])
            bad, text = bool(r["failure"]), (r["failure"] or {}).get("msg", "HELD")
        else:
            bad, text = runner.replay(job, rep["choices"])
        print(text[-2000:])
        if bad:
            print(f"VIOLATION property={rep['property']} replay={path}")
        return 1 if bad else 0
    finally:
        runner.close()


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            os.makedirs(build.BUILD, exist_ok=True)
            with cf.ThreadPoolExecutor(3) as ex:
                list(ex.map(build.harness, build.FLAVOUR))
            build.allowed_internals()
            return 0
        if a[:1] == ["--replay"]:
            return do_replay(a[1])
        prop = a[0]
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return decide(prop, "thorough" if tier == "thorough" else "quick", seed)
    except (Infra, build.BuildError) as e:
        log(f"ERROR: the check could not run: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
