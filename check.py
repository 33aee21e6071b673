#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--keep]

Decides one property by generated-input search: compiles harness/<id>.cpp against
/repo's working tree three times (optimised; with sanitizers and assertions; as a
libFuzzer target), runs the three searches side by side, and reports.

exit 0: held on everything explored.  exit 1 and a VIOLATION line: broken.
exit 2: the check itself could not do its work.
"""
import argparse
import glob
import importlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)

WARN = ["-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
# unsigned wrap-around is not undefined and deliberately not reported
VARIANTS = {
    "plain": ["g++", "-std=gnu++17", "-O2", "-DNDEBUG"],
    "san": ["g++", "-std=gnu++17", "-O1", "-g1", "-DPBT_SAN",
            "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"] + SAN,
    "fuzz": ["clang++", "-std=gnu++17", "-O1", "-g1", "-DPBT_FUZZ", "-DPBT_SAN",
             "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all"],
}
ASAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:"
                    "max_allocation_size_mb=2048:handle_abort=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
}


TSAN = ["g++", "-std=gnu++17", "-O1", "-g1", "-DPBT_SAN", "-DPBT_TSAN", "-fsanitize=thread"]
ASAN_ENV["TSAN_OPTIONS"] = "halt_on_error=1:report_signal_unsafe=0:exitcode=66"


class Broken(Exception):
    """The check itself failed."""


class Violation(Exception):
    def __init__(self, replay_text, note):
        super().__init__(note)
        self.text = replay_text
        self.note = note


def sh(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(ASAN_ENV)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=e, cwd=cwd, errors="replace", text=True,
                           stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ""
        if isinstance(o, bytes):
            o = o.decode(errors="replace")
        return 124, o
    return p.returncode, p.stdout


def config(src):
    """`// check: key=value` lines of the harness"""
    cfg = {"flags": [], "libs": [], "fuzz_runs": 10000, "fuzz_runs_thorough": 1000000,
           "max_len": 512, "workers": 3, "san_workers": 2, "fuzz_workers": 2, "cpu": 15, "factor": 1.0, "san_factor": 1.0,
           "pre": "", "san": "address"}
    for line in open(src):
        m = re.match(r"// check: (\w+)=(.*)", line)
        if m:
            k, v = m.group(1), m.group(2).strip()
            if k not in cfg:
                raise Broken(f"unknown configuration {k}")
            if isinstance(cfg[k], list):
                cfg[k] = v.split()
            elif isinstance(cfg[k], (int, float)):
                cfg[k] = type(cfg[k])(v)
            else:
                cfg[k] = v
    return cfg


def toolchain_probe(work):
    """Does the compiler build the engine with a harness that does not use the library?"""
    p = os.path.join(work, "probe.cpp")
    with open(p, "w") as f:
        f.write('#include "pbt.hpp"\nconst char* const pbt::rule = "probe";\n'
                'PBT_TEST(probe, 1, 1, 1) { CHECK(c.s.range(0, 5) < 6, "x"); }\n')
    for name in ("plain", "san"):
        rc, out = sh(VARIANTS[name] + WARN + ["-I", os.path.join(HERE, "engine"), p,
                                              os.path.join(HERE, "engine", "main.cpp"), "-o",
                                              p + ".x"], 600)
        if rc != 0:
            raise Broken("the compiler does not work:\n" + out[-2000:])


def threads_watched(work):
    """Do programs built with ThreadSanitizer run here?"""
    p = os.path.join(work, "threads.cpp")
    with open(p, "w") as f:
        f.write("#include <thread>\nint main() { int x = 0; std::thread t([&] { ++x; }); t.join(); "
                "return x - 1; }\n")
    rc, out = sh(TSAN + [p, "-o", p + ".x"], 300)
    if rc == 0:
        rc, out = sh([p + ".x"], 60)
    return rc == 0


def compile_variant(name, src, cfg, work):
    exe = os.path.join(work, name)
    base = (TSAN if name == "san" and cfg["san"] == "thread" else VARIANTS[name]) + WARN + ["-I", os.path.join(HERE, "engine"), "-I",
                                    os.path.join(REPO, "include"), "-DFMT_HEADER_ONLY"]
    base += cfg["flags"]
    with ThreadPoolExecutor(2) as ex:
        objs = []
        futs = []
        for s in (src, os.path.join(HERE, "engine", "main.cpp")):
            o = exe + "_" + os.path.basename(s) + ".o"
            objs.append(o)
            futs.append(ex.submit(sh, base + ["-c", s, "-o", o], 600))
        res = [f.result() for f in futs]
    for rc, out in res:
        if rc != 0:
            return rc, out
    return sh(base + objs + ["-o", exe] + cfg["libs"], 600)


def compile_all(src, cfg, work, names):
    with ThreadPoolExecutor(len(names)) as ex:
        fut = {n: ex.submit(compile_variant, n, src, cfg, work) for n in names}
        return {n: f.result() for n, f in fut.items()}


def read(path, default=""):
    try:
        with open(path, errors="replace") as f:
            return f.read()
    except OSError:
        return default


class Check:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.src = os.path.join(HERE, "harness", pid.lower() + ".cpp")
        self.cfg = config(self.src)
        self.notes, self.times = [], {}
        self.env = {"PBT_WORK": work, "PBT_REPO": REPO}

    def pre(self):
        """Builds of repository programs the harness drives."""
        if self.cfg["pre"] == "dumpmt":
            d = os.path.join(REPO, "applications", "dumpmt")
            srcs = sorted(glob.glob(os.path.join(d, "*.cpp")) or
                          glob.glob(os.path.join(REPO, "applications", "dumpmt*.cpp")))
            exe = os.path.join(self.work, "dumpmt")
            rc, out = sh(["g++", "-std=gnu++17", "-O1", "-w", "-I", os.path.join(REPO, "include"),
                          "-DFMT_HEADER_ONLY", *srcs, "-o", exe, "-lboost_serialization"], 300)
            if rc != 0:
                raise Violation(out[-6000:], "the dump application no longer compiles")

    def timed(self, name, fn, *args):
        t = time.time()
        r = fn(*args)
        self.times[name] = round(time.time() - t, 1)
        return r

    def run_pbt(self, variant, workers):
        scratch = os.path.join(self.work, "s_" + variant)
        os.makedirs(scratch, exist_ok=True)
        limit = 780 if self.tier == "quick" else 6 * 3600
        rc, out = sh([os.path.join(self.work, variant), "--run", "--variant", variant, "--tier",
                      self.tier, "--seed", str(self.seed), "--workers", str(workers),
                      "--scratch", scratch, "--cpu", str(self.cfg["cpu"]), "--factor",
                      str(self.cfg["san_factor" if variant == "san" else "factor"]
                          if self.tier == "quick" else 1)],
                     limit, self.env, cwd=scratch)
        return rc, out, scratch

    def run_fuzz(self, idx):
        scratch = os.path.join(self.work, f"s_fuzz{idx}")
        corpus = os.path.join(scratch, "corpus")
        os.makedirs(corpus, exist_ok=True)
        import random
        r = random.Random(f"{self.pid}/{self.seed}/{idx}")
        for k in range(40):
            with open(os.path.join(corpus, f"seed{k:02}"), "wb") as f:
                f.write(bytes(r.randrange(256) for _ in range(r.choice([16, 40, 100, 250, 500]))))
        runs = self.cfg["fuzz_runs"] if self.tier == "quick" else self.cfg["fuzz_runs_thorough"]
        cap = 40 if self.tier == "quick" else 3600
        rec = os.path.join(scratch, "rec")
        env = dict(self.env)
        env.update({"PBT_REC": rec, "PBT_STATS": os.path.join(scratch, "fuzz_0"),
                    "PBT_SCRATCH": scratch})
        cmd = [os.path.join(self.work, "fuzz"), corpus, f"-runs={runs}",
               f"-seed={self.seed * 16 + idx + 1}", f"-max_len={self.cfg['max_len']}",
               "-len_control=0", "-use_value_profile=1", f"-max_total_time={cap}", "-timeout=60",
               "-rss_limit_mb=4096", "-print_final_stats=1", f"-artifact_prefix={scratch}/crash-"]
        rc, out = sh(cmd, cap + 200, env, cwd=scratch)
        return rc, out, scratch

    def confirm_fuzz(self, scratch, out):
        """A failing fuzz input counts only if it fails again outside the fuzzer."""
        rec = os.path.join(scratch, "rec")
        if not os.path.exists(rec):
            raise Broken("the fuzzer failed before its first case:\n" + out[-3000:])
        draft = os.path.join(scratch, "draft.replay")
        rc, o = sh([os.path.join(self.work, "plain"), "--from-record", rec, "--out", draft], 60)
        if rc == 3:
            raise Broken("the fuzzer failed outside a case:\n" + out[-3000:])
        if rc != 0:
            raise Broken("cannot read the fuzzer's record: " + o)
        for v in ("plain", "san"):
            final = os.path.join(scratch, v + ".replay")
            rc, o = sh([os.path.join(self.work, v), "--shrink", draft, "--out", final, "--variant",
                        v, "--scratch", scratch], 600, self.env, cwd=scratch)
            if rc == 1 and os.path.exists(final):
                raise Violation(read(final), "found by coverage-guided fuzzing")
            if rc not in (0, 1):
                raise Broken("confirming a fuzz failure broke: " + o[-2000:])
        self.notes.append("a fuzzer failure was not reproduced outside the fuzzer and is ignored: "
                          + out[-300:])

    def search(self):
        t0 = time.time()
        if "pre" in self.cfg and self.cfg["pre"]:
            self.pre()
        if self.cfg["san"] == "thread" and not threads_watched(self.work):
            self.cfg["san"] = "address"
            self.notes.append("ThreadSanitizer does not work here, AddressSanitizer is used instead")
        res = compile_all(self.src, self.cfg, self.work, ["plain", "san", "fuzz"])
        for n in ("plain", "san"):
            rc, out = res[n]
            if rc != 0:
                toolchain_probe(self.work)
                if rc == 124 or "Killed" in out or "out of memory" in out:
                    raise Broken("compiling timed out or was killed")
                raise Violation(f"compile {n}\n\nThe library no longer compiles or links with a "
                                f"program that uses its documented interface:\n" + out[-8000:],
                                "the harness no longer builds against the library")
        fuzz = res["fuzz"][0] == 0
        if not fuzz:
            self.notes.append("the fuzz target did not compile with clang++: "
                              + res["fuzz"][1][-600:])
        self.t_compile = time.time() - t0
        with ThreadPoolExecutor(8) as ex:
            jobs = {"plain": ex.submit(self.timed, "plain", self.run_pbt, "plain", self.cfg["workers"]),
                    "san": ex.submit(self.timed, "san", self.run_pbt, "san", self.cfg["san_workers"])}
            if fuzz:
                for i in range(self.cfg["fuzz_workers"]):
                    jobs[f"fuzz{i}"] = ex.submit(self.timed, f"fuzz{i}", self.run_fuzz, i)
            done = {k: f.result() for k, f in jobs.items()}
        self.done = done
        self.timing = {"compile": round(self.t_compile, 1)}
        self.timing.update(self.times)
        for k in ("plain", "san"):
            rc, out, scratch = done[k]
            if rc == 1:
                f = os.path.join(scratch, k + ".failure")
                raise Violation(read(f), f"found by random search ({k})")
            if rc != 0:
                raise Broken(f"the {k} search ended with {rc}:\n{out[-3000:]}")
            fl = read(os.path.join(scratch, k + ".flaky"))
            if fl:
                self.notes.append("not reproducible, ignored: " + fl[:500])
        for k in done:
            if k.startswith("fuzz"):
                rc, out, scratch = done[k]
                if rc != 0:
                    self.confirm_fuzz(scratch, out)

    def replay(self, file):
        text = read(file)
        m = re.search(r"^variant (\w+)", text, re.M)
        v = m.group(1) if m else "plain"
        if self.cfg["pre"]:
            self.pre()
        if text.startswith("compile"):
            res = compile_all(self.src, self.cfg, self.work, ["plain", "san"])
            bad = [o for rc, o in res.values() if rc != 0]
            print("\n".join(bad)[-6000:] or "compiles")
            return 1 if bad else 0
        if v == "fuzz":
            v = "san"
        rc, out = compile_variant(v, self.src, self.cfg, self.work)
        if rc != 0:
            print(out[-6000:])
            return 1
        scratch = os.path.join(self.work, "replay")
        os.makedirs(scratch, exist_ok=True)
        rc, out = sh([os.path.join(self.work, v), "--replay", os.path.abspath(file), "--scratch",
                      scratch, "--variant", v], 300, self.env, cwd=scratch)
        print(out)
        return rc

    def coverage(self):
        tests, samples, rule, hashes = {}, [], "", []
        per = {}
        for k, (rc, out, scratch) in getattr(self, "done", {}).items():
            for f in sorted(glob.glob(os.path.join(scratch, "*.json"))):
                try:
                    d = json.load(open(f))
                except ValueError:
                    continue
                rule = d["rule"]
                hashes.append(f[:-5] + ".hash")
                for s in d["samples"]:
                    if len([x for x in samples if x["test"] == s["test"]]) < 3:
                        samples.append(s)
                for t, v in d["tests"].items():
                    e = tests.setdefault(t, {"cases": 0, "nontrivial": 0, "discards": 0,
                                             "classes": {}})
                    for c in ("cases", "nontrivial", "discards"):
                        e[c] += v[c]
                    for c, n in v["classes"].items():
                        e["classes"][c] = e["classes"].get(c, 0) + n
                    key = "fuzz" if k.startswith("fuzz") else k
                    per[key] = per.get(key, 0) + v["cases"]
        distinct = 0
        if hashes:
            rc, out = sh([os.path.join(self.work, "plain"), "--merge"] + hashes, 600)
            distinct = int(out) if rc == 0 else 0
        return {"evaluations": sum(t["cases"] for t in tests.values()),
                "distinct_nontrivial": distinct, "rule": rule or "no case was run",
                "samples": samples or ["no case was run"], "per_variant": per, "tests": tests,
                "seconds": getattr(self, "timing", {})}


def write_evidence(pid, tier, seed, cov, t0, violations, notes):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": notes, "wall_s": round(time.time() - t0, 2), "violations": violations}
    tmp = os.path.join(HERE, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= 0xffffffff
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    work = tempfile.mkdtemp(prefix=f"verif_{a.id}_")
    os.chmod(work, 0o700)
    try:
        mod = os.path.join(HERE, "harness", a.id.lower() + ".py")
        if os.path.exists(mod):
            cls = importlib.import_module("harness." + a.id.lower()).Check
        else:
            cls = Check
        chk = cls(a.id, tier, seed, work)
        if a.replay:
            return chk.replay(a.replay)
        try:
            chk.search()
        except Violation as v:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", f"{a.id}-{tier}-{seed}.replay")
            with open(path, "w") as f:
                f.write(v.text)
            cov = chk.coverage()
            cov["samples"] = [{"violation": v.text[:3000]}] + cov["samples"]
            write_evidence(a.id, tier, seed, cov, t0, 1, chk.notes)
            print(v.text[:6000])
            print(f"({v.note})")
            print(f"VIOLATION property={a.id} replay={path}", flush=True)
            return 1
        cov = chk.coverage()
        if not cov["evaluations"]:
            raise Broken("no case was run")
        write_evidence(a.id, tier, seed, cov, t0, 0, chk.notes)
        print(f"{a.id}: held on {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct "
              f"non-trivial, in {time.time() - t0:.1f} s")
        for n in chk.notes:
            print("note:", n)
        return 0
    except Broken as b:
        print(f"{a.id}: the check could not run: {b}", file=sys.stderr)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work directory:", work)


if __name__ == "__main__":
    import check  # one module object, also for harness/*.py
    sys.exit(check.main())
