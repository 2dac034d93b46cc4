#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

    python3 check.py C01             (VERIF_TIER=quick|thorough, VERIF_SEED=n)
    python3 check.py --replay FILE   (runs the execution of a violation again)
    python3 check.py --setup

Builds harness/<id>.cpp (with and without sanitizers) against the headers in
/repo/include, runs all the jobs the harness lists for the tier, and writes
evidence/<id>.json. Exit 0: the property held on everything explored. Exit 1
and a VIOLATION line: it is broken. Anything else: error of the check.
"""
import json
import os
import re
import resource
import shutil
import struct
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
EVIDENCE = os.path.join(HERE, "evidence")
HARNESS = os.path.join(HERE, "harness")
WORKERS = max(1, min(8, os.cpu_count() or 1))
HANG_S = 30
QUICK_LIMIT_S = 840

COMMON = ["-std=c++1z", "-w", "-fno-strict-aliasing", "-include",
          os.path.join(HARNESS, "prelude.hpp"), "-I", HARNESS,
          "-I", os.path.join(REPO, "include")]
FLAGS = {
    # assertions stay on, as in the project's build
    "opt": ["-O2"],
    "san": ["-O1", "-g1", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
# as "san", but the library uses std::optional, as it does for C++17 by itself
FLAGS["std"] = FLAGS["san"] + ["-DSTD_OPTIONAL"]
# as "san", but for C++14
FLAGS["c++14"] = FLAGS["std"] + ["-std=c++14"]
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:"
                        "allocator_may_return_null=0:detect_stack_use_after_return=0:"
                        "quarantine_size_mb=16:malloc_context_size=8:"
                        "hard_rss_limit_mb=4000",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, info):
        super().__init__(what)
        self.what = what
        self.info = info


def header_option(src, name, default):
    m = re.search(r"^// %s: *(.*)$" % name, src, re.M)
    return m.group(1).split() if m else default


def compile_one(source, mode, variant, out):
    cmd = ["g++"] + COMMON + FLAGS[mode] + ["-DVARIANT=%s" % variant, source,
                                            "-o", out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    return p.returncode, p.stdout


def build_folder(prop, tag=""):
    folder = os.path.join(BUILD, prop + tag)
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder, exist_ok=True)
    return folder


def build(prop, key, folder):
    """Compiles one variant; returns the binary (None: not for this language
    version) or raises Violation."""
    mode, variant = key
    out = os.path.join(folder, "%s-%s" % (mode, variant))
    source = os.path.join(HARNESS, prop.lower() + ".cpp")
    for attempt in range(2):
        rc, text = compile_one(source, mode, variant, out)
        if rc == 0:
            return out
        if "error:" in text and "fatal error: Killed" not in text:
            break
    # Is it the code or the toolchain?
    trivial = os.path.join(folder, "trivial-%s-%s.cpp" % (mode, variant))
    with open(trivial, "w") as f:
        f.write("#include \"mc.hpp\"\nvoid mc::register_jobs(bool) {}\n")
    rc, _ = compile_one(trivial, mode, variant, trivial + ".bin")
    if rc != 0 or "error:" not in text:
        raise CheckError("the compiler does not work:\n" + text[-3000:])
    if mode == "c++14":
        # The library may use more of C++17 one day; but whether it chooses an
        # Optional that exists is to be right for C++14 as well.
        with open(trivial, "w") as f:
            f.write("#include <lru/internal/optional.hpp>\n#include \"mc.hpp\"\n"
                    "LRU::Internal::Optional<int> optional;\n"
                    "void mc::register_jobs(bool) {}\n")
        rc, _ = compile_one(trivial, mode, variant, trivial + ".bin")
        if rc == 0:
            return None
    raise Violation(
        "using the documented interface does not compile (any more)",
        {"compile": True, "mode": mode, "variant": variant,
         "output": text[:6000]})


STATUS = struct.Struct("=Qii")


def read_status(path):
    try:
        with open(path, "rb") as f:
            data = f.read()
        beat, length, done = STATUS.unpack_from(data)
        length = max(0, min(length, 4000))
        trace = list(struct.unpack_from("=%di" % length, data, STATUS.size))
        return beat, trace, done
    except (OSError, struct.error):
        return 0, [], 0


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_replay(binary, mode, tier, job, trace, folder):
    path = os.path.join(folder, "trace.txt")
    with open(path, "w") as f:
        f.write(" ".join(map(str, trace)) + "\n")
    try:
        p = subprocess.run([binary, "--replay", "--tier", tier, "--job", job,
                            "--trace", path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=ENV, timeout=60,
                           preexec_fn=limits if mode == "opt" else None)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace")


class Runner:
    def __init__(self, prop, tier, started):
        self.prop, self.tier, self.started = prop, tier, started
        self.lock = threading.Lock()
        self.results = []
        self.failure = None
        self.stop = False
        self.to_compile, self.compiling, self.todo = [], 0, []
        self.folder = os.path.join(BUILD, prop)

    def jobs_of(self, key, binary):
        mode, variant = key
        p = subprocess.run([binary, "--list", "--tier", self.tier],
                           stdout=subprocess.PIPE, env=ENV, text=True)
        if p.returncode != 0:
            raise CheckError("cannot list the jobs of " + binary)
        tasks = []
        for line in p.stdout.split("\n"):
            if line.strip():
                job, parts = line.split()
                for part in range(int(parts)):
                    tasks.append((mode, variant, binary, job, part))
        return tasks

    def work(self):
        """Compiles what is left to compile, and runs what is compiled."""
        while True:
            key = task = None
            with self.lock:
                if self.stop:
                    return
                if self.to_compile:
                    key = self.to_compile.pop(0)
                    self.compiling += 1
                elif self.todo:
                    task = self.todo.pop(0)
                elif not self.compiling:
                    return
            if key:
                try:
                    binary = build(self.prop, key, self.folder)
                    tasks = self.jobs_of(key, binary) if binary else []
                    with self.lock:
                        self.todo += tasks
                        # All first parts early.
                        self.todo.sort(key=lambda t: t[4])
                except (Violation, CheckError, OSError) as e:
                    with self.lock:
                        self.failure = self.failure or {"exception": e}
                        self.stop = True
                finally:
                    with self.lock:
                        self.compiling -= 1
            elif task:
                try:
                    self.one(*task)
                except Exception as e:  # must not go unnoticed
                    with self.lock:
                        self.failure = self.failure or {
                            "exception": CheckError("running %s: %r" %
                                                    (task, e))}
                        self.stop = True
            else:
                time.sleep(0.05)

    def one(self, mode, variant, binary, job, part):
        base = os.path.join(os.path.dirname(binary), "%s-%s-%s-%d" %
                            (mode, variant, job, part))
        status, out, err = base + ".status", base + ".json", base + ".err"
        for f in (status, out):
            if os.path.exists(f):
                os.unlink(f)
        t0 = time.time()
        with open(err, "wb") as errfile:
            p = subprocess.Popen(
                [binary, "--run", "--tier", self.tier, "--job", job, "--part",
                 str(part), "--status", status, "--out", out],
                stdout=errfile, stderr=errfile, env=ENV,
                preexec_fn=limits if mode == "opt" else None)
        last, since, hang = None, time.time(), False
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            beat = read_status(status)[0]
            if beat != last:
                last, since = beat, time.time()
            elif time.time() - since > HANG_S:
                hang = True
                p.kill()
                p.wait()
                break
            if self.stop:
                p.kill()
                p.wait()
                break
        with self.lock:
            if self.stop:
                return
        info = dict(mode=mode, variant=variant, job=job, part=part)
        if p.returncode == 0 and not hang:
            with open(out) as f:
                r = json.load(f)
            r.update(info, wall=time.time() - t0)
            with self.lock:
                self.results.append(r)
            return
        # Something is wrong: what was the execution?
        _, trace, done = read_status(status)
        what = None
        if p.returncode == 10 and not hang:
            with open(out) as f:
                what = json.load(f)["fail"]
        elif hang:
            what = "an execution does not terminate"
        elif p.returncode in (64, 65):
            what = None
        else:
            with open(err, "rb") as f:
                tail = f.read().decode("utf-8", "replace")
            m = re.search(r"(ERROR: \w*Sanitizer: .*|runtime error: .*|"
                          r"Assertion .*|terminate called .*)", tail)
            what = "the execution crashes (exit status %s)%s" % (
                p.returncode, ": " + m.group(1) if m else "")
            info["stderr"] = tail[-4000:]
        info.update(trace=trace, what=what, binary=binary, hang=hang,
                    returncode=p.returncode)
        with self.lock:
            if self.failure is None:
                self.failure = info
            self.stop = True

    def run(self, plan):
        build_folder(self.prop)
        self.to_compile = list(plan)
        threads = [threading.Thread(target=self.work) for _ in range(WORKERS)]
        [t.start() for t in threads]
        for t in threads:
            while t.is_alive():
                t.join(0.5)
                if (self.tier == "quick" and
                        time.time() - self.started > QUICK_LIMIT_S):
                    with self.lock:
                        self.stop = True
                        if self.failure is None:
                            self.failure = {"timeout": True}
        return self.failure


def confirm(prop, tier, f):
    """Runs the failing execution again, on its own."""
    folder = os.path.dirname(f["binary"])
    if f["what"] is None:
        raise CheckError("job %s failed with status %s: %s" %
                         (f["job"], f["returncode"], f.get("stderr", "")))
    rc, text = run_replay(f["binary"], f["mode"], tier, f["job"], f["trace"],
                          folder)
    f["replay_output"] = text[-8000:]
    f["replayed"] = rc != 0
    if rc == 0:
        # Not reproducible on its own (the damage may have been done by an
        # execution before it): it counts if the whole job fails again.
        runner = Runner(prop, tier, time.time())
        runner.one(f["mode"], f["variant"], f["binary"], f["job"], f["part"])
        if runner.failure is None:
            raise CheckError("job %s failed once (%s), but not again" %
                             (f["job"], f["what"]))
        f["whole_job"] = True
    raise Violation(f["what"], f)


def report(prop, tier, v):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-violation.json" % prop)
    info = {k: x for k, x in v.info.items() if k != "binary"}
    info.update(property=prop, tier=tier, what=v.what)
    with open(path, "w") as f:
        json.dump(info, f, indent=1)
    if info.get("compile"):
        print(info["output"][:3000])
    else:
        print("job %s (%s, variant %s): %s" % (info["job"], info["mode"],
                                               info["variant"], v.what))
        print(info.get("replay_output", "")[-3000:])
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def evidence(prop, tier, seed, level, results, wall, violations, note=""):
    total = {k: sum(r[k] for r in results) for k in
             ("states", "transitions", "traces", "evaluations", "nontrivial")}
    extra = {}
    for r in results:
        for k, x in r["extra"].items():
            extra[k] = extra.get(k, 0) + x
    jobs = {}
    for r in results:
        name = "%s/%s/%s" % (r["mode"], r["variant"], r["job"])
        j = jobs.setdefault(name, dict(bounds=r["bounds"], executions=0,
                                       states=0, exhaustive=True, cpu_s=0))
        j["executions"] += max(r["traces"], r["evaluations"])
        j["states"] += r["states"]
        j["exhaustive"] = j["exhaustive"] and r["exhaustive"]
        j["cpu_s"] = round(j["cpu_s"] + r["wall"], 2)
    samples = []
    for r in sorted(results, key=lambda r: (r["job"], r["part"])):
        for s in r["samples"][1:2] or r["samples"][:1]:
            if s not in samples and len(samples) < 12:
                samples.append(s)
    if not samples:
        samples = ["(none)"]
    coverage = dict(samples=samples, jobs=jobs,
                    exhaustive=all(r["exhaustive"] for r in results),
                    rule="every execution within the bounds of each job "
                         "(see jobs), run on the real code")
    executions = total["traces"] + total["evaluations"]
    if level == "fault_enumeration":
        coverage.update(evaluations=total["evaluations"],
                        distinct_nontrivial=total["nontrivial"],
                        rule="one execution per history, operation and fault "
                             "position; non-trivial if the fault was thrown")
    else:
        coverage.update(states=total["states"],
                        transitions=total["transitions"],
                        traces_validated_against_impl=executions)
    coverage.update(extra)
    if note:
        coverage["note"] = note
    data = dict(property=prop, tier=tier, seed=seed, level=level,
                coverage=coverage, wall_s=round(wall, 2),
                violations=violations,
                assumptions=["single-threaded use; g++ and libstdc++ of this "
                             "sandbox; the project's own Optional",
                             "bounds as listed under coverage.jobs"])
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(data, f, indent=1)


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise CheckError("unknown VERIF_TIER " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    started = time.time()
    with open(os.path.join(HARNESS, prop.lower() + ".cpp")) as f:
        src = f.read()
    variants = int(header_option(src, "VARIANTS", ["1"])[0])
    modes = header_option(src, "MODES", ["opt", "san"])
    level = header_option(src, "LEVEL", ["model_checking"])[0]
    sanitized = [int(v) for v in header_option(
        src, "SAN", [str(v) for v in range(variants)])]
    optimized = [int(v) for v in header_option(
        src, "OPT", [str(v) for v in range(variants)])]
    chosen = {"san": sanitized, "opt": optimized,
              "std": [int(v) for v in header_option(src, "STD", [])],
              "c++14": [int(v) for v in header_option(src, "CXX14", [])]}
    plan = [(m, v) for v in range(variants) for m in modes if v in chosen[m]]
    # Sanitized builds take longest.
    plan.sort(key=lambda x: x[0] == "opt")
    results = []
    try:
        for attempt in range(3):
            runner = Runner(prop, tier, started)
            failure = runner.run(plan)
            results = runner.results
            if failure is None:
                break
            if failure.get("timeout"):
                raise CheckError("not done within %d s" % QUICK_LIMIT_S)
            if "exception" in failure:
                raise failure["exception"]
            try:
                confirm(prop, tier, failure)
            except CheckError:
                # Nothing that happens again: something outside (such as a
                # machine at a standstill) disturbed the run.
                if attempt == 2:
                    raise
    except Violation as v:
        evidence(prop, tier, seed, level, results, time.time() - started, 1,
                 v.what)
        report(prop, tier, v)
        return 1
    wall = time.time() - started
    evidence(prop, tier, seed, level, results, wall, 0)
    print("%s: held on %d executions (%d jobs, %.1f s)" % (
        prop, sum(max(r["traces"], r["evaluations"]) for r in results),
        len(results), wall))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(os.path.join(BUILD, prop), ignore_errors=True)
    return 0


def replay(path):
    with open(path) as f:
        info = json.load(f)
    if info.get("compile"):
        plan = [(info["mode"], info["variant"])]
        try:
            build(info["property"], plan[0],
                  build_folder(info["property"], "-replay"))
        except Violation as v:
            print(v.info["output"])
            return 1
        return 0
    key = (info["mode"], info["variant"])
    binary = build(info["property"], key,
                   build_folder(info["property"], "-replay"))
    rc, text = run_replay(binary, info["mode"], info["tier"], info["job"],
                          info["trace"], os.path.dirname(binary))
    print(text)
    print("exit status:", rc)
    if rc != 0:
        print("VIOLATION property=%s replay=%s" % (info["property"], path))
    return 0 if rc == 0 else 1


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        for tool in ("g++", "git"):
            if not shutil.which(tool):
                raise CheckError(tool + " is missing")
        for d in (BUILD, OUT, EVIDENCE):
            os.makedirs(d, exist_ok=True)
        return 0
    if args[:1] == ["--replay"] and len(args) == 2:
        return replay(args[1])
    if len(args) == 1 and re.fullmatch(r"C\d\d", args[0]):
        return check(args[0])
    print(__doc__, file=sys.stderr)
    return 64


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
