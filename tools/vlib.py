"""Shared machinery: build the library under test + a driver, run the driver, validate its traces with TLC."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "cpp", "lib_moment")
BUILD = os.path.join(VERIF, "build")
WORK = os.path.join(VERIF, "work")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class InfraError(Exception):
    pass


def log(*a):
    print("[verif]", *a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------------------- build
PCH = """#pragma once
#include <numeric>
#include <vector>
#include <cassert>
#include <algorithm>
#include <sstream>
#include <memory>
#include <string>
#include <stdexcept>
#include <span>
#include <iostream>
#include <map>
#include <set>
#include <optional>
#include <complex>
#include <limits>
#include <atomic>
#include <cmath>
#include <mutex>
#include <thread>
#include <shared_mutex>
#include <array>
#include <functional>
#include <future>
#include <condition_variable>
#include <variant>
#include <Eigen/SparseCore>
"""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _lib_files():
    out = []
    for d, dn, fn in os.walk(LIB):
        dn.sort()
        for f in sorted(fn):
            if f.endswith((".cpp", ".h", ".hpp", ".inl", ".tpp")):
                out.append(os.path.join(d, f))
    return out


def _flags(san):
    fl = ["-std=c++20", "-O1", "-w", "-DNDEBUG", "-DUNIX", "-fPIC", "-pthread",
          "-I" + LIB, "-I" + HARNESS, "-I/usr/include/eigen3",
          '-DEIGEN_SPARSEMATRIX_PLUGIN="%s/eigen_plugin.h"' % HARNESS]
    if san in ("thread", "sched"):
        fl += ["-fsanitize=thread", "-g1"]
    elif san == "address":
        fl += ["-fsanitize=address,undefined", "-g1", "-fno-omit-frame-pointer"]
    return fl


def _run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def build(topics, san=None):
    """Compile all of lib_moment from the working tree, and the drivers for `topics`. Returns {topic: exe}."""
    t0 = time.time()
    cxx = "g++-12" if shutil.which("g++-12") else "g++"
    flags = _flags(san)
    files = _lib_files()
    contents = b"".join(open(f, "rb").read() + f.encode() for f in files)
    harness_src = b"".join(open(os.path.join(HARNESS, f), "rb").read()
                           for f in sorted(os.listdir(HARNESS)) if f.endswith((".h", ".cc")))
    libkey = _sha(contents, repr(flags), cxx, san or "")
    os.makedirs(BUILD, exist_ok=True)
    libdir = os.path.join(BUILD, "lib-" + libkey)
    libobj = os.path.join(libdir, "moment.a")
    exes, jobs = {}, []
    need_lib = not os.path.exists(libobj)
    drv_needed = []
    for t in topics:
        src = os.path.join(HARNESS, "drv_%s.cpp" % t)
        key = _sha(open(src, "rb").read(), harness_src, libkey)
        exe = os.path.join(libdir, "drv_%s-%s" % (t, key))
        exes[t] = exe
        if not os.path.exists(exe):
            drv_needed.append((t, src, exe))
    if not need_lib and not drv_needed:
        return exes
    # prune older builds
    for d in os.listdir(BUILD):
        p = os.path.join(BUILD, d)
        if d.startswith("lib-") and p != libdir:
            try:
                if time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
            except OSError:
                pass
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
    try:
        pch = os.path.join(tmp, "verif_pch.h")
        open(pch, "w").write(PCH)
        rc, out = _run_cc([cxx] + flags + ["-x", "c++-header", pch, "-o", pch + ".gch"])
        inc = ["-include", pch] if rc == 0 else ["-include", "numeric"]
        units = []
        if need_lib:
            groups = {}
            for f in files:
                if f.endswith(".cpp"):
                    groups.setdefault(os.path.dirname(f), []).append(f)
            for d, l in groups.items():
                chunk, size = [], 0
                for f in l:
                    s = os.path.getsize(f)
                    if chunk and (len(chunk) >= 6 or size + s > 45000):
                        units.append(chunk)
                        chunk, size = [], 0
                    chunk.append(f)
                    size += s
                if chunk:
                    units.append(chunk)
            units.sort(key=lambda c: -sum(os.path.getsize(f) for f in c))

        def compile_unit(ix_chunk):
            ix, chunk = ix_chunk
            if len(chunk) > 1:
                u = os.path.join(tmp, "u%d.cpp" % ix)
                open(u, "w").write("".join('#include "%s"\n' % f for f in chunk))
                o = u + ".o"
                rc, out = _run_cc([cxx] + flags + inc + ["-c", u, "-o", o])
                if rc == 0:
                    return [o]
            objs = []          # fall back to one translation unit per file
            for k, f in enumerate(chunk):
                o = os.path.join(tmp, "u%d_%d.o" % (ix, k))
                rc, out = _run_cc([cxx] + flags + inc + ["-c", f, "-o", o])
                if rc != 0:
                    rc, out = _run_cc([cxx] + flags + ["-include", "numeric", "-c", f, "-o", o])
                if rc != 0:
                    raise InfraError("cannot compile %s:\n%s" % (f, out[-4000:]))
                objs.append(o)
            return objs

        def compile_drv(d):
            t, src, exe = d
            o = os.path.join(tmp, "drv_%s.o" % t)
            rc, out = _run_cc([cxx] + flags + inc + ["-c", src, "-o", o])
            if rc != 0:
                raise InfraError("cannot compile %s:\n%s" % (src, out[-6000:]))
            return o

        with ThreadPoolExecutor(NCPU) as ex:
            fd = [ex.submit(compile_drv, d) for d in drv_needed]
            fl = [ex.submit(compile_unit, u) for u in enumerate(units)]
            dobjs = [f.result() for f in fd]
            lobjs = [o for f in fl for o in f.result()]
        os.makedirs(libdir, exist_ok=True)
        if need_lib:
            a = os.path.join(tmp, "moment.a")
            rc, out = _run_cc(["ar", "rcs", a] + lobjs)
            if rc:
                raise InfraError("ar failed: " + out)
            os.replace(a, libobj)
        link, extra = flags, []
        if san == "sched":      # instrumented code, with our scheduler in place of the sanitizer's runtime
            link, extra = [f for f in flags if not f.startswith("-fsanitize")], [os.path.join(tmp, "vsched.o"), "-ldl"]
            rc, out = _run_cc([cxx, "-std=c++20", "-O2", "-I" + HARNESS, "-c", os.path.join(HARNESS, "vsched.cc"), "-o", extra[0]])
            if rc:
                raise InfraError("cannot compile the scheduler: " + out[-4000:])
        for (t, src, exe), o in zip(drv_needed, dobjs):
            rc, out = _run_cc([cxx] + link + ["-o", exe + ".tmp", o, libobj] + extra)
            if rc:
                raise InfraError("link failed: " + out[-4000:])
            os.replace(exe + ".tmp", exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    log("build %s in %.1fs" % (",".join(topics), time.time() - t0))
    return exes


# ----------------------------------------------------------------------------- driver
def run_driver(exe, outdir, args, timeout=300, env=None):
    """Runs a driver which appends events (one JSON object per line) to outdir/trace.ndjson.
    Events with e=="begin" open a session. Returns (sessions, status) ; a crash/hang is appended to the
    last session as an event no specification allows."""
    os.makedirs(outdir, exist_ok=True)
    tr = os.path.join(outdir, "trace.ndjson")
    if os.path.exists(tr):
        os.remove(tr)
    e = dict(os.environ)
    e.update(env or {})
    cmd = [exe, "--out", tr] + args
    errf = open(os.path.join(outdir, "stderr.txt"), "wb")
    status = "ok"
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, env=e, cwd=outdir, start_new_session=True)
    try:
        rc = p.wait(timeout=timeout)
        if rc != 0:
            status = "exit code %d" % rc if rc > 0 else "killed by signal %d (%s)" % (-rc, signal.Signals(-rc).name)
    except subprocess.TimeoutExpired:
        status = "hang: no result within %ds" % timeout
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    errf.close()
    sessions, seen = [], {}
    if os.path.exists(tr):
        with open(tr, errors="replace") as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                try:
                    ev = json.loads(line)
                except ValueError:
                    continue    # torn last line
                if ev.get("e") == "begin":
                    nm = ev["name"]
                    seen[nm] = seen.get(nm, 0) + 1
                    sessions.append({"name": nm if seen[nm] == 1 else "%s!%d" % (nm, seen[nm]), "ev": []})
                    ev.pop("name")
                    if len(ev) == 1:
                        continue
                if not sessions:
                    raise InfraError("driver wrote an event before any session")
                sessions[-1]["ev"].append(ev)
    if status != "ok":
        err = open(os.path.join(outdir, "stderr.txt"), errors="replace").read()[-2000:]
        if not sessions:
            sessions.append({"name": "startup", "ev": []})
        sessions[-1]["ev"].append({"e": "died", "status": status, "stderr": err})
    return sessions, status


# ----------------------------------------------------------------------------- TLC
def tlc(module, cfg, workdir, env=None, workers=NCPU, timeout=600, extra=(), mem="6g"):
    os.makedirs(workdir, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + mem, "-cp", TLA_CP,
           "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=SPEC, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        out += "\n[verif] TLC timed out\n"
        rc = -9
    else:
        rc = p.returncode
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist, "wall": time.time() - t0}


def _validate_once(trace_module, sessions, workdir, timeout, consts, mem):
    os.makedirs(workdir, exist_ok=True)
    sf = os.path.join(workdir, "sessions.ndjson")
    with open(sf, "w") as f:
        for s in sessions:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    cfg = os.path.join(workdir, "trace.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n")
        if "TraceView ==" in open(os.path.join(SPEC, trace_module + ".tla")).read():
            f.write("VIEW TraceView\n")      # the specification is a function of the trace: identify a state by its place in it
        for k, v in (consts or {}).items():
            f.write("CONSTANT %s = %s\n" % (k, v))
    r = tlc(os.path.join(SPEC, trace_module + ".tla"), cfg, workdir, env={"TRACE": sf}, timeout=timeout, mem=mem)
    out = r["out"]
    rej = []
    for m in re.finditer(r'<<\s*"REJECT",\s*"((?:[^"\\]|\\.)*)",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
        rej.append({"session": m.group(1), "event": int(m.group(2)), "why": m.group(3)})
    if "Model checking completed. No error has been found." in out:
        return rej, r, None
    # an event the specification cannot even evaluate (an impossible value): find the state it happened in
    m = re.findall(r"/\\ i = (\d+)", out)
    n = re.findall(r"/\\ s = (\d+)", out)
    if ("Error: The error occurred when TLC was evaluating" in out or "Error evaluating" in out
            or "while evaluating" in out or "Evaluating" in out) and m and n \
            and "OutOfMemory" not in out and "timed out" not in out and "StackOverflow" not in out \
            and "Parsing or semantic analysis failed" not in out:
        return rej, r, (int(n[-1]), int(m[-1]))
    open(os.path.join(workdir, "tlc.out"), "w").write(out)
    raise InfraError("TLC could not evaluate %s: %s" % (trace_module, out[-3000:]))


def validate(trace_module, sessions, workdir, timeout=600, consts=None, mem="8g", strict=True):
    """Validate sessions against the trace specification. Returns (rejections, stats).
    An event on which the specification cannot be evaluated at all (a value of an impossible shape) is a rejection."""
    todo, rejs, gen, dist, wall = list(sessions), [], 0, 0, 0.0
    uneval = 0
    while todo:
        rej, r, err = _validate_once(trace_module, todo, workdir, timeout, consts, mem)
        gen += r["generated"]
        wall += r["wall"]
        if err is None:
            dist += r["distinct"]
            rejs += rej
            expect = sum(len(s["ev"]) + 1 for s in todo)
            if strict and r["distinct"] != expect and not rej:
                raise InfraError("trace validation incomplete: %d states, expected %d" % (r["distinct"], expect))
            break
        k, i = err
        bad = todo[k - 1]
        if i >= len(bad["ev"]):
            open(os.path.join(workdir, "tlc.out"), "w").write(r["out"])
            raise InfraError("TLC error past the end of a session:\n" + r["out"][-3000:])
        if uneval == 0:
            open(os.path.join(workdir, "tlc.out"), "w").write(r["out"])
        # the rejections found up to here stay valid for the removed session
        rejs += [x for x in rej if x["session"] == bad["name"]]
        rejs.append({"session": bad["name"], "event": i + 1, "why": "no value the specification can give a meaning to"})
        todo = todo[:k - 1] + todo[k:]
        uneval += 1
        if uneval >= 8:
            break
    uniq = {(x["session"], x["event"]): x for x in rejs}
    return (sorted(uniq.values(), key=lambda x: (x["session"], x["event"])),
            {"generated": gen, "distinct": dist, "wall": wall})


def model_check(module, cfg, workdir, timeout=600, workers=NCPU, extra=(), mem="6g", refute=False):
    """Exhaustively model-check an abstract specification. Any failure is a defect of the specification (InfraError).
    refute: a model with a known mistake, for which the invariant must fail (it shows that the invariant is not vacuous)."""
    r = tlc(os.path.join(SPEC, module + ".tla"), os.path.join(SPEC, cfg), workdir, timeout=timeout, workers=workers,
            extra=extra, mem=mem)
    if refute:
        if "is violated" not in r["out"]:
            raise InfraError("model check of %s with %s did not find the mistake in it:\n%s" % (module, cfg, r["out"][-4000:]))
    elif "Model checking completed. No error has been found." not in r["out"]:
        raise InfraError("model check of %s with %s failed:\n%s" % (module, cfg, r["out"][-4000:]))
    return r
