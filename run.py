#!/usr/bin/env python3
"""Builds the monitored programs from /repo's working tree, runs them and judges one property.

    run.py C04 [--tier quick|thorough] [--seed N]     decide one property
    run.py --replay replays/C04-....json              build and run one recorded case again

Exit 0: the property held on everything explored.  Exit 1 (and a line
"VIOLATION property=<id> replay=<path>"): it did not.  Exit 2: no answer.
"""
import argparse
import hashlib
import heapq
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
NPROC = max(2, os.cpu_count() or 2)

# ---------------------------------------------------------------- what is built
# Shards of the engine; "crit" are the properties whose statement promises that the operations and
# types of the unit can be used at all (judged when the unit does not compile though others do).
IND = ["sub_ind_core", "sub_ind_types1", "sub_ind_types2", "sub_ind_types3"]
POLY = ["sub_poly_v1", "sub_poly_v2", "sub_poly_misc", "sub_poly_abs"]
NA = ["sub_na"]
ALL = IND + POLY + NA
CRIT = {
    "sub_na": {"C07", "C11"},
    "sub_poly_abs": {"C03", "C12"},
    "sub_ind_types1": {"C10", "C12"},
    "sub_ind_types2": {"C12"},
    "p_access": {"C10", "C12"},
    "p_nested": {"C13"},
    "p_compare": {"C08"},
    "p_hash": {"C09"},
    "p_composite_1": {"C15"},
    "p_composite_2": {"C15"},
    "p_composite_3": {"C15"},
    "p_composite_4": {"C15"},
    "p_composite_5": {"C15"},
    "p_composite_6": {"C15"},
    "p_threads": {"C14"},
    "p_traits_1": {"C18"},
    "p_traits_2": {"C18"},
    "p_traits_3": {"C18"},
    "p_traits_4": {"C18"},
    "p_traits_5": {"C18"},
    "p_constexpr_1": {"C17"},
    "p_constexpr_2": {"C17"},
    "p_constexpr_3": {"C17"},
    "p_constexpr_4": {"C17"},
    "p_constexpr_5": {"C17"},
    "p_constexpr_6": {"C17"},
}
PROGRAMS = {  # program -> units (source, extra flags)
    "p_access": [("p_access", [])],
    "p_compare": [("p_compare", [])],
    "p_hash": [("p_hash", [])],
    "p_nested": [("p_nested", [])],
    "p_composite": [("p_composite_%d" % i, ["-DVT_PART=%d" % i]) for i in (1, 2, 3, 4, 5, 6)],
    "p_threads": [("p_threads", [])],
    "p_traits": [("p_traits_%d" % i, ["-DVT_PART=%d" % i]) for i in (1, 2, 3, 4, 5)],
    "p_constexpr": [("p_constexpr_%d" % i, ["-DVT_PART=%d" % i]) for i in (1, 2, 3, 4, 5, 6)],
}


class Config:
    def __init__(self, name, cxx, std, hdr, flags, order=0, kind="asan"):
        self.name, self.cxx, self.std, self.hdr = name, cxx, std, hdr
        self.flags, self.order, self.kind = flags, order, kind

    def compile_flags(self):
        f = ["-std=c++%d" % self.std, "-DVT_HDR=%d" % self.hdr, "-DVT_ORDER=%d" % self.order,
             "-I" + REPO, "-I" + HARNESS, "-w", "-g1"] + self.flags
        if self.cxx == "clang++":
            f += ["-Wno-everything"]
        return f


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
MSAN = ["-fsanitize=memory", "-fno-sanitize-recover=all", "-fsanitize-memory-track-origins=0"]
Q1 = Config("clang20-asan", "clang++", 20, 20, ["-O0"] + SAN)
Q2 = Config("clang14-asan", "clang++", 14, 14, ["-O0"] + SAN, order=1)
Q3 = Config("gcc23-O1-ndebug", "g++", 23, 20, ["-O1", "-DNDEBUG"], kind="plain", order=1)
Q4 = Config("gcc17-O1-ndebug", "g++", 17, 14, ["-O1", "-DNDEBUG"], kind="plain")
T5 = Config("clang23-O1-asan", "clang++", 23, 20, ["-O1"] + SAN)
T6 = Config("clang17-O1-asan", "clang++", 17, 14, ["-O1"] + SAN)
T7 = Config("gcc20-asan", "g++", 20, 20, ["-O1", "-DNDEBUG"] + SAN)
T8 = Config("gcc14-asan", "g++", 14, 14, ["-O1"] + SAN)
T9 = Config("clang20hdr14-asan", "clang++", 20, 14, ["-O0"] + SAN)
T10 = Config("clang20-O3-ndebug", "clang++", 20, 20, ["-O3", "-DNDEBUG"], kind="plain")
T11 = Config("gcc20hdr14-O3", "g++", 20, 14, ["-O3"], kind="plain")
T12 = Config("gcc23-glibcxx-debug", "g++", 23, 20,
             ["-O0", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS"] + SAN)
T13 = Config("gcc17-glibcxx-debug", "g++", 17, 14,
             ["-O0", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS"] + SAN)
V1 = Config("gcc20-valgrind", "g++", 20, 20, ["-O1"], kind="valgrind")
V2 = Config("gcc14-valgrind", "g++", 14, 14, ["-O1"], kind="valgrind")
QUICK = [Q1, Q2, Q3, Q4]
THOROUGH = QUICK + [T5, T6, T7, T8, T9, T10, T11, T12, T13]

# threads
N1 = Config("clang20-tsan", "clang++", 20, 20, ["-O1"] + TSAN, kind="tsan")
N2 = Config("clang14-tsan", "clang++", 14, 14, ["-O1"] + TSAN, kind="tsan")
N3 = Config("gcc23-tsan", "g++", 23, 20, ["-O2", "-DNDEBUG"] + TSAN, kind="tsan")
N4 = Config("gcc17-tsan", "g++", 17, 14, ["-O2", "-DNDEBUG"] + TSAN, kind="tsan")

# parity: no sanitizers, what differs is what the property quantifies over
P1 = Config("par-gcc14", "g++", 14, 14, ["-O0"], kind="plain")
P2 = Config("par-gcc20", "g++", 20, 20, ["-O0"], kind="plain")
P3 = Config("par-clang17-O2-ndebug", "clang++", 17, 14, ["-O2", "-DNDEBUG"], kind="plain", order=1)
P4 = Config("par-clang23-O2-ndebug", "clang++", 23, 20, ["-O2", "-DNDEBUG"], kind="plain", order=1)
P5 = Config("par-gcc23hdr14-O2", "g++", 23, 14, ["-O2"], kind="plain")
P6 = Config("par-clang14-O1", "clang++", 14, 14, ["-O1"], kind="plain")
P7 = Config("par-gcc17", "g++", 17, 14, ["-O1", "-DNDEBUG"], kind="plain", order=1)
P8 = Config("par-clang20-O0", "clang++", 20, 20, ["-O0", "-DNDEBUG"], kind="plain")
P9 = Config("par-gcc23-O3", "g++", 23, 20, ["-O3"], kind="plain")
P10 = Config("par-clang20hdr14", "clang++", 20, 14, ["-O3", "-DNDEBUG"], kind="plain")

PLAN = {  # property -> (engine shards, programs)
    "C01": (ALL, ["p_nested", "p_composite", "p_access"]),
    "C02": (ALL, ["p_access", "p_composite"]),
    "C03": (POLY + NA, ["p_composite"]),
    "C04": (ALL, ["p_nested"]),
    "C05": (ALL, ["p_compare"]),
    "C06": (ALL, ["p_nested", "p_composite"]),
    "C07": (ALL, ["p_access"]),
    "C08": ([], ["p_compare", "p_composite"]),
    "C09": ([], ["p_hash"]),
    "C10": (ALL, ["p_access"]),
    "C11": (ALL, []),
    "C12": (ALL, ["p_access"]),
    "C13": (ALL, ["p_nested"]),
    "C14": ([], ["p_threads"]),
    "C15": ([], ["p_composite", "p_nested"]),
    "C17": ([], ["p_constexpr"]),
    "C18": ([], ["p_traits"]),
    "C16": (ALL, ["p_compare", "p_hash", "p_access", "p_nested", "p_composite"]),
}
RULES = {
    "engine": "exhaustive matrix operation x target state x source state x owned type x allocator "
              "configuration x relation of allocators x fault point, followed by uses of both operands, "
              "and random histories over five holders; a case counts as distinct and non-trivial when "
              "its signature (subject, operation, states and relation of the operands, types, fault "
              "point, outcome) is new and the operation touched at least one holder",
    "program": "cases of the directed programs with random inputs; one counts as distinct when the "
               "signature (case, types, states, values or structure compared) is new",
}


def constexpr_flags(cfg, seed, thorough):
    """How many histories the compiler carries out, which ones, and a limit that is out of the way."""
    return ["-DVT_SEED=%d" % seed, "-DVT_HISTORIES=%d" % (60 if thorough else 16),
            "-DVT_STEPS=%d" % (150 if thorough else 60),
            "-fconstexpr-steps=1000000000" if cfg.cxx == "clang++" else "-fconstexpr-ops-limit=4000000000"]


# ---------------------------------------------------------------- helpers
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(root, skip):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in skip and not x.startswith("."))
        for f in sorted(files):
            if re.search(r"\.(h|hh|hpp|hxx|inc|ipp|cc|cpp)$", f):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


class Task:
    """A command; runs when `deps` are finished; `then(rc, log)` is called afterwards."""

    def __init__(self, prio, cmd, log, then, env=None, timeout=None):
        self.prio, self.cmd, self.log, self.then = prio, cmd, log, then
        self.env, self.timeout = env, timeout

    def __lt__(self, o):
        return self.prio < o.prio


class Pool:
    """Runs commands, at most `n` at a time, smallest priority first."""

    def __init__(self, n):
        self.n, self.heap, self.running, self.stop = n, [], {}, False
        self.seq = 0

    def add(self, t):
        self.seq += 1
        heapq.heappush(self.heap, (t.prio, self.seq, t))

    def drop(self, pred):
        self.heap = [x for x in self.heap if not pred(x[2])]
        heapq.heapify(self.heap)

    def kill(self):
        self.stop = True
        self.heap = []
        for p, (t, f, t0) in list(self.running.items()):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            f.close()
        self.running = {}

    def loop(self, tick=None):
        while (self.heap or self.running) and not self.stop:
            while self.heap and len(self.running) < self.n and not self.stop:
                t = heapq.heappop(self.heap)[2]
                f = open(t.log, "wb")
                p = subprocess.Popen(t.cmd, stdout=f, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, env=t.env, start_new_session=True)
                self.running[p] = (t, f, time.time())
            done = [p for p in self.running if p.poll() is not None]
            for p in done:
                t, f, t0 = self.running.pop(p)
                f.close()
                if os.environ.get("VT_VERBOSE"):
                    print("%6.1f s  rc %d  %s" % (time.time() - t0, p.returncode,
                                                  os.path.basename(t.cmd[-1] if "-o" in t.cmd else t.log)))
                t.then(p.returncode, t.log)
                if self.stop:
                    return
            for p, (t, f, t0) in list(self.running.items()):
                if t.timeout and time.time() - t0 > t.timeout:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
            if tick:
                tick()
            if not done:
                time.sleep(0.02)


def tail(path, n=4000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


def head(path, n=4000):
    try:
        with open(path, "rb") as f:
            return f.read(n).decode("utf-8", "replace")
    except OSError:
        return ""


def compiler_crashed(rc, log):
    if rc is None or rc < 0 or rc >= 128:
        return True
    text = tail(log, 20000)
    return bool(re.search(r"Killed signal terminated|internal compiler error: (Segmentation|Killed|Bus)|"
                          r"frontend command failed|out of memory|No space left|cannot allocate memory", text, re.I))


def known_findings():
    r = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"open: property=(\S+) key=(\S+)\s+(.*)", line.strip())
                if m:
                    r.append({"property": m.group(1), "key": m.group(2), "text": m.group(3)})
    except OSError:
        pass
    return r


# ---------------------------------------------------------------- one check
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.soft_deadline = self.t0 + (480 if tier == "quick" else 3 * 3600)
        self.hard_deadline = self.t0 + (840 if tier == "quick" else 6 * 3600)
        self.bit = int(prop[1:])
        self.harness_hash = tree_hash(HARNESS, {"__pycache__"})
        self.repo_hash = tree_hash(REPO, {"_build", "build", "node_modules"})
        self.cxx_version = {}
        self.work = tempfile.mkdtemp(prefix="vt-%s-" % prop, dir=BUILD)
        self.pool = Pool(NPROC)
        self.violations = []
        self.crashed = set()
        self.known_hit = []
        self.notes = []
        self.inconclusive = []
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.measured = {"runs": 0, "jobs": 0, "configurations": [], "units": 0,
                         "reports_outside_property": 0}
        self.objs = {}       # key -> state: "building" | "ok" | "fail"
        self.waiters = {}
        self.broken_headers = {}
        self.traces = {}
        self.prog_results = {}

    # -------- building
    def version(self, cxx):
        if cxx not in self.cxx_version:
            self.cxx_version[cxx] = subprocess.run([cxx, "--version"], capture_output=True,
                                                   text=True).stdout.split("\n")[0]
        return self.cxx_version[cxx]

    def obj(self, cfg, unit, extra, prio, then):
        """Compiles a unit (cached by content), then calls then(path or None, log)."""
        src = re.sub(r"^(p_composite|p_constexpr|p_traits)_\d$", r"\1", unit)
        flags = cfg.compile_flags() + extra
        if unit in ("mon", "engine", "casemain"):
            # the monitor itself: no code of the library in it
            flags = [f for f in flags if not f.startswith(("-fsanitize", "-fno-sanitize", "-O"))] + ["-O2"]
        key = sha(cfg.cxx, self.version(cfg.cxx), " ".join(flags), src, self.harness_hash, self.repo_hash)
        d = os.path.join(BUILD, "obj")
        path, log = os.path.join(d, key + ".o"), os.path.join(d, key + ".log")
        st = self.objs.get(key)
        if st is None and os.path.exists(path):
            st = self.objs[key] = "ok"
        if st == "ok":
            os.utime(path)
            return then(path, log)
        if st == "fail":
            return then(None, log)
        self.waiters.setdefault(key, []).append(then)
        if st == "building":
            return
        self.objs[key] = "building"
        tmp = os.path.join(self.work, key + ".o")
        cmd = [cfg.cxx] + flags + ["-o", tmp, "-c", os.path.join(HARNESS, src + ".cc")]
        tlog = os.path.join(self.work, key + ".log")

        tries = [0]

        def finished(rc, _log):
            ok = rc == 0 and os.path.exists(tmp)
            if not ok and compiler_crashed(rc, tlog):  # killed, out of memory, ...: says nothing about the code
                tries[0] += 1
                if tries[0] < 3:
                    return self.pool.add(Task(prio, cmd, tlog, finished))
                self.crashed.add(tlog)
                self.inconclusive.append("the compiler crashed or was killed on %s" % unit)
            if ok:
                os.replace(tmp, path)
            self.objs[key] = "ok" if ok else "fail"
            for w in self.waiters.pop(key, []):
                w(path if ok else None, tlog)

        self.pool.add(Task(prio, cmd, tlog, finished))

    def exe(self, cfg, name, units, prio, then, main=("mon",)):
        """Builds a program of `units` [(unit, flags)]; units that do not compile are left out."""
        want = [(u, []) for u in main] + list(units)
        got, failed = [], []

        def one(u):
            def cb(path, log):
                (got if path else failed).append((u, path, log))
                if len(got) + len(failed) == len(want):
                    link()
            return cb

        def link():
            bad_main = [x for x in failed if x[0] in main]
            good = [x for x in got if x[0] not in main]
            for u, _p, log in failed:
                self.compile_failure(cfg, u, log)
            if self.pool.stop or bad_main or not good:
                if not self.pool.stop and bad_main:
                    self.inconclusive.append("%s: %s does not compile" % (cfg.name, bad_main[0][0]))
                return then(None)
            out = os.path.join(self.work, "%s.%s" % (name, cfg.name))
            cmd = [cfg.cxx] + [f for f in cfg.flags if f.startswith(("-f", "-O", "-std"))] + \
                sorted(p for _u, p, _l in got) + ["-o", out, "-lpthread"]

            def linked(rc, log):
                if rc != 0:
                    self.inconclusive.append("%s: %s does not link: %s" % (cfg.name, name, tail(log, 400)))
                    return then(None)
                self.measured["units"] += len(got)
                then(out)
            self.pool.add(Task(prio, cmd, out + ".link", linked))

        for u, extra in want:
            self.obj(cfg, u, extra, prio, one(u))

    def compile_failure(self, cfg, unit, log):
        """A unit that does not compile although the headers do breaks what the unit stands for."""
        if self.pool.stop or log in self.crashed:
            return
        probe = self.probe(cfg)
        if not probe:
            self.inconclusive.append("%s: the headers themselves do not compile" % cfg.name)
            return
        text = "%s: %s does not compile although the headers do" % (cfg.name, unit)
        if self.prop in CRIT.get(unit, set()) or (self.prop == "C16"):
            errs = "\n".join([l for l in head(log, 1 << 20).split("\n") if "error" in l][:6])
            self.violation({"labels": self.prop, "oracle": "does-not-compile", "subject": unit,
                            "text": text + "\n" + errs[:1500], "case": -1, "index": 0,
                            "history": ""}, cfg, unit, [], log)
        else:
            self.notes.append(text + " (left out)")

    def probe(self, cfg):
        key = cfg.name
        if key not in self.broken_headers:
            src = os.path.join(self.work, "probe-%s.cc" % cfg.name)
            with open(src, "w") as f:
                f.write('#include "compat.h"\nstruct B { virtual ~B() = default; };\n'
                        'struct D : B { int x = 1; };\n'
                        'int main() { xyz::indirect<int> i, j(i); i = j; i = std::move(j);\n'
                        '  xyz::polymorphic<B> p{vt::in_place_type<D>()}, q(p); p = q;\n'
                        '  p = std::move(q); swap(p, q); swap(i, j); return *i; }\n')
            r = subprocess.run([cfg.cxx] + cfg.compile_flags() + ["-fsyntax-only", src],
                               capture_output=True)
            self.broken_headers[key] = r.returncode == 0
        return self.broken_headers[key]

    # -------- running
    def env(self, cfg):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:handle_abort=0:allocator_may_return_null=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
        return e

    def launch(self, cfg, name, exe, args, prio, shards, then=None):
        left = [shards]
        for i in range(shards):
            base = os.path.join(self.work, "%s.%s.%d" % (name, cfg.name, i))
            a = list(args) + ["--report", base + ".rep", "--cov", base + ".cov"]
            if shards > 1:
                a += ["--shard", "%d/%d" % (i, shards)]
            a = [x.replace("@", base) for x in a]
            cmd = [exe] + a
            if cfg.kind == "valgrind":
                cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes",
                       "--leak-check=no", "--trace-children=no"] + cmd

            def finished(rc, log, base=base, a=a, i=i):
                self.collect(cfg, name, rc, log, base, a)
                left[0] -= 1
                if left[0] == 0 and then and not self.pool.stop:
                    then()
            self.measured["runs"] += 1
            self.pool.add(Task(prio, cmd, base + ".out", finished, env=self.env(cfg)))

    def collect(self, cfg, name, rc, log, base, args):
        recs, ended = [], False
        try:
            with open(base + ".rep", errors="replace") as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if d.get("end"):
                        ended = True
                        self.measured["jobs"] += d.get("jobs", 0)
                        self.measured["reports_outside_property"] += d.get("unrelated", 0)
                        for k in ("switches", "interleavings"):
                            if k in d:
                                self.measured[k] = self.measured.get(k, 0) + d[k]
                    else:
                        recs.append(d)
        except OSError:
            pass
        if "--trace-hash" in args:
            # judged by comparing traces
            recs = []
        if self.prop == "C16" and "--trace-hash" not in args:
            res = self.prog_results.setdefault((name, cfg.name), set())
            for d in recs:
                res.add((d["subject"], d["index"], d["oracle"], d["text"][:300]))
            recs = []
        for d in recs:
            if self.prop in d["labels"].split(","):
                self.violation(d, cfg, name, args, log)
                if self.pool.stop:
                    return
        if not ended or rc not in (0, 3):
            self.inconclusive.append("%s on %s ended with %s: %s" % (name, cfg.name, rc, tail(log, 300)))
        try:
            with open(base + ".cov", errors="replace") as f:
                for line in f:
                    p = line.split(" ", 2)
                    if len(p) < 3 or p[1] != str(self.bit):
                        continue
                    if p[0] == "E":
                        self.evals += int(p[2])
                    elif p[0] == "S":
                        self.sigs.update(name[:6] + x for x in p[2].split())
                    elif p[0] == "X" and len(self.samples) < 12:
                        s = p[2].strip()
                        if len(self.samples) < 4 or name not in [x.split(":")[0] for x in self.samples]:
                            self.samples.append("%s: %s" % (name, s[:900]))
            os.unlink(base + ".cov")
        except OSError:
            pass

    def violation(self, d, cfg, name, args, log):
        for k in known_findings():
            if k["property"] == self.prop and re.search(k["key"], "%s %s %s" % (
                    d["subject"], d["oracle"], d["text"])):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        os.makedirs(REPLAYS, exist_ok=True)
        body = {
            "property": self.prop, "labels": d["labels"], "oracle": d["oracle"],
            "subject": d["subject"], "case": d["case"], "index": d["index"], "text": d["text"],
            "history": d.get("history", ""), "config": cfg.name if cfg else "", "program": name,
            "args": args, "seed": self.seed, "tier": self.tier,
            "output": (head(log, 6000) + "\n...\n" + tail(log, 3000)) if log else "",
            "how": "python3 /verif/run.py --replay <this file>",
        }
        if "peer" in d:
            body["peer"] = d["peer"]
        path = os.path.join(REPLAYS, "%s-%s.json" % (self.prop, sha(d["text"], d["subject"], d["case"], name)[:10]))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        self.violations.append((d, path))
        self.pool.kill()

    # -------- plans
    def plan(self):
        if self.prop == "C16":
            return self.plan_parity()
        if self.prop == "C17":
            return self.plan_constexpr()
        shards, programs = PLAN[self.prop]
        thorough = self.tier == "thorough"
        cfgs = THOROUGH if thorough else QUICK
        focus = ["--focus", "%x" % (1 << self.bit)]
        seed = ["--seed", str(self.seed)]
        for ci, cfg in enumerate(cfgs):
            self.measured["configurations"].append(cfg.name)
            if shards:
                rnd = 60 if thorough else 8
                length = 400 if thorough else 120
                args = focus + seed + ["--random", str(rnd), "--len", str(length), "--max-bad", "3"]

                def run_engine(exe, cfg=cfg, ci=ci, args=args):
                    if exe:
                        self.launch(cfg, "engine", exe, args, (ci, 1), NPROC)
                self.exe(cfg, "engine", [(s, []) for s in shards], (ci, 2), run_engine,
                         main=("mon", "engine"))
            for p in programs:
                if p == "p_threads":
                    continue
                scale = "40" if thorough else "3"
                args = focus + seed + ["--scale", scale, "--max-bad", "3"]
                if thorough:
                    args.append("--thorough")

                def run_prog(exe, cfg=cfg, ci=ci, args=args, p=p):
                    if exe:
                        self.launch(cfg, p, exe, args, (ci, 1), 4)
                self.exe(cfg, p, PROGRAMS[p], (ci, 3), run_prog, main=("mon", "casemain"))
        if "p_threads" in programs:
            self.plan_threads()
        if thorough and shards:
            # long random histories, without the matrix, with other seeds
            for k in range(4):
                for cfg in (Q1, Q2):
                    args = focus + ["--seed", str(self.seed * 1000 + 17 + k), "--no-matrix",
                                    "--random", "400", "--len", "1500", "--max-bad", "3"]

                    def run_long(exe, cfg=cfg, args=args, k=k):
                        if exe:
                            self.launch(cfg, "engine-long%d" % k, exe, args, (30 + k, 1), NPROC)
                    self.exe(cfg, "engine", [(s, []) for s in shards], (30 + k, 2), run_long,
                             main=("mon", "engine"))
        if thorough and self.prop in ("C01", "C05", "C13"):
            for cfg in (V1, V2):
                args = focus + seed + ["--no-matrix", "--random", "6", "--len", "150", "--max-bad", "3"]

                def run_vg(exe, cfg=cfg, args=args):
                    if exe:
                        self.launch(cfg, "engine", exe, args, (40, 1), NPROC)
                self.exe(cfg, "engine", [(s, []) for s in shards], (40, 2), run_vg, main=("mon", "engine"))

    def plan_threads(self):
        thorough = self.tier == "thorough"
        cfgs = [N1, N2, N3, N4, Q1, Q2] if not thorough else [N1, N2, N3, N4, Q1, Q2, T7, T8]
        self.measured["configurations"] = [c.name for c in cfgs]
        for ci, cfg in enumerate(cfgs):
            args = ["--seed", str(self.seed), "--scale", "20" if thorough else "1"]

            def run(exe, cfg=cfg, ci=ci, args=args):
                if exe:
                    self.launch(cfg, "p_threads", exe, args, (ci, 1), 3 if not thorough else 6)
            self.exe(cfg, "p_threads", PROGRAMS["p_threads"], (ci, 2), run, main=())

    # -------- C17: histories carried out while compiling, and again while running
    def plan_constexpr(self):
        thorough = self.tier == "thorough"
        cfgs = [P2, P4, P8, P9]
        self.measured["configurations"] = [c.name for c in cfgs]
        for k in range(8 if thorough else 1):
            for ci, cfg in enumerate(cfgs):
                extra = constexpr_flags(cfg, self.seed * 100 + k, thorough)
                units = [(u, f + extra) for u, f in PROGRAMS["p_constexpr"]]
                name = "p_constexpr" if k == 0 else "p_constexpr%d" % k

                def run(exe, cfg=cfg, ci=ci, k=k, name=name):
                    if exe:
                        self.launch(cfg, name, exe, ["--seed", str(self.seed)], (4 * k + ci, 1), 1)
                self.exe(cfg, name, units, (4 * k + ci, 2), run, main=("mon", "casemain"))

    # -------- C16: the same histories in differently built programs
    def plan_parity(self):
        thorough = self.tier == "thorough"
        cfgs = [P1, P2, P3, P4, P5] if not thorough else [P1, P2, P3, P4, P5, P6, P7, P8, P9, P10]
        self.par_cfgs = cfgs
        self.measured["configurations"] = [c.name for c in cfgs]
        shards, programs = PLAN["C16"]
        rnd, length = ("40", "400") if thorough else ("8", "120")
        args = ["--seed", str(self.seed), "--random", rnd, "--len", length, "--trace", "@.trace",
                "--trace-hash", "--max-bad", "1000000"]
        for ci, cfg in enumerate(cfgs):
            def run_engine(exe, cfg=cfg, ci=ci):
                if exe:
                    self.launch(cfg, "engine", exe, args, (ci, 1), NPROC,
                                then=lambda: self.traces_ready(cfg, exe, args))
            self.exe(cfg, "engine", [(s, []) for s in shards], (ci, 2), run_engine, main=("mon", "engine"))
            for p in programs:
                pargs = ["--seed", str(self.seed), "--scale", "10" if thorough else "1", "--max-bad", "400"]

                def run_prog(exe, cfg=cfg, ci=ci, p=p, pargs=pargs):
                    if exe:
                        self.launch(cfg, p, exe, pargs, (ci, 1), 2)
                self.exe(cfg, p, PROGRAMS[p], (ci, 3), run_prog, main=("mon", "casemain"))

    def traces_ready(self, cfg, exe, args):
        files = [os.path.join(self.work, "engine.%s.%d.trace" % (cfg.name, i)) for i in range(NPROC)]
        self.traces[cfg.name] = (cfg, exe, files)
        first = self.par_cfgs[0].name
        if first in self.traces:
            for name in list(self.traces):
                if name != first and not self.traces[name][2] == "done":
                    self.compare_traces(self.traces[first], self.traces[name], args)
                    if self.pool.stop:
                        return

    @staticmethod
    def load_trace(path):
        r = {}
        with open(path, errors="replace") as f:
            for line in f:
                p = line.rstrip("\n").rsplit(" ", 2)
                if " ABNORMAL " in line:
                    a, b = line.rstrip("\n").split(" ABNORMAL ")
                    r[a] = "ABNORMAL " + b
                elif len(p) == 3:
                    r[p[0] + " " + p[1]] = p[2]
        return r

    def compare_traces(self, a, b, args):
        ca, ea, fa = a
        cb, eb, fb = b
        total = 0
        for i in range(NPROC):
            x, y = self.load_trace(fa[i]), self.load_trace(fb[i])
            total += len(x)
            if x == y:
                continue
            diff = [k for k in x if k in y and x[k] != y[k]]
            only = [k for k in x if k not in y] + [k for k in y if k not in x]
            if not diff and not only:
                continue
            k = diff[0] if diff else only[0]
            text = self.explain(ca, ea, cb, eb, k, args, i)
            self.violation({"labels": "C16", "oracle": "trace-divergence", "subject": k, "case": i,
                            "index": 0, "text": "%d of %d cases behave differently under %s and %s; first: %s\n%s"
                            % (len(diff) + len(only), len(x), ca.name, cb.name, k, text),
                            "history": "", "peer": ca.name}, cb, "engine", args, None)
            return
        self.measured["traces_compared_" + cb.name] = total
        for f in fb:
            os.unlink(f)
        self.traces[cb.name] = (cb, eb, "done")

    def explain(self, ca, ea, cb, eb, key, args, shard):
        """Runs the first diverging case in both builds and shows where they part."""
        subject, index = key.rsplit(" ", 1)
        out = []
        for cfg, exe in ((ca, ea), (cb, eb)):
            t = os.path.join(self.work, "explain.%s" % cfg.name)
            a = ["--seed", str(self.seed), "--subject", subject, "--trace", t, "--max-bad", "1000000",
                 "--only-index", index] + args[args.index("--random"):args.index("--trace")]
            try:
                subprocess.run([exe] + a + ["--report", t + ".rep"], capture_output=True, timeout=120)
            except subprocess.TimeoutExpired:
                pass
            out.append(head(t, 200000).split("\n"))
        for i, (l, m) in enumerate(zip(*out)):
            if l != m:
                return "step %d\n  %s: %s\n  %s: %s\nbefore it:\n%s" % (
                    i, ca.name, l, cb.name, m, "\n".join(out[0][max(0, i - 6):i]))
        return "the traces differ in length (%d and %d lines)" % (len(out[0]), len(out[1]))

    def finish_parity(self):
        progs = sorted({p for p, _c in self.prog_results})
        for p in progs:
            have = {c.name: self.prog_results[(p, c.name)] for c in self.par_cfgs if (p, c.name) in self.prog_results}
            names = sorted(have)
            # what fails under one build and not under another
            sets = {n: {(s, i) for s, i, _o, _t in have[n]} for n in names}
            every = set.intersection(*sets.values()) if sets else set()
            for n in names:
                extra = sorted(sets[n] - every)
                if extra:
                    d = [x for x in have[n] if (x[0], x[1]) == extra[0]][0]
                    cfg = [c for c in self.par_cfgs if c.name == n][0]
                    others = [m for m in names if extra[0] not in sets[m]]
                    self.violation({"labels": "C16", "oracle": "divergence", "subject": d[0], "case": -1,
                                    "index": d[1], "text": "%s case %s fails under %s but not under %s: %s" % (
                                        p, d[0], n, ", ".join(others), d[3]), "history": ""},
                                   cfg, p, ["--seed", str(self.seed)], None)
                    return
        self.measured["program_builds_compared"] = len(self.prog_results)

    # -------- everything
    def run(self):
        self.plan()

        def tick():
            now = time.time()
            if now > self.soft_deadline and self.pool.heap:
                late = [x for x in self.pool.heap if x[2].prio[0] > 0]
                if late:
                    self.notes.append("soft deadline reached: %d tasks of later configurations skipped" % len(late))
                    self.pool.drop(lambda t: t.prio[0] > 0)
            if now > self.hard_deadline:
                self.inconclusive.append("deadline")
                self.pool.kill()
        self.pool.loop(tick)
        if self.prop == "C16" and not self.violations:
            self.finish_parity()

    def evidence(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        fault = self.prop == "C06"
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.sigs),
            "rule": "; ".join(([RULES["engine"]] if PLAN[self.prop][0] else []) +
                              ([RULES["program"]] if PLAN[self.prop][1] else [])),
            "samples": self.samples or ["none recorded"],
            "measured": self.measured,
        }
        if self.notes:
            cov["notes"] = self.notes
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed,
             "level": "fault_enumeration" if fault else "exploration", "coverage": cov,
             "assumptions": [
                 "libstdc++ 13, gcc 13.3 and clang 18.1 on x86-64 behave as documented",
                 "allocators and owned types of the workload meet the requirements of the specification",
             ],
             "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)


def prune():
    """Keeps the object cache below 3 GB."""
    d = os.path.join(BUILD, "obj")
    fs = []
    for f in os.listdir(d):
        p = os.path.join(d, f)
        try:
            s = os.stat(p)
            fs.append((s.st_mtime, s.st_size, p))
        except OSError:
            pass
    total = sum(x[1] for x in fs)
    for _m, size, p in sorted(fs):
        if total < 3 << 30:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= size


def check(prop, tier, seed):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    prune()
    c = Check(prop, tier, seed)
    try:
        c.run()
        c.evidence()
    finally:
        c.pool.kill()
        shutil.rmtree(c.work, ignore_errors=True)
    for n in c.notes:
        print("note: " + n)
    for k in known_findings():
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    print("%s %s: %d evaluations, %d distinct, %d jobs, %.1f s" % (
        prop, tier, c.evals, len(c.sigs), c.measured["jobs"], time.time() - c.t0))
    if c.violations:
        for d, path in c.violations:
            print("%s %s: %s" % (d["subject"], d["oracle"], d["text"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if c.inconclusive:
        for i in c.inconclusive:
            print("no answer: " + i)
        return 2
    if c.evals == 0:
        print("no answer: nothing was evaluated")
        return 2
    return 0


def replay(path):
    with open(path) as f:
        b = json.load(f)
    print(json.dumps({k: b[k] for k in b if k not in ("output", "history")}, indent=1))
    print(b["history"])
    print(b["output"])
    cfgs = {c.name: c for c in list(globals().values()) if isinstance(c, Config)}
    if b["config"] not in cfgs or b["case"] < 0 and b["oracle"] in ("does-not-compile", "divergence"):
        return 0
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    c = Check(b["property"], b["tier"], b["seed"])
    cfg = cfgs[b["config"]]
    args = [a for a in b["args"]]
    for opt in ("--report", "--cov"):
        if opt in args:
            i = args.index(opt)
            del args[i:i + 2]
    if b["program"].startswith("engine"):
        args += ["--case", str(b["case"])]
        units, main = [(s, []) for s in PLAN[b["property"]][0]], ("mon", "engine")
    else:
        args += ["--only", b["subject"], "--rep", str(b["index"])]
        for o in ("--shard",):
            if o in args:
                i = args.index(o)
                del args[i:i + 2]
        units = PROGRAMS[re.sub(r"\d+$", "", b["program"])]
        if b["program"].startswith("p_constexpr"):
            k = int(b["program"][len("p_constexpr"):] or 0)
            units = [(u, f + constexpr_flags(cfg, b["seed"] * 100 + k, b["tier"] == "thorough")) for u, f in units]
        main = () if b["program"] == "p_threads" else ("mon", "casemain")
    rc = [2]

    def go(exe):
        if exe:
            rc[0] = subprocess.run([exe] + args, env=c.env(cfg)).returncode
    try:
        c.exe(cfg, "replay", units, (0, 0), go, main=main)
        c.pool.loop()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    return rc[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for d in (BUILD, REPLAYS, EVIDENCE):
            os.makedirs(d, exist_ok=True)
        for cxx in ("clang++", "g++"):
            subprocess.run([cxx, "--version"], check=True, stdout=subprocess.DEVNULL)
        return 0
    if a.replay:
        return replay(a.replay)
    if a.property not in PLAN:
        print("unknown property %s" % a.property)
        return 2
    return check(a.property, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
