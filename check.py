#!/usr/bin/env python3
"""Driver of the simulator: builds it from the current tree of the library, explores one
property, and reports.

    check.py PROPERTY [--tier quick|thorough]     check (exit 0 held, 1 VIOLATION, 2 no answer)
    check.py --build                              only build
    check.py --replay FILE                        run a replay file

Every random choice comes from VERIF_SEED.
"""
import argparse
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("YSIM_REPO", "/repo")
BUILD = os.environ.get("YSIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
WORKERS = min(8, os.cpu_count() or 1)
TITLES = {}

# runs, wall clock limit (s) per tier
PLAN = {"quick": (40000, 40), "thorough": (3000000, 600)}
PLAN_T = {"quick": (80000, 40), "thorough": (5000000, 600)}

COMMON = ["-std=c++20", "-g1", "-w", "-Wno-c++11-narrowing", "-pthread", f"-I{REPO}/include", f"-I{REPO}/src", f"-I{SIM}"]
ENGINES = {
    # the fault engine: everything but threads
    "F": {
        "lib": COMMON + ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                         "-fno-sanitize=nonnull-attribute,vptr,function", "-fno-sanitize-recover=all",
                         "-D_GLIBCXX_ASSERTIONS", "-fsanitize-coverage=trace-pc-guard"],
        "harness": COMMON + ["-O2"],
        "link": ["-fsanitize=address,undefined", "-pthread", "-Wl,-z,now",
                 "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=pthread_mutex_lock"],
        "instrumented": ["api.cpp", "exec_calls.cpp", "exec_objects.cpp", "exec_tokens.cpp",
                         "exec_callbacks.cpp", "exec_streams.cpp", "exec_edit.cpp", "exec_channel.cpp", "exec_convert.cpp"],
        "plain": ["core.cpp", "alloc.cpp", "main.cpp", "props.cpp"],
    },
    # the thread engine: the sanitizer's instrumentation bound to the simulator's own runtime
    "T": {
        "lib": COMMON + ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DSIM_THREADS",
                         "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
        "harness": COMMON + ["-O2", "-DSIM_THREADS"],
        "link": ["-pthread", "-rdynamic", "-Wl,-z,now",
                 "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free",
                 "-Wl,--wrap=memcmp,--wrap=bcmp,--wrap=strlen,--wrap=memchr",
                 "-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock",
                 "-Wl,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_tryrdlock,--wrap=pthread_rwlock_wrlock",
                 "-Wl,--wrap=pthread_rwlock_trywrlock,--wrap=pthread_rwlock_unlock,--wrap=pthread_once",
                 "-Wl,--wrap=syscall,--wrap=sched_yield,--wrap=nanosleep,--wrap=clock_nanosleep,--wrap=__cxa_allocate_exception"],
        "instrumented": ["api.cpp"],
        "plain": ["core.cpp", "alloc.cpp", "main.cpp", "props.cpp", "tsan_rt.cpp", "exec_threads.cpp"],
    },
}
ENGINE_OF = {"C08": "T"}
ITERATOR_USERS = ("exec_objects.cpp", "exec_callbacks.cpp")
GCC_FLAGS = {"-fsanitize-coverage=trace-pc-guard": "-fsanitize-coverage=trace-pc",
             "-fno-sanitize=nonnull-attribute,vptr,function": "-fno-sanitize=nonnull-attribute,vptr",
             "-Wno-c++11-narrowing": "-Wno-narrowing"}


def engine_of(prop):
    return ENGINE_OF.get(prop, "F")


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- build
def read(path):
    with open(path, "rb") as f:
        return f.read()


def headers_digest():
    h = hashlib.sha256()
    files = [p for d in (f"{REPO}/include", f"{REPO}/src") for p in glob.glob(d + "/**/*", recursive=True)
             if os.path.isfile(p) and not p.endswith(".cpp")]
    files += glob.glob(SIM + "/*.hpp")
    for p in sorted(files):
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


def unidata():
    """The simulator's Unicode tables, from the data shipped with the project."""
    try:
        sys.path.insert(0, os.path.join(VERIF, "tools"))
        import unidata as u
        text = u.generate(u.shipped(REPO))
    except Exception:
        return os.path.join(SIM, "unidata.cpp")
    path = os.path.join(BUILD, "unidata.cpp")
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(path) or read(path).decode() != text:
        with open(path + f".{os.getpid()}", "w") as f:
            f.write(text)
        os.rename(path + f".{os.getpid()}", path)
    return path


def build(engine):
    e = ENGINES[engine]
    out = os.path.join(BUILD, engine)
    os.makedirs(out, exist_ok=True)
    jobs = []
    sources = sorted(glob.glob(f"{REPO}/src/Ystring/**/*.cpp", recursive=True))
    if not sources:
        raise CheckError("no library sources found in " + REPO)
    for s in sources:
        rel = os.path.relpath(s, REPO + "/src").replace("/", "_")
        jobs.append((s, "lib_" + rel, e["lib"]))
    for s in e["instrumented"]:
        jobs.append((os.path.join(SIM, s), "sim_" + s, e.get("instr_flags", e["lib"])))
    for s in e["plain"]:
        jobs.append((os.path.join(SIM, s), "sim_" + s, e["harness"]))
    jobs.append((unidata(), "sim_unidata.cpp", e["harness"]))
    hd = headers_digest()
    objects = []

    def one(job):
        src, name, flags = job
        key = hashlib.sha256(json.dumps([src, flags, hd]).encode() + read(src)).hexdigest()[:24]
        obj = os.path.join(out, f"{name}.{key}.o")
        if not os.path.exists(obj):
            for old in glob.glob(os.path.join(out, glob.escape(name) + ".*.o")):
                os.unlink(old)
            tmp = obj + ".tmp.o"
            r = subprocess.run(["clang++", *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            message = f"cannot compile {src}:\n" + r.stdout.decode(errors="replace")[-3000:]
            if r.returncode and name.startswith("lib_"):
                # the library is normally built with gcc
                gcc = [GCC_FLAGS.get(f, f) for f in flags]
                r = subprocess.run(["g++", *[f for f in gcc if f], "-c", src, "-o", tmp],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode and src.endswith(ITERATOR_USERS):
                # perhaps it only does without iterators that are no more than bidirectional
                r = subprocess.run(["clang++", *flags, "-DSIM_NO_BIDI", "-c", src, "-o", tmp],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode == 0:
                    with open(obj + ".nobidi", "w") as f:
                        f.write(message)
            if r.returncode:
                raise CheckError(message)
            os.rename(tmp, obj)
        return obj

    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            objects = list(ex.map(one, jobs))
        for old in glob.glob(out + "/*.o") + glob.glob(out + "/*.nobidi"):
            if old.removesuffix(".nobidi") not in objects:
                os.unlink(old)
        # instrumented objects first: of functions defined in several, the first one is linked
        objects.sort(key=lambda o: (not os.path.basename(o).startswith("lib_"), os.path.basename(o)[:7] != "sim_api", o))
        key = hashlib.sha256(json.dumps([objects, e["link"]]).encode()).hexdigest()[:24]
        exe = os.path.join(out, "ysim." + key)
        if not os.path.exists(exe):
            for old in glob.glob(out + "/ysim.*"):
                os.unlink(old)
            r = subprocess.run(["clang++", *e["link"], *objects, "-o", exe + ".tmp"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CheckError("cannot link:\n" + r.stdout.decode(errors="replace")[-3000:])
            os.rename(exe + ".tmp", exe)
    return exe


# ---------------------------------------------------------------- scenarios
class Scenario:
    def __init__(self, text):
        self.head = []
        self.lines = []
        for line in text.splitlines():
            if not line or line.startswith("#"):
                continue
            if line.split(" ")[0] in ("ysim", "property", "seed"):
                self.head.append(line)
            else:
                self.lines.append(line)

    def text(self, lines=None):
        return "\n".join(self.head + (self.lines if lines is None else lines)) + "\n"


class Runner:
    def __init__(self, exe, tmp):
        self.exe, self.tmp, self.n = exe, tmp, 0
        self.env = dict(os.environ, YSIM_RUN_SECONDS="40")

    def exec_file(self, path):
        r = subprocess.run([self.exe, "exec", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=self.env)
        out = r.stdout.decode(errors="replace")
        m = re.search(r"^RESULT (\w+) hash=(\w+) class=(\S+)$", out, re.M)
        if not m:
            raise CheckError(f"the simulator gave no result for {path}: " + out[-500:]
                             + r.stderr.decode(errors="replace")[-500:])
        d = re.search(r"^DETAIL (.*)$", out, re.M | re.S)
        return m.group(1), m.group(2), m.group(3), (d.group(1).strip() if d else "")

    def exec_text(self, text):
        self.n += 1
        path = os.path.join(self.tmp, f"s{self.n % 64}.sim")
        with open(path, "w") as f:
            f.write(text)
        return self.exec_file(path)

    def gen(self, prop, seed):
        r = subprocess.run([self.exe, "gen", prop, str(seed)], stdout=subprocess.PIPE, env=self.env)
        if r.returncode:
            raise CheckError("the simulator cannot generate a scenario")
        return r.stdout.decode()

    def explicit(self, text):
        """The same scenario with every scheduling decision written out (thread engine)."""
        self.n += 1
        path = os.path.join(self.tmp, f"x{self.n % 64}.sim")
        with open(path, "w") as f:
            f.write(text)
        r = subprocess.run([self.exe, "trace", path], stdout=subprocess.PIPE, env=self.env)
        return r.stdout.decode() if r.returncode == 0 else None


def minimise(runner, sc, cls, seconds):
    """Drops lines, then shrinks arguments, as long as the same class of violation remains."""
    end = time.monotonic() + seconds
    tried = {}

    def bad(lines):
        if time.monotonic() > end:
            return False
        key = "\n".join(lines)
        if key not in tried:
            try:
                state, _, c, _ = runner.exec_text(sc.text(lines))
                tried[key] = state == "violation" and c == cls
            except CheckError:
                tried[key] = False
        return tried[key]

    lines = list(sc.lines)
    n = 2
    while len(lines) >= 2:
        size = max(1, len(lines) // n)
        for i in range(0, len(lines), size):
            cand = lines[:i] + lines[i + size:]
            if bad(cand):
                lines, n = cand, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(lines), n * 2)
        if time.monotonic() > end:
            break

    def smaller(value):
        m = re.match(r"^x:([0-9a-f]*)$", value)
        if m:
            b = [m.group(1)[i:i + 2] for i in range(0, len(m.group(1)), 2)]
            k = len(b)
            while k:
                for i in range(0, len(b), k):
                    yield "x:" + "".join(b[:i] + b[i + k:])
                k //= 2
            return
        m = re.match(r"^u:([0-9a-f,]*)$", value)
        if m:
            b = [x for x in m.group(1).split(",") if x]
            k = len(b)
            while k:
                for i in range(0, len(b), k):
                    yield "u:" + ",".join(b[:i] + b[i + k:])
                k //= 2
            return
        if re.match(r"^-?\d+$", value):
            v = int(value)
            for c in (0, 1, v // 2 if v > 0 else -(-v // 2), v - 1 if v > 0 else v + 1):
                if abs(c) < abs(v):
                    yield str(c)

    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for i in range(len(lines)):
            parts = lines[i].split(" ")
            j = 1
            while j < len(parts):
                if "=" in parts[j]:
                    k, v = parts[j].split("=", 1)
                    again = True
                    while again and time.monotonic() < end:
                        again = False
                        for c in smaller(v):
                            cand = parts[:j] + [f"{k}={c}"] + parts[j + 1:]
                            if bad(lines[:i] + [" ".join(cand)] + lines[i + 1:]):
                                parts, v, again, progress = cand, c, True, True
                                lines[i] = " ".join(parts)
                                break
                j += 1
        for i in reversed(range(len(lines))):
            if len(lines) > 1 and bad(lines[:i] + lines[i + 1:]):
                del lines[i]
                progress = True
    return lines


def report_violation(runner, prop, seed_info, text, cls, detail, replay_dir, budget):
    """Gate, minimise, gate again, write the replay file. Returns its path."""
    state, h, c, d = runner.exec_text(text)
    if state != "violation":
        raise CheckError(f"violation {cls} ({seed_info}) did not happen again when replayed: {state}")
    cls = c
    if engine_of(prop) == "T":
        t = runner.explicit(text)
        if t:
            s2 = runner.exec_text(t)
            if s2[0] == "violation" and s2[2] == cls:
                text = t
    sc = Scenario(text)
    lines = minimise(runner, sc, cls, budget)
    final = sc.text(lines)
    os.makedirs(replay_dir, exist_ok=True)
    name = f"{prop}-{cls}-{hashlib.sha256(final.encode()).hexdigest()[:10]}.sim"
    path = os.path.join(replay_dir, re.sub(r"[^\w.-]", "_", name))
    with open(path, "w") as f:
        f.write(final)
    first = runner.exec_file(path)
    second = runner.exec_file(path)
    if first != second or first[0] != "violation":
        raise CheckError(f"replay of {path} is not repeatable: {first} {second}")
    note = [f"# property {prop}: {first[2]}", f"# found with {seed_info}"]
    note += ["# " + x for x in first[3].splitlines()[:20]]
    note += [f"# replay: python3 check.py --replay {path}   (event log hash {first[1]})"]
    with open(path, "w") as f:
        f.write("\n".join(note) + "\n" + final)
    third = runner.exec_file(path)
    if third != first:
        raise CheckError(f"replay of {path} is not repeatable: {first} {third}")
    print(f"{first[2]}: {first[3]}")
    return path


# ---------------------------------------------------------------- exploration
def start_batch(exe, prop, seed, start, stride, end, wall, out, env):
    return subprocess.Popen([exe, "batch", prop, str(seed), str(start), str(stride), str(end), str(wall), out],
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)


def read_hashes(path):
    data = read(path)
    data = data[:len(data) // 32 * 32]
    return list(struct.iter_unpack("<4Q", data))


def check(prop, tier, seed):
    t0 = time.time()
    eng = engine_of(prop)
    exe = build(eng)
    t_build = time.time() - t0
    tmp = os.path.join(BUILD, f"run-{prop}-{os.getpid()}")
    os.makedirs(tmp)
    try:
        rc = explore(prop, tier, seed, eng, exe, tmp, t0, t_build)
        if prop == "C04" and rc == 0 and (message := bidi_broken(exe)):
            path = os.path.join(VERIF, "replays", "C04-storage-refused.sim")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write("property C04\n" + "".join("# " + x + "\n" for x in message.splitlines())
                        + "# replay: the paged channel of sim/exec_objects.cpp must compile\n")
            print("storage-refused: text in storage that is not contiguous cannot be decoded at all: "
                  "the decoding functions do not compile for bidirectional iterators")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def bidi_broken(exe):
    """The compiler's complaint if the decoding functions cannot be used with iterators that are
    only bidirectional, else None."""
    for p in sorted(glob.glob(os.path.join(os.path.dirname(exe), "sim_exec_objects.cpp.*.nobidi"))):
        return read(p).decode()
    return None


def run_batches(exe, prop, seed, runs, wall, stem, env):
    t1 = time.time()
    outs = [f"{stem}{i}" for i in range(WORKERS)]
    procs = [start_batch(exe, prop, seed, i, WORKERS, runs, wall, outs[i], env) for i in range(WORKERS)]
    found_at = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if found_at is None and any(os.path.exists(o + ".violations") and os.path.getsize(o + ".violations") for o in outs):
            found_at = time.time()
        if found_at is not None and time.time() - found_at > 2:
            for p in procs:
                if p.poll() is None:
                    p.kill()
        if time.time() - t1 > wall + 120:
            for p in procs:
                p.kill()
            raise CheckError("workers do not end")
    t_explore = time.time() - t1
    for p in procs:
        err = p.communicate()[1].decode(errors="replace")
        if p.returncode != 0 and found_at is None:
            raise CheckError(f"worker ended with {p.returncode}: {err[-2000:]}")

    violations, errors = [], []
    for o in outs:
        if os.path.exists(o + ".violations"):
            for line in open(o + ".violations", errors="replace"):
                p = line.rstrip("\n").split(" ", 3)
                if p[0] == "V":
                    violations.append((int(p[1]), int(p[2]), p[3]))
                elif p[0] == "E":
                    errors.append(line.strip())
    violations.sort()
    if errors and not violations:
        raise CheckError("errors in runs: " + "; ".join(errors[:3]))
    return t_explore, violations, outs


def explore(prop, tier, seed, eng, exe, tmp, t0, t_build):
    runner = Runner(exe, tmp)
    env = runner.env
    replay_dir = os.path.join(VERIF, "replays")
    violations = []

    # traces of defects found before, first
    regress = sorted(glob.glob(os.path.join(VERIF, "regress", prop + "-*.sim")))
    regress_bad = None
    for f in regress:
        state, _, cls, detail = runner.exec_file(f)
        if state == "error":
            raise CheckError(f"{f}: {detail}")
        if state == "violation":
            regress_bad = (f, cls, detail)
            break

    runs, wall = (PLAN_T if eng == "T" else PLAN)[tier]
    if prop == "C13" and tier == "quick": wall = 60      # each run is made several times, in processes of its own
    if os.environ.get("YSIM_RUNS"):
        runs = int(os.environ["YSIM_RUNS"])
    if os.environ.get("YSIM_WALL"):
        wall = float(os.environ["YSIM_WALL"])
    if regress_bad:
        runs = 0

    # A run over its time limit is a violation only if it is one again when it is replayed. If it is
    # not, it was the machine: the exploration is made once more.
    for attempt in range(3):
        t_explore, violations, outs = run_batches(exe, prop, seed, runs, wall, os.path.join(tmp, f"w{attempt}-"), env)
        replay, hangs_only, last = None, True, None
        for idx, s, cls in violations[:5]:
            try:
                replay = report_violation(runner, prop, f"VERIF_SEED={seed} run {idx} seed {s}", runner.gen(prop, s), cls, "", replay_dir,
                                          60 if tier == "quick" else 120)
                break
            except CheckError as e:
                last = e
                hangs_only = hangs_only and cls == "hang"
                print(f"note: {e}", file=sys.stderr)
        if not violations or replay:
            break
        if not hangs_only or attempt == 2:
            raise last
        violations = []

    # merge what the workers measured
    counts, edges, edges_total = {}, set(), 0
    stats = {"runs": 0, "steps": 0, "sim_time": 0}
    seen, nontrivial, states, by_index = set(), set(), set(), {}
    for o in outs:
        if not os.path.exists(o + ".stats"):
            continue
        for line in open(o + ".stats"):
            k, _, v = line.strip().partition(" ")
            if k == "edges":
                edges.update(int(x) for x in v.split())
            elif k == "edges_total":
                edges_total = int(v)
            elif k.startswith("count:"):
                counts[k[6:]] = counts.get(k[6:], 0) + int(v)
            elif k in stats:
                stats[k] += int(v)
        for idx, s, h, flag in read_hashes(o + ".hashes"):
            seen.add(h)
            if flag:
                nontrivial.add(h)
            if idx < 2000:
                by_index[idx] = (s, h)
        data = read(o + ".distinct")
        states.update(x[0] for x in struct.iter_unpack("<Q", data[:len(data) // 8 * 8]))

    # the same seeds again, in other processes and another division of work
    again = 0
    if not violations and not regress_bad:
        n = min(runs, 96 if tier == "quick" else 1600)
        k = 3
        ps = [start_batch(exe, prop, seed, i, k, n, 120, os.path.join(tmp, f"d{i}"), env) for i in range(k)]
        for p in ps:
            p.communicate()
        for i in range(k):
            for idx, s, h, flag in read_hashes(os.path.join(tmp, f"d{i}.hashes")):
                if idx in by_index:
                    again += 1
                    if by_index[idx] != (s, h):
                        raise CheckError(f"run {idx} (seed {s}) is not repeatable")

    if regress_bad:
        f, cls, detail = regress_bad
        replay = report_violation(runner, prop, "regress/" + os.path.basename(f), open(f).read(), cls, detail, replay_dir, 30)

    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("probe:")}
    samples = []
    for idx in sorted(by_index)[:3]:
        samples.append({"run": idx, "seed": by_index[idx][0], "scenario": runner.gen(prop, by_index[idx][0]).splitlines()[:60]})
    info = INFO.get(prop, {})
    coverage = {
        "evaluations": stats["runs"] + len(regress),
        "distinct_nontrivial": len(nontrivial),
        "rule": "One evaluation is one simulated run: a scenario generated from one seed, executed in a process of its own. "
                "Distinct: the hash over its complete event log differs from every other run's. Non-trivial: at least one "
                "injected fault (or, for threads, one preemption) actually fired in it. " + info.get("rule", ""),
        "samples": samples,
        "regression_traces_replayed": len(regress),
        "distinct_runs": len(seen),
        "distinct_states": len(states),
        "distinct_states_measure": info.get("states", "hash of (operation, fault outcome, resulting state) recorded after every step"),
        "runs_per_hour": int(stats["runs"] / max(t_explore, 1e-3) * 3600),
        "seeds_per_hour": int(stats["runs"] / max(t_explore, 1e-3) * 3600),
        "simulated_steps": stats["steps"],
        "simulated_steps_unit": info.get("unit", "control-flow edges executed inside library calls"),
        "simulated_time": stats["sim_time"] if stats["sim_time"] else "this property's scenarios have no clock; time is counted in steps",
        "faults_injected": faults,
        "probes": probes,
        "library_and_header_edges_reached": len(edges),
        "edges_instrumented": edges_total,
        "runs_repeated_for_determinism": again,
        "workers": WORKERS,
        "build_s": round(t_build, 1),
        "explore_s": round(t_explore, 1),
        "components_real": ["the whole Ystring library, compiled from /repo's working tree", "libstdc++ (its templates compiled in, its allocations intercepted)"],
        "components_stubbed": info.get("stubs", ["operator new/delete and malloc (simulated allocator)"]),
    }
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
                "assumptions": info.get("assumptions", []) + [
                    "a clean exploration is evidence, not proof",
                    "the library touches the environment only through memory, its arguments and what it calls back"],
                "wall_s": round(time.time() - t0, 1), "violations": 1 if replay else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.rename(path + ".tmp", path)
    if replay:
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    print(f"{prop}: held on {stats['runs']} simulated runs ({len(nontrivial)} distinct with faults, "
          f"{sum(faults.values())} faults injected) in {t_explore:.0f} s")
    return 0


INFO = {
    "C01": {"assumptions": ["a block kept once is not a leak, one more block at every repetition is"]},
    "C04": {"unit": "control-flow edges executed inside library calls; simulated_time is in ticks of the delivery clock"},
    "C08": {"unit": "memory accesses and scheduling points of the library calls of all threads",
            "states": "hash of the schedule (the preemption points taken, in order) and of the outcomes",
            "stubs": ["operator new/delete and malloc (simulated allocator)", "thread scheduling, mutexes, condition variables, futexes, "
                      "one-time initialisation and sleeping (simulated scheduler)"]},
    "C14": {"unit": "control-flow edges executed inside library calls; simulated_time is in ticks of the delivery clock"},
    "C15": {"unit": "control-flow edges executed inside library calls; simulated_time is in ticks of the delivery clock"},
    "C17": {"unit": "control-flow edges executed inside library calls; simulated_time is in ticks of the delivery clock"},
    "C18": {"unit": "control-flow edges executed inside library calls; simulated_time is in ticks of the delivery clock"},
    "C16": {"unit": "control-flow edges executed inside library calls; simulated_time is in ticks of the delivery clock"},
    "C06": {"stubs": ["operator new/delete and malloc (simulated allocator)", "the caller's separator search (may fail on demand)"]},
    "C07": {"stubs": ["operator new/delete and malloc (simulated allocator)", "predicates, searches and iterators supplied by the caller"]},
    "C10": {"stubs": ["operator new/delete and malloc (simulated allocator)", "the output device (stream buffer)"]},
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a.build:
            for e in ENGINES:
                print(build(e))
            return 0
        if a.replay:
            prop = re.search(r"^property (\S+)", open(a.replay).read(), re.M).group(1)
            exe = build(engine_of(prop))
            return subprocess.run([exe, "exec", a.replay, "-v"]).returncode
        return check(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    except CheckError as e:
        print(f"ERROR: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
