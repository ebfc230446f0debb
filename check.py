#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decide one property on /repo's current working tree.

Builds the code under test from /repo (the repository's own CMake files, its own flags), compiles the harness, lets it
enumerate its bounded space, writes evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1 and a
VIOLATION line: broken.  Anything else is an error of the check itself (for example: /repo does not build)."""
import concurrent.futures, fcntl, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import CHECKS  # noqa: E402

REPO = os.environ.get("CANDY_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
KNOWN = os.path.join(HERE, "known_findings.txt")
FLAVORS = {"rel": "-O2 -g -DNDEBUG", "asan": "-O1 -g -DNDEBUG -fsanitize=address,undefined -fno-sanitize=alignment,vptr,return -fno-sanitize-recover=undefined -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS",
           "dbg": "-O1 -g",
           # accesses and synchronisation are reported to the scheduler in harness/ctlsched.h; never linked with the sanitizer's own runtime
           "tsi": "-O1 -g -DNDEBUG -fsanitize=thread"}
WARN = "-Wno-parentheses -w"


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise BuildError(" ".join(cmd)[:300])
    return r.stdout


def build_repo(flavor, targets):
    d = os.path.join(BUILD, flavor)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, LC_ALL="C.UTF-8", CCACHE_DISABLE="1")
    sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_C_COMPILER=/usr/bin/gcc-10",
        "-DCMAKE_CXX_COMPILER=/usr/bin/g++-10", "-DCMAKE_PROJECT_INCLUDE=/opt/vp/cmake/hook.cmake",
        "-DCMAKE_CXX_FLAGS_RELEASE=" + FLAVORS[flavor]], env=env)
    sh(["ninja", "-C", d] + targets, env=env)
    return d


def build_harness(name, flavor, d):
    out = os.path.join(d, "h_" + name)
    base = ["g++-10", "-std=c++14", "-pthread", "-msse4.1", "-DCANDY_HAVE_RLIMIT", "-DDEBUG_CHECK_CASTS"] + WARN.split()
    inc = ["-I" + REPO + "/src", "-I/usr/include/oscpack", "-I" + HERE + "/harness"]
    src, lib, libs = HERE + "/harness/" + name + ".cc", os.path.join(d, "libcandylib.a"), ["-lz", "-loscpack", "-ldl"]
    if flavor == "tsi":  # the program's own main() is a function of the harness; the harness itself is not instrumented
        mo, ho = os.path.join(d, name + "_Main.o"), os.path.join(d, name + "_h.o")
        sh(base + FLAVORS[flavor].split() + inc + ["-Dmain=candy_main", "-c", REPO + "/src/candy/Main.cc", "-o", mo])
        sh(base + ["-O2", "-g", "-DNDEBUG"] + inc + ["-c", src, "-o", ho])
        objs, js = [mo], HERE + "/harness/" + name + "_jobs.cc"
        if os.path.exists(js):  # the part of the harness that calls the library's templates: instrumented like the library
            jo = os.path.join(d, name + "_jobs.o")
            sh(base + FLAVORS[flavor].split() + inc + ["-c", js, "-o", jo])
            objs.append(jo)
        sh(["g++-10", "-pthread", "-g", "-Wl,--wrap=exit"] + objs + ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", ho, "-Wl,-z,muldefs", "-o", out] + libs)
    else:
        wrap = ["-Wl,--wrap=malloc,--wrap=free"] if flavor == "asan" else []  # see the end of harness/candy_common.h
        sh(base + FLAVORS[flavor].split() + inc + [src, "-o", out, lib, "-Wl,-z,muldefs"] + wrap + libs)
    return out


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py <property> [quick|thorough]; properties: " + " ".join(CHECKS))
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    spec = CHECKS[pid]
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        dirs, built = {}, {}
        for st in spec["stages"]:
            fl = st.get("flavor", "rel")
            if fl not in dirs:
                targets = ["candylib"] + sorted({t for s in spec["stages"] if s.get("flavor", "rel") == fl for t in s.get("targets", [])})
                dirs[fl] = build_repo(fl, targets)
            built[(st["harness"], fl)] = None
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            for k, f in [(k, pool.submit(build_harness, k[0], k[1], dirs[k[1]])) for k in built]:
                built[k] = f.result()
        bins = [built[(st["harness"], st.get("flavor", "rel"))] for st in spec["stages"]]
    except BuildError as e:
        print("error: cannot build: %s" % e)
        return 2
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    tot = dict(states=0, transitions=0, executions=0, outcomes=0, exhaustive=True)
    counters, samples, violations, known_hits, bounds = {}, [], [], {}, []
    for i, (st, b) in enumerate(zip(spec["stages"], bins)):
        fl = st.get("flavor", "rel")
        stats = os.path.join(BUILD, "stats_%s_%d.json" % (pid, i))
        replay = os.path.join(rdir, "%s%s.txt" % (pid, "" if i == 0 else "_%d" % i))
        for p in (stats, replay):
            if os.path.exists(p):
                os.unlink(p)
        args = list(st.get("args", [])) + list(st.get(tier + "_args", []))
        budget = st.get("budget", {}).get(tier, 300 if tier == "quick" else 3600)
        cmd = [b, "--tier=" + tier, "--stats=" + stats, "--replay-out=" + replay, "--known=" + KNOWN, "--budget=%d" % budget] + args
        env = dict(os.environ, LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_segv=0:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1", CANDY_BUILD=dirs[fl])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
        print(r.stdout[-6000:])
        if r.returncode not in (0, 1) or not os.path.exists(stats):
            sys.stderr.write(r.stderr[-4000:])
            print("error: harness %s ended with status %s" % (st["harness"], r.returncode))
            return 2
        s = json.load(open(stats))
        tot["states"] += s["nodes"]; tot["transitions"] += s["steps"]; tot["executions"] += s["executions"]; tot["outcomes"] += s["distinct_outcomes"]
        tot["exhaustive"] = tot["exhaustive"] and s["exhaustive"]
        if s["diverged"]:
            print("error: %d replayed prefixes diverged: the harness is not deterministic" % s["diverged"])
            if r.returncode == 0:
                return 2
        for k, v in s["counters"].items():
            if v:
                counters[st["harness"] + ("" if fl == "rel" else "/" + fl) + "." + k] = v
        samples += s["samples"]
        for k, v in s["known_hits"].items():
            known_hits[k] = known_hits.get(k, 0) + v
        bounds.append(st.get("bound", ""))
        if r.returncode == 1:
            m = re.search(r"violation key=(\S+)\n(.*)", r.stdout, re.S)
            violations.append({"key": m.group(1) if m else "?", "what": (m.group(2) if m else r.stdout)[:4000], "replay": replay})
            break
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
          "coverage": {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["executions"],
                       "distinct_outcomes": tot["outcomes"], "exhaustive": tot["exhaustive"], "bounds": [x for x in bounds if x], "counters": counters,
                       "samples": [x[:1500] for x in samples[:12]] or ["(none)"],
                       "how": "every path of the choice tree is one execution of the real code (stateless search); states = nodes of the choice tree, transitions = calls into the code under test, traces = complete executions compared with the oracle"},
          "assumptions": spec.get("assumptions", []), "violations": len(violations)}
    if violations:
        ev["coverage"]["violation"] = violations[0]
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for line in open(KNOWN) if os.path.exists(KNOWN) else []:
        m = re.match(r"known property=(\S+) key=(\S+)\s*(.*)", line)
        if m and m.group(1) == pid and known_hits.get(m.group(2), 0):
            print("KNOWN-FINDING: property=%s %s %s" % (pid, m.group(2), m.group(3)))
    if violations:
        print("VIOLATION property=%s replay=%s" % (pid, violations[0]["replay"]))
        return 1
    print("OK property=%s executions=%d states=%d exhaustive=%s" % (pid, tot["executions"], tot["states"], tot["exhaustive"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
