"""The checks: which programs, workloads and oracles decide each property."""
import os

from .core import Check, Job, Prog, log

D_NODUMMY = "-DINTP_PERIODIC_NO_DUMMY_POINT"
D_CELL = "-DINTP_CELL_LAYOUT"
D_MT = "-DINTP_MULTITHREAD"
D_ASSERT = "-DINTP_ENABLE_ASSERTION"
D_STACK = "-DINTP_STACK_ALLOCATOR"

# build configurations: compiler, standard, optimisation, macros
CONFIGS = {
    "base17": ("g++", "c++17", "-O1", []),
    "cell20": ("g++", "c++20", "-O1", [D_NODUMMY, D_CELL]),
    "cellmt17": ("clang++", "c++17", "-O1", [D_NODUMMY, D_CELL, D_MT]),
    "mt11": ("clang++", "c++11", "-O0", [D_MT]),
    "cell14": ("clang++", "c++14", "-O0", [D_CELL, D_STACK]),
    "cell11nd": ("clang++", "c++11", "-O0", [D_NODUMMY, D_CELL, D_ASSERT]),
    "nodummy17": ("clang++", "c++17", "-O0", [D_NODUMMY]),
    "plain11": ("clang++", "c++11", "-O0", []),
    # with the first seven, these cover every pair of (standard, options)
    "all20": ("clang++", "c++20", "-O0", [D_MT, D_ASSERT, D_STACK, "-DINTP_DEBUG", "-DINTP_TRACE"]),
    "trace14": ("clang++", "c++14", "-O0", [D_NODUMMY, D_CELL, "-DINTP_DEBUG", "-DINTP_TRACE"]),
    "debug14": ("clang++", "c++14", "-O0", [D_NODUMMY, D_MT, D_ASSERT, D_STACK, "-DINTP_DEBUG"]),
    "trace17": ("clang++", "c++17", "-O0", [D_ASSERT, D_STACK, "-DINTP_TRACE"]),
    "trace11": ("clang++", "c++11", "-O0", [D_STACK, "-DINTP_DEBUG", "-DINTP_TRACE"]),
    "debug17": ("clang++", "c++17", "-O0", ["-DINTP_DEBUG"]),
    "debugmt20": ("clang++", "c++20", "-O0", ["-DINTP_DEBUG", D_MT, D_CELL]),
    "fast20": ("g++", "c++20", "-O2", [D_NODUMMY, D_CELL, D_MT]),
}
COMMON = [("g++", ["-std=c++17", "-O2"], "ref.cpp", False), ("g++", ["-std=c++17", "-O1"], "gen.cpp", False), ("g++", ["-std=c++17", "-O1"], "report.cpp", False), ("g++", ["-std=c++17", "-O1"], "num_main.cpp", False)]


def num_prog(cfg, groups=(0, 1, 2, 3, 4, 5), extra=(), name=None, common=None, opt=None, ld=()):
    cxx, std, o, defs = CONFIGS[cfg]
    flags = ["-std=" + std, opt or o, "-w", '-DV_CONFIG_NAME="%s"' % cfg] + defs + list(extra)
    parts = list(common or COMMON) + [(cxx, flags, "cfg.cpp", False)] + [(cxx, flags + ["-DGROUP=%d" % g], "inst.cpp", True) for g in groups]
    return Prog(name or "num-" + cfg, parts, cxx=cxx, ldflags=ld)


NUM_RULE = ("one case = one generated interpolation problem (value/coordinate type, dimension, order, per-axis periodicity and uniformity, sizes from the "
            "legal minimum up, spacing family, data family, construction path) driven on every build configuration listed in per_job; distinct = distinct "
            "(problem shape, point class) pairs whose monitor had an informative tolerance (a wrong value could not hide in it)")
NUM_ASSUME = [
    "the reference is an independent long double implementation (dense collocation solve, Cox-de Boor) written from the definition, with a forward error bound derived from the collocation inverse norm",
    "cases whose error bound exceeds the informative threshold are counted as uninformative and do not contribute",
    "x86-64, IEEE arithmetic without -ffast-math",
]
QUICK_CFG = ["base17", "cell20", "cellmt17", "mt11", "cell14", "cell11nd", "nodummy17"]
CELL_CFG = ["cell20", "cellmt17", "cell14", "cell11nd"]


def num_check(prop, tier, seed, cfgs=QUICK_CFG, n_fast=4500, n_slow=2000, thorough_time=100, rule=NUM_RULE, scale=1):
    c = Check(prop, tier, seed, "exploration")
    if tier == "thorough":
        cfgs = cfgs + (["fast20", "plain11"] if cfgs is QUICK_CFG else ["fast20"])
    progs = [num_prog(x, opt="-O1" if tier == "thorough" else None) for x in cfgs]
    built = c.build(progs)
    jobs = []
    for k, (cfg, p) in enumerate(zip(cfgs, progs)):
        fast = CONFIGS[cfg][2] != "-O0" or tier == "thorough"
        n = (n_fast if fast else n_slow) * (8 if tier == "thorough" else 1)
        n = int(n * scale)
        parts = 4 if tier == "thorough" else 1
        for q in range(parts):
            m = n // parts
            jobs.append(Job(p, [prop, "--seed", str(seed), "--cases", str(m), "--from", str(k * 100000 + q * m)], timeout=800 if tier == "thorough" else 450, name=cfg))
    c.run(jobs)
    return c.finish(rule, NUM_ASSUME, min_evals=1000)


def check_c09(prop, tier, seed):
    c = Check(prop, tier, seed, "exploration")
    cfgs = ["base17", "cell20", "cellmt17", "mt11", "cell14", "cell11nd", "nodummy17", "all20", "trace14", "debug14", "trace17", "trace11", "debug17"]
    if tier == "thorough":
        cfgs += ["fast20", "plain11"]
    n = 2400 if tier == "quick" else 15000
    g = (0, 1, 2, 3, 4)
    progs = [num_prog(x, groups=g, opt="-O0" if tier == "quick" and CONFIGS[x][0] == "clang++" else "-O1") for x in cfgs]
    c.build(progs)
    jobs = []
    for cfg, p in zip(cfgs, progs):
        m = n // 3 if "trace" in cfg or cfg == "all20" else n
        jobs.append(Job(p, [prop, "--seed", str(seed), "--cases", str(m), "--log", os.path.join(c.work, cfg + ".log")], timeout=800 if tier == "thorough" else 450, name=cfg))
    done = c.run(jobs)
    # offline: every event logged under several builds must agree
    table, cmp_n, pairs, worst = {}, 0, set(), 0.0
    bad = 0
    for j in done:
        path = os.path.join(c.work, j.name + ".log")
        if j.rc is None or not os.path.exists(path):
            continue
        for line in open(path):
            f = line.split()
            if len(f) != 5:
                continue
            key = (f[0], f[1], f[2])
            val, tol = float(f[3]), float(f[4])
            if key not in table:
                table[key] = (val, tol, j.name)
                continue
            v0, t0, n0 = table[key]
            cmp_n += 1
            pairs.add((n0, j.name))
            d, lim = abs(val - v0), 2 * (tol + t0)
            same = val == v0 or (val != val and v0 != v0)
            if not same and lim > 0:
                worst = max(worst, d / lim)
            if not same and not d <= lim:
                bad += 1
                if bad <= 6:
                    c.violation("builds %s and %s disagree: case %s event %s derivative=%s: %r against %r (tolerance %g)" % (n0, j.name, f[0], f[1], f[2], v0, val, lim), j)
        os.unlink(path)
    c.extra["cross_build_comparisons"] = cmp_n
    c.extra["build_pairs_compared"] = len(pairs)
    c.extra["events"] = len(table)
    c.maxv["max_disagreement_over_tol"] = worst
    return c.finish("one event = one value or derivative of one generated problem, logged by every build (compiler, standard, macro combination) and compared offline between builds, besides the reference; distinct = distinct (problem shape, event index)",
                    NUM_ASSUME + ["a configuration that does not compile is noted, not judged"], min_evals=1000)


# ---------------------------------------------------------------- components
COMP_CFG = {
    "comp17": ("g++", "c++17", "-O1", [D_STACK]),
    "comp11": ("clang++", "c++11", "-O0", [D_STACK, D_NODUMMY]),
    "comp14cell": ("clang++", "c++14", "-O1", [D_CELL, D_STACK]),
    "comp20mt": ("g++", "c++20", "-O1", [D_MT, D_CELL, D_NODUMMY]),
    "assert17": ("g++", "c++17", "-O1", [D_ASSERT, D_STACK]),
    "assert11": ("clang++", "c++11", "-O0", [D_ASSERT, D_NODUMMY]),
    "assert14cell": ("clang++", "c++14", "-O0", [D_ASSERT, D_CELL, D_NODUMMY]),
    "assert20mt": ("clang++", "c++20", "-O0", [D_ASSERT, D_MT, D_CELL]),
}


def comp_prog(cfg, extra=(), name=None, base=(), ld=()):
    cxx, std, o, defs = COMP_CFG[cfg]
    flags = ["-std=" + std, o, "-w", '-DV_CONFIG_NAME="%s"' % cfg] + defs + list(extra)
    return Prog(name or cfg, [(c, f + list(base), s, l) for c, f, s, l in (COMMON[0], COMMON[2])] + [(cxx, flags, "comp_main.cpp", True)], cxx=cxx, ldflags=ld)


def comp_jobs(prop, progs, tier, seed, n, san=False, env=None, base=0):
    k = {"C15": 200, "C16": 70, "C17": 60, "C20": 100, "C21": 120, "C18": 100}.get(prop, 25) if tier == "thorough" else 1
    parts = 4 if tier == "thorough" else 1
    jobs = []
    for i, p in enumerate(progs):
        for q in range(parts):
            m = n * k // parts
            jobs.append(Job(p, [prop, "--seed", str(seed), "--cases", str(m), "--from", str(base + i * 1000000 + q * m)], timeout=850 if tier == "thorough" else 450, san=san, env=env, name=p.name))
    return jobs


def comp_check(prop, tier, seed, n, cfgs, rule, assume):
    c = Check(prop, tier, seed, "exploration")
    progs = [comp_prog(x) for x in cfgs]
    c.build(progs)
    c.run(comp_jobs(prop, progs, tier, seed, n))
    return c.finish(rule, assume, min_evals=1000)


COMP4 = ["comp17", "comp11", "comp14cell", "comp20mt"]


def check_c18(prop, tier, seed):
    c = Check(prop, tier, seed, "exploration")
    comp = [comp_prog(x) for x in ("assert17", "assert11", "assert14cell", "assert20mt")]
    nums = [("cell11nd", []), ("base17", [D_ASSERT]), ("mt11", [D_ASSERT])]
    nprogs = [num_prog(x, extra=e, name="num-assert-" + x) for x, e in nums]
    c.build(comp + nprogs)
    jobs = comp_jobs(prop, comp, tier, seed, 3000)
    parts, n = (6, 1500) if tier == "thorough" else (1, 1200)
    for k, p in enumerate(nprogs):
        for q in range(parts):
            jobs.append(Job(p, [prop, "--seed", str(seed), "--cases", str(n), "--from", str(k * 100000 + q * n)], timeout=800 if tier == "thorough" else 450, name=p.name))
    c.run(jobs)
    return c.finish("one case = one valid problem, then every single-position corruption of it (coordinate order, counts, knots, indices, band elements), each call expected to throw std::runtime_error or to succeed; valid problems of all kinds additionally compared with the reference under assertions; distinct = distinct (shape, position, kind of corruption)",
                    ["only the documented kinds of invalid input are judged", "the exception type is std::runtime_error or derived"], min_evals=1000)


def check_c20(prop, tier, seed):
    c = Check(prop, tier, seed, "exploration")
    comp = [comp_prog(x) for x in COMP4]
    nums = [num_prog(x) for x in ("base17", "cell20", "mt11")]
    c.build(comp + nums)
    jobs = comp_jobs(prop, comp, tier, seed, 700)
    n = 12000 if tier == "thorough" else 1500
    for k, p in enumerate(nums):
        jobs.append(Job(p, [prop, "--seed", str(seed), "--cases", str(n), "--from", str(k * 100000)], timeout=800 if tier == "thorough" else 450, name=p.name))
    c.run(jobs)
    return c.finish("one case = one random allocation history per allocator and alignment (blocks filled with patterns, checked for alignment, overlap, overwriting, capacity) and the control point storage of generated functions, copies and refills; distinct = distinct (element size, alignment) and (capacity, used, requested) states and problem shapes",
                    ["alignment promised for control points: 32 bytes"], min_evals=1000)


# ---------------------------------------------------------------- sanitizers
UB = "-fsanitize=address,undefined"
ASAN = [UB, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]
ASAN_ENV = {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:detect_leaks=1", "UBSAN_OPTIONS": "print_stacktrace=1"}


def san_common(cxx, flags):
    return [(cxx, ["-std=c++17", "-O1", "-w"] + flags, s, False) for s in ("ref.cpp", "gen.cpp", "report.cpp", "num_main.cpp")]


def check_c10(prop, tier, seed):
    c = Check(prop, tier, seed, "exploration")
    cl = ASAN + ["-fsanitize=float-cast-overflow"]
    gd = [UB, "-fno-sanitize-recover=all", "-g1", "-D_GLIBCXX_DEBUG"]
    nums = [num_prog("cellmt17", extra=cl, name="asan-cellmt17", common=san_common("clang++", cl), ld=[UB], opt="-O1"),
            num_prog("mt11", extra=cl, name="asan-mt11", common=san_common("clang++", cl), ld=[UB], opt="-O1"),
            num_prog("cell11nd", extra=cl, name="asan-cell11nd", common=san_common("clang++", cl), ld=[UB], opt="-O1"),
            num_prog("base17", extra=["-D_GLIBCXX_DEBUG"], name="dbg-base17", common=[(x[0], x[1] + ["-D_GLIBCXX_DEBUG"], x[2], x[3]) for x in COMMON], opt="-O0")]
    comp = [comp_prog("comp17", extra=gd, base=gd, name="asan-comp17", ld=[UB]),
            comp_prog("assert11", extra=cl, name="asan-assert11", ld=[UB]),
            comp_prog("comp14cell", extra=cl, name="asan-comp14cell", ld=[UB])]
    c.build(nums + comp)
    jobs = []
    n, parts = (700, 2) if tier == "quick" else (5000, 8)
    for k, p in enumerate(nums):
        for q in range(parts):
            jobs.append(Job(p, [prop, "--seed", str(seed), "--cases", str(n // parts if tier == "quick" else n), "--from", str(k * 200000 + q * n)], timeout=850 if tier == "thorough" else 350, san=True, env=ASAN_ENV, name=p.name))
    for k, p in enumerate(comp):
        for q in range(1 if tier == "quick" else 6):
            jobs.append(Job(p, [prop, "--seed", str(seed), "--cases", "1500" if tier == "quick" else "20000", "--from", str(k * 1000000 + q * 20000)], timeout=850 if tier == "thorough" else 350, san=True, env=ASAN_ENV, name=p.name))
    c.run(jobs)
    return c.finish("one case = one generated problem with its whole life (construction, template, refill, 60 ordinary or hostile points through every value, derivative and proxy call, copies, moves, destruction) or one component history, under AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer or libstdc++ debug mode; distinct = distinct (problem shape, class of hostile point)",
                    ["reads of unwritten memory are decided under C11, races under C12", "undefined behaviour is what UBSan (undefined group, float-cast-overflow) and libstdc++ assertions detect"], min_evals=1000)


def check_c11(prop, tier, seed):
    c = Check(prop, tier, seed, "exploration")
    init = lambda v: ["-ftrivial-auto-var-init=" + v]
    nums, pats = [], [(255, 0), (0, 255), (192, 64), (91, 127)]
    for cfg in ("cell11nd", "mt11", "nodummy17") if tier == "quick" else ("cell11nd", "mt11", "nodummy17", "cell14", "cellmt17"):
        for v in ("zero", "pattern"):
            nums.append((cfg, v, num_prog(cfg, extra=init(v), name="%s-%s" % (cfg, v), opt="-O0" if tier == "quick" else "-O1")))
    comp = [(x, v, comp_prog(x, extra=init(v), name="%s-%s" % (x, v))) for x in ("comp14cell", "assert11") for v in ("zero", "pattern")]
    val = comp_prog("comp11", extra=["-g1"], name="memcheck-comp")
    valn = num_prog("cell14", extra=["-g1"], name="memcheck-num", opt="-O1", groups=(0, 2, 3, 5))
    c.build([p for _, _, p in nums + comp] + [val, valn])
    jobs, keyed = [], {}
    n = 1200 if tier == "quick" else 8000
    for cfg, v, p in nums + comp:
        iscomp = cfg in COMP_CFG
        for k, (perturb, st) in enumerate(pats):
            if tier == "quick" and (k + (v == "zero")) % 2:
                continue
            lf = os.path.join(c.work, "%s.%d.log" % (p.name, k))
            if os.path.exists(lf):
                os.unlink(lf)
            tun = "glibc.malloc.perturb=%d:glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=1073741824" % perturb
            j = Job(p, [prop, "--seed", str(seed), "--cases", str(n * (4 if iscomp else 1)), "--log", lf], env={"GLIBC_TUNABLES": tun, "V_STACK_PATTERN": str(st), "V_PERTURB": str(perturb)}, timeout=850 if tier == "thorough" else 350, name="%s heap=%d stack=%d" % (p.name, perturb, st))
            jobs.append(j)
            keyed[j] = (cfg, lf)
    vg = ["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=yes", "--track-origins=no", "--errors-for-leak-kinds=none"]
    m = 100 if tier == "quick" else 1000
    for k in range(2 if tier == "quick" else 8):
        jobs.append(Job(val, [prop, "--seed", str(seed), "--cases", str(m * 2), "--from", str(5000 + k * 1000)], wrapper=vg, san=True, timeout=400 if tier == "quick" else 850, name="memcheck-comp"))
        jobs.append(Job(valn, [prop, "--seed", str(seed), "--cases", str(m), "--from", str(5000 + k * 1000)], wrapper=vg, san=True, timeout=400 if tier == "quick" else 850, name="memcheck-num"))
    c.run(jobs)
    table, cmp_n, bad = {}, 0, 0
    for j in jobs:
        if j.skipped or j not in keyed or not os.path.exists(keyed[j][1]):
            continue
        cfg, lf = keyed[j]
        for line in open(lf):
            f = line.split()
            key = (cfg, f[0], f[1]) if len(f) == 4 else (cfg, f[0])
            v = tuple(f[len(key) - 1:])
            if key not in table:
                table[key] = (v, j.name)
            else:
                cmp_n += 1
                if table[key][0] != v:
                    bad += 1
                    if bad <= 5:
                        c.violation("case %s of %s gives different results with different contents of unwritten memory: runs '%s' and '%s', from event %s on" % (f[0], cfg, table[key][1], j.name, f[1]), j)
        os.unlink(lf)
    c.extra["trace_comparisons"] = cmp_n
    c.extra["trace_points"] = len(table)
    return c.finish("the same workload runs in processes that differ only in what unwritten heap and stack memory holds (glibc malloc perturbation of fresh and freed blocks, compiler-initialised locals, scribbled stack); every observed value, derivative, proxy result, range and rejection enters a running hash compared bitwise between the runs; valgrind memcheck watches a further sample; distinct = distinct (problem shape, class of point)",
                    ["heap blocks are perturbed when allocated and when freed (thread cache disabled)", "automatic variables of the builds are initialised to zero or to a pattern"], min_evals=1000)


# ---------------------------------------------------------------- thread pool
TSAN = ["-fsanitize=thread", "-g1", "-fno-omit-frame-pointer"]
TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=5"}
POOL_CFG = {
    "pool17": ("g++", "c++17", "-O1", []),
    "pool11": ("clang++", "c++11", "-O0", []),
    "pool20d": ("g++", "c++20", "-O2", ["-DINTP_DEBUG"]),
    "pool14": ("clang++", "c++14", "-O2", []),
}


def pool_prog(cfg, tsan=False, copyable=False):
    cxx, std, o, defs = POOL_CFG[cfg]
    ex = (TSAN + ["-DV_NO_THROW"] if tsan else ["-DV_DELAYS"]) + (["-DV_COPYABLE"] if copyable else [])
    b = TSAN if tsan else []
    parts = [("g++" if not tsan else cxx, ["-std=c++17", "-O1"] + b, s, False) for s in (["ref.cpp", "report.cpp"] + ([] if tsan else ["delay.cpp"]))]
    parts.append((cxx, ["-std=" + std, o, "-w", '-DV_CONFIG_NAME="%s"' % cfg] + defs + ex, "pool_main.cpp", True))
    return Prog(("tsan-" if tsan else "") + cfg + ("-copyable" if copyable else ""), parts, cxx=cxx, ldflags=["-fsanitize=thread"] if tsan else ["-rdynamic"],
                fallback=None if copyable else pool_prog(cfg, tsan, True))


def check_pool(prop, tier, seed):
    c = Check(prop, tier, seed, "exploration")
    cfgs = ["pool17", "pool11", "pool20d"] + (["pool14"] if tier == "thorough" else [])
    progs = [pool_prog(x) for x in cfgs]
    ts = [pool_prog(x, True) for x in ("pool11", "pool20d")]
    c.build(progs + ts)
    n, tn = {"C13": (500, 60), "C14": (2500, 150)}[prop]
    k = 1 if tier == "quick" else 12
    jobs = [Job(p, [prop, "--seed", str(seed), "--cases", str(n * k), "--from", str(i * 1000000)], timeout=400 if tier == "quick" else 850, name=p.name, mem=0) for i, p in enumerate(progs)]
    jobs += [Job(p, [prop, "--seed", str(seed), "--cases", str(tn * k), "--from", str((i + 9) * 1000000)], timeout=400 if tier == "quick" else 850, name=p.name, san=True, env=TSAN_ENV) for i, p in enumerate(ts)]
    c.run(jobs, parallel=3)
    rule = {"C13": "one case = one history of submissions (bursts, waves with idle gaps, concurrent submitters, tasks submitting tasks, throwing tasks, ping-pong hand-over) on a pool of 1 to 10 threads, each task tagged; start and end events, executing threads and future outcomes are checked for exactly-once; delays are injected around every mutex and condition operation; ThreadSanitizer builds watch for races; distinct = distinct (history kind, pool size, outcome mix)",
            "C14": "one case = one child process that creates pools of 1 to 10 threads, leaves them idle, busy, with a full queue, with a waiter, or with an injected thread creation failure, and exits; checked after the pools are gone: all threads joined, every future ready or abandoned, no task after destruction, exit not hanging; delays injected around synchronisation, most of all between predicate check and wait; distinct = distinct (plan, outcome mix)"}[prop]
    return c.finish(rule, ["a hang is judged only when every thread stays asleep without consuming cpu time for 12 s", "tasks that wait for other tasks of the same pool are not part of the contract"], min_evals=500)


# ---------------------------------------------------------------- concurrency
def mt_prog(cfg, tsan, groups=(6, 7), defs=(), opt="-O1"):
    cxx, std, o, d = CONFIGS[cfg]
    san = TSAN if tsan else []
    ex = san if tsan else ["-DV_DELAYS"]
    base = [(cxx, ["-std=c++17", "-O1", "-w"] + ex, s, False) for s in ["ref.cpp", "gen.cpp", "report.cpp", "mt_main.cpp"] + ([] if tsan else ["delay.cpp"])]
    flags = ["-std=" + std, opt, "-w", '-DV_CONFIG_NAME="%s"' % cfg] + d + san + list(defs)
    parts = base + [(cxx, flags, "cfg.cpp", False)] + [(cxx, flags + ["-DGROUP=%d" % g], "inst.cpp", True) for g in groups]
    return Prog(("tsan-" if tsan else "mt-") + cfg, parts, cxx=cxx, ldflags=["-fsanitize=thread"] if tsan else ["-rdynamic"])


def check_c12(prop, tier, seed):
    c = Check(prop, tier, seed, "exploration")
    ts = [mt_prog(x, True) for x in ["cellmt17", "mt11", "debugmt20", "cell14"]]
    pl = [mt_prog(x, False) for x in ["cellmt17", "mt11"] + (["fast20"] if tier == "thorough" else [])]
    c.build(ts + pl)
    jobs = []
    tn, n, parts = (60, 60, 3) if tier == "quick" else (90, 700, 8)
    for k, p in enumerate(ts):
        for q in range(parts):
            jobs.append(Job(p, [prop, "--seed", str(seed), "--cases", str(tn), "--from", str(k * 100000 + q * tn * 2)], timeout=400 if tier == "quick" else 850, san=True, env=TSAN_ENV, name=p.name))
    for k, p in enumerate(pl):
        for q in range(parts):
            jobs.append(Job(p, [prop, "--seed", str(seed), "--cases", str(n), "--from", str(1000000 + k * 100000 + q * n * 2)], timeout=400 if tier == "quick" else 850, name=p.name, mem=0))
    c.run(jobs, parallel=4)
    return c.finish("one case = 2 to 8 threads released together, each running a random script (construction, template products, refills, copies of functions and templates, evaluation and differentiation of shared functions, shared and own proxies) over three shared problems; every operation's results are hashed bitwise and compared with the same script run alone; shared functions are compared before and after; ThreadSanitizer watches four configurations, delays around every synchronisation call and inside value operations perturb the others; distinct = distinct (threads, operation, problem shape)",
                    ["ThreadSanitizer reports races between accesses it saw; the standard library itself is not instrumented"], min_evals=500)


# ---------------------------------------------------------------- failures
WRAP = ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "free", "posix_memalign", "aligned_alloc")]


def fault_prog(cfg, asan, opt="-O1"):
    cxx, std, o, d = CONFIGS[cfg]
    san = ASAN if asan else []
    base = [(cxx, ["-std=c++17", "-O1", "-w"] + san, s, False) for s in ["ref.cpp", "gen.cpp", "report.cpp", "fault_main.cpp"]]
    flags = ["-std=" + std, opt, "-w", '-DV_CONFIG_NAME="%s"' % cfg] + d + san
    parts = base + [(cxx, flags, "cfg.cpp", False)] + [(cxx, flags + ["-DGROUP=%d" % g], "inst.cpp", True) for g in (6, 7)]
    return Prog(("asan-" if asan else "fault-") + cfg, parts, cxx=cxx, ldflags=WRAP + ([UB] if asan else []))


def check_c22(prop, tier, seed):
    c = Check(prop, tier, seed, "exploration")
    pl = [fault_prog(x, False) for x in ["base17", "cell20", "cell11nd", "cellmt17", "mt11"]]
    sa = [fault_prog(x, True) for x in ["cell14", "cellmt17"]]
    c.build(pl + sa)
    jobs = []
    n, an, parts = (250, 100, 2) if tier == "quick" else (1500, 600, 6)
    env = dict(ASAN_ENV, ASAN_OPTIONS=ASAN_ENV["ASAN_OPTIONS"] + ":alloc_dealloc_mismatch=0")
    for k, p in enumerate(pl + sa):
        m = an if p in sa else n
        for q in range(parts):
            jobs.append(Job(p, [prop, "--seed", str(seed), "--cases", str(m), "--from", str(k * 100000 + q * m)], timeout=400 if tier == "quick" else 850, san=p in sa, env=env if p in sa else None, name=p.name, mem=0))
    c.run(jobs)
    return c.finish("one case = one generated problem; for each of 9 ways of building (direct, template, product, refill, copies, assignment, consuming, proxy) the k-th allocation fails for every k (sampled above 40), once or persistently, and for the instrumented value type the k-th value operation throws; judged: exception type at the caller, live blocks before and after (single-threaded builds) or LeakSanitizer, bitwise result of a retry, other functions, template and data afterwards; multithreaded builds additionally fail every early allocation of the very first use; distinct = distinct (problem shape, way of building, position of the fault)",
                    ["a failure the library absorbs while still delivering the right result is accepted", "allocations of threads inside the C library are not failed"], min_evals=500)


CHECKS = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07"):
    CHECKS[_p] = lambda t, s, _p=_p: num_check(_p, t, s)
CHECKS["C08"] = lambda t, s: num_check("C08", t, s, cfgs=CELL_CFG, n_fast=4500, n_slow=2400)
CHECKS["C09"] = lambda t, s: check_c09("C09", t, s)
CHECKS["C19"] = lambda t, s: num_check("C19", t, s)
BAND_RULE = "one case = one matrix shape and element type: every stored cell written in random order through random access forms and compared cell by cell with a dense model, products compared exactly (small integers), copies and moves compared; distinct = distinct (n, lower, upper, form, type)"
LU_RULE = "one case = one matrix (dominant, badly scaled, or product of band factors) solved for 11 right-hand sides through 7 call forms and 5 solver objects, each unknown compared with an independent dense long double solve within the componentwise error bound of elimination without pivoting; distinct = distinct (n, lower, upper, form, family)"
MESH_RULE = "one case = one mesh shape: every element written and read through every access form, every line along every axis walked by random iterator operations against a model, copies, conversions, resize; distinct = distinct shapes"
SPL_RULE = "one case = one spline (random knots with multiplicities or periodic knots, random control points), 3 rounds with reloaded control points and knots, 40 points each through hinted and unhinted value and derivative calls against Cox-de Boor in long double; distinct = distinct (dimension, order, class of point, periodicity, value/derivative, size)"
CHECKS["C10"] = lambda t, s: check_c10("C10", t, s)
CHECKS["C11"] = lambda t, s: check_c11("C11", t, s)
CHECKS["C12"] = lambda t, s: check_c12("C12", t, s)
CHECKS["C13"] = lambda t, s: check_pool("C13", t, s)
CHECKS["C14"] = lambda t, s: check_pool("C14", t, s)
CHECKS["C15"] = lambda t, s: comp_check("C15", t, s, 6000, COMP4, BAND_RULE, ["element types double, float, long double, complex"])
CHECKS["C16"] = lambda t, s: comp_check("C16", t, s, 10000, COMP4, LU_RULE, ["matrices whose pivots without pivoting are tiny are skipped"])
CHECKS["C17"] = lambda t, s: comp_check("C17", t, s, 4000, COMP4, MESH_RULE, ["shapes of 1 to 4 dimensions, at least one element per axis"])
CHECKS["C18"] = lambda t, s: check_c18("C18", t, s)
CHECKS["C20"] = lambda t, s: check_c20("C20", t, s)
CHECKS["C21"] = lambda t, s: comp_check("C21", t, s, 5000, COMP4, SPL_RULE, ["knots non-decreasing, first and last cell not empty, multiplicity at most the order inside", "position hints within the legal range"])

CHECKS["C22"] = lambda t, s: check_c22("C22", t, s)

def run(prop, tier, seed):
    return CHECKS[prop](tier, seed)
