"""Per-property settings of bin/check and the manifest texts."""
COMMON_ASSUMPTIONS = [
    "the compiler, C/C++ runtime and kernel execute the harness and the library as written",
    "the reference model (src/ref.hpp) states the Gregorian calendar, integer tick arithmetic and the IERS table correctly",
]
PROPS = {
 "C01": {"technique": "explicit-state walk of the day-successor relation on the real code, every day",
         "note": "Exhaustive over every day of the stated year ranges (all years -4799..600000 quick, ..24 million thorough, plus 400-year windows along a geometric ladder of years (ratio 1.01) to the int limit); beyond them by the 400-year periodicity of the calendar only."},
 "C02": {"technique": "explicit-state walk of every day, all conversion paths run on the real code at each state",
         "note": "Exhaustive over every day of the stated year ranges; every path among y/m/d, y/doy and MJD plus the date-time constructors. Beyond, 400-year windows along a geometric ladder of years (ratio 1.01) to the int limit."},
 "C03": {"technique": "exhaustive enumeration of date-triple boxes around the valid dates on the real code",
         "note": "Complete boxes of (year, month, day) and (year, day-of-year) around the valid ones plus limits of the integer types; every constructor and reader that takes a calendar date. Values further outside the boxes are covered by the limits only."},
 "C04": {"technique": "exhaustive enumeration of the constructor x argument-alphabet product on the real code",
         "note": "Complete products over boundary alphabets (days, hours, minutes, amounts of all resolutions) and every millisecond/microsecond of complete ranges for fractional seconds; every date of the years -10..4000 and every hour, minute and second of wide ranges (one field at a time) through 23 constructors. Days to +-2^62 at boundary times of day. Combinations of fields between the alphabet points are not enumerated."},
 "C05": {"technique": "explicit-state search (BFS over operation sequences) of the real date-time register, plus complete-day enumeration",
         "note": "All operation sequences up to length 4 (8 thorough) over a boundary alphabet from 48 starts; one operation from every second/millisecond of a day; every number of days of +-200000 (added, removed, as start); days and numbers of days to +-2^62 around powers of two; other amounts only by alphabet."},
 "C06": {"technique": "exhaustive enumeration of pairs and triples of date-times on the real code",
         "note": "All pairs over the boundary alphabets for nine resolution pairs, all triples over a sub-alphabet, complete day against three days at one second; every distance of +-200000 days with four pairs of times of day; days to +-2^62 around powers of two."},
}
PROPS["C07"] = {"technique": "exhaustive enumeration of ordered pairs of date-times and intervals on the real code",
         "note": "All ordered pairs over the boundary alphabets per resolution; every tick of whole days against its successor; as_mjd along whole days (every tick at s and ms; every 101st us quick, every 5th us thorough) and along five times of day of every day of mjd +-700000, with the six operators between neighbouring days; days to +-2^62 around powers of two (as_mjd judged to 2^53 days)."}
PROPS["C08"] = {"technique": "exhaustive enumeration of amounts and date-times through every conversion path of the real code",
         "note": "All nine resolution pairs, every spelling; complete ranges of +-400 days (s), +-2 days (ms), +-61 s quick / +-2 days thorough (us) plus an alphabet of limits; date-times on days to +-2^62 around powers of two; other amounts not enumerated."}
PROPS["C09"] = {"technique": "exhaustive enumeration of times of day and amounts on the real code",
         "note": "Every time of day at s and ms (every 53rd us quick, every us thorough); every int for hours/minutes; complete ranges of amounts plus an alphabet of limits. Negative amounts: identity and size of the remainder only (the library documents non-negative amounts)."}
PROPS["C10"] = {"technique": "explicit-state walk of GPS weeks, days and times of week on the real code",
         "note": "Every day from the epoch through year 9999 (99999 thorough) at the boundary times of day; eight whole weeks tick by tick (us strided); weeks to 2^58 by alphabet (powers of two, ladder of ratio 1.25)."}
PROPS["C11"] = {"technique": "explicit-state walk of every day since 1972 with the leap-second table as the model's transitions",
         "note": "Every day through year 12000 (400000 thorough) by every overload; every MJD for 2^26 (2^31) days; every month of a million (ten million) years, and of a ladder of years (ratio 1.005) to the int limit; days to 2^62 by alphabet."}
PROPS["C12"] = {"technique": "exhaustive enumeration of printed dates, times, separators, fractions and trailers through the five real readers",
         "note": "Every date of years 0..9999 (..99999 thorough) and of a ladder of years (ratio 1.03) to the int limit, every second of the day, every separator byte in every position, all fractional digit strings to five digits with tails to twelve, every trailing byte; combinations between these dimensions only through rotating base texts. Fractions of 13 to 200 digits and seconds with up to 80 leading zeros by patterns whose value is clear of the next tick."}
PROPS["C13"] = {"technique": "exhaustive enumeration of texts (all short strings, all bounded corruptions, all field-token combinations) through the instrumented real readers",
         "flags": ("-O1", "-g", "-DDEBUG", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"),
         "env": {"ASAN_OPTIONS": "detect_leaks=0:strict_string_checks=1:malloc_context_size=0:quarantine_size_mb=1:detect_stack_use_after_return=0:use_sigaltstack=0", "UBSAN_OPTIONS": "print_stacktrace=0"},
         "note": "AddressSanitizer, UBSan, float-cast-overflow and a guard page after the null decide memory safety and undefined behaviour on every enumerated text; 'must throw' is decided by an independent field scanner and claimed only where a field is certainly missing, too big, or not a date. Texts outside the enumerated sets (length, alphabet, number of corrupted bytes) are not covered."}
PROPS["C14"] = {"technique": "exhaustive enumeration of date-times through the real formatters and back through the real reader",
         "note": "Every day of years 0..9999, month ends of years -4799..-1 (each tenth before -1100) and of a ladder of years to the int limit, every second of the day, every 61st (thorough: every) millisecond, all fractions of 3 (thorough: 60) seconds, every separator byte; other microsecond times of day strided."}
PROPS["C15"] = {"technique": "exhaustive enumeration of texts through the real month constructor",
         "note": "Every text of at most three bytes, every letter case, every one-byte edit (two-byte thorough) of every name, every 4-letter (thorough: to 6-letter) lower-case word; every order of the letters of each name; longer unrelated texts only by repetition patterns. A guard page follows the null."}
def _build_c16(m):
    env = {}
    d = m.locales()
    if d: env = {"LOCPATH": d, "C16_LOCALE": "1"}
    j = m.os.path.join
    return m.build_instrumented("C16", [j(m.V, "src", "C16_ops.cpp")], j(m.V, "src", "C16.cpp")), env
PROPS["C16"] = {"technique": "stateless search over all thread schedules of the real code (instrumented in LLVM IR) up to a preemption bound, one process per schedule, with a happens-before race check",
         "build": _build_c16,
         "counters": ["writes_to_shared_memory", "reads_of_shared_writable_memory", "calls_that_may_touch_process_state", "accesses_to_thread_private_or_read_only_memory", "executions_over_the_action_limit"],
         "note": "All schedules of two and three threads with at most 1-2 (thorough 2-3) preemptions at every shared access and every outside call; each schedule is a fresh process of the real code at -O0 under sequential consistency. Outside functions run atomically (state inside libc/libstdc++ is interleaved between, not within, calls). 21 operations with two argument sets each."}
def _build_c17(m):
    env = {}
    d = m.locales()
    if d: env = {"LOCPATH": d, "C16_LOCALE": "1"}
    j = m.os.path.join
    return m.build("C17", [j(m.V, "src", "C17.cpp"), j(m.V, "src", "C16_ops.cpp")]), env
PROPS["C17"] = {"technique": "exhaustive enumeration of call sequences, each in a fresh process, under every ambient setting, on the real code",
         "build": _build_c17,
         "note": "All sequences of three calls (thorough: followed by all calls in turn) over 42 calls (21 operations, two argument sets) x ambient settings (quick six, thorough eight covering ones); long lists of texts and objects under every setting; for each operation, every ordered pair of calls over a wide alphabet of arguments (and across operations) in one process against each call in a fresh one. All sequences of four (five) of up to 34 operations on two objects of each of eleven types, every view compared with that of new objects of the same value. The error number itself may be overwritten by a call (as by strtol)."}
def _run_c18(m, P, tier, replay):
    import c18
    return c18.run(m, P, tier, replay)
PROPS["C18"] = {"technique": "exhaustive enumeration of a bounded space of programs (operator x operand types, constructions, calls), each judged by the real compilers",
         "runner": _run_c18,
         "note": "Complete tables of binary operators, constructions and calls over all quantity types, numbers, date-times and intervals (argument tuples to four, and within two substitutions of every accepted tuple for five and six). Programs the documentation neither offers nor forbids are enumerated but not judged. Longer programs are compositions of these expressions."}
PROPS["C19"] = {"technique": "exhaustive enumeration of operand pairs and of operation sequences on the real types against the integers",
         "note": "All pairs of small values (+-200, thorough +-700), all pairs of 2^k-1..2^k+1 and type limits, every value of +-1 million (40 million) for the step operators, all sequences of 4 (5) of 19 operations on two registers. Operations whose integer result overflows are outside the statement."}
PROPS["C20"] = {"technique": "exhaustive enumeration of intervals and divisors on the real code",
         "note": "Complete products over alphabets of day parts (to 2^40), time parts (to 2^60) and divisors (1..400, thorough 1..5000, limits to INT_MAX, and a geometric ladder of ratio 1.05, thorough 1.01, with the day parts around multiples of each divisor), whole days tick by tick (us strided), every day part of +-100000 with five time parts. Division of negative intervals is outside the statement."}
def _c21_configs(tier):
    """(name, client compiler+flags, library compiler+flags); the library and its caller are also built differently"""
    levels = ["-O0", "-O2", "-O3 -march=native"] if tier == "quick" else ["-O0", "-O1", "-O2", "-O3", "-Os", "-O3 -march=native"]
    defs = ["", "-DDEBUG", "-DUSE_DATETIME_CHECKS", "-DDEBUG -DUSE_DATETIME_CHECKS"] + ([] if tier == "quick" else ["-DNDEBUG", "-DNDEBUG -DDEBUG", "-DNDEBUG -DUSE_DATETIME_CHECKS"])
    one = [(c, l, d) for c in ("g++", "clang++") for l in levels for d in defs]
    name = lambda x: " ".join(y for y in x if y)
    res = [(name(x), x, x) for x in one]
    n = len(one)
    libs = [one[0], one[n - 1]] if tier == "quick" else [one[0], one[n - 1], one[n // 2], one[len(defs) * 2]]
    for k, x in enumerate(one):
        for y in ([libs[k % 2]] if tier == "quick" else libs):
            if x != y: res.append((name(x) + " with a library built by " + name(y), x, y))
    # NDEBUG with the argument checks on and the project's own two flag sets
    extra = [("g++", "-g -march=native", "-DDEBUG"), ("g++", "-O2 -march=native", ""), ("clang++", "-O2", "-DNDEBUG -DUSE_DATETIME_CHECKS"), ("g++", "-O2", "-DNDEBUG")]
    # what locals hold before they are written must not matter
    extra += [("g++", "-O1 -ftrivial-auto-var-init=pattern", ""), ("clang++", "-O1 -ftrivial-auto-var-init=zero", "-DDEBUG")]
    return res + [(name(x), x, x) for x in extra if x not in one]
def _build_c21(m):
    tier = m.os.environ.get("VERIF_TIER", "quick")
    return side_by_side(m, "C21", _c21_configs(tier), tier)
def side_by_side(m, prop, conf, tier):
    """the explorer of C21 and one shared object per configuration; ends the check if a configuration does not build"""
    import concurrent.futures, tempfile, shutil
    j = m.os.path.join
    exe = m.build("C21", [j(m.V, "src", "C21.cpp")], libs=["-ldl"])
    d = j(m.BUILD, prop + "conf-" + tier + "-" + m.digest(m.inputs(), repr(conf)))
    if not m.os.path.isdir(d):
        for old in m.glob.glob(j(m.BUILD, prop + "conf-" + tier + "-*")): shutil.rmtree(old, ignore_errors=True)
        t = tempfile.mkdtemp(dir=m.BUILD, prefix=prop + "tmp-")
        ops = j(m.V, "src", "C21_ops.cpp"); flags = ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden"]
        todo = {}
        for _, x, y in conf:
            todo[("ops", x)] = [ops]; todo[("lib", y)] = m.repo_cpps()
        key = lambda k: j(t, k[0] + "-" + m.hashlib.sha256(repr(k[1]).encode()).hexdigest()[:12])
        def comp(k):
            for n, s in enumerate(todo[k]):
                cmd = [k[1][0]] + m.LIBFLAGS + flags + (["-fno-gnu-unique"] if k[1][0] == "g++" else []) + (k[1][1] + " " + k[1][2]).split() + ["-c", s, "-o", "%s.%d.o" % (key(k), n)]
                r = m.run(cmd)
                if r.returncode: return "%s\n%s" % (" ".join(cmd), r.stdout[-3000:])
            return None
        def link(c):
            n, (_, x, y) = c
            cmd = ["g++", "-shared", "-Wl,-Bsymbolic", "-o", j(t, "c%d.so" % n), key(("ops", x)) + ".0.o"] + ["%s.%d.o" % (key(("lib", y)), i) for i in range(len(m.repo_cpps()))]
            r = m.run(cmd); return r.returncode and " ".join(cmd) + "\n" + r.stdout[-3000:] or None
        with concurrent.futures.ThreadPoolExecutor(m.os.cpu_count() or 8) as ex:
            bad = [b for b in ex.map(comp, list(todo)) if b] or [b for b in ex.map(link, list(enumerate(conf))) if b]
        if bad:
            # the ordinary configuration was built above, so a configuration that is rejected is a difference
            shutil.rmtree(t)
            if not m.re.search(r"error:|undefined reference|multiple definition", bad[0]): print("BUILD-FAILED " + prop + "\n" + bad[0]); m.sys.exit(2)
            r = {"states": len(todo), "transitions": len(todo), "traces": 0, "cases": len(todo), "distinct_outcomes": 2, "wall_s": 0, "capped": False, "workers": 1, "known": {}, "unconfirmed": [], "extra": [], "spaces": [],
                 "violation": {"space": "configurations", "lo": 0, "hi": 1, "case": 0, "alone": True, "key": "build", "case_text": bad[0].split("\n")[0], "message": "this configuration does not build: " + (m.re.findall(r"error: .*|undefined reference.*|multiple definition.*", bad[0]))[0][:300]}}
            m.finish(prop, PROPS[prop], tier, int(m.os.environ.get("VERIF_SEED", "1") or 1), m.time.time(), [], r)
        for o in m.glob.glob(j(t, "*.o")): m.os.unlink(o)
        m.os.rename(t, d)
    return exe, {"C21_LIBS": "\n".join("%s\t%s" % (c[0], j(d, "c%d.so" % n)) for n, c in enumerate(conf))}
PROPS["C21"] = {"technique": "exhaustive enumeration of the configuration space (compilers x optimisation x defines, also library and caller built differently), each configuration loaded side by side and driven through the same enumerated calls",
         "build": _build_c21,
         "note": "Every configuration of the stated product is compared call by call with the first one, on every enumerated call; real numbers agree to 1e-14 relative (fused multiply-add). Only arguments that the library documents as valid with the optional checks are used."}
def _run_c22(m, P, tier, replay):
    import c22
    return c22.run(m, P, tier, replay)
PROPS["C22"] = {"technique": "exhaustive enumeration of the compositions of the public headers (order, repetition, number of units) into programs, each compiled, linked and run",
         "runner": _run_c22,
         "note": "All sequences of at most two (thorough three) of the five headers, permutations of all five, both compilers and the defines; programs of two and three units over single headers and all headers, whose units must agree. Further, the public operations are compiled once per order in which the headers can be parsed (12 quick, 48 thorough, each a permutation of the five) and driven side by side through the enumerated calls of C21, which must agree."}
C23_GROUPS = 21
def _build_c23(m):
    """one shared object per group of constant expressions and compiler; an expression that g++ does not accept as a constant is a violation"""
    import concurrent.futures, tempfile, shutil
    tier = m.os.environ.get("VERIF_TIER", "quick"); j = m.os.path.join
    exe = m.build("C23", [j(m.V, "src", "C23.cpp")], libs=["-ldl"])
    # the library's .cpp files take no part: what is tested is in the headers
    LIM = {"g++": ["-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=100000000"], "clang++": ["-fconstexpr-steps=2000000000"]}
    opts = ["-O1"] if tier == "quick" else ["-O0", "-O1", "-O3"]
    stds = ["-std=c++17"] if tier == "quick" else ["-std=c++17", "-std=c++20"]
    todo = [(cc, g, o, st) for g in [16, 15, 17] + [x for x in range(C23_GROUPS) if x not in (15, 16, 17)] for cc in ("clang++", "g++") for o in opts for st in stds if (o, st) in ((opts[0], stds[0]), (opts[-1], stds[-1])) or cc == "g++"]
    d = j(m.BUILD, "C23conf-" + tier + "-" + m.digest(m.inputs(), repr(todo)))
    if not m.os.path.isdir(d):
        for old in m.glob.glob(j(m.BUILD, "C23conf-" + tier + "-*")): shutil.rmtree(old, ignore_errors=True)
        t = tempfile.mkdtemp(dir=m.BUILD, prefix="C23tmp-"); src = j(m.V, "src", "C23_ops.cpp")
        def comp(x):
            cc, g, o, st = x
            cmd = [cc] + m.LIBFLAGS + [st, o, "-w", "-fPIC", "-shared", "-fvisibility=hidden", "-Wl,-Bsymbolic", "-DGROUP=%d" % g, "-DDEPTH=%d" % (tier != "quick")]
            r = m.run(cmd + LIM[cc] + [src] + m.repo_cpps() + ["-o", j(t, "%s_%d%s%s.so" % (cc, g, o, st))])
            if r.returncode == 0: return x, None, None
            q = m.run(cmd + ["-DRUNTIME_ONLY", src] + m.repo_cpps() + ["-o", j(t, "x_%s_%d%s%s.so" % x)])
            return x, r.stdout, q
        with concurrent.futures.ThreadPoolExecutor(m.os.cpu_count() or 8) as ex: res = list(ex.map(comp, todo))
        notconst = []
        for x, out, q in res:
            if out is None: continue
            if q.returncode: print("BUILD-FAILED C23\n" + q.stdout[-3000:]); shutil.rmtree(t); m.sys.exit(2)
            # clang is stricter than g++ about library functions in constant expressions: its values count, its refusals do not
            if x[0] == "g++": notconst.append((x, out))
        if notconst:
            shutil.rmtree(t); x, out = notconst[0]
            name = m.re.findall(r"GROUP == %d\n.*NAME\[\] = \"(.*?)\"" % x[1], open(src).read())[0]
            msg = "; ".join((m.re.findall(r"error: .*", out) + m.re.findall(r"in .constexpr. expansion of .*", out)[-2:])[:3])
            m.finish("C23", PROPS["C23"], tier, int(m.os.environ.get("VERIF_SEED", "1") or 1), m.time.time(), [], {"states": len(todo), "transitions": len(todo), "traces": 0, "cases": len(todo), "distinct_outcomes": 2, "wall_s": 0, "capped": False, "workers": 1, "known": {}, "unconfirmed": [], "extra": [], "spaces": [],
                     "violation": {"space": "constants", "lo": 0, "hi": 1, "case": 0, "alone": True, "key": "not-constant", "case_text": name + ", " + " ".join(str(y) for y in x), "message": name + ": an expression that must be constant is not: " + msg[:600]}})
        m.os.rename(t, d)
    libs = [(x, j(d, "%s_%d%s%s.so" % x)) for x in todo]
    return exe, {"C23_LIBS": "\n".join("%s %s %s\t%s" % (x[0], x[2], x[3], p) for x, p in libs if m.os.path.exists(p))}
PROPS["C23"] = {"technique": "exhaustive enumeration of (expression, arguments) as constant expressions, executed by the compilers' abstract machines, each state compared with the same expression on the real code at run time",
         "build": _build_c23,
         "note": "All expressions of the list x all pairs of two boundary alphabets, in 21 groups, by g++ and clang++ (thorough: larger alphabets, three optimisation levels, C++17 and C++20). A constant evaluation also rejects every undefined operation, so overflow on these arguments is excluded. Calendar conversions are computed by the compiled library and are no constants. A refusal by clang++ alone (stricter about library functions) is not judged."}
PROPS["C24"] = {"technique": "exhaustive fault injection: every set of allocations of every call is made to fail on the real code, each execution in its own process",
         "note": "About 370 (thorough 670) calls, all operations that allocate and all refusals among them; every set of at most eight of their allocations failing (no call makes more than eight in the current tree, so every set), every tail of them, cold and warm, under two global C++ locales; then other calls in the same process. Allocations are those of malloc and its relatives, the library's and the C++ runtime's on its behalf. Other resources are not made to fail."}
