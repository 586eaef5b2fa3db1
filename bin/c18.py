"""C18: the space of small programs that combine time quantities, each judged by the real compilers.

Every program is one expression (an operator applied to two operand types, a
construction, a call).  Table programs ask the compiler about all of them at once
through decltype; a table entry 'ill-formed' is the compiler's verdict on that
program.  Where the table says 'well-formed' and the specification says it must be
rejected, the program is compiled on its own before it is reported (a definition
may still reject it by a hard error).  Programs that must compile are compiled as
they stand, with their result type asserted."""
import itertools, os, subprocess, tempfile, shutil, time, re
from concurrent.futures import ThreadPoolExecutor

Q = ["year", "month", "gps_week", "day_of_month", "day_of_year", "modified_julian_day", "hours", "minutes", "seconds", "milliseconds", "microseconds"]
S = ["seconds", "milliseconds", "microseconds"]
N = ["int", "long", "unsigned", "short", "char", "bool", "long long", "unsigned long"]
D = ["double", "float"]
DT = ["datetime<%s>" % s for s in S]
IV = ["datetime_interval<%s>" % s for s in S]
ST = ["ymd_date", "ydoy_date"]
ALL = Q + N + D + DT + IV + ST
PLUS = ["modified_julian_day"] + S
CMP = ["==", "!=", "<", "<=", ">", ">="]
def kind(t): return "Q" if t in Q else "N" if t in N else "D" if t in D else "DT" if t in DT else "IV" if t in IV else "ST"
def finer_or_equal(t, s): return S.index(t) >= S.index(s)   # t converts to s explicitly
def res(t): return t[t.index("<") + 1:-1]

def binary(op, a, b, const_left):
    """True must compile, False must be rejected, None not specified"""
    ka, kb = kind(a), kind(b)
    if ka in "ND" and kb in "ND": return None
    same = a == b
    if op in CMP:
        if ka == "Q" and kb == "Q": return same
        if ka == "DT" and kb == "DT": return same
        if ka == "IV" and kb == "IV": return same
        if "ST" in (ka, kb): return None if same else False
        return False
    if op in ("+=", "-="):
        if const_left: return False
        if ka == "Q" and kb == "Q": return same
        if ka == "Q" and kb == "N": return True
        if ka == "Q": return False
        if ka == "DT" and kb == "IV": return (True if op == "+=" else None) if res(a) == res(b) else False
        if ka == "IV" and kb == "IV": return None if same else False
        return False
    if op in ("+", "-"):
        if ka == "Q" and kb == "Q": return True if same and a in PLUS else (None if same else False)
        if ka in ("DT", "IV") and kb in ("DT", "IV"): return None if res(a) == res(b) else False
        return False
    if op == "=":
        if const_left: return False
        if same: return True
        if ka == "Q" and kb == "N": return None if a == "month" else True
        if ka == "Q" and kb == "D": return None
        if ka == "ST": return False if kb != "N" and kb != "D" else None
        return False
    if op in ("*", "/", "%"):
        if ka == "IV" and b == "int" and op == "/": return True
        if ka == "Q" and kb == "Q" and not same: return False
        if {ka, kb} == {"Q", "DT"} or {ka, kb} == {"Q", "IV"} or (ka in ("DT", "IV") and kb in ("DT", "IV") and a != b): return False
        return None
def result(op, a, b):
    if op in CMP: return "bool"
    if op in ("+=", "-="): return a + "&" if kind(a) == "Q" else None
    if op == "=": return a + "&"
    return a

def construct(a, b, implicit):
    ka, kb = kind(a), kind(b)
    if ka in "ND" and kb in "ND": return None
    if a == b: return True
    if ka == "Q":
        if kb == "Q": return (not implicit) and a in S and b in S and finer_or_equal(b, a)
        if kb == "N": return True if not implicit else a in ("year", "modified_julian_day")
        if kb == "D": return None if not implicit or a in ("year", "modified_julian_day") else False
        return False
    if ka in "ND": return False
    if ka == "DT": return None if b == "modified_julian_day" and not implicit else (None if kb in "ND" and not implicit else False)
    if ka == "IV": return False
    if ka == "ST": return (b == "year" or (None if kb in "ND" else False)) if not implicit else (False if kb in ("Q", "DT", "IV", "ST") else None)

# construction and calls with several arguments: (name, expression with @ for the arguments, accepted shapes)
def T_conv(s): return [t for t in S if finer_or_equal(t, s)]
Y, M, DM, DY, J, W, H, MI = "year", "month", "day_of_month", "day_of_year", "modified_julian_day", "gps_week", "hours", "minutes"
def shapes_dt(s):
    r = [(J, H), (J, H, MI), (J, H, MI, s), (J, s), (Y, M, DM), (Y, M, DM, H), (Y, M, DM, H, MI), (Y, DY), (Y, DY, H), (Y, DY, H, MI), (W, s)]
    for t in T_conv(s): r += [(Y, M, DM, t), (Y, M, DM, H, MI, t), (Y, DY, t), (Y, DY, H, MI, t)]
    r += [(Y, M, DM, H, MI, "double"), (Y, DY, H, MI, "double")]
    return r
def unspecified_dt(s, t):  # finer resolutions where only the exact one is offered today; a lone mjd is ambiguous
    r = {(J,), (W,)} | {x for u in T_conv(s) for x in ((J, u), (J, H, MI, u), (W, u), (J, H, u))}
    return t in r
ALONE = "template arguments"
CALLS = []
for s in S: CALLS.append(("datetime<%s>(@)" % s, shapes_dt(s), (lambda s: lambda t: unspecified_dt(s, t))(s), [1, 2, 3, 4], [5, 6]))
for s in S: CALLS.append(("datetime_interval<%s>(@)" % s, [(J, s)], (lambda s: lambda t: len(t) == 2 and t[0] == J and t[1] in T_conv(s))(s), [1, 2, 3], []))
for s in S: CALLS.append(("%s(@)" % s, [(H, MI, s), (H, MI, "double")], (lambda s: lambda t: False)(s), [2, 3], []))
CALLS += [("modified_julian_day(@)", [(Y, DY), (Y, M, DM)], lambda t: False, [2, 3], []),
          ("ymd_date(@)", [(Y, M), (Y, M, DM)], lambda t: False, [2, 3], []), ("ydoy_date(@)", [(Y, DY)], lambda t: False, [2, 3], []),
          ("cal2mjd(@)", [(Y, M, DM)], lambda t: t == ("int", "int", "int"), [2, 3], []), ("ydoy2mjd(@)", [(Y, DY)], lambda t: False, [1, 2, 3], []),
          ("dat(@)", [(Y, M), (J,)], lambda t: False, [1, 2, 3], []),
          ("std::declval<const day_of_month&>().is_valid(@)", [(Y, M)], lambda t: False, [1, 2], []),
          ("std::declval<const day_of_year&>().is_valid(@)", [(Y,)], lambda t: False, [1, 2], []),
          ("day_of_week(@)", [(s,) for s in S], lambda t: False, [1], [])]
for s in S: CALLS.append(("mjd_sec_diff<%s>(@)" % s, [(J, J)], lambda t: False, [1, 2], []))
for s in S: CALLS.append(("std::declval<datetime<%s>&>().add_seconds(@)" % s, [(t,) for t in S], lambda t: False, [1, 2], []))
for s in S: CALLS.append(("std::declval<datetime<%s>&>().remove_seconds(@)" % s, [(t,) for t in S], lambda t: False, [1, 2], []))
for s in S: CALLS.append(("std::declval<const datetime<%s>&>().add(@)" % s, [(J, t) for t in T_conv(s)], lambda t: False, [1, 2], []))
OBJ = DT + IV + Q
OBJCALLS = []   # over pairs of objects
for s in S: OBJCALLS.append(("std::declval<const datetime<%s>&>().delta_sec(@)" % s, [("datetime<%s>" % s,)], 1))
for s in S: OBJCALLS.append(("std::declval<const datetime<%s>&>().delta_date(@)" % s, [("datetime<%s>" % s,)], 1))
OBJCALLS += [("delta_date(@)", [(d, d) for d in DT], 2), ("delta_sec(@)", [(a, b) for a in DT for b in DT], 2), ("dat(@)", [(d,) for d in DT] + [("modified_julian_day",)], 1),
             ("strftime_ymd_hms(@)", [(d,) for d in DT], 1), ("strftime_ymd_hmfs(@)", [(d,) for d in DT], 1)]

def shape_verdict(t, shapes, unspec):
    if t in shapes: return True
    if unspec(t): return None
    if "int" in t:  # an int may stand for a year, a day number or fractional seconds
        for sh in shapes:
            if len(sh) == len(t) and all(x == y or (x == "int" and y in (Y, J, "double")) for x, y in zip(t, sh)): return None
        for k in range(len(t)):
            if t[k] == "int":
                for y in (Y, J):
                    u = t[:k] + (y,) + t[k + 1:]
                    if unspec(u) or u in shapes: return None
    if len(t) == 2 and t[0] == "int": return None if unspec((J, t[1])) else False
    return False

HDR = '#include <utility>\n#include <type_traits>\n#include <cstdio>\n#include "dtfund.hpp"\n#include "dtcalendar.hpp"\n#include "datetime_read.hpp"\n#include "datetime_write.hpp"\nusing namespace ngpt;\n'

class Prog:
    __slots__ = ("text", "expect", "expr", "rtype")
    def __init__(self, text, expect, expr, rtype=None): self.text, self.expect, self.expr, self.rtype = text, expect, expr, rtype
def lv(t): return "std::declval<%s&>()" % t
def cv(t): return "std::declval<const %s&>()" % t
def rv(t): return "std::declval<%s>()" % t

def tables(deep):
    """yields (title, list of Prog, detector) - the table's entry k belongs to program k"""
    out = []
    for op in CMP + ["+", "-", "*", "/", "%"]:
        out.append(("a %s b" % op, [Prog("%s %s %s" % (a, op, b), binary(op, a, b, False), "%s %s %s" % (cv(a), op, cv(b)), result(op, a, b)) for a in ALL for b in ALL]))
    for op in ["+=", "-=", "="]:
        out.append(("a %s b" % op, [Prog("%s %s %s" % (a, op, b), binary(op, a, b, False), "%s %s %s" % (lv(a), op, cv(b)), result(op, a, b)) for a in ALL for b in ALL]))
        out.append(("const a %s b" % op, [Prog("const %s %s %s" % (a, op, b), binary(op, a, b, True) if kind(a) not in "ND" else None, "%s %s %s" % (cv(a), op, cv(b))) for a in ALL for b in ALL]))
    un = []
    for a in Q:
        un += [Prog("++%s" % a, True, "++" + lv(a), a + "&"), Prog("--%s" % a, True, "--" + lv(a), a + "&"), Prog("%s++" % a, True, lv(a) + "++", a), Prog("%s--" % a, True, lv(a) + "--", a)]
        un += [Prog("++const %s" % a, False, "++" + cv(a)), Prog("--const %s" % a, False, "--" + cv(a)), Prog("const %s++" % a, False, cv(a) + "++"), Prog("const %s--" % a, False, cv(a) + "--")]
        un += [Prog("if (%s)" % a, False, "(%s ? 1 : 0)" % cv(a)), Prog("!%s" % a, False, "!" + cv(a))]
    out.append(("unary", un))
    out.append(("A(b)", [Prog("%s(%s)" % (a, b), construct(a, b, False), "static_cast<%s>(%s)" % (a, cv(b)), a) for a in ALL for b in ALL]))
    out.append(("A x = b", [Prog("%s x = %s" % (a, b), construct(a, b, True), "std::declval<void(&)(%s)>()(%s)" % (a, cv(b))) for a in ALL for b in ALL]))
    out.append(("A(\"text\")", [Prog("%s(const char*)" % a, True if a == "month" else (None if kind(a) == "N" else False), "static_cast<%s>(std::declval<const char*>())" % a) for a in Q + DT + IV + ST] + [Prog("%s x = const char*" % a, False, "std::declval<void(&)(%s)>()(std::declval<const char*>())" % a) for a in Q + DT + IV + ST]))
    for e, sh, n in OBJCALLS:
        for k in range(1, n + 1):
            out.append((e, [Prog(e.replace("@", ", ".join(t)).replace("std::declval", ""), t in sh, e.replace("@", ", ".join(map(cv, t)))) for t in itertools.product(OBJ, repeat=k)]))
    A = Q + ["int"]
    for e, sh, un_, full, near in CALLS:
        for k in full:
            if k == 4 and not deep: near = [4] + near; continue
            out.append(("%s, %d arguments" % (e, k), [Prog(e.replace("@", ", ".join(t)), shape_verdict(t, sh, un_), e.replace("@", ", ".join(map(cv, t)))) for t in itertools.product(A, repeat=k)]))
        for k in near:
            ts = set()
            for base in sh:
                if len(base) != k: continue
                ts.add(base)
                for i, j in itertools.combinations(range(k), 2):
                    for x in A:
                        for y in A:
                            t = list(base); t[i] = x; t[j] = y; ts.add(tuple(t))
            out.append(("%s, %d arguments" % (e, k), [Prog(e.replace("@", ", ".join(t)), shape_verdict(t, sh, un_), e.replace("@", ", ".join(map(cv, t)))) for t in sorted(ts)]))
        fl = [t for t in sh if "double" in t and t not in [x for x in itertools.product(A, repeat=len(t))]] if False else [t for t in sh if "double" in t]
        if fl: out.append((e + ", fractional seconds", [Prog(e.replace("@", ", ".join(t)), True, e.replace("@", ", ".join(map(cv, t)))) for t in fl]))
    # the number a literal or resolution conversion makes has that kind
    lit = [("1_Y", "year"), ("1_M", "month"), ("1_D", "day_of_month"), ("1_h", "hours"), ("1_m", "minutes"), ("1_sec", "seconds"), ("1_millisec", "milliseconds"), ("1_microsec", "microseconds")]
    out.append(("literals", [Prog(l, True, l, t) for l, t in lit]))
    out.append(("cast_to", [Prog("cast_to<%s,%s>(%s)" % (a, b, c), c == a, "ngpt::cast_to<%s,%s>(%s)" % (a, b, cv(c)), b) for a in S for b in S for c in Q + N + DT]))
    out.append((ALONE, [Prog("cast_to<%s,%s>" % (a, b), False, "ngpt::cast_to<%s,%s>(%s)" % (a, b, cv(a))) for a in Q for b in Q if not (a in S and b in S)]
               + [Prog("datetime<%s>.cast_to<%s>()" % (a, b), b in S, "std::declval<const datetime<%s>&>().template cast_to<%s>()" % (a, b), "datetime<%s>" % b if b in S else None) for a in S for b in Q]
               + [Prog("datetime<%s>" % a, a in S, "std::declval<datetime<%s>&>()" % a) for a in Q] + [Prog("datetime_interval<%s>" % a, a in S, "std::declval<datetime_interval<%s>&>()" % a) for a in Q]
               + [Prog("max_days_allowed<%s>()" % a, a in S, "max_days_allowed<%s>()" % a) for a in Q] + [Prog("mjd_sec_diff<%s>()" % a, a in S, "mjd_sec_diff<%s>(std::declval<modified_julian_day>(), std::declval<modified_julian_day>())" % a) for a in Q]))
    return out

CONFIGS_QUICK = [("g++", ["-std=c++17", "-DDEBUG"]), ("clang++", ["-std=c++17"])]
CONFIGS_THOROUGH = [(c, ["-std=" + s] + d) for c in ("g++", "clang++") for s in ("c++17", "c++20") for d in ([], ["-DDEBUG"], ["-DUSE_DATETIME_CHECKS"], ["-DDEBUG", "-DUSE_DATETIME_CHECKS"])]

def table_source(progs):
    """a program that prints one character per Prog: 1 well-formed, 0 ill-formed.
    Expressions with the same skeleton share one detector."""
    skel, order = {}, []
    pat = re.compile(r"std::declval<((?:[^<>]|<[^<>]*>)*)>\(\)")
    body = []
    for p in progs:
        types = pat.findall(p.expr)
        it = iter(range(len(types)))
        sk = pat.sub(lambda m: "std::declval<T%d>()" % next(it), p.expr)
        if sk not in skel:
            i = skel[sk] = len(skel); n = len(types)
            tp = ", ".join("class T%d" % k for k in range(n)) or "class Dummy"
            ex = sk if n else "(void(std::declval<Dummy>()), %s)" % sk
            ar = ", ".join("T%d" % k for k in range(n)) or "Dummy"
            body.append("template<class V, %s> struct d%d : std::false_type {};\ntemplate<%s> struct d%d<std::void_t<decltype(%s)>, %s> : std::true_type {};" % (tp, i, tp, i, ex, ar))
        order.append("d%d<void, %s>::value" % (skel[sk], ", ".join(types) or "int"))
    return HDR + "\n".join(body) + "\nstatic const bool r[] = {\n" + ",\n".join(order) + "};\nint main() { for (bool b : r) putchar(b ? '1' : '0'); }\n"

def run(m, P, tier, replay=None):
    t0 = time.time()
    inc = ["-I", m.SRC]
    def compiles(src, cc):
        r = subprocess.run([cc[0]] + cc[1] + inc + ["-fsyntax-only", "-w", "-x", "c++", "-"], input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode == 0, r.stdout
    def alone(p): return HDR + "template<class T> T&& make();\nvoid program() { (void)(%s); }\n" % p.expr.replace("std::declval", "make") + ("static_assert(std::is_same<decltype(%s), %s>::value, \"result type\");\n" % (p.expr, p.rtype) if p.expect and p.rtype else "")
    if replay:
        ok, txt = compiles(replay["source"], (replay["compiler"][0], replay["compiler"][1:]))
        print(replay["message"]); print("compiles now" if ok else "is rejected now:\n" + txt[:1500])
        return 1 if ok == replay["compiled"] else 0
    def rejected(arg):
        """indices of programs the compiler complains about when all stand in one file (a complaint
        names the line of the program or of the use that led to it)"""
        progs, cc = arg
        src = HDR + "template<class T> T&& make();\n" + "".join('#line %d "program"\nvoid program%d() { (void)(%s); }\n' % (100000 + k, k, p.expr.replace("std::declval", "make")) for k, p in enumerate(progs))
        r = subprocess.run([cc[0]] + cc[1] + inc + ["-fsyntax-only", "-w", "-x", "c++", "-"] + (["-ferror-limit=0"] if "clang" in cc[0] else ["-fmax-errors=0"]), input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return {int(x) - 100000 for x in re.findall(r"program:(\d{6})\b", r.stdout)} if r.returncode else set()
    def pool(f, xs):
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex: return list(ex.map(f, xs))
    configs = CONFIGS_THOROUGH if tier == "thorough" else CONFIGS_QUICK
    tabs = tables(tier == "thorough")
    for cc in configs:   # the library itself must compile, else nothing can be said
        ok, txt = compiles(HDR, cc)
        if not ok: print("BUILD-FAILED C18\n" + txt[-3000:]); raise SystemExit(2)
    d = tempfile.mkdtemp(dir=m.BUILD)
    CH = 3500
    jobs = []
    for ti, (title, progs) in enumerate(tabs):
        if title == ALONE: alone_progs = progs; continue
        for lo in range(0, len(progs), CH): jobs.append((ti, lo, progs[lo:lo + CH]))
    # merge small tables, keep the largest apart
    merged, cur, n = [], [], 0
    for j in jobs:
        if cur and (n + len(j[2]) > CH or "4 arguments" in tabs[j[0]][0] or "4 arguments" in tabs[cur[-1][0]][0]): merged.append(cur); cur, n = [], 0
        cur.append(j); n += len(j[2])
    if cur: merged.append(cur)
    def one(arg):
        k, cc, group = arg
        progs = [p for _, _, ps in group for p in ps]
        exe = os.path.join(d, "t%d" % k)
        r = subprocess.run([cc[0]] + cc[1] + inc + ["-O0", "-w", "-x", "c++", "-", "-o", exe, "-x", "none"] + [], input=table_source(progs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        # unresolved library symbols do not matter: nothing is called
        if r.returncode: return cc, progs, None, r.stdout
        o = subprocess.run([exe], stdout=subprocess.PIPE, text=True).stdout; os.unlink(exe)
        return cc, progs, o, ""
    big = {id(ps) for t, ps in tabs if t.endswith("4 arguments")} if len(configs) > 2 else set()   # the largest tables: two compilers, one setting each
    starts = {id(p) for t, ps in tabs if id(ps) in big for p in ps}
    work = [(k, cc, g) for k, (cc, g) in enumerate((cc, g) for cc in configs for g in merged if not (id(g[0][2][0]) in starts and cc not in (configs[1], configs[8])))]
    results = []
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex: results = list(ex.map(one, work))
    viol, nprog, wf, ill, unspec, confirmed = None, 0, 0, 0, 0, 0
    suspects, must = [], []
    for cc in configs:
        bad = rejected((alone_progs, cc))
        results.append((cc, alone_progs, "".join("0" if k in bad else "1" for k in range(len(alone_progs))), ""))
    for cc, progs, o, err in results:
        if o is None:
            if os.environ.get("C18_DEBUG"): print("table fell back", cc, len(progs), err[:1500])
            # a hard error inside the table: judge each of its programs alone
            o = ""
            with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
                o = "".join("1" if x else "0" for x in ex.map(lambda p: compiles(HDR + "typedef decltype(%s) t;\n" % p.expr, cc)[0], progs))
        for p, c in zip(progs, o):
            nprog += 1
            wf += c == "1"; ill += c == "0"; unspec += p.expect is None
            if p.expect is False and c == "1": suspects.append((cc, p))
            if p.expect is True: must.append((cc, p))
    # programs that must compile: whole, in batches, then alone if anything is wrong
    batches = []
    for cc in configs:
        mine = [p for c, p in must if c is cc or c == cc]
        batches += [(cc, mine[k:k + 150]) for k in range(0, len(mine), 150)]
    def batch_ok(b):
        cc, ps = b
        src = HDR + "template<class T> T&& make();\n" + "".join("void program%d() { (void)(%s); }\n" % (k, p.expr.replace("std::declval", "make")) + ("static_assert(std::is_same<decltype(%s), %s>::value, \"result type\");\n" % (p.expr, p.rtype) if p.rtype else "") for k, p in enumerate(ps))
        return compiles(src, cc)[0]
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex: oks = list(ex.map(batch_ok, batches))
    for (cc, ps), ok in zip(batches, oks):
        confirmed += len(ps)
        if ok or viol: continue
        for p in ps:
            good, txt = compiles(alone(p), cc)
            if not good: viol = (cc, p, False, "must compile%s but is rejected: %s" % (" with result type " + p.rtype if p.rtype else "", (re.findall(r"error: .*", txt) or [txt])[0][:300])); break
    left = []
    groups = [(cc, [p for c, p in suspects if c == cc]) for cc in configs]
    groups = [(ps[k:k + 100], cc) for cc, ps in groups for k in range(0, len(ps), 100)]
    for (ps, cc), bad in zip(groups, pool(rejected, groups)):
        confirmed += len(ps)
        left += [(cc, p) for k, p in enumerate(ps) if k not in bad]
    left = left[:400]
    for (cc, p), (good, txt) in zip(left, pool(lambda x: compiles(alone(x[1]), x[0]), left)):
        if good and not viol: viol = (cc, p, True, "must be rejected but compiles")
    shutil.rmtree(d)
    spaces = [{"name": t, "bounds": "every program of this form over its operand types", "cases": len(ps), "completed": len(ps), "states": len(ps), "transitions": len(ps) * len(configs), "distinct_outcomes": len({p.expect for p in ps}), "cpu_s": 0, "capped": False, "samples": [ps[0].text, ps[len(ps) // 2].text, ps[-1].text]} for t, ps in tabs]
    np_ = sum(len(ps) for _, ps in tabs)
    r = {"states": np_, "transitions": nprog, "traces": confirmed, "cases": np_, "distinct_outcomes": 2, "wall_s": round(time.time() - t0, 3), "capped": False, "workers": os.cpu_count(), "known": {}, "unconfirmed": [], "extra": [], "spaces": spaces, "violation": None,
         "info": {"programs": np_, "verdicts": nprog, "verdict_well_formed": wf, "verdict_ill_formed": ill, "verdicts_on_programs_not_specified": unspec, "programs_compiled_on_their_own_or_in_batches": confirmed, "configurations": [" ".join([c] + f) for c, f in configs]}}
    if viol:
        cc, p, comp, msg = viol
        r["violation"] = {"space": "program", "lo": 0, "hi": 1, "case": 0, "alone": True, "key": p.text, "case_text": p.text, "message": "%s: the program `%s` %s" % (" ".join([cc[0]] + cc[1]), p.text, msg), "source": alone(p), "compiler": [cc[0]] + cc[1], "compiled": comp}
    return r
