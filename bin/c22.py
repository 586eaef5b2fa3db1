"""C22: every bounded way of composing the public headers into a program, judged by the real compilers, linkers and a run."""
import os, itertools, subprocess, tempfile, shutil, time, re
from concurrent.futures import ThreadPoolExecutor
HEADERS = ["dtfund.hpp", "dtcalendar.hpp", "datetime_read.hpp", "datetime_write.hpp", "gnsstm.hpp"]
NEED = {"dtfund.hpp": {"F"}, "dtcalendar.hpp": {"F", "C"}, "datetime_read.hpp": {"F", "C", "R"}, "datetime_write.hpp": {"F", "C", "W"}, "gnsstm.hpp": {"G"}}
# what a unit that includes a header uses of it; each call returns a number that the program compares across units
USE = {
 "F": """  { using namespace ngpt; month m{"Feb"}; h = h * 31 + m.as_underlying_type() + std::string(m.long_name()).size(); modified_julian_day j{year{2016}, month{12}, day_of_month{31}}; h = h * 31 + j.as_underlying_type();
    ymd_date y = j.to_ymd(); ydoy_date q = y.to_ydoy(); h = h * 31 + q.__doy.as_underlying_type() + q.to_ymd().__dom.as_underlying_type() + j.to_ydoy().__year.as_underlying_type(); h = h * 31 + dat(year{2017}, month{1}) + dat(j) + year{2000}.is_leap();
    h = h * 31 + cast_to<milliseconds, seconds>(milliseconds{5000}).as_underlying_type() + std::get<0>(microseconds{7200000000L}.to_hmsf()).as_underlying_type() + mjd_sec_diff<milliseconds>(j, modified_julian_day{57750}).as_underlying_type() + max_days_allowed<microseconds>(); seconds s = 7_sec; s += 3; ++s; h = h * 31 + s.as_underlying_type() + (j > modified_julian_day{3}) + j.to_julian_day() + (long)(milliseconds{43200000}.fractional_days() * 8); j += 2; h += j.as_underlying_type(); }
""",
 "C": """  { using namespace ngpt; datetime<milliseconds> d{year{2015}, month{12}, day_of_month{30}, hours{12}, minutes{9}, 30.5}; d.add_seconds(seconds{86400}); d.remove_seconds(microseconds{1500}); long sow; h = h * 31 + d.as_gps_wsow(sow).as_underlying_type() + sow; h = h * 31 + d.sec().as_underlying_type() + dat(d);
    datetime<seconds> e{modified_julian_day{57000}, seconds{5}}; h = h * 31 + delta_sec(d, e).as_underlying_type() + d.delta_date(d.add(modified_julian_day{0}, microseconds{0})).days().as_underlying_type() + day_of_week(seconds{86400 * 3}) + d.cast_to<seconds>().sec().as_underlying_type(); datetime_interval<seconds> v{modified_julian_day{9}, seconds{5}}; e += v; v = v / 2; h = h * 31 + v.sec().as_underlying_type() + (e < datetime<seconds>::max()) + d.stringify().size() + (long)(d.as_mjd() * 16) + d.as_ydoy().__doy.as_underlying_type(); }
""",
 "R": """  { using namespace ngpt; h = h * 31 + strptime_ymd<seconds>("2015-12-30").mjd().as_underlying_type() + strptime_ydoy<seconds>("2015-364").mjd().as_underlying_type() + strptime_ymd_hms<milliseconds>("2015-12-30 12:09:30.5").sec().as_underlying_type() + strptime_yod_hms<milliseconds>("2015-Dec-30 12:09:30.5").sec().as_underlying_type() + strptime_ydoy_hms<microseconds>("2015-364 12:09:30.5").sec().as_underlying_type(); try { strptime_ymd<seconds>("x"); } catch (std::invalid_argument&) { h += 17; } }
""",
 "W": """  { using namespace ngpt; datetime<microseconds> d{modified_julian_day{57386}, microseconds{43770500000L}}; std::string a = strftime_ymd_hmfs(d), b = strftime_ymd_hms(d, '/'); for (char c : a + b) h = h * 31 + c; }
""",
 "G": """  { h = h * 31 + (long)ngpt::GnssTimeSystem::irn - (long)ngpt::GnssTimeSystem::gps; }
"""}
def parts(seq): return sorted(set().union(*[NEED[x] for x in seq]))
def unit(seq, k):
    return "".join("#include \"%s\"\n" % x for x in seq) + ("" if "F" in parts(seq) else "#include <string>\n") + "#include <string>\n" + "".join("long unit%d_%s() { long h = %d;\n%s  return h; }\n" % (k, p, ord(p), USE[p]) for p in parts(seq))
def main_of(seqs):
    s = "#include <cstdio>\n" + "".join("long unit%d_%s();\n" % (k, p) for k, q in enumerate(seqs) for p in parts(q)) + "int main() { int bad = 0;\n"
    for p in "FCRWG":
        us = [k for k, q in enumerate(seqs) if p in parts(q)]
        for k in us[1:]: s += "  if (unit%d_%s() != unit%d_%s()) { printf(\"part %s differs between unit %d and unit %d\\n\"); bad = 1; }\n" % (us[0], p, k, p, p, us[0], k)
    return s + "  return bad; }\n"
def run(m, P, tier, replay):
    t0 = time.time(); H = HEADERS
    seqs1 = [q for n in ((1, 2) if tier == "quick" else (1, 2, 3)) for q in itertools.product(H, repeat=n)]
    full = list(itertools.permutations(H)) if tier != "quick" else [p for p in itertools.permutations(H) if p[0] == H[0] or p[-1] == H[0] or list(p) == sorted(p) or p[0] == H[4]]
    if tier != "quick": full += list(itertools.permutations(H, 4))
    defs = [(), ("-DDEBUG",), ("-DUSE_DATETIME_CHECKS",), ("-DDEBUG", "-DUSE_DATETIME_CHECKS")]
    ccs = ["g++", "clang++"]
    d = tempfile.mkdtemp(dir=m.BUILD, prefix="C22-")
    def sh(cmd, cwd=None): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd)
    def compile_seq(x):
        seq, cc, df = x
        f = os.path.join(d, "s%d.cpp" % abs(hash(x))); open(f, "w").write(unit(seq, 0))
        r = sh([cc] + m.LIBFLAGS + list(df) + ["-fsyntax-only", f]); os.unlink(f)
        return r.returncode == 0, r.stdout
    progs = [(q, cc, df) for q in seqs1 for cc in ccs for df in (defs if len(q) == 1 or tier != "quick" else ((),))] + [(q, cc, ()) for q in full for cc in (ccs if tier != "quick" else ["g++"])]
    # programs of two and three units, each with its own headers, linked with the library and run
    firsts = [(x,) for x in H] + [tuple(H), tuple(reversed(H))]
    multi = [(a, b) for a in firsts for b in firsts] + ([(a, b, c) for a in firsts[:5] for b in firsts[:5] for c in firsts[:5]] if tier != "quick" else [(a, a, b) for a in firsts[:5] for b in firsts[:5]])
    opts = ["-O0", "-O2"]
    # one shared object per order of inclusion, loaded side by side and driven through the calls of C21
    F, C, R, W, G = H
    ords = ([q for q in itertools.permutations(H) if G in (q[0], q[4])] if tier != "quick" else
            [(G,) + q if g else q + (G,) for q in ((F, C, R, W), (F, C, W, R), (C, R, W, F), (C, W, R, F), (R, W, C, F), (W, R, C, F)) for g in (0, 1)])
    import props
    oconf = [("includes " + ", ".join(q), ("g++", "-O1", " ".join("-include " + x for x in q)), ("g++", "-O1", "")) for q in ords]
    def orders(space=None, lo=0, hi=0):
        exe, env = props.side_by_side(m, "C22", oconf, tier); env = dict(os.environ, **env)
        if space is not None: return subprocess.call([exe, "--replay", space, str(lo), str(hi)], env=env)
        out = os.path.join(m.BUILD, "C22.out.json")
        rc = subprocess.call([exe, "--out", out, "--workers", str(os.cpu_count() or 8), "--deadline", "400"], env=env)
        if rc not in (0, 1): print("explorer error, status %d" % rc); m.sys.exit(2)
        o = m.json.load(open(out)); os.unlink(out); return o
    if replay and replay.get("kind") == "orders":
        shutil.rmtree(d); return orders(replay["space"], replay["lo"], replay["hi"])
    if replay:
        x = replay["program"]
        progs = [(tuple(x[0]), x[1], tuple(x[2]))] if replay["kind"] == "unit" else []; multi = [tuple(tuple(q) for q in x[0])] if replay["kind"] == "program" else []
        if replay["kind"] == "program": ccs, opts = [x[1]], [x[2]]
    viol = None
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for x, (ok, txt) in zip(progs, ex.map(compile_seq, progs)):
            if not ok and not viol: viol = ("unit", [list(x[0]), x[1], list(x[2])], "a unit that includes %s does not compile with %s: %s" % (", ".join(x[0]), " ".join((x[1],) + x[2]), (re.findall(r"(?:fatal )?error: .*", txt) or [txt])[0][:300]))
        # objects once per (headers, unit number, compiler, level)
        objs = sorted({(q, k, cc, o) for s in multi for k, q in enumerate(s) for cc in ccs for o in opts}, key=repr); ids = {x: n for n, x in enumerate(objs)}
        def obj(x):
            q, k, cc, o = x; f = os.path.join(d, "o%d.cpp" % ids[x]); open(f, "w").write(unit(q, k))
            r = sh([cc] + m.LIBFLAGS + [o, "-c", f, "-o", f[:-4] + ".o"]); return r.returncode == 0, r.stdout
        okobj = dict(zip(objs, ex.map(obj, objs)))
        libs = [(cc, o, s) for cc in ccs for o in opts for s in m.repo_cpps()]
        def lib(x):
            cc, o, s = x; r = sh([cc] + m.LIBFLAGS + [o, "-c", s, "-o", os.path.join(d, "l-%s%s-%s.o" % (cc, o, os.path.basename(s)))]); return r.returncode == 0, r.stdout
        oklib = list(ex.map(lib, libs))
        if not all(a for a, _ in oklib): print("BUILD-FAILED C22\n" + [b for a, b in oklib if not a][0][-3000:]); shutil.rmtree(d); return 2
        def program(x):
            s, cc, o = x
            for k, q in enumerate(s):
                if not okobj[(q, k, cc, o)][0]: return "unit including %s does not compile: %s" % (", ".join(q), (re.findall(r"error: .*", okobj[(q, k, cc, o)][1]) or ["?"])[0][:300])
            b = os.path.join(d, "p%d" % abs(hash(x))); open(b + ".cpp", "w").write(main_of(s))
            r = sh([cc, b + ".cpp"] + [os.path.join(d, "o%d.o" % ids[(q, k, cc, o)]) for k, q in enumerate(s)] + [os.path.join(d, "l-%s%s-%s.o" % (cc, o, os.path.basename(l))) for l in m.repo_cpps()] + ["-o", b])
            if r.returncode: return "does not link: " + (re.findall(r"(?:multiple definition|undefined reference).*", r.stdout) or [r.stdout])[0][:300]
            e = sh([b]); os.unlink(b); os.unlink(b + ".cpp")
            return None if e.returncode == 0 else "run ended with status %d: %s" % (e.returncode, e.stdout[:300])
        plist = [(s, cc, o) for s in multi for cc in ccs for o in opts]
        for x, e in zip(plist, ex.map(program, plist)):
            if e and not viol: viol = ("program", [[list(q) for q in x[0]], x[1], x[2]], "a program of units including {%s}, %s %s: %s" % ("}, {".join(", ".join(q) for q in x[0]), x[1], x[2], e))
    shutil.rmtree(d)
    if replay:
        print(("REPRODUCED " + viol[2]) if viol else "not reproduced"); return 1 if viol else 0
    n = len(progs) + len(plist)
    sp = lambda name, b, k, samp: {"name": name, "bounds": b, "cases": k, "completed": k, "states": k, "transitions": k, "distinct_outcomes": 1, "cpu_s": 0, "capped": False, "samples": samp}
    spaces = [sp("units", "header sequences (with repetition to length %d; permutations of all five%s) x compiler x defines, with uses of every part" % (2 if tier == "quick" else 3, " (a part of them)" if tier == "quick" else " and of any four"), len(progs), [str(progs[0]), str(progs[-1])]),
              sp("programs", "two and three units with different headers, linked with the library and run", len(plist), [str(plist[0]), str(plist[-1])])]
    r = {"states": n, "transitions": n + len(objs), "traces": len(plist), "cases": n, "distinct_outcomes": 2, "wall_s": round(time.time() - t0, 3), "capped": False, "workers": os.cpu_count(), "known": {}, "unconfirmed": [], "extra": [], "spaces": spaces, "violation": None, "info": {"units_compiled": len(progs), "programs_linked_and_run": len(plist)}}
    if not viol:
        o = orders(); r["capped"] = o["capped"]; r["unconfirmed"] = o["unconfirmed"]
        for q in o["spaces"]: spaces.append(dict(q, name="orders of inclusion: " + q["name"]))
        for k in ("states", "transitions", "cases"): r[k] += o[k]
        r["traces"] += o["traces"] or o["cases"]; r["info"]["orders_of_inclusion"] = len(ords); r["wall_s"] = round(time.time() - t0, 3)
        if o["violation"]: r["violation"] = dict(o["violation"], kind="orders")
    if viol: r["violation"] = {"space": "composition", "lo": 0, "hi": 1, "case": 0, "alone": True, "key": viol[0], "case_text": viol[0], "message": viol[2], "kind": viol[0], "program": viol[1]}
    return r
