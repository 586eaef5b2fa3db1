#!/usr/bin/env python3
"""mcinstr.py IN.ll OUT.ll: make every memory access and every call that leaves
the module a potential scheduling point.

Before each load/store/atomic:      call void @mc_mem(ptr P, i32 kind, i32 id)
Before each call/invoke of a function that is not defined in this module
(or is called through a pointer):   call void @mc_arg(ptr A) for each pointer
argument, then                      call void @mc_ext(i32 id, i32 cls)
cls 1 = the function's behaviour depends only on its arguments (strings, memory,
exceptions, allocation); 0 = anything else.  Blocking and one-time-initialisation
primitives are redirected to the scheduler's versions."""
import re, sys
src = open(sys.argv[1]).read().split("\n")
defined = set()
for l in src:
    m = re.match(r'define\b.*?@("[^"]+"|[\w.$]+)\(', l)
    if m: defined.add(m.group(1))
PURE = re.compile(r'^(_Znwm|_Znam|_ZdlPv|_ZdaPv|_ZdlPvm|_ZdaPvm|__errno_location|__cxa_allocate_exception|__cxa_free_exception|__cxa_throw|__cxa_rethrow|__cxa_begin_catch|__cxa_end_catch|__clang_call_terminate|_ZSt9terminatev|_Unwind_Resume|__gxx_personality_v0'
                  r'|strlen|strcmp|strncmp|strcpy|strncpy|strcat|strchr|strstr|memcpy|memmove|memset|memcmp|memchr|abs|labs|abort'
                  r'|__(mem|str)\w+_chk|_ZSt\d+__throw_.*|_ZNK?St7__cxx1112basic_string.*|_ZSt.*basic_string.*|_ZNSt\d+(invalid_argument|out_of_range|runtime_error|domain_error|logic_error|range_error|overflow_error)[CD].*'
                  r'|_ZNSo.*|_ZSt.*basic_ostream.*|_ZNKSt7__cxx111[89]basic_.*|_ZNSt7__cxx111[89]basic_.*D\dEv|_ZNSt9basic_ios.*|_ZNSt8ios_base.*|_ZNSt6localeD\dEv|_ZNSt6localeC\dERKS_|_ZNK?4ngpt.*|mc_pure_.*)$')
SKIP = re.compile(r'^llvm\.(lifetime|dbg|assume|experimental|threadlocal|eh|is\.constant|expect|objectsize|abs|smax|smin|umax|umin|fabs|fmuladd|ctpop|sadd|ssub|smul|uadd|usub|umul|trap|va_|stack|invariant|launder|fshl|fshr|floor|trunc|round)')
REDIR = {"__cxa_guard_acquire": "mc_guard_acquire", "__cxa_guard_release": "mc_guard_release", "__cxa_guard_abort": "mc_guard_abort",
         "pthread_mutex_lock": "mc_mutex_lock", "pthread_mutex_unlock": "mc_mutex_unlock", "pthread_rwlock_wrlock": "mc_rw_wr", "pthread_rwlock_rdlock": "mc_rw_rd", "pthread_rwlock_unlock": "mc_rw_un"}
out = []; ids = []; need = set()
def hook_mem(p, k):
    ids.append(None)
    out.append("  call void @mc_mem(ptr %s, i32 %d)" % (p, k))
PTR = re.compile(r'\bptr(?:\s+[a-z_]+(?:\([^()]*\))?(?:\s\d+)?)*\s+(%"[^"]+"|%[\w.$-]+|@"[^"]+"|@[\w.$]+)')
infn = False; names = {}
for l in src:
    if l.startswith("define"): infn = True
    elif l == "}": infn = False
    if infn:
        s = l.strip()
        m = re.match(r'(?:%\S+ = )?load (?:atomic )?(?:volatile )?(?:.+?), ptr (%"[^"]+"|%[\w.$-]+|@"[^"]+"|@[\w.$]+)', s)
        if m: hook_mem(m.group(1), 3 if " load atomic " in " " + s else 0)
        elif s.startswith("store "):
            m = re.match(r'store .*, ptr (%"[^"]+"|%[\w.$-]+|@"[^"]+"|@[\w.$]+)(?:,|$| syncscope| [a-z_]+,)', s)
            if m: hook_mem(m.group(1), 4 if s.startswith("store atomic ") else 1)
        elif re.match(r'(%\S+ = )?(atomicrmw|cmpxchg)\b', s):
            m = PTR.search(s)
            if m: hook_mem(m.group(1), 2)
        else:
            m = re.match(r'(?:%\S+ = )?(?:(?:tail|notail|musttail) )?(call|invoke)\b', s)
            if m and " asm " not in s:
                c = re.search(r'@("[^"]+"|[\w.$]+)\(', s)
                indirect = re.search(r'(?:call|invoke)\b[^@(]*(?:\([^()]*\))?[^@(]*?\s(%[\w.$-]+)\(', s)
                name = c.group(1) if c else None
                if indirect and (not c or s.index(indirect.group(0)) + indirect.group(0).rindex("(") < s.index(c.group(0))): name = None
                if name in REDIR:
                    need.add(name); l = l.replace("@" + name + "(", "@" + REDIR[name] + "(")
                elif name is None or (name not in defined and not SKIP.match(name)):
                    body = s[s.index("(", s.index("@" + name) if name else 0):] if name else s
                    for p in PTR.findall(body): out.append("  call void @mc_arg(ptr %s)" % p)
                    pure = bool(name and (PURE.match(name) or name.startswith("llvm.mem")))
                    i = names.setdefault(name or "<indirect>", len(names))
                    out.append("  call void @mc_ext(i32 %d)" % (1 if pure else 0))
    else:
        for a, b in REDIR.items():
            if re.match(r'declare .*@%s\(' % a, l): l = l + "\n" + re.sub(r'#\d+', '', l.replace("@" + a + "(", "@" + b + "("))
    out.append(l)
out += ["declare void @mc_mem(ptr, i32)", "declare void @mc_arg(ptr)", "declare void @mc_ext(i32)"]
open(sys.argv[2], "w").write("\n".join(out) + "\n")
if len(sys.argv) > 3: open(sys.argv[3], "w").write("\n".join(sorted(names)) + "\n")
