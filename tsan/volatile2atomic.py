#!/usr/bin/env python3
"""Textual LLVM IR pass: volatile loads and stores are the library's flags.

The library only targets x86 and spins on volatile variables; there a volatile
load/store is an acquire/release access.  Each one becomes a relaxed atomic (so
the race detector does not report the flag itself) plus an explicit acquire after
the load / release before the store (so what the flag publishes is ordered).

clang drops the volatile of variables captured by a parallel region; they are
followed from the parent's alloca into the outlined function (unoptimised IR, so
each parameter is stored to a slot and reloaded once)."""
import re, sys
LD = re.compile(r"^(\s*)(%\S+ = )load (volatile )?(\w+), ptr (.+?), align (\d+)(.*)$")
ST = re.compile(r"^(\s*)store (volatile )?(\w+) (.+), ptr (.+?), align (\d+)(.*)$")
SIZE = {"i8": 1, "i16": 2, "i32": 4, "float": 4, "i64": 8, "double": 8, "ptr": 8}
def meta(t):
    m = re.search(r"!dbg !\d+", t)
    return (", " + m.group(0)) if m else ""
def strip(t): return re.sub(r", !(range|noundef|nonnull|tbaa|align|dereferenceable) !\d+", "", t)
def args(s):
    out, d, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in "([{<": d += 1
            elif ch in ")]}>":
                d -= 1
                if d < 0: break
            elif ch == "," and d == 0: out.append(cur.strip()); cur = ""; continue
        cur += ch
    out.append(cur.strip())
    return out
lines = open(sys.argv[1]).read().split("\n")
# functions as line ranges
fns, cur = {}, None
for i, l in enumerate(lines):
    if l.startswith("define "):
        m = re.search(r'@([\w.$]+|"[^"]+")\(', l)
        cur = m.group(1) if m else None
        if cur: fns[cur] = [i, i]
    elif l.startswith("}") and cur: fns[cur][1] = i; cur = None
alias = {f: set() for f in fns}   # pointers to captured volatile variables, per function
for f, (a, b) in fns.items():
    allocas = set(re.findall(r"^\s*(%\S+) = alloca", "\n".join(lines[a:b]), re.M))
    for l in lines[a:b]:
        for R, g in ((LD, 5), (ST, 5)):
            m = R.match(l)
            if m and ((R is LD and m.group(3)) or (R is ST and m.group(2))) and m.group(g) in allocas: alias[f].add(m.group(g))
work = list(fns)
while work:
    f = work.pop(); a, b = fns[f]
    if not alias[f]: continue
    for l in lines[a:b]:
        m = re.search(r"@__kmpc_fork_call\((.*)$", l) if "__kmpc_fork_call(" in l else None
        if m: al = args(m.group(1)); callee, actual = al[2].split()[-1][1:], ["", ""] + [x.split()[-1] for x in al[3:]]
        else:
            m = re.search(r"(?:call|invoke) .*@([\w.$]*omp_outlined[\w.$]*)\((.*)$", l)
            if not m: continue
            callee, actual = m.group(1), [x.split()[-1] for x in args(m.group(2)) if x]
        if callee not in fns: continue
        ca, cb = fns[callee]
        formal = [x.split()[-1] for x in args(lines[ca][lines[ca].index("(") + 1:]) if x] if "(" in lines[ca] else []
        # the argument list is the parenthesis after the function's name
        h = lines[ca]; h = h[h.index("@" + callee) + len(callee) + 2:]
        formal = [x.split()[-1] for x in args(h) if x]
        new = set()
        for k, v in enumerate(actual):
            if v in alias[f] and k < len(formal):
                new.add(formal[k]); slot = None
                for q in lines[ca:cb]:
                    s = re.match(r"^\s*store ptr (%\S+), ptr (%\S+), align", q)
                    if s and s.group(1) == formal[k]: slot = s.group(2)
                    s = re.match(r"^\s*(%\S+) = load ptr, ptr (%\S+), align", q)
                    if s and slot and s.group(2) == slot: new.add(s.group(1))
        if new - alias[callee]: alias[callee] |= new; work.append(callee)
out, n, cur, captured = [], 0, None, 0
starts = {r[0]: f for f, r in fns.items()}
for i, l in enumerate(lines):
    if i in starts: cur = starts[i]
    al = alias.get(cur, ())
    m = LD.match(l)
    if m and m.group(4) in SIZE and (m.group(3) or m.group(5) in al):
        ind, dst, vol, ty, p, align, rest = m.groups(); s = SIZE[ty]
        if int(align) >= s:
            out.append("%s%sload atomic volatile %s, ptr %s monotonic, align %s%s" % (ind, dst, ty, p, align, strip(rest)))
            out.append("%scall void @hv_acq(ptr %s, i32 %d)%s" % (ind, p, s, meta(rest))); n += 1; captured += not vol
            continue
    m = ST.match(l)
    if m and m.group(3) in SIZE and (m.group(2) or m.group(5) in al):
        ind, vol, ty, v, p, align, rest = m.groups(); s = SIZE[ty]
        if int(align) >= s:
            out.append("%scall void @hv_rel(ptr %s, i32 %d)%s" % (ind, p, s, meta(rest)))
            out.append("%sstore atomic volatile %s %s, ptr %s monotonic, align %s%s" % (ind, ty, v, p, align, strip(rest))); n += 1; captured += not vol
            continue
    out.append(l)
if n: out.append("\ndeclare void @hv_acq(ptr, i32)\ndeclare void @hv_rel(ptr, i32)\n")
open(sys.argv[2], "w").write("\n".join(out))
if len(sys.argv) > 3: print(n, "accesses,", captured, "of captured variables")
