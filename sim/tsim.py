#!/usr/bin/env python3
"""Simulator for the structured-specification translator (property T01): tools/StructuredSlugsParser/compiler.py of the
repository runs inside this process, its files and standard output on a simulated device, with a seeded workload and
seeded faults. Same command line as the C++ simulator: campaign ... / replay FILE."""
import sys, os, io, json, random, time, subprocess, hashlib, signal, builtins
sys.dont_write_bytecode = True
REPO = os.environ.get("DST_REPO", "/repo"); TOOL = REPO + "/tools/StructuredSlugsParser"
CPU = 4.0   # seconds of processor time after which a run counts as endless; ordinary runs take milliseconds

# ---------------------------------------------------------------- the simulated world
class Hang(BaseException): pass
class Dev:
    """All outside effects of one simulated process; decides and records every fault."""
    def __init__(s, files, faults): s.files = files; s.faults = [list(f) for f in faults]; s.n = {}; s.fired = []; s.out = b""; s.written = 0; s.limit = None; s.opened = []; s.hard = False
    def decide(s, d):
        k = s.n.get(d, 0); s.n[d] = k + 1
        for f in s.faults:
            if f[0] == d and (f[2] == k or f[2] == -1 or (f[2] == -2 and f[3] > 0 and (k * 2654435761 + f[3]) % 3 == 0)):
                s.fired.append((d, f[1], k)); return f
        return None
class RawIn(io.RawIOBase):
    def __init__(s, dev, data): s.d = dev; s.b = data; s.p = 0
    def readable(s): return True
    def readinto(s, buf):
        f = s.d.decide("read"); n = len(buf)
        if f and f[1] == "eio": s.d.hard = True; raise OSError(5, "Input/output error")
        if f and f[1] == "short": n = min(n, 1 + f[3] % 40)
        c = s.b[s.p:s.p + n]; s.p += len(c); buf[:len(c)] = c; return len(c)
class RawOut(io.RawIOBase):
    def __init__(s, dev): s.d = dev
    def writable(s): return True
    def write(s, buf):
        b = bytes(buf); f = s.d.decide("write"); n = len(b)
        if f and f[1] == "eio": s.d.hard = True; raise OSError(5, "Input/output error")
        if f and f[1] == "enospc": s.d.limit = len(s.d.out) + f[3] % (n + 1)
        if f and f[1] == "short" and n > 1: n = 1 + f[3] % n
        if s.d.limit is not None:
            n = min(n, s.d.limit - len(s.d.out))
            if n <= 0: s.d.hard = True; raise OSError(28, "No space left on device")
        s.d.out += b[:n]; return n

code = {}
def load(path):
    if path not in code:
        d = os.path.dirname(path)
        if d not in sys.path: sys.path.insert(0, d)
        code[path] = compile(open(path).read(), path, "exec")
    return code[path]
def execute(case):
    """One simulated run of a tool. Returns (status, stdout, stderr, dev)."""
    path = REPO + "/tools/" + case.get("tool", "StructuredSlugsParser/compiler.py"); prog = load(path); import resource; pipe = "tool" in case
    dev = Dev({} if pipe else {"s.structuredslugs": case["text"].encode()}, case["faults"])
    def simopen(name, mode="r", *a, **k):
        dev.opened.append((name, mode)); f = dev.decide("open")
        if f and f[1] == "fail": dev.hard = True; raise OSError([2, 13, 24][f[3] % 3], "simulated failure", name)
        if "w" in mode or "a" in mode or "+" in mode: raise OSError(30, "Read-only file system", name)
        if name not in dev.files: raise FileNotFoundError(2, "No such file or directory", name)
        b = io.BufferedReader(RawIn(dev, dev.files[name]), 64 if case.get("smallbuf") else 8192)
        return b if "b" in mode else io.TextIOWrapper(b, encoding="utf-8")
    so, se, argv, rl, op, rec = sys.stdout, sys.stderr, sys.argv, resource.setrlimit, builtins.open, sys.getrecursionlimit()
    out = io.TextIOWrapper(io.BufferedWriter(RawOut(dev), 128 if case.get("smallbuf") else 8192), encoding="utf-8"); err = io.StringIO()
    def onalarm(*a): raise Hang()
    status = 0; si = sys.stdin; sys.stdout, sys.stderr, sys.argv = out, err, [path] + case["args"] + ([] if pipe else ["s.structuredslugs"])
    if pipe: sys.stdin = io.TextIOWrapper(io.BufferedReader(RawIn(dev, case["text"].encode()), 64 if case.get("smallbuf") else 8192), encoding="utf-8")
    resource.setrlimit = lambda *a: None; builtins.open = simopen; olda = signal.signal(signal.SIGVTALRM, onalarm); signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
    try:
        exec(prog, {"__name__": "__main__", "__file__": path, "__builtins__": builtins})
    except SystemExit as x: status = x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
    except Hang: status = "hang"
    except MemoryError: status = 1
    except BaseException as x: status = 1; err.write(type(x).__name__ + ": " + str(x) + "\n")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0); signal.signal(signal.SIGVTALRM, olda); builtins.open = op; resource.setrlimit = rl
        try: out.flush()
        except OSError as x: status = 120 if status == 0 else status; err.write("flushing standard output: " + str(x) + "\n")
        try: out.detach().detach()
        except Exception: pass
        sys.stdin, sys.stdout, sys.stderr, sys.argv = si, so, se, argv; sys.setrecursionlimit(rec)
    return status, dev.out.decode("utf-8", "replace"), err.getvalue(), dev

# ---------------------------------------------------------------- workload
WORDS = ["a", "b", "go", "req", "x1", "door_2", "Xa", "nextt", "F1", "o", "_z", "m.n", "TRUE1", "Uw", "k9", "p", "q", "alarm", "W2", "s__t"]
def gen(seed, tier):
    r = random.Random(seed); names = WORDS[:]; r.shuffle(names); vs = []; bits = 0; lim = r.choice([5, 6, 7, 8, 10]) if tier else r.choice([4, 5, 6, 7, 8])
    for k in range(r.randint(1, 5)):
        if r.random() < 0.6:
            lo = r.choice([0, 0, 0, 1, 2, 3, 5, 7]); w = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15]); nb = w.bit_length()
            if 2 * (bits + nb) > lim * 2: continue
            if r.random() < .02: lo = -r.randrange(1, 5)
            v = dict(name=names[k], lo=lo, hi=lo + w)
        else: nb = 1; v = dict(name=names[k])
        if bits + nb > lim: continue
        bits += nb; v["sec"] = r.choice(["INPUT", "OUTPUT", "INPUT", "OUTPUT", "INPUT", "OUTPUT", "OUTPUT", "CONTROLLABLE_INPUT", "OBSERVABLE_INPUT", "UNOBSERVABLE_INPUT"]); vs.append(v)
    if not vs: vs = [dict(name="a", sec="OUTPUT")]
    used = bits_post = 0
    secs = []
    for s in ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"):
        fs = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])): fs.append(formula(r, vs, r.randint(0, 4), s.endswith("INIT")))
        if r.random() < .02: fs.insert(r.randint(0, len(fs)), bad(r, vs, s.endswith("INIT")))
        secs.append([s, [dict(ast=f, style=r.getrandbits(32)) for f in fs]])
    r.shuffle(secs)
    faults = []
    k = r.randrange(12)
    if k == 0: faults = [["read", "eio", r.randrange(4), 0]]
    elif k == 1: faults = [["read", "short", -1, r.randrange(40)], ["read", "eio", r.randrange(30), 0]][::-1] if r.random() < .5 else [["read", "short", -1, r.randrange(40)]]
    elif k == 2: faults = [["write", "eio", r.randrange(4), 0]]
    elif k == 3: faults = [["write", "enospc", r.randrange(4), r.randrange(9000)]]
    elif k == 4: faults = [["open", "fail", 0, r.randrange(3)]]
    elif k == 5: faults = [["write", "short", -1, r.randrange(9000)]]
    return dict(vars=vs, secs=secs, style=r.getrandbits(32), faults=faults, args=["--thorougly"] if r.random() < .25 else [], smallbuf=r.random() < .5)
def number(r, vs, d, init, scoped):
    nv = [v for v in vs if "lo" in v]
    if d > 0 and r.random() < 0.5: return ["+", number(r, vs, d - 1, init, scoped), number(r, vs, d - 1, init, scoped)]
    if nv and r.random() < 0.75: return ["n", r.choice(nv)["name"], 1 if not init and not scoped and r.random() < .35 else 0]
    return ["k", r.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 20])]
def formula(r, vs, d, init, scoped=False):
    bv = [v for v in vs if "lo" not in v]
    if d > 0 and r.random() < 0.8:
        o = r.choice(["&", "&", "|", "|", "!", "^", "->", "<->", "X" if not init and not scoped else "!"])
        if o == "X": return ["X", formula(r, vs, d - 1, init, True)]
        if o == "!": return ["!", formula(r, vs, d - 1, init, scoped)]
        return [o, formula(r, vs, d - 1, init, scoped), formula(r, vs, d - 1, init, scoped)]
    if any("lo" in v for v in vs) and r.random() < 0.65: return ["c", r.choice(["<", "<=", ">", ">=", "=", "!="]), number(r, vs, r.choice([0, 0, 1, 1, 2]), init, scoped), number(r, vs, r.choice([0, 0, 0, 1, 2]), init, scoped)]
    if bv and r.random() < 0.92: return ["v", r.choice(bv)["name"], 1 if not init and not scoped and r.random() < .35 else 0]
    return ["t", r.randrange(2)]
def bad(r, vs, init):   # conditions outside the supported fragment: they must be rejected
    f = formula(r, vs, 1, init, True); g = formula(r, vs, 1, init, True); q = random.Random(r.getrandbits(32)); a, b = render(f, q, 9), render(g, q, 9); n = (["7"] + [v["name"] for v in vs if "lo" in v])[-1]
    return ["bad", r.choice(["F (%s)" % a, "G (%s)" % a, "<> (%s)" % a, "TRUE & [] (%s)" % a, "(%s) U (%s)" % (a, b), "(%s) W (%s)" % (a, b), "X X (%s)" % a, "%s - 1 = 2" % n, "%s * 2 = 2" % n, "undeclared9", "undeclared9 = 1", "1 + undeclared9' <= 4", "(%s" % a, "%s)" % a, "%s &" % a, "%s %s" % (a, b), "-> %s" % a, "1 < 2 < 3", "(%s) = 1" % a, "%s !" % a])]
PREC = {"<->": 1, "->": 2, "^": 3, "|": 4, "&": 5}
FORMS = {"&": ["&", "&&", "/\\"], "|": ["|", "||", "\\/"], "^": ["^"], "->": ["->", "-->"], "<->": ["<->", "<-->"]}
def render(f, r, ctx=0):
    sp = lambda: r.choice(["", " ", " ", "  "])
    def par(s): return "(" + sp() + s + sp() + ")"
    def num(n):
        if n[0] == "k": t = str(n[1])
        elif n[0] == "n": t = n[1] + ("'" if n[2] else "")
        else: return num1(n[1]) + sp() + "+" + sp() + num(n[2])
        return "(" + t + ")" if r.random() < .08 else t
    def num1(n): return "(" + num(n) + ")" if n[0] == "+" else num(n)
    k = f[0]
    if k == "bad": return f[1]
    if k == "t": s = "TRUE" if f[1] else "FALSE"
    elif k == "v": s = f[1] + ("'" if f[2] else "")
    elif k == "c": s = num(f[2]) + sp() + f[1] + sp() + num(f[3])
    elif k == "!": s = r.choice("!~") + sp() + render(f[1], r, 9)
    elif k == "X":
        o = r.choice(["X", "next", "()"]); s = o + (" " if o != "()" else sp()) + render(f[1], r, 9)
    else:
        p = PREC[k]; l = render(f[1], r, p + (k == "->")); q = render(f[2], r, p + 1); s = l + sp() + r.choice(FORMS[k]) + sp() + q
        if p < ctx or r.random() < .15: return par(s)
        return s
    return par(s) if r.random() < .08 else s
def prefix(f):   # the formula in the target language, for lines that are already translated (no numbers in them)
    k = f[0]
    if k == "t": return str(f[1])
    if k == "v": return f[1] + ("'" if f[2] else "")
    if k == "!": return None if (x := prefix(f[1])) is None else "! " + x
    if k in "&|^": 
        a, b = prefix(f[1]), prefix(f[2]); return None if a is None or b is None else k + " " + a + " " + b
    return None
def text(case):
    r = random.Random(case["style"]); L = []
    if r.random() < .3: L.append("# a comment " + r.choice(["[x", "& |", "'"]))
    order = []; by = {}
    for v in case["vars"]: by.setdefault(v["sec"], []).append(v)
    blocks = []
    for s, vs in by.items():
        B = ["[%s]" % s]
        for v in vs:
            B.append(v["name"] + (r.choice([":", ": ", " : "]) + "%d...%d" % (v["lo"], v["hi"]) if "lo" in v else ""))
            if r.random() < .1: B.append(r.choice(["", "# a variable", "  "]))
        blocks.append(B)
    for s, fs in case["secs"]:
        B = ["[%s]" % s]
        for f in fs:
            q = random.Random(f["style"]); p = prefix(f["ast"]) if q.random() < .25 else None
            line = p if p is not None else render(f["ast"], q)
            B.append(line)
            if r.random() < .1: B.append(r.choice(["", "# a & b", "## x | y", "   "]))
        if fs or r.random() < .7: blocks.append(B)
    if r.random() < .5: r.shuffle(blocks)
    for B in blocks:
        L += B
        if r.random() < .8: L.append("")
    eol = "\r\n" if r.random() < .1 else "\n"
    return eol.join(r.choice(["", "", "", " ", "\t"]) + l + r.choice(["", "", " "]) for l in L) + (eol if r.random() < .85 else "")

# ---------------------------------------------------------------- reference model: truth tables as integers
class T:
    """Truth tables over all bits (current and next values) that occur, as big integers."""
    def __init__(s, bits): s.bits = bits; s.N = 1 << len(bits); s.one = (1 << s.N) - 1; s.var = {}
    def of(s, b):
        if b not in s.var:
            k = s.bits.index(b); w = 1 << k; blk = ((1 << w) - 1) << w; t = 0
            per = 2 * w; t = blk; n = per
            while n < s.N: t |= t << n; n *= 2
            s.var[b] = t
        return s.var[b]
def vbits(v): return [v["name"] + "@" + str(i) + (".%d.%d" % (v["lo"], v["hi"]) if i == 0 else "") for i in range((v["hi"] - v["lo"]).bit_length())]
def values(t, case, v, post, memo):
    """dict: value -> set of assignments (as table) in which the number variable has this value"""
    k = (v["name"], post)
    if k not in memo:
        m = {v["lo"]: t.one}
        for i, b in enumerate(vbits(v)):
            x = t.of(b + ("'" if post else "")); n = {}
            for val, s in m.items():
                n[val] = s & ~x & t.one; n[val + (1 << i)] = s & x
            m = n
        memo[k] = m
    return memo[k]
def mnum(t, case, e, post, memo):
    if e[0] == "k": return {e[1]: t.one}
    if e[0] == "n": return values(t, case, next(v for v in case["vars"] if v["name"] == e[1]), bool(post or e[2]), memo)
    a, b = mnum(t, case, e[1], post, memo), mnum(t, case, e[2], post, memo); o = {}
    for x, s in a.items():
        for y, u in b.items():
            w = s & u
            if w: o[x + y] = o.get(x + y, 0) | w
    return o
CMP = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y, "=": lambda x, y: x == y, "!=": lambda x, y: x != y}
def model(t, case, f, post, memo):
    k = f[0]
    if k == "t": return t.one if f[1] else 0
    if k == "v": return t.of(f[1] + ("'" if post or f[2] else ""))
    if k == "!": return t.one & ~model(t, case, f[1], post, memo)
    if k == "X": return model(t, case, f[1], True, memo)
    if k == "c":
        a, b = mnum(t, case, f[2], post, memo), mnum(t, case, f[3], post, memo); o = 0
        for x, s in a.items():
            for y, u in b.items():
                if CMP[f[1]](x, y): o |= s & u
        return o
    a, b = model(t, case, f[1], post, memo), model(t, case, f[2], post, memo)
    return {"&": a & b, "|": a | b, "^": a ^ b, "->": (t.one & ~a) | b, "<->": t.one & ~(a ^ b)}[k]
class Malformed(Exception): pass
def evalp(t, line, ok):
    """own reader of the target language"""
    tok = line.split(); p = [0]
    def rec(mem):
        if p[0] >= len(tok): raise Malformed("ends early")
        x = tok[p[0]]; p[0] += 1
        if x in ("&", "|", "^"):
            a = rec(mem); b = rec(mem); return a & b if x == "&" else a | b if x == "|" else a ^ b
        if x == "!": return t.one & ~rec(mem)
        if x == "0": return 0
        if x == "1": return t.one
        if x == "$":
            n = int(tok[p[0]]); p[0] += 1; m = []
            if n < 1: raise Malformed("empty buffer")
            for _ in range(n): m.append(rec(m))
            return m[-1]
        if x == "?":
            i = int(tok[p[0]]); p[0] += 1
            if mem is None or i >= len(mem): raise Malformed("? %d out of range" % i)
            return mem[i]
        if x not in ok: raise Malformed("undeclared " + x)
        return t.of(x)
    v = rec(None)
    if p[0] != len(tok): raise Malformed("text after the end")
    return v
def readout(s):
    secs = {}; cur = None
    for l in s.split("\n"):
        l = l.strip()
        if not l or l.startswith("#"): continue
        if l.startswith("["): cur = l; secs.setdefault(l, [])
        else:
            if cur is None: raise Malformed("text before the first section")
            secs[cur].append(l)
    return secs
def compare(case, out):
    """None, or what is wrong with the translation"""
    pre = []; bysec = {}
    for v in case["vars"]:
        bs = vbits(v) if "lo" in v else [v["name"]]; pre += bs; bysec.setdefault("[%s]" % v["sec"], []).extend(bs)
    try: secs = readout(out)
    except Malformed as x: return "malformed-translation", str(x)
    for s in ("INPUT", "OUTPUT", "CONTROLLABLE_INPUT", "OBSERVABLE_INPUT", "UNOBSERVABLE_INPUT"):
        if sorted(secs.get("[%s]" % s, [])) != sorted(bysec.get("[%s]" % s, [])): return "wrong-declarations", "section %s declares %s instead of %s" % (s, secs.get("[%s]" % s, []), bysec.get("[%s]" % s, []))
    allb = pre + [b + "'" for b in pre]; used = set(); alls = set(allb)
    for s, ls in secs.items():
        if "INIT" in s or "TRANS" in s or "LIVENESS" in s:
            for l in ls: used.update(x for x in l.split() if x in alls)
    def refs(f, post):
        if f[0] == "v": used.add(f[1] + ("'" if post or f[2] else ""))
        elif f[0] == "n": used.update(b + ("'" if post or f[2] else "") for b in vbits(next(v for v in case["vars"] if v["name"] == f[1])))
        elif f[0] in ("t", "k"): pass
        else:
            for g in f[1:]:
                if isinstance(g, list): refs(g, post or f[0] == "X")
    for s, fs in case["secs"]:
        for f in fs: refs(f["ast"], False)
    for v in case["vars"]:
        if "lo" in v:
            used.update(vbits(v)); used.update(b + "'" for b in vbits(v))
    bits = [b for b in allb if b in used]
    t = T(bits); memo = {}
    def rng(vs, post):
        o = t.one
        for v in vs:
            if "lo" in v:
                m = values(t, case, v, post, memo); x = 0
                for val, s in m.items():
                    if val <= v["hi"]: x |= s
                o &= x
        return o
    allv = case["vars"]; inr = rng(allv, False); inr2 = inr & rng(allv, True)
    want = {}
    for s, fs in case["secs"]: want["[%s]" % s] = fs
    for s in ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"):
        ls = secs.get("[%s]" % s, []); fs = want.get("[%s]" % s, [])
        try: got = [evalp(t, l, set(bits)) for l in ls]
        except (Malformed, ValueError, IndexError) as x: return "malformed-translation", "section %s: %s\n%s" % (s, x, "\n".join(ls))
        mine = [v for v in allv if (v["sec"] != "OUTPUT") == (s[:3] == "ENV")]
        ref = [model(t, case, f["ast"], False, memo) for f in fs]
        if s.endswith("LIVENESS"):
            if len(got) != len(ref): return "wrong-translation", "section %s has %d conditions instead of %d" % (s, len(got), len(ref))
            for f, g, w in zip(fs, got, ref):
                if (g ^ w) & inr2: return "wrong-translation", "section %s: %s\n%s" % (s, line(f), explain(case, t, g, w, inr2))
        else:
            init = s.endswith("INIT"); g = w = t.one
            for x in got: g &= x
            for x in ref: w &= x
            own = rng(mine, not init); w &= own
            care = t.one if init else inr
            if init:   # conditions on the initial values of the other side hold within its range
                care = rng([v for v in allv if v not in mine], False)
            else: care &= rng([v for v in allv if v not in mine], True)
            # out-of-range values of the own side only matter in so far as they are excluded
            if (g ^ w) & care & own: return "wrong-translation", "section %s: allows other values than the structured conditions\n%s\n%s" % (s, "\n".join(line(f) for f in fs), explain(case, t, g, w, care & own))
            if g & ~own & care & t.one: return "range-not-enforced", "section %s admits a value outside the declared range\n%s" % (s, explain(case, t, g, w, care & ~own))
            if not init and case["args"] and s[:3]: 
                o = rng(mine, False); c2 = rng([v for v in allv if v not in mine], False)
                if g & ~o & c2 & t.one: return "range-not-enforced", "section %s does not restrict the current values although that was requested" % s
    return None
def line(f):
    q = random.Random(f["style"]); p = prefix(f["ast"]) if q.random() < .25 else None
    return p if p is not None else render(f["ast"], q)
def explain(case, t, g, w, care):
    d = (g ^ w) & care
    if not d: d = g & care & ~w
    i = (d & -d).bit_length() - 1; s = []
    for v in case["vars"]:
        for post in (0, 1):
            if "lo" in v: s.append("%s%s=%d" % (v["name"], "'" * post, v["lo"] + sum(1 << k for k, b in enumerate(vbits(v)) if b + "'" * post in t.bits and i >> t.bits.index(b + "'" * post) & 1)))
            elif v["name"] + "'" * post in t.bits: s.append("%s%s=%d" % (v["name"], "'" * post, i >> t.bits.index(v["name"] + "'" * post) & 1))
    return "at %s the translation is %d" % (" ".join(s), g >> i & 1)
def judge(case):
    """(class or None, message, digest, dev)"""
    case = dict(case); case["text"] = text(case); st, out, err, dev = execute(case)
    dig = hashlib.sha256(repr((st, out, err.replace(REPO, "")[:400], dev.fired)).encode()).hexdigest()[:16]
    hard = dev.hard; wrong = any(f["ast"][0] == "bad" for _, fs in case["secs"] for f in fs); neg = any(v.get("lo", 0) < 0 for v in case["vars"]); info = "\narguments %s\nspecification:\n%s\noutput:\n%s\n%s" % (case["args"], case["text"], out[:1500], err[-600:])
    r = None
    if st == "hang": r = ("hang", "the translator does not end" + info)
    elif st == 0 and hard: r = ("silent-failure", "exit status 0 although an operation failed: %s" % (dev.fired[:3],) + info)
    elif st == 0 and wrong: r = ("accepted", "a specification outside the supported fragment is translated" + info)
    elif st == 0:
        x = compare(case, out)
        if x: r = (x[0], x[1] + info)
    elif not hard and not wrong and not neg: r = ("rejected", "a documented specification is rejected with status %s" % st + info)
    elif not err: r = ("no-message", "failed without a message" + info)
    return r, dig, dev

# ---------------------------------------------------------------- T02: tools for printed strategies
def gen2(seed, tier):
    r = random.Random(seed); names = WORDS[:]; r.shuffle(names); groups = []; ps = []
    for k in range(r.randint(1, 5)):
        if r.random() < .5: lo = r.choice([0, 0, 1, 2, 5, 7, 10, 99, -3]); w = r.choice([1, 1, 2, 3, 3, 4, 6, 7, 8, 12, 15, 31, 100, 1000]); groups.append([names[k], lo, lo + w])
        else: groups.append([names[k]])
    ns = r.choice([0, 1, 1, 2, 3, 4, 6, 9, 14, 30]); states = []
    for i in range(ns): states.append(dict(rank=r.choice(["0", "1", "7", "12"]), bits=r.getrandbits(80), succ=sorted(r.sample(range(ns), r.choice([0, 1, 1, 2, 3]) % (ns + 1))) if ns else []))
    faults = []; k = r.randrange(10)
    if k == 0: faults = [["read", "eio", r.randrange(6), 0]]
    elif k == 1: faults = [["read", "short", -1, r.randrange(40)]]
    elif k == 2: faults = [["write", "eio", r.randrange(4), 0]]
    elif k == 3: faults = [["write", "enospc", r.randrange(4), r.randrange(9000)]]
    elif k == 4: faults = [["write", "short", -1, r.randrange(9000)]]
    elif k == 5: faults = [["read", "short", -1, r.randrange(40)], ["read", "eio", r.randrange(30), 0]][::-1]
    return dict(groups=groups, states=states, tool=r.choice(["explicitImplementationIntegerDecoder.py", "explicitStrategyToGraphviz.py"]), split=r.random() < .2, perm=r.getrandbits(32), eol=r.random() < .9, noise=r.random() < .25, faults=faults, args=[], smallbuf=r.random() < .5)
def bits2(case):
    """proposition names in printed order, as (name, group index or None, bit)"""
    o = []
    for g in case["groups"]:
        if len(g) == 1: o.append((g[0], None, 0))
        else: o += [(g[0] + "@" + ("0.%d.%d" % (g[1], g[2]) if i == 0 else str(i)), g, i) for i in range((g[2] - g[1]).bit_length())]
    if case["split"]: random.Random(case["perm"]).shuffle(o)     # bits of a number need not be neighbours
    return o
def text2(case):
    ps = bits2(case); o = []; r = random.Random(case["perm"] + 1)
    if case["noise"]: o.append(r.choice(["RESULT: Specification is realizable.", "", "# a < b", "a > b", "no brackets here"]))
    for i, s in enumerate(case["states"]):
        o.append("State %d with rank %s -> <%s>" % (i, s["rank"], ", ".join("%s:%d" % (p[0], s["bits"] >> k & 1) for k, p in enumerate(ps)))); o.append("\tWith successors : " + ", ".join(map(str, s["succ"])))
    return "\n".join(o) + ("\n" if o and case["eol"] else "")
def judge2(case):
    case = dict(case); case["text"] = text2(case); st, out, err, dev = execute(case); ps = bits2(case)
    dig = hashlib.sha256(repr((st, out, err.replace(REPO, "")[:400], dev.fired)).encode()).hexdigest()[:16]; info = "\n%s, input:\n%s\noutput:\n%s\n%s" % (case["tool"], case["text"][:1500], out[:1500], err[-400:]); r = None
    if st == "hang": r = ("hang", "the tool does not end" + info)
    elif st == 0 and dev.hard: r = ("silent-failure", "exit status 0 although an operation failed: %s" % (dev.fired[:3],) + info)
    elif st != 0 and not dev.hard: r = ("rejected", "a printed strategy is rejected with status %s" % st + info)
    elif st != 0: r = None if err else ("no-message", "failed without a message" + info)
    elif "Decoder" in case["tool"]:
        lines = case["text"].split("\n"); n = 0
        for i, l in enumerate(lines):
            if l.startswith("State"):
                s = case["states"][n]; n += 1; c = []
                for k, (nm, g, b) in enumerate(ps):
                    if g is None: c.append("%s:%d" % (nm, s["bits"] >> k & 1))
                    elif b == 0: c.append("%s=%d" % (g[0], g[1] + sum((s["bits"] >> j & 1) << q[2] for j, q in enumerate(ps) if q[1] is g)))
                lines[i] = l[:l.index("<") + 1] + ", ".join(c) + ">"
        if out != "\n".join(lines): r = ("wrong-decoding", "the decoded text is not\n" + "\n".join(lines)[:1500] + info)
    elif not case["states"]:
        if "Empty implementation" not in out: r = ("wrong-graph", "no empty graph for an empty strategy" + info)
    else:
        want = ["digraph {", 'node [shape=tab] "%s";' % ",".join(p[0] for p in ps), "}"]
        for i, s in enumerate(case["states"]):
            want.append('"%d" [shape=box,label="%s/%s"];' % (i, "".join(str(s["bits"] >> k & 1) for k in range(len(ps))), s["rank"])); want += ['"%d" -> "%d";' % (i, t) for t in s["succ"]]
        got = out.rstrip("\n").split("\n")
        if got[0] != "digraph {" or got[-1] != "}" or sorted(got) != sorted(want): r = ("wrong-graph", "the graph is not made of\n" + "\n".join(want)[:1500] + info)
    return r, dig, dev
def minimise2(case, cls, budget):
    end = time.time() + budget; ch = True
    def still(c):
        if time.time() > end: return False
        r, _, _ = judge2(c); return bool(r) and r[0] == cls
    cp = lambda c: json.loads(json.dumps(c))
    while ch and time.time() < end:
        ch = False; cand = []
        for i in range(len(case["states"]) - 1, -1, -1):
            c = cp(case); del c["states"][i]
            for s in c["states"]: s["succ"] = [t - (t > i) for t in s["succ"] if t != i]
            cand.append(c)
        for i in range(len(case["groups"]) - 1, -1, -1):
            if len(case["groups"]) > 1: c = cp(case); del c["groups"][i]; cand.append(c)
        for i in range(len(case["faults"])): c = cp(case); del c["faults"][i]; cand.append(c)
        for i, s in enumerate(case["states"]):
            for t in s["succ"]: c = cp(case); c["states"][i]["succ"].remove(t); cand.append(c)
            if s["bits"]: c = cp(case); c["states"][i]["bits"] = 0; cand.append(c)
        for k, z in (("split", False), ("noise", False), ("smallbuf", False), ("eol", True)):
            if case[k] != z: c = cp(case); c[k] = z; cand.append(c)
        for c in cand:
            if still(c): case = c; ch = True; break
    return case
TEXT2 = dict(rule="Each run generates a strategy in the format that slugs prints, with Boolean propositions and encoded numbers, and pipes it through one of the two tools inside the simulator; the output is compared with an own decoding and an own list of nodes and edges. Reads and writes fail, are short or meet a full disk at seeded points.",
      real="tools/explicitImplementationIntegerDecoder.py and tools/explicitStrategyToGraphviz.py, from /repo, and Python's own buffered and text I/O layers", stub="standard input and output (simulated)")

# ---------------------------------------------------------------- campaign, minimisation, replay
def minimise(case, cls, budget):
    end = time.time() + budget
    def still(c):
        if time.time() > end: return False
        r, _, _ = judge(c); return bool(r) and r[0] == cls
    def subs(f):
        o = [x for x in f[1:] if isinstance(x, list) and x[0] in ("t", "v", "c", "!", "X", "&", "|", "^", "->", "<->")] + [["t", 1], ["t", 0]]
        for i, x in enumerate(f):
            if i and isinstance(x, list):
                if x[0] in ("+",): o += [f[:i] + [x[1]] + f[i + 1:], f[:i] + [x[2]] + f[i + 1:]]
                elif x[0] in ("k", "n"): 
                    if x != ["k", 0]: o.append(f[:i] + [["k", 0]] + f[i + 1:])
                else: o += [f[:i] + [y] + f[i + 1:] for y in subs(x)]
        return o
    cp = lambda c: json.loads(json.dumps(c)); ch = True
    while ch and time.time() < end:
        ch = False
        for i in range(len(case["secs"])):
            for j in range(len(case["secs"][i][1]) - 1, -1, -1):
                c = cp(case); del c["secs"][i][1][j]
                if still(c): case = c; ch = True
        for i in range(len(case["faults"]) - 1, -1, -1):
            c = cp(case); del c["faults"][i]
            if still(c): case = c; ch = True
        for k, z in (("args", []), ("smallbuf", False), ("style", 0)):
            if case[k] != z:
                c = cp(case); c[k] = z
                if still(c): case = c; ch = True
        names = json.dumps(case["secs"])
        for i in range(len(case["vars"]) - 1, -1, -1):
            if '"%s"' % case["vars"][i]["name"] not in names and len(case["vars"]) > 1:
                c = cp(case); del c["vars"][i]
                if still(c): case = c; ch = True
        for i in range(len(case["secs"])):
            for j in range(len(case["secs"][i][1])):
                go = True
                while go:
                    go = False
                    for s in subs(case["secs"][i][1][j]["ast"]):
                        if len(json.dumps(s)) >= len(json.dumps(case["secs"][i][1][j]["ast"])): continue
                        c = cp(case); c["secs"][i][1][j]["ast"] = s
                        if still(c): case = c; ch = go = True; break
    return case
def mix(a, b): return int.from_bytes(hashlib.sha256(b"%d/%d" % (a, b)).digest()[:8], "big")
TEXT1 = dict(rule="Each run generates a structured specification (Boolean and number variables, nested conditions with every documented operator), runs the translator on it inside the simulator, reads the printed specification with an own parser and compares every condition with the structured one on all pairs of positions. Reads, opens and writes fail, are short or meet a full disk at seeded points; workers use different seeds for the interpreter's hashes.",
      real="tools/StructuredSlugsParser (compiler and generated parser), from /repo, and Python's own buffered and text I/O layers", stub="raw files and standard output, resource limits (simulated)")
def tally1(case, cnt):
    n = sum(len(fs) for _, fs in case["secs"]); cnt["conditions translated"] = cnt.get("conditions translated", 0) + n
    for v in case["vars"]:
        if "lo" in v: cnt["number variables"] = cnt.get("number variables", 0) + 1
    return n > 0, n > 2 and text(case)[:400]
def tally2(case, cnt):
    cnt["states converted"] = cnt.get("states converted", 0) + len(case["states"]); k = "runs of " + case["tool"]; cnt[k] = cnt.get(k, 0) + 1; return len(case["states"]) > 0, len(case["states"]) > 1 and text2(case)[:400]
PROPS = {"T01": (gen, judge, minimise, tally1, TEXT1), "T02": (gen2, judge2, minimise2, tally2, TEXT2)}
def worker(a, w, jobs):
    gen, judge, minimise, tally, _ = PROPS[a["--prop"]]
    end = time.time() + float(a["--budget"]); seed = int(a["--seed"]); i = w; st = dict(runs=0, det=0, detbad=0, nontrivial=0, execs=0); fired = {}; cnt = {}; vio = []; dg = 0; states = set(); inter = set(); samples = []; seen = set()
    while time.time() < end and i < int(a["--runs"]):
        s = mix(seed, i); case = gen(s, int(a["--tier"])); r, d, dev = judge(case); st["runs"] += 1; st["execs"] += 1
        if (i // jobs) % 64 == 0:
            r2, d2, _ = judge(case); st["det"] += 1; st["execs"] += 1
            if d2 != d: st["detbad"] += 1
        dg = (dg + int(d, 16)) & ((1 << 64) - 1)
        for f in dev.fired: k = f[0] + " " + f[1]; fired[k] = fired.get(k, 0) + 1
        nt, sample = tally(case, cnt)
        if nt or dev.fired: st["nontrivial"] += 1; states.add(int(d, 16))
        inter.add(hash((d, tuple(map(tuple, dev.fired)))))
        if len(samples) < 1 and sample: samples.append("run %d: %s" % (i, sample))
        if r and r[0] not in seen:
            seen.add(r[0]); m = minimise(case, r[0], float(a["--min"])); rr, dd, _ = judge(m)
            if rr is None or rr[0] != r[0]: m = case; rr = r
            f = "%s.viol%d-%d" % (a["--out"], w, len(vio)); json.dump(dict(format="slugs-dst-python-replay", prop=a["--prop"], seed=s, hashseed=os.environ.get("PYTHONHASHSEED", "0"), case=m, cls=rr[0], msg=rr[1].split("\n")), open(f, "w"), indent=1)
            vio.append({"class": rr[0], "run": i, "seed": s, "msg": rr[1], "file": f})
        i += jobs
    json.dump(dict(stat=st, fired=fired, counters=cnt, violations=vio, digest=dg, states=list(states), inter=list(inter), samples=samples), open("%s.w%d" % (a["--out"], w), "w"))
def main():
    if sys.argv[1] == "replay":
        c = json.load(open(sys.argv[2]))
        if os.environ.get("PYTHONHASHSEED") != c["hashseed"]: os.execve(sys.executable, [sys.executable] + sys.argv, {**os.environ, "PYTHONHASHSEED": c["hashseed"]})
        r, d, dev = PROPS[c["prop"]][1](c["case"]); print("class=%s digest=%s" % (r[0] if r else "none", d))
        if r: print(r[1])
        return 1 if r else 0
    a = dict(zip(sys.argv[2::2], sys.argv[3::2])); jobs = int(a.get("--jobs", 8)); a.setdefault("--runs", "100000000"); a.setdefault("--tier", "0"); a.setdefault("--min", "20"); a.setdefault("--prop", "T01")
    if "--worker" in a: worker(a, int(a["--worker"]), jobs); return 0
    t0 = time.time(); ps = []
    for w in range(jobs): ps.append(subprocess.Popen([sys.executable] + sys.argv + ["--worker", str(w), "--jobs", str(jobs)], env={**os.environ, "PYTHONHASHSEED": str(mix(int(a["--seed"]), 1000000 + w) % 4294967296)}))
    lost = any([p.wait() for p in ps]); R = dict(stat={}, fired={}, counters={}, violations=[], digest=0, samples=[]); S = set(); I = set()
    for w in range(jobs):
        f = "%s.w%d" % (a["--out"], w)
        if not os.path.exists(f): lost = True; continue
        d = json.load(open(f)); os.remove(f)
        for k in ("stat", "fired", "counters"):
            for x, y in d[k].items(): R[k][x] = R[k].get(x, 0) + y
        R["violations"] += d["violations"]; R["digest"] = (R["digest"] + d["digest"]) % (1 << 64); R["samples"] += d["samples"]; S.update(d["states"]); I.update(d["inter"])
    V = {}
    for v in sorted(R["violations"], key=lambda v: v["run"]): V.setdefault(v["class"], v)
    R.update(violations=list(V.values()), digest=str(R["digest"]), states=len(S), interleavings=len(I), nondet=R["stat"].get("detbad", 0), lost=bool(lost), wall=time.time() - t0, coverage_blocks=0, prop=a["--prop"], seed=int(a["--seed"]),
      **PROPS[a["--prop"]][4])
    json.dump(R, open(a["--out"], "w")); return 1 if R["violations"] else 0
if __name__ == "__main__": sys.exit(main())
