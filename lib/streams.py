"""Contents of lines: items of every type around the size limit, prefixes, front ends. Judged by FnStreamTrace."""
import random, struct
from fractions import Fraction
import conf, fnlib
from conf import dev, chan, lgr
from fnlib import pct, LOGSZ
from files import TZS, MOMENTS

def limbs(v, n=4):
    return [(v >> (16 * (n - 1 - i))) & 0xffff for i in range(n)]

def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]

def real(x):
    """The item of a floating point value."""
    neg = 1 if x < 0 else 0
    if x != x: return ["f", "nan"]
    if x in (float("inf"), float("-inf")): return ["f", "inf", neg]
    a = abs(x)
    if a < 2.2250738585072014e-308: return ["f", "zero"]
    if a < 0.0001 and a > 0.0000001:
        return ["f", "tiny", neg, limbs(0), limbs(int(Fraction(a) * (1 << 80)), 5)]
    if a < 0.0001 or a > float(0xFFFFFFFFFFFFFFF):
        return ["t", "%.16g" % x]
    i = int(a)
    return ["f", "norm", neg, limbs(i), limbs(int((Fraction(a) - i) * (1 << 80)), 5)]

def integer(v):
    return ["i", 1 if v < 0 else 0, limbs(abs(v))]

RANGE = {"n": (-(1 << 63) + 1, (1 << 63) - 1), "u": (0, (1 << 64) - 1), "i": (-(1 << 31), (1 << 31) - 1), "h": (-(1 << 15), (1 << 15) - 1), "B": (0, 255),
         "j": (0, (1 << 32) - 1), "H": (0, 65535), "y": (-(1 << 63) + 1, (1 << 63) - 1), "Y": (0, (1 << 64) - 1)}

def rint(rng, k):
    lo, hi = RANGE[k]
    r = rng.random()
    if r < 0.2: v = rng.choice([lo, hi, lo + 1, hi - 1, 0, -1, 1])
    elif r < 0.5: v = rng.choice([1, -1]) * (10 ** rng.randrange(0, 20) + rng.choice([-1, 0, 1]))
    elif r < 0.7: v = rng.choice([1, -1]) * ((1 << rng.randrange(0, 64)) + rng.choice([-1, 0, 1]))
    else: v = rng.choice([1, -1]) * rng.getrandbits(rng.randrange(1, 65))
    return v if lo <= v <= hi else v % 100

def rreal(rng):
    r = rng.random()
    if r < 0.3: v = rng.randrange(0, 1000000) / 10 ** rng.randrange(0, 9)
    elif r < 0.5: v = rng.randrange(0, 1 << 60) / (1 << rng.randrange(0, 60))
    elif r < 0.6: v = rng.random() * 10 ** rng.uniform(-7.5, -3.5)
    elif r < 0.7: v = rng.randrange(0, 100) + rng.choice([0.0001, 0.001, 0.01, 0.1, 0.05, 0.005, 0.0005, 0.9999, 0.99, 0.999, 0.0009, 0.25, 0.5, 0.101, 0.0101, 0.99999])
    elif r < 0.8: v = 10.0 ** rng.randrange(-20, 30)
    elif r < 0.9: v = struct.unpack("d", struct.pack("Q", rng.getrandbits(64)))[0]
    else: v = rng.choice([0.0, float("inf"), float("nan"), 1e-300, 5e-324, 1.0, 2.3, 0.3, 1152921504606846976.0, 1152921504606847232.0, 9007199254740993.0, 0.0001, 0.00009999, 1e-7])
    return -v if rng.random() < 0.4 else v

CH = [chr(c) for c in range(33, 127)]
def text(rng, n, kind=None):
    kind = kind or rng.choice("aaabcd")
    if kind == "a": return "".join(rng.choice(CH) for _ in range(n))
    if kind == "b": return "".join(chr(rng.randrange(1, 256)) for _ in range(n))
    if kind == "c": return "".join(chr(rng.randrange(0, 256)) for _ in range(n))
    return "".join(rng.choice("%sd\n\t \\\"0n") for _ in range(n))

def item(rng, numbers=0.5):
    """(command, item or None)"""
    if rng.random() < numbers:
        k = rng.choice("nuihBjHyYdddgbpPKW")
        if k in RANGE:
            v = rint(rng, k)
            return "%s:%d" % (k, v), integer(v)
        if k == "W":
            f = rng.choice("lUNVdDxXbB")
            w = rng.choice([0, 1, 2, 3, 5, 8, 11, 16, 20, 24] + [64] * (f in "xXbB"))
            v = rint(rng, {"l": "n", "N": "i", "V": "j", "d": "n", "X": "n", "B": "n"}.get(f, "u"))
            if rng.random() < 0.3: v %= 1000
            c = "W:%s%d.%d" % (f, w, v)
            if f in "lUNV": return c, ["w", w, 1 if v < 0 else 0, limbs(abs(v))]
            if f in "dD": return c, ["W", "d", w, 1 if v < 0 else 0, limbs(abs(v))]
            return c, ["W", f.lower(), w, 0, limbs(v % (1 << 64))]
        if k == "d":
            v = rreal(rng)
            return "d:" + pct(repr(v).replace("+", "")), real(v)
        if k == "g":
            v = rreal(rng)
            try:
                v = f32(v)
            except OverflowError:
                v = 1.5
            return "g:" + pct(repr(v).replace("+", "")), real(v)
        if k == "b":
            v = rng.random() < 0.5
            return "b:%d" % v, ["s", "true" if v else "false"]
        if k == "p": return "p", ["p", limbs(0)]
        if k == "P":
            v = rng.choice([0, 1, 15, 16, 255, 256, (1 << 64) - 1, rng.getrandbits(rng.randrange(1, 65)), rng.getrandbits(48)])
            return "P:%x" % v, ["p", limbs(v)]
        v = f32(rng.choice([0.0, 0.0000005, -1.0, 1.0, 0.5, rng.random(), rng.random() * 0.001, rng.randrange(0, 100000) / 7]))
        return "K:" + pct(repr(v)), ["K", "zero"] if v < 0.000001 else ["K"] + real(v * 100.0)[1:]
    k = rng.choice("szcwsrrNXvVlmtqOQLADTo")
    r = rng.random()
    n = rng.randrange(0, 12) if r < 0.5 else rng.randrange(0, 80) if r < 0.8 else rng.randrange(0, 700)
    if k in "sw":
        t = text(rng, n)
        return "%s:%s" % (k, pct(t)), ["s", t]
    if k == "z":
        t = text(rng, n).replace("\0", "")
        return "z:" + pct(t), ["s", t]
    if k == "c":
        t = chr(rng.randrange(0, 256))
        return "c:" + pct(t), ["s", t]
    if k == "r": return "r:%d" % n, ["s", "x" * n]
    if k == "N": return "N", ["s", "null"]
    if k == "X":
        n = rng.choice([0, 1, 5, 31, 32, 33, 64, 70])
        t = text(rng, n, rng.choice("abc"))
        return "X:" + pct(t), ["X", [ord(c) for c in t], None]
    if k == "A": return rng.choice([("A", ["A", 40]), ("a", ["A", 200])])
    if k in "DT":
        if rng.random() < 0.2:
            s = rng.randrange(-86400 * 300, 86400 * 3)
        else:
            s = rng.choice(MOMENTS + [86400 * rng.randrange(1, 2900000), 951782399, 4102444800 + rng.randrange(0, 200000)]) + rng.randrange(-90000, 90000)
        ms = rng.choice([0, 1, 9, 10, 99, 100, 999, rng.randrange(0, 1000)])
        it = ["D", s // 86400, s % 86400, ms, None]
        if k == "T" and s >= 0: return "T:%d" % (s * 1000 + ms), it
        if rng.random() < 0.1: return "D:%d.%d" % (s, rng.randrange(1000, 5000)), it[:3] + [999, None]
        return "D:%d.%d" % (s, ms), it
    if k == "o":
        t = text(rng, rng.randrange(0, 20)).replace("\0", "")
        return "o:" + pct(t), ["<", integer(1), ["s", t]]
    m = rng.choice([0, 1, 2, 4, 5, 6, 7, 12])
    if k in "OQ": m = min(m, 1)
    xs = [rng.randrange(-1000, 1000) for _ in range(m)]
    if k in "mtOQ": xs = sorted(set(xs))
    m = len(xs)
    if k == "V":
        fs = [rng.randrange(0, 4000) / 16 for _ in range(m)]
        return "V:" + pct(",".join(map(repr, fs))), ["c", "vector:", limbs(m), [real(x) for x in fs[:6]]]
    if k == "l":
        ts = [text(rng, rng.randrange(1, 9), "a").replace(",", ".") for _ in range(m)]
        return "l:" + pct(",".join(ts)), ["c", "list:", limbs(m), [["s", x] for x in ts[:6]]]
    if k == "L":
        xs = [rng.randrange(0, 8) for _ in range(m)]
        return "L:" + pct(",".join(map(str, xs))), ["c", "vector:", limbs(m), [["c", "vector:", limbs(x), [integer(5)] * min(x, 6)] for x in xs[:6]]]
    name = {"v": "vector:", "t": "set:", "q": "deque:", "m": "map:", "O": "unordered_map:", "Q": "unordered_set:"}[k]
    el = [["<", integer(x), ["s", "v%d" % x]] if k == "m" else ["<", integer(x), integer(7)] if k == "O" else integer(x) for x in xs[:6]]
    return "%s:%s" % (k, pct(",".join(map(str, xs)))), ["c", name, limbs(m), el]

class SScn:
    def __init__(self, sid, rng):
        self.sid, self.rng = sid, rng
        self.tz, self.off = rng.choice(TZS)
        self.opts = {"ps": 1, "tz": self.tz, "t0": rng.choice(MOMENTS)}
        self.l = 0
        self.cmds, self.exp = [], []     # exp: what every recorded SO/SF event is
        self.n = 0
        self.nat = {}                     # handle -> statement number
        self.evs = []                     # trace in terms of the scenario; placeholders are filled from the record
        self.prof = ""
        self.lane, self.ch = 1, 0         # statements of a lane appear in their order
        self.files = {"": [1]}            # file name begins with -> its lanes
    def start(self, name=None, desc=None, deflog=False, sync=False, path="log", file="s"):
        self.L = 7 if deflog else 0
        if deflog: self.opts["deflogger"] = 1
        self.name, self.desc = name or "fnh", desc or ""      # a logger without name is called like the process
        l = lgr([chan([dev("file", path=path, file=file)], sync)], name=name, desc=desc)
        self.blob = conf.render(l)
        self.cmds = ["new %d" % self.L, "parse %d c" % self.L]
    def prefix(self, flags, pri, file, line, func):
        return {"flags": flags, "pri": pri, "file": file, "line": limbs(line), "func": func, "name": self.name, "desc": self.desc, "off": self.off, "tid": None}
    def open(self, h, pri=2, flags=0, line=77, file="a/b/c/d/file.cpp", func="func"):
        self.cmds.append("sopen %d %d %d %d %d %d %s %s" % (h, self.L, self.ch, pri, flags, line, pct(file) or "-", pct(func) or "-"))
        self.n += 1
        self.nat[h] = self.n
        self.evs.append(["O", self.prefix(flags, pri, file, line, func), None, self.lane])
    def put(self, h, its):
        for c, it in its:
            self.cmds.append("sput %d %s" % (h, c))
            if it: self.evs.append(["P", self.nat[h], it])
    def close(self, h):
        self.cmds.append("sclose %d" % h)
        self.evs.append(["C", self.nat.pop(h)])
    def end(self):
        self.cmds += ["idle 500000", "stop %d" % self.L, "dump log"]
        return self
    def text(self):
        o = ["S %s" % self.sid] + ["o %s %s" % kv for kv in self.opts.items()] + ["b c " + pct(self.blob), "P", "T"] + self.cmds + ["E"]
        return "\n".join(o) + "\n"
    def order(self, opens):
        return opens
    def trace(self, rec):
        opens = self.order([e for e in rec["ev"] if e["e"] in ("SO", "SF")])
        addrs = [int(e["a"]) for e in rec["ev"] if e["e"] == "AD"]
        pid = int([e for e in rec["ev"] if e["e"] == "PS"][0]["pid"])
        ev, io, ia = [], 0, 0
        dead = [e for e in rec["ev"] if e["e"] == "END" and e["why"] != "ok"]
        for x in self.evs:
            if x[0] == "O":
                if io >= len(opens): break
                e = opens[io]
                io += 1
                p = dict(x[1], tid=limbs(pid + max(0, e["dt"])))
                if e["e"] == "SF":
                    p.update(file=e["file"], func=e["func"], line=limbs(e["line"]))
                ts = [[ms // 86400000, ms // 1000 % 86400, ms % 1000] for ms in e["t"]]
                ev.append(["O", p, ts, x[3]])
            elif x[0] == "P" and x[2][0] == "X":
                if ia >= len(addrs): break
                ev.append(["P", x[1], ["X", x[2][1], limbs(addrs[ia])]])
                ia += 1
            elif x[0] == "P" and x[2][0] == "D":
                ev.append(["P", x[1], x[2][:4] + [self.off]])
            else:
                ev.append(x)
        fs = [e for e in rec["ev"] if e["e"] == "D"]
        if dead or not fs:
            ev.append(["BROKEN", (dead or [{"why": ""}])[0]["why"]])
        else:
            for n in sorted(self.files):
                ev.append(["D", "".join(f[1] for f in fs[-1]["files"] if f[0].startswith(n)), self.files[n]])
        return {"id": rec["id"], "ev": ev}, self.rng.random()

def fill(rng, s, h, used=0, numbers=0.5):
    """Items of one statement, often around the limit."""
    n = rng.choice([0, 1, 2, 3, 4, 6, 9])
    its = []
    reals = 0
    if rng.random() < 0.5:
        k = LOGSZ - used - rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 29, 30, 31, 32, 38, 39, 40, 41, 42, 45, 60, 80, 100, 200])
        if k > 0:
            its.append(("r:%d" % k, ["s", "x" * k]))
    for _ in range(n):
        c, it = item(rng, numbers)
        if it[0] in "fK" or "V" in c[:1]:
            reals += 1
            if reals > 3: continue
        its.append((c, it))
    if rng.random() < 0.1:
        its.insert(rng.randrange(0, len(its) + 1), ("M", None))
    return its

def content(rng, sid):
    """C16: several statements, interleaved on neighbouring places of the queue."""
    s = SScn(sid, rng)
    s.start(sync=rng.random() < 0.2)
    left = rng.randrange(4, 10)
    todo = {}
    sync = "sync: sync" in s.blob
    while left or todo:
        if left and len(todo) < (1 if sync else 4) and (not todo or rng.random() < 0.5):
            h = min(x for x in range(1, 9) if x not in todo)
            s.open(h)
            todo[h] = fill(rng, s, h)
            left -= 1
        else:
            h = rng.choice(sorted(todo))
            if todo[h]:
                s.put(h, [todo[h].pop(0)])
            else:
                s.close(h)
                del todo[h]
                if rng.random() < 0.3 and not todo: s.cmds.append("idle 50000")
    return s.end()

FE = {0: (2, "s"), 1: (2, "s"), 2: (2, "s"), 3: (2, "s"), 8: (0, "s"), 9: (1, "s"), 10: (3, "s"), 11: (4, "s"), 12: (5, "s"), 13: (6, "s"), 14: (0, "s"), 15: (1, "s"),
      16: (3, "s"), 17: (4, "s"), 18: (5, "s"), 19: (6, "s"), 20: (0, "s"), 21: (1, "s"), 22: (3, "s"), 23: (4, "s"), 24: (5, "s"), 25: (6, "s"), 26: (0, "s"), 27: (1, "s"),
      28: (3, "s"), 29: (4, "s"), 30: (5, "s"), 31: (6, "s"), 35: (2, "s"), 36: (3, "s"), 37: (5, "s"), 39: (4, "s")}
def fe(rng, sid):
    """C16, C20: the front ends of the default logger."""
    s = SScn(sid, rng)
    s.start(deflog=True, sync=rng.random() < 0.5)
    for _ in range(rng.randrange(4, 12)):
        k = rng.randrange(0, 40)
        r = rng.random()
        n = rng.randrange(0, 60) if r < 0.6 else rng.randrange(500, 700) if r < 0.9 else 3000
        t = text(rng, n).replace("\0", "") if rng.random() < 0.7 else "y" * n
        S = lambda x: ["s", x]
        flags = 0x63
        its = [S(t)]
        if k in FE: pri = FE[k][0]
        elif k in (4, 5): pri, flags = 2, 0
        elif k == 6: pri, flags, its = 2, 0, [S(t), integer(1), S("c")]
        elif k == 7: pri, flags, its = 2, 0, [S(t + "12345")]
        elif k == 32: pri, its = 2, [S("-77|" + t + "| 3.14|q")]
        elif k == 33: pri, its = 2, [S(t), S("|"), integer(12345), S("|"), S("true"), S("|"), S("null")]
        elif k == 34: pri, its = 2, [S(t), integer(42), S("."), integer(-1)]
        elif k == 38: pri, its = 6, [S(t), integer(1)]
        s.cmds.append("fe %d 0 0 0 %s" % (k, pct(t) or "%20"))
        if not t and its[0][1] != t:
            pass
        if not t: its = [["s", " "]] + its[1:] if its[0][1] == "" else [["s", its[0][1].replace("||", "| |") if k == 32 else " " + its[0][1]]] + its[1:]
        s.n += 1
        s.evs.append(["O", s.prefix(flags, pri, "", 0, ""), None, 1])
        s.evs += [["P", s.n, it] for it in its]
        s.evs.append(["C", s.n])
        if rng.random() < 0.3: s.cmds.append(rng.choice(["sleep 1000", "sleep 12345", "sleep 999000", "adv 3600000000"]))
    return s.end()

SRC = ["a.cpp", "/a.cpp", "/x/a.cpp", "/x/y/a.cpp", "/x/y/z/a.cpp", "x/y/z/a.cpp", "..\\src\\lib\\deep\\a.cpp", "c:\\p\\q.h", "////", "/", "a/", "/home/user/prj/src/module/sub/file_name.cc", "", "", "x\\y/z\\w"]
def prefix(rng, sid):
    """C20: prefixes with all combinations of parts."""
    s = SScn(sid, rng)
    nm = "".join(rng.choice("abcXYZ019_.-") for _ in range(rng.randrange(1, 20)))
    ds = "".join(rng.choice("abcXYZ 019_.-") for _ in range(rng.randrange(1, 30))).strip() or "d"
    s.start(name=nm if rng.random() < 0.7 else None, desc=ds if rng.random() < 0.7 else None, sync=rng.random() < 0.4)
    if rng.random() < 0.2:
        for k in rng.sample(range(9), 3): pass
    for _ in range(rng.randrange(5, 14)):
        if rng.random() < 0.5:
            s.cmds.append("time %d" % (rng.randrange(-3, 400) * rng.choice([1000, 3600 * 1000000, 86400 * 1000000, 1000000]) + rng.randrange(0, 1000000)))
        flags = rng.choice([rng.randrange(0, 128), 0x63, 0xff, rng.randrange(0, 256), 1 << rng.randrange(0, 8), 0])
        file = rng.choice(SRC) if rng.random() < 0.8 else "/".join(text(rng, rng.randrange(0, 30), "a") for _ in range(rng.randrange(1, 8)))
        func = rng.choice(["", "f", "main", "operator()", text(rng, 60, "a")])
        if file == "-": file = "x"
        if func == "-": func = "x"
        s.open(1, pri=rng.randrange(0, 7), flags=flags, line=rng.choice([0, 1, 9, 10, 99, 100, 65535, rng.randrange(0, 1 << 31)]), file=file, func=func)
        s.put(1, [(lambda t: ("s:" + pct(t), ["s", t]))(text(rng, rng.randrange(0, 20), "a"))] if rng.random() < 0.8 else fill(rng, s, 1, 100))
        s.close(1)
        if rng.random() < 0.2: s.cmds.append("idle 30000")
    return s.end()

def numbers(rng, sid):
    """C23: values of all types, far from the limit."""
    s = SScn(sid, rng)
    s.start(sync=rng.random() < 0.5)
    for _ in range(rng.randrange(5, 12)):
        s.open(1)
        reals = 0
        for _ in range(rng.randrange(1, 8)):
            c, it = item(rng, 0.93)
            if c[0] in "srzwaA" or (it[0] in "fK" and reals > 2): continue
            reals += it[0] in "fK"
            s.put(1, [(c, it), ("c:%7c", ["s", "|"])])
        s.close(1)
        if rng.random() < 0.2: s.cmds.append("idle 30000")
    return s.end()

class TScn(SScn):
    """Several threads; a lane is what a thread logs to an asynchronous channel, or one statement on a synchronous one."""
    def __init__(self, sid, rng):
        super().__init__(sid, rng)
        from profiles import sched
        self.opts.update(sched(rng))
        self.threads = []
    def order(self, opens):
        return sorted(opens, key=lambda e: int(e["h"]) // 10)      # the record in the order of the trace: thread by thread
    def text(self):
        o = ["S %s" % self.sid] + ["o %s %s" % kv for kv in self.opts.items()] + ["b c " + pct(self.blob), "P"]
        for t in [self.main] + self.threads: o += ["T"] + t
        return "\n".join(o + ["E"]) + "\n"

def threads(rng, sid):
    """C20, C16: threads that log at the same time, around midnight."""
    s = TScn(sid, rng)
    s.name, s.desc = "".join(rng.choice("abcXYZ019_") for _ in range(rng.randrange(1, 9))), "desc"
    s.L = 0
    n, nch = rng.randrange(2, 5), rng.randrange(1, 4)
    sync = [rng.random() < 0.4 for _ in range(nch)]
    s.blob = conf.render(lgr([chan([dev("file", path="log", file="s%d" % c)], sync[c]) for c in range(nch)], name=s.name, desc=s.desc))
    s.main = ["new 0", "parse 0 c", "sig go"] + ["wait t%d" % k for k in range(1, n + 1)] + ["idle 500000", "stop 0", "dump log"]
    s.files = {"s%d." % c: [] if sync[c] else [k * 10 + c for k in range(1, n + 1)] for c in range(nch)}
    alone = 1000
    for k in range(1, n + 1):
        s.cmds = ["wait go"]
        for _ in range(rng.randrange(2, 7)):
            s.ch = rng.randrange(nch)
            s.lane = k * 10 + s.ch
            if sync[s.ch]:
                alone += 1
                s.lane = alone
                s.files["s%d." % s.ch].append(alone)
            flags = rng.choice([1, 4, 5, 0x7f, 0x63, 0xff, rng.randrange(0, 256)])
            s.open(k * 10, pri=rng.randrange(0, 7), flags=flags, line=rng.randrange(1, 1000), file=rng.choice(SRC), func=rng.choice(["f", "main"]))
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                c, it = item(rng, 0.7)
                if it[0] in "fKX" or len(c) > 200 or (c[0] == "r" and len(it[1]) > 100) or "V" in c[:1]: continue
                s.put(k * 10, [(c, it)])
            s.close(k * 10)
            r = rng.random()
            if r < 0.3: s.cmds.append("sleep %d" % rng.choice([100, 1000, 5000, 300000]))
            elif r < 0.4: s.cmds.append("adv %d" % (rng.choice([1, 60, 3600, 43200, 86400, 90000]) * 1000000))
        s.cmds.append("sig t%d" % k)
        s.threads.append(s.cmds)
    return s
