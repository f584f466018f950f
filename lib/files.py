"""Histories of file outputs: rolling by size and time, names, restarts, faults. Judged by FnFileTrace."""
import calendar, random
import conf, fnlib
from conf import dev, chan, lgr, flt
from fnlib import pct, LOGSZ

S0 = {"able": True, "limit": 0, "rb": 0, "stuff": False, "daily": False, "hourly": False}
VARS = ["YEAR", "MON", "DAY", "HOUR", "MIN", "SEC", "F", "PNAME", "PID"]
LITS = ["a", "b7", "_", "-", "x.y", "$", "$X", "$MO", "$year", "%", "%Y", "$DA", "@", "$P", "+", "$$", "F", "$H", "$SE"]
TZS = [("UTC", 0), ("UTC", 0), ("AAA-5:30", 19800), ("BBB8", -28800), ("CCC3:30", -12600), ("DDD-14", 50400), ("EEE-0:45", 2700), ("FFF11", -39600)]
MOMENTS = [calendar.timegm(x) for x in ((2024, 2, 28, 23, 59, 50), (2024, 2, 29, 23, 59, 50), (2023, 2, 28, 23, 59, 50), (2023, 12, 31, 23, 59, 50),
           (2025, 6, 30, 11, 59, 50), (2036, 12, 31, 23, 59, 55), (2000, 2, 29, 0, 0, 0), (2023, 11, 14, 22, 13, 20), (2037, 10, 31, 23, 30, 0), (1999, 12, 31, 23, 59, 58))]

def pattern(toks):
    return "".join(t[1] if t[0] == "lit" else "%F" if t[0] == "F" else "$" + t[0] for t in toks)

def rtoks(rng, n, vars_, lits=LITS):
    o = []
    for _ in range(n):
        if vars_ and rng.random() < 0.5:
            o.append([rng.choice(vars_)])
        else:
            x = rng.choice(lits)
            if o and o[-1][0] == "lit":
                if o[-1][1][-1] in "$%" or x[0] in "NYFEC":
                    x = "_"
                if o[-1][1].startswith("$") and not x[0] in "_-+@":
                    x = "-"
            o.append(["lit", x])
    return o

class FScn:
    def __init__(self, sid, rng):
        self.sid, self.rng = sid, rng
        self.opts = {"ps": 1}
        self.blobs, self.cmds, self.files = {}, [], []
        self.len, self.dev, self.bych, self.kch = [], [], {}, []
        self.sts, self.bads = [], []
        self.st = []
        self.prof = ""
    # ---- configuration
    def device(self, ch, dirs, name, st, raw=None, noise=0):
        """dirs: components as token sequences; name: token sequence or None (default name); raw: text of the path if not the plain one"""
        d = len(self.dev) + 1
        n = len(self.bych.setdefault(ch, []))
        self.bych[ch].append(d)
        toks = name or [["PNAME"], ["lit", "_"], ["YEAR"], ["MON"], ["DAY"], ["lit", "_"], ["PID"], ["lit", ".%d%d" % (ch, n)]]
        self.dev.append({"dirs": dirs, "name": toks, "noise": noise})
        self.st.append(dict(S0, **st))
        path = raw if raw is not None else "/".join(pattern(c) for c in dirs)
        s = self.st[-1]
        kw = {"rollback": s["rb"]}
        for k in ("daily", "hourly", "stuff"):
            if s[k] or self.rng.random() < 0.3:
                kw[k] = s[k]
        self.confd = getattr(self, "confd", {})
        self.confd[(ch, n)] = (d, dev("file", able=s["able"], path=path, file=pattern(name) if name else None, **kw))
        return d
    def ready(self, syncs, pre=()):
        self.syncs = syncs
        chans = [chan([self.confd[(c, i)][1] for i in range(len(self.bych[c]))], syncs[c]) for c in sorted(self.bych)]
        self.blobs["c"] = conf.render(lgr(chans))
        self.base = [dict(s) for s in self.st]
        self.cmds += list(pre) + ["new 0"]
        self.boot()
    def mark(self):
        self.sts.append([dict(s) for s in self.st])
        self.cmds.append("note S:%d" % (len(self.sts) - 1))
    def boot(self):
        """(Re)reads the configuration, applies limits, starts."""
        want = [dict(s) for s in self.st]
        self.cmds.append("init 0 c")
        self.st = [dict(s, limit=0) for s in self.base]
        for d, w in enumerate(want):
            for k, f in (("able", 0), ("limit", 8), ("rb", 9), ("daily", 10), ("hourly", 11), ("stuff", 12)):
                if self.st[d][k] != w[k]:
                    self.setd(d + 1, f, k, w[k])
        self.mark()
        self.cmds.append("start 0")
    def setd(self, d, f, k, v):
        c, i = [(c, ds.index(d)) for c, ds in self.bych.items() if d in ds][0]
        self.st[d - 1][k] = v
        self.cmds.append("setd 0 %d %d %d %d" % (c, i, f, int(v)))
    # ---- history
    def line(self, ch, size):
        n = len(self.len) + 1
        size = max(size, len("#%d:" % n) + 3)
        self.len.append(min(size, LOGSZ - 2) + 1)
        self.kch.append(ch)
        self.cmds.append("log %d 0 %d 2 0 0 0 %d 1" % (n, ch, size))
        return n
    def ext(self, path, n):
        """Somebody writes a file with n lines."""
        ids, text = [], ""
        for _ in range(n):
            k = len(self.len) + 1
            t = "old %d %s\n" % (k, "y" * self.rng.randrange(0, 60))
            self.len.append(len(t))
            self.kch.append(-1)
            self.blobs["line%d" % k] = t
            ids.append(k)
            text += t
        b = "x%d" % len(self.blobs)
        self.blobs[b] = text
        self.extc = getattr(self, "extc", {})
        self.extc[b] = ids
        self.cmds.append("wf %s %s" % (path, b))
    def bad(self, b, cmds):
        self.bads.append(b)
        self.cmds += list(cmds) + ["note F:%d" % (len(self.bads) - 1)]
    def settle(self):
        if not all(self.syncs):
            self.cmds.append("idle 400000")
    def look(self):
        self.settle()
        self.cmds.append("ls .")
    def at(self, us):
        self.cmds.append("time %d" % us)
    def restart(self, kind):
        """kind 0: stop, start; 1: stop, read configuration, start; 2: a new logger"""
        self.settle()
        self.cmds.append("stop 0")
        if kind == 0:
            self.cmds.append("start 0")
        else:
            if kind == 2:
                self.cmds += ["del 0", "new 0"]
            self.boot()
    def text(self):
        o = ["S %s" % self.sid] + ["o %s %s" % kv for kv in self.opts.items()] + ["b %s %s" % (k, pct(v)) for k, v in self.blobs.items()]
        return "\n".join(o + ["P", "T"] + self.cmds + ["E"]) + "\n"
    # ---- conversion
    def trace(self, rec):
        ev, pid, odd = [], "", 0
        t0 = self.opts["t0"]
        alld = [d for ds in self.bych.values() for d in ds]
        for e in rec["ev"]:
            t = e["e"]
            if t == "PS":
                pid = e["pid"]
            elif t == "B":
                ev.append(["L", e["id"], t0 + e["w"] // 1000, self.bych[self.kch[e["id"] - 1]]])
            elif t == "A" and not e["acc"] and any(self.st_at[e["id"]][d - 1]["able"] for d in self.bych[self.kch[e["id"] - 1]]):
                ev.append(["REFUSED", e["id"]])
            elif t == "D":
                ev.append(["D", [[f["p"], f["l"]] for f in e["files"] if not f["p"].endswith("/")]])
            elif t == "R":
                if e["r"] != 0:
                    ev.append(["CALL", e["op"], e["r"]])
                elif e["op"] == "stop":
                    ev.append(["X", alld])
                elif e["op"] == "del":
                    ev.append(["N", alld])
            elif t == "F" and e["op"] == "wf":
                ev.append(["P", e["p"], self.extc[e["b"]]])
            elif t == "F" and e["op"] == "rm":
                ev.append(["R", e["p"]])
            elif t == "X" and e["a"][0] == "note":
                k, n = e["a"][1].split(":")
                ev.append(["S", self.sts[int(n)]] if k == "S" else ["F", self.bads[int(n)]])
            elif t == "END" and e["why"] != "ok":
                ev.append(["BROKEN", e["why"]])
        while len(self.st) < 4:
            self.st.append(dict(S0))
        pad = lambda st: st + [dict(S0)] * (4 - len(st))
        ev = [["S", pad(e[1])] if e[0] == "S" else e for e in ev]
        return {"id": rec["id"], "pid": pid, "st0": pad(self.sts[0]), "cfg": {"len": self.len, "dev": self.dev + [{"dirs": [], "name": [["lit", "?"]], "noise": 0}] * (4 - len(self.dev)),
                "tz": self.tz, "pname": "fnh"}, "ev": ev}, odd
    def finish(self):
        """Settings at every line (only used to tell a refused line from a line for no device)."""
        cur, self.st_at = None, {}
        for c in self.cmds:
            w = c.split()
            if w[0] == "note" and w[1].startswith("S:"):
                cur = self.sts[int(w[1][2:])]
            elif w[0] == "log":
                self.st_at[int(w[1])] = cur
        return self

def common(rng, sid):
    s = FScn(sid, rng)
    tz = rng.choice(TZS)
    s.opts["tz"], s.tz = tz
    s.opts["t0"] = rng.choice(MOMENTS) - s.tz + rng.choice([0, 0, -3600, -5, 7]) if rng.random() < 0.7 else rng.randrange(946684800, 2100000000)
    s.opts["unbuf"] = rng.choice([0, 1])
    s.opts["seed"] = rng.randrange(1, 1 << 30)
    return s

def rsize(rng, limit=0):
    r = rng.random()
    if limit and r < 0.35:
        return max(10, min(700, rng.choice([limit - 1, limit, limit - 2, limit // 2, limit // 2 - 1, limit // 3])))
    if r < 0.6: return rng.randrange(10, 60)
    if r < 0.9: return rng.randrange(60, 400)
    return rng.choice([636, 637, 638, 639, 640, 700])

def size(rng, sid):
    """Rolling by size: limits, backups, restarts, files that are there already."""
    s = common(rng, sid)
    nch = rng.choice([1, 1, 2])
    fixed = []
    for c in range(nch):
        for i in range(rng.choice([1, 1, 2])):
            st = {"limit": rng.choice([0, 100, 150, 300, 639, 640, 1000, 2000]), "rb": rng.choice([0, 1, 1, 2, 3, 4, 9, 10, 12]), "stuff": rng.random() < 0.4}
            dated = rng.random() < 0.15
            name = [["lit", "f%d%d" % (c, i)]] + ([["SEC"]] if dated else []) + rng.choice([[], [["lit", ".5"]], [["lit", ".log"]], [["lit", "7"]]])
            dirs = rng.choice([[], [[["lit", "d"]]], [[["lit", "d%d" % c]], [["lit", "e"]]]])
            s.device(c, dirs, name, st)
            if not dated:
                fixed.append("/".join([pattern(x) for x in dirs] + [pattern(name) + ".log"]))
    pre = []
    def files_there():
        p = rng.choice(fixed)
        for j in rng.choice([[0], [0, 1], [0, 1, 2], [0, 2], [1], [0, 1, 2, 3, 4], [3], [0, 10], list(range(13))]):
            if "/" in p:
                q = ""
                for x in p.split("/")[:-1]:
                    q = q + "/" + x if q else x
                    s.cmds.append("mkdir " + q)
            s.ext(p + (".%d" % j if j else ""), rng.randrange(0, 4))
    if fixed and rng.random() < 0.4:
        files_there()
    s.ready([rng.random() < 0.7 for _ in range(nch)])
    t = 0
    for _ in range(rng.randrange(5, 26)):
        r = rng.random()
        if r < 0.82:
            c = rng.randrange(nch)
            s.line(c, rsize(rng, rng.choice([s.st[d - 1]["limit"] for d in s.bych[c]])))
        elif r < 0.90:
            s.restart(rng.choice([0, 0, 1, 2]))
        elif r < 0.93 and fixed:
            s.settle()
            s.cmds.append("stop 0")
            files_there()
            s.cmds.append("start 0")
        elif r < 0.97:
            s.settle()
            d = rng.randrange(1, len(s.dev) + 1)
            if rng.random() < 0.5: s.setd(d, 8, "limit", rng.choice([0, 120, 500, 1000]))
            else: s.setd(d, 9, "rb", rng.choice([0, 1, 2, 5]))
            s.mark()
        else:
            t += rng.choice([1, 30, 3600, 86400]) * 1000000 + 500000
            s.settle()
            s.at(t)
        if rng.random() < 0.45:
            s.look()
    s.look()
    return s.finish()

def dated(rng, sid):
    """Names with variables, rolling by day and hour, times in any order."""
    s = common(rng, sid)
    nch = rng.choice([1, 1, 2])
    for c in range(nch):
        for i in range(rng.choice([1, 1, 2])):
            st = dict(rng.choice([{}, {"daily": True}, {"daily": True}, {"hourly": True}, {"hourly": True}]))
            if rng.random() < 0.25:
                st.update(rb=rng.choice([1, 2]), stuff=rng.random() < 0.5)
                if rng.random() < 0.5:
                    st["limit"] = rng.choice([200, 500])
            tag = ["lit", "%s%d%d" % (rng.choice("ku"), c, i)]
            r = rng.random()
            if r < 0.15: name = None
            else:
                name = [tag] + rtoks(rng, rng.randrange(0, 6), VARS if r < 0.85 else ["YEAR", "MON", "DAY"])
                while len(pattern(name)) > 44: name.pop()
            dirs, raw, noise = [], None, 0
            for j in range(rng.choice([0, 0, 1, 2, 3])):
                comp = [["lit", "p%d" % j]] + rtoks(rng, rng.randrange(0, 4), VARS[:5] + ["PNAME", "F"], ["a", "_", "-", "x.y", "$X", "%", "@"])
                dirs.append(comp)
            if dirs and rng.random() < 0.1:
                dirs.append([["lit", "l" * rng.randrange(60, 120)]])
            if len("/".join(pattern(x) for x in dirs)) > 190:
                dirs = dirs[-1:]
            if dirs and rng.random() < 0.3:
                sep = [rng.choice(["/", "//", "\\", "\\/", "/./"]) for _ in dirs]
                lead = rng.choice(["", "./", ".//"])
                raw = lead
                for j, x in enumerate(dirs):
                    raw += pattern(x) + (sep[j] if j + 1 < len(dirs) else rng.choice(["", "/", "\\"]))
                if len(raw) > 195: raw = None
                else:
                    noise = len(lead) + sum(len(x) - 1 for x in sep[:-1])
            s.device(c, dirs, name, st, raw, noise)
    s.ready([rng.random() < 0.8 for _ in range(nch)])
    t = 0
    for _ in range(rng.randrange(4, 22)):
        r = rng.random()
        if r < 0.3:
            # a moment close to a border of the current hour or day, or anywhere
            now = s.opts["t0"] + t // 1000000
            loc = now + s.tz
            q = rng.random()
            if q < 0.3: n = now - loc % 3600 + rng.choice([-1, 0, 0, 3599, 3600, 3600, 7200])
            elif q < 0.6: n = now - loc % 86400 + rng.choice([-1, 0, 0, 86399, 86400, 86400, 172800, -86400])
            elif q < 0.9: n = now + rng.choice([1, 2, 59, 60, 3600, 86400, 31 * 86400, 366 * 86400])
            else: n = now + rng.choice([-1, -60, -3600, -86400])
            if not 10 < n < 2147000000: n = now
            t = (n - s.opts["t0"]) * 1000000 + 300000
            s.settle()
            s.at(t)
        if r < 0.85:
            s.line(rng.randrange(nch), rsize(rng))
            if not all(s.syncs): s.settle(); t += 400000
        elif r < 0.93:
            s.restart(rng.choice([0, 1, 2]))
        if rng.random() < 0.4:
            s.look()
    s.look()
    return s.finish()

def faults(rng, sid):
    """Outputs that cannot be opened or written, next to healthy ones."""
    s = common(rng, sid)
    nch = rng.choice([1, 2, 2])
    plain, roll = [], []
    for c in range(nch):
        for i in range(rng.choice([1, 2, 2])):
            d = len(s.dev) + 1
            st = {} if rng.random() < 0.55 else dict(rng.choice([{"limit": 300, "rb": 2}, {"rb": 2}, {"rb": 1, "stuff": True}, {"daily": True}, {"hourly": True}, {"limit": 500, "rb": 1, "stuff": True}]))
            name = [["lit", "f"]]
            dirs = [[["lit", "d%d" % d]]] + ([[["lit", "m"], ["MIN"]]] if rng.random() < 0.3 else [])
            s.device(c, dirs, name, st)
            (plain if not st.get("rb") and len(dirs) == 1 and not st.get("daily") and not st.get("hourly") else roll).append(d)
    bad, obst, inj = set(), {}, {}
    def place():
        """An obstacle while no file is open."""
        if plain:
            d = rng.choice(plain)
            if d in obst or any(x[0] == d for x in inj): return
            p = "d%d/f.log" % d
            s.cmds += ["rm d%d" % d, "mkdir d%d" % d]
            if rng.random() < 0.5:
                s.cmds += ["rm " + p, "mkdir " + p]
                bad.add((d, "open"))
                obst[d] = (p, "open")
            else:
                s.opts["unbuf"] = 1
                s.cmds += ["rm " + p]
                s.ext(p, 0)
                s.cmds += ["ln /dev/full " + p]      # an empty file for the specification
                obst[d] = (p, "full")
                bad.add((d, "write"))
    def mark(cmds=()):
        s.bad([list(x) for x in sorted(bad)], cmds)
    early = rng.random() < 0.4
    if rng.random() < 0.25:
        s.ext("d%d" % rng.randrange(1, len(s.dev) + 1), 0)      # a file where a directory should be
    s.opts["unbuf"] = 1
    s.ready([rng.random() < 0.7 for _ in range(nch)])
    t = 0
    for _ in range(rng.randrange(8, 30)):
        r = rng.random()
        if r < 0.6:
            s.line(rng.randrange(nch), rsize(rng))
            if not all(s.syncs): s.settle(); t += 400000
        elif r < 0.75:
            t += rng.choice([300000, 1000000, 2000000, 4000000, 4900000, 5000000, 5000000, 6000000, 60000000, 3600000000])
            s.settle()
            s.at(t)
        elif r < 0.87:
            s.settle()
            d = rng.randrange(1, len(s.dev) + 1)
            k = rng.choice(["open", "open", "write"])
            if d in obst: continue
            if (d, k) in inj or rng.random() < 0.2:
                for x in inj: bad.discard(x)
                inj.clear()
                mark(["nofault"])
            else:
                inj[(d, k)] = 1
                bad.add((d, k))
                mark(["fault %s d%d/ 0 -1 %d" % ("fopen" if k == "open" else "fwrite", d, rng.choice([28, 13, 24]))])
        elif r < 0.93:
            s.settle()
            for d in list(obst):
                s.cmds.append("rm " + obst[d][0])
                bad.discard((d, "open" if obst[d][1] == "open" else "write"))
                del obst[d]
            mark(["rm d%d" % rng.randrange(1, len(s.dev) + 1)] if rng.random() < 0.5 else [])
        elif not any(k == "write" for d, k in bad):
            k = rng.choice([0, 1, 2])
            s.settle()
            s.cmds.append("stop 0")
            if rng.random() < 0.6:
                place()
                mark()
            s.cmds.append("start 0")
        if rng.random() < 0.45:
            s.look()
    s.look()
    return s.finish()
