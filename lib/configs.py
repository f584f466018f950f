"""Configuration texts: many layouts, definitions, mistakes, arbitrary bytes. Judged by FnConfigTrace (C14, C15)."""
import itertools, random, socket, struct
from fnlib import pct

DEVKEYS = ["in_type", "out_type", "disable", "limit_size", "rollback", "rolldaily", "rollhourly", "stuff_up", "path", "file", "udp_addr"]
FLTKEYS = ["priority", "category", "category_extend", "category_wlist", "category_blist", "category_wmask", "category_bmask", "identify", "identify_extend",
           "identify_wlist", "identify_blist", "identify_wmask", "identify_bmask"]
PRI = ["trace", "debug", "info", "warn", "error", "alarm", "fatal"]

def case(rng, w): return rng.choice([w, w, w.capitalize(), w.upper()])
def boolean(rng): return rng.choice(["true", "false", "true", "false", "1", "0", "True", "FALSE"])
def word(rng, n, chars="abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_"): return "".join(rng.choice(chars) for _ in range(n))
def path(rng):
    return word(rng, rng.choice([1, 3, 8, 20, 60]), "abcdeXY01_./-$%+=&@ \xc3\xa9()").strip(" ") or "p"
def number(rng): return str(rng.choice([0, 1, 2, 7, 10, 63, 64, 1000, rng.randrange(1 << 31), rng.randrange(1 << 59)])).zfill(rng.choice([1, 1, 1, 3]))
def bits(rng):
    o = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        a, b = rng.randrange(64), rng.randrange(64)
        o.append(rng.choice(["%d", "%d ", " %d"]) % a if rng.random() < 0.6 else rng.choice(["%d-%d", "%d - %d", "%d -%d"]) % (a, b))
    return rng.choice([",", ", "]).join(o)
def addr(rng):
    return "%s%s:%s%d" % (".".join(str(rng.choice([0, 1, 10, 127, 192, 255, rng.randrange(256)])) for _ in range(3)) + ".%d" % rng.randrange(1, 255), rng.choice(["", "", " "]),
                          rng.choice(["", "", " "]), rng.choice([1, 80, 9909, 65535, rng.randrange(1, 65536)]))
def badaddr(rng):
    return rng.choice(["300.1.1.1:9000", "1.2.3.4", "1.2.3.4:", "1.2.3.4:65536", "1.2.3.4:70000", "1.2.3.4:99999", "1.2.3.4.5:9000", "1.2.3.256:77", "127.0.0.1:0", ""])
def value(rng, key):
    if key == "priority": return case(rng, rng.choice(PRI))
    if key.endswith("list"): return bits(rng)
    if key in ("limit_size",): return str(rng.choice([0, 1, 10, 100, 4096])) + rng.choice(["", "", " m", "M"])
    if key in FLTKEYS or key == "rollback": return number(rng)
    if key in ("disable", "rolldaily", "rollhourly", "stuff_up", "hot_update"): return boolean(rng)
    if key == "in_type": return rng.choice(["udp", "UDP", "null"])
    if key == "out_type": return case(rng, rng.choice(["file", "screen", "udp", "virtual", "empty", "file", "file"]))
    if key == "path": return path(rng)
    if key == "file": return path(rng)[:48].strip(" ") or "f"
    if key == "udp_addr": return addr(rng)
    if key == "sync": return case(rng, rng.choice(["sync", "async"]))
    if key == "logger_name": return word(rng, rng.choice([1, 5, 30]))
    if key == "logger_desc": return word(rng, rng.choice([1, 5, 30, 49]), "abc XYZ-+*/.:;!$(),'").strip() or "d"
    if key == "shm_key": return str(rng.choice([0, 1, 5, 999999]))
    return "x"

def line(rng, ind, key, val, dash=False):
    s = " " * ind
    if ind and rng.random() < 0.05: s = "\t" * ind
    if dash: s += rng.choice(["-", "- ", "-  ", "-"])
    s += key + rng.choice(["", "", "", " ", "\t", "  "]) + ":" + rng.choice([" ", "", "  ", " ", "\t"])
    plain = val and val[0] not in "\"[{#" and "#" not in val and val == val.strip(" \t")
    r = rng.random()
    if val and r < 0.35 or not plain:
        o, c = rng.choice([("\"", "\""), ("[", "]"), ("{", "}")])
        if c in val: o, c = "\"", "\""
        b = rng.choice(["", "", " "])
        s += o + b + val + b + c
    else:
        s += val
    return s + rng.choice(["", "", "", "  ", "\t"]) + rng.choice(["", "", "", "# note", "#x: \"[", " # - channel: 7"])

class Layout:
    def __init__(self, rng):
        self.rng = rng
        self.lines = []
        self.noise = rng.random() < 0.4
        self.c = rng.choice([0, 0, 1, 2, 3])
        self.d = self.c + rng.choice([1, 1, 2, 4])
        self.k = self.d + rng.choice([1, 2, 4])
    def add(self, ind, key, val, dash=False):
        if self.noise and self.rng.random() < 0.15:
            self.lines.append(self.rng.choice(["", "   ", "# comment", "\t # channel: 3", " - ", "--", "          # x"]))
        self.lines.append(line(self.rng, ind, key, val, dash))
    def text(self):
        rng = self.rng
        e = rng.choice(["\n", "\n", "\r\n", "\r", "\n\r"]) if rng.random() < 0.9 else None
        s = ""
        for i, l in enumerate(self.lines):
            s += l
            if i + 1 < len(self.lines) or rng.random() < 0.7: s += e or rng.choice(["\n", "\r\n"])
        return ("\xef\xbb\xbf" if rng.random() < 0.1 else "") + s

def dev_lines(rng, lay, n, bad=None):
    lay.add(lay.d, "device", str(n), rng.random() < 0.6)
    keys = ["disable"] * (rng.random() < 0.8) + ["out_type"] * (rng.random() < 0.9) + rng.sample(DEVKEYS + FLTKEYS, rng.choice([0, 2, 4, 7]))
    keys = [k for i, k in enumerate(keys) if k not in keys[:i] or rng.random() < 0.1]
    rng.shuffle(keys)
    for k in keys:
        lay.add(lay.k + (rng.choice([0, 0, 0, 2]) if rng.random() < 0.2 else 0), k, badaddr(rng) if k == "udp_addr" and rng.random() < 0.05 else value(rng, k))

def wellformed(rng):
    lay = Layout(rng)
    nch = rng.choice([1, 1, 2, 3, 4])
    glob = rng.sample(["hot_update", "logger_name", "logger_desc", "shm_key"], rng.choice([0, 1, 2, 4]))
    places = [rng.randrange(0, nch + 1) for _ in glob]
    for c in range(nch + 1):
        for g, p in zip(glob, places):
            if p == c: lay.add(rng.choice([0, lay.c]), g, value(rng, g), rng.random() < 0.3)
        if c == nch: break
        lay.add(lay.c, "channel", str(c), rng.random() < 0.8)
        items = [("dev", None)] * rng.choice([0, 1, 1, 2, 3, 4]) + [("key", k) for k in rng.sample(FLTKEYS + ["sync"], rng.choice([0, 1, 1, 2, 4]))]
        rng.shuffle(items)
        n = 0
        for t, k in items:
            if t == "dev":
                dev_lines(rng, lay, n)
                n += 1
            else:
                lay.add(rng.randrange(lay.c + 1, lay.d + 1), k, value(rng, k))
    return lay

def mistake(rng, lay):
    ls = lay.lines
    i = rng.randrange(len(ls) + 1)
    r = rng.randrange(12)
    if r == 0: ls.insert(i, " " * rng.choice([0, lay.c, lay.d, lay.k]) + rng.choice(["xx: 1", "bogus: x", "enable: true", "timeout:3", "name: a", "w:1", "Channel: 0", "key: ", "_x: 1", "9: 1"]))
    elif r == 1: ls.insert(i, " " * rng.choice([0, lay.c, lay.d, lay.k]) + rng.choice(DEVKEYS + FLTKEYS + ["sync", "hot_update", "logger_name"]) + ": 1")
    elif r == 2: ls.insert(i, " " * rng.choice([lay.c, lay.d]) + rng.choice(["channel", "device"]) + ": " + str(rng.randrange(0, 8)))
    elif r == 3: ls.insert(i, " " * lay.d + "- device: " + rng.choice(["1", "2", "9", "4"]))
    elif r == 4: ls.insert(i, " " * lay.k + rng.choice(["path", "priority info", "file = x", "disable", "category 3: 1", "path: \"abc", "path: [abc", "file: {x # y}", "path: \"a#b\""]))
    elif r == 5: ls.insert(i, "\0" if rng.random() < 0.5 else "# comment \0 here")
    elif r == 6:
        for c in range(rng.randrange(1, 6)): ls.append("- channel: %d" % c)
    elif r == 7 and ls: ls[rng.randrange(len(ls))] = rng.choice(["  ", ""]) + "udp_addr: " + badaddr(rng)
    elif r == 8 and ls:
        k = rng.randrange(len(ls))
        ls[k] = " " * rng.randrange(0, 8) + ls[k].lstrip(" \t")
    elif r == 9 and ls: del ls[rng.randrange(len(ls))]
    elif r == 10 and len(ls) > 1:
        a, b = rng.randrange(len(ls)), rng.randrange(len(ls))
        ls[a], ls[b] = ls[b], ls[a]
    else: ls.insert(i, rng.choice(["define: abc", "define:", "define: ab abc", "define: a-b abc", "var: a", "var: =3", "var: 1a=3", "var: a=abc", "var: ab = c, d", "var: a=b,,c=d", "var: ,", "var: b= 1,"]))

def scribble(rng, t):
    t = list(t)
    for _ in range(rng.choice([1, 1, 2, 5])):
        i = rng.randrange(len(t) + 1)
        r = rng.random()
        if r < 0.4 and i < len(t): del t[i]
        elif r < 0.8: t.insert(i, rng.choice(" \t\n\r-#:\"[]{}a0$,=_x"))
        elif i < len(t): t[i] = rng.choice(" \n-#:\"a0")
    return "".join(t)

NAMES = ["a", "b", "ab", "aa", "a_b", "abc", "A", "x1", "b2", "ba", "path", "i", "info1", "abab"]
def defined(rng):
    """Texts with definitions; the values are full of (almost) occurrences."""
    lay = Layout(rng)
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3, 4]))
    def content(n):
        r = rng.random()
        if r < 0.15: return rng.choice(names)[:n]
        if r < 0.25: return ("$" + rng.choice(names))[:n]
        return word(rng, rng.choice([0, 1, n, n, max(1, n - 1), n + 1] if rng.random() < 0.15 else [1, n, n, max(1, n - 1)]), "abxyz019_./$-")
    def definition():
        if rng.random() < 0.5:
            sym = rng.choice(names + ["log_path", "my_level", "sym_%d" % rng.randrange(3), "a.b.a", "x-x", "-y-", "a/b"])
            names.append(sym)
            c = content(len(sym))
            lay.add(rng.choice([0, lay.c]), "define", sym + rng.choice([" ", "  "]) + c if c.strip() else sym + rng.choice(["", " x"]), rng.random() < 0.3)
        else:
            vs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                n = rng.choice(names)
                vs.append(n + rng.choice(["=", " = ", "= "]) + content(len(n) + 1).replace(",", ""))
            lay.add(rng.choice([0, lay.c]), "var", rng.choice([", ", ",", " , "]).join(vs), rng.random() < 0.3)
    def frag():
        n = rng.choice(names)
        return rng.choice([n, "$" + n, "${" + n + "}", "$" + n + rng.choice("ab_1"), rng.choice("ab_1") + n, "${" + n, "$$" + n, "{" + n + "}", "$", "_", "a", " ", "-", "/", ".", "${}", n + n, "$" + n + "$" + n])
    def full(m):
        return "".join(frag() for _ in range(rng.randrange(1, 9)))[:m].strip(" ") or "z"
    def glob():
        if rng.random() < 0.5: definition()
        if rng.random() < 0.3: lay.add(0, rng.choice(["logger_name", "logger_desc"]), full(49))
    for c in range(rng.choice([1, 2, 3, 4])):
        glob()
        if rng.random() < 0.3: definition()
        lay.add(lay.c, "channel", str(c), True)
        if rng.random() < 0.3: lay.add(lay.d, "priority", rng.choice(PRI))
        for d in range(rng.choice([1, 1, 2, 4])):
            lay.add(lay.d, "device", str(d), True)
            for k in rng.sample(["path", "file", "path", "file", "category", "out_type", "disable", "priority"], rng.randrange(1, 6)):
                lay.add(lay.k, k, full(48) if k in ("path", "file") else value(rng, k))
    glob()
    if rng.random() < 0.6:
        # a value anywhere below becomes a symbol
        sym, con = rng.choice([("lvl_hi", "fatal"), ("pathx", "path"), ("chan_nel", "channel"), ("tru", "1"), ("dir_x", "ab/c"), ("num1", "7"), ("device_", "device")])
        i = rng.randrange(len(lay.lines))
        for j in range(i, len(lay.lines)):
            if rng.random() < 0.5: lay.lines[j] = lay.lines[j].replace(con, sym)
        lay.lines.insert(rng.choice([i, i, 0]), "define: " + sym + " " + con)
    return lay

ALPHA = ["a", "b", "_", " ", "$", "{", "}"]
def small_text(rng, ws):
    """Short words over a small alphabet below one definition: enumerated by index in the thorough tier."""
    d = rng.choice(["define: a b", "define: ab b", "define: ab ba", "define: aa a", "var: a=b", "var: a=$b, b=$a", "var: ab=a", "var: a=b, ab=aa", "var: a_=a, a=_", "define: a_a bb", "define: a-a b", "define: a-a _a", "define: -a- b", "define: a$a b"])
    sym = d.split(" ")[1].split("=")[0]
    for i in range(len(ws)):        # half of them consist of parts of the name, so that occurrences overlap
        if rng.random() < 0.5:
            ws[i] = "".join(rng.choice([sym, sym[1:], sym[:-1], sym[1:], "a", "b", "_", "-", "$", sym]) for _ in range(rng.randrange(2, 5)))
    ls = ["channel: 0"]
    n = 0
    for c in range(4):
        if c: ls.append("channel: %d" % c)
        else: ls.insert(0, d)
        for dv in range(4):
            ls.append(" device: %d" % dv)
            ls.append("  path: \"%s\"" % ws[n])
            n += 1
    return "\n".join(ls)

def noise(rng):
    r = rng.random()
    if r < 0.3: return "".join(chr(rng.randrange(256)) for _ in range(rng.choice([0, 1, 3, 20, 200, 2000])))
    if r < 0.6: return "".join(rng.choice([" ", "\n", "-", ":", "#", "\"", "[", "]", "{", "}", "$", ",", "=", "0", "\r", "\t", "\0", "channel: 0", "device: 0", "define: ", "var: ", "a", "priority", "udp_addr: ",
                                              "category_wlist: 1-2147483647", "category_wlist: 0-4294967295", "category_blist: 18446744073709551615 - 1", "1-999999999999", "path: ", "a=", "\v", "\f", "\xff"])
                               for _ in range(rng.choice([3, 10, 40, 200])))
    t = wellformed(rng).text()
    for _ in range(rng.choice([1, 4, 20])): t = scribble(rng, t)
    return t[:rng.randrange(len(t) + 1)] if rng.random() < 0.3 else t.replace("-", "-99999999999", 1) if rng.random() < 0.2 else t

def enc(s): return s.replace("\xef\xbb\xbf", "~~~", 1).replace("\0", "`").replace("\v", "~") if s.startswith("\xef\xbb\xbf") else s.replace("\0", "`").replace("\v", "~")
def mask(v):
    v = int(v)
    u = v & ((1 << 64) - 1)
    return {"dec": str(v), "neg": str(~v), "bits": [i for i in range(64) if u >> i & 1]}
def flt(c, o):
    return {"pri": c[o], "cat": c[o + 1], "catx": c[o + 2], "catm": mask(c[o + 3]), "idn": c[o + 4], "idnx": c[o + 5], "idnm": mask(c[o + 6])}
OUTS = {0: "null", 1: "screen", 2: "file", 3: "udp", 4: "virtual", 5: "empty"}
def conf_of(e, full):
    ch = []
    for c in e["c"]:
        ds = []
        for d in c["d"]:
            f = d["cfg"]
            ds.append({"flt": flt(f, 1), "able": int(f[0] != "0"), "limit": f[8], "rollback": f[9], "daily": int(f[10] != "0"), "hourly": int(f[11] != "0"), "stuff": int(f[12] != "0"),
                       "inp": {0: "null", 1: "udp"}.get(d["in"], "?"), "outp": OUTS.get(d["out"], "?"), "path": d["path"], "file": d["file"],
                       "ip": socket.inet_ntoa(struct.pack("<I", int(f[13]) & 0xffffffff)), "port": str(socket.ntohs(int(f[14]) & 0xffff)), "ids": [d["id"], len(ds)]})
            if d["id"] != len(ds) - 1: ds[-1]["outp"] = "wrong id"
        ch.append({"sync": c["type"], "flt": flt(c["cfg"], 0), "devs": ds})
        if c["id"] != len(ch) - 1: ch[-1]["sync"] = 9
    return {"hot": e["hot"], "full": full, "name": e["name"] if full else "", "desc": e["desc"] if full else "", "shm": e["shm"] if full else "", "ch": ch}

class TScn:
    def __init__(self, sid):
        self.sid, self.cmds, self.what, self.blobs = sid, [], [], []
        self.prof = ""
    def add(self, text, how):
        self.blobs.append(text)
        b = "t%d" % len(self.blobs)
        if how == "lex" or how == "fuzz": self.cmds.append("lex " + b)
        else: self.cmds += ["new 0", "init 0 " + b] + ["cfg 0 x"] * (how == "cfg") + ["start 0"] * (how == "start") + ["del 0"]
        self.what.append((how, text))
    def text(self):
        o = ["S " + self.sid] + ["b t%d %s" % (i + 1, pct(t)) for i, t in enumerate(self.blobs)] + ["P", "T"] + self.cmds + ["E", ""]
        return "\n".join(o)
    def trace(self, rec):
        ev, odd = [], 0
        evs = iter(rec["ev"])
        fail = None
        def nxt(kind, op=None):
            for e in evs:
                if e["e"] == kind and (not op or e.get("op") == op): return e
                if e["e"] == "END": return None
            return None
        for how, t in self.what:
            if how in ("lex", "fuzz"):
                e = nxt("L")
                if not e: fail = 1; break
                if how == "fuzz":
                    ev.append(["F"])
                    continue
                ev.append(["T", enc(t)])
                bad = e["r"] != 0 or e["cs"] == 0
                ev.append(["Q", 1] if bad else ["Q", 0, conf_of(e, 1)])
            else:
                e = nxt("R", "init")
                if not e: fail = 1; break
                ev.append(["T", enc(t)])
                r = e["r"]
                if how == "cfg":
                    g = nxt("G")
                    if not g: fail = 1; break
                    ev.append(["Q", 1] if r else ["Q", 0, conf_of(g, 0)])
                else:
                    s = nxt("R", "start")
                    if not s: fail = 1; break
                    ev.append(["N", int(r != 0 and s["r"] != 0)])
        end = [e for e in rec["ev"] if e["e"] == "END"]
        if fail or not end or end[0]["why"] != "ok":
            ev.append(["BROKEN", end[0]["why"] if end else "no end"])
            odd += 100
        return {"id": rec["id"], "ev": ev}, odd

def config(rng, sid):
    s = TScn(sid)
    for _ in range(rng.choice([2, 4, 6])):
        r = rng.random()
        if r < 0.55:
            lay = wellformed(rng)
            t = lay.text()
        elif r < 0.8:
            lay = wellformed(rng)
            for _ in range(rng.choice([1, 1, 2])): mistake(rng, lay)
            t = lay.text()
        elif r < 0.9: t = scribble(rng, wellformed(rng).text())
        else:
            s.add(noise(rng), "fuzz")
            continue
        s.add(t, rng.choice(["lex", "lex", "cfg", "start"]) if "shm_key" not in t else "lex")
    return s

def variables(rng, sid):
    s = TScn(sid)
    for _ in range(rng.choice([1, 2, 4])):
        r = rng.random()
        if r < 0.6: t = defined(rng).text()
        elif r < 0.9:
            t = small_text(rng, ["".join(rng.choice(ALPHA) for _ in range(rng.randrange(1, 8))) for _ in range(16)])
        else: t = scribble(rng, defined(rng).text())
        s.add(t, "lex")
    return s
