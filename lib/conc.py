"""Scenarios with statements, life cycle calls, snapshots; conversion of recorded executions for FnLogTrace."""
import random
import fnlib, conf
from fnlib import pct, LOGSZ

WIDE = sorted([0] + [s * b for s in (1, -1) for b in (1 << 31, 1 << 32, 1 << 40, (1 << 62) + 12345)])

class Scn:
    """One scenario: what is executed (text for the harness) and what it means (static part of the trace)."""
    def __init__(self, sid, **opts):
        self.sid, self.opts = sid, dict(opts)
        self.blobs, self.phases = {}, []
        self.loggers, self.ents, self.byid = {}, [], {}
        self.chanidx, self.vers, self.outs, self.files, self.seen = {}, [], [], [], []
        self.nid = 0
        self.meta = {}
        self.hooktrans = []
        self.cur = {}           # (L, channel) -> changed settings
        self.screens = []       # (output, channel): their lines follow those of the files in a snapshot
        self.nq = 0
        self.udps = []          # (output, channel, address): sent datagrams, after the screens
        self.inq = {}           # (L, channel, device) of an udp input -> the channel that stands for it: its logs are the datagrams
        self.inports = {}       # port -> (L, channel, device), category of its datagrams
        self.dgrams = {}        # datagram -> entries it completes

    # ---- configuration
    def logger(self, L, l):
        """Logger L with this initial configuration (must be called for all loggers before anything is logged)."""
        self.loggers[L] = l
        for ci, c in enumerate(l["chans"]):
            self.nq += 1
            self.chanidx[(L, ci)] = self.nq
            for di, d in enumerate(c["devs"] + c.get("alts", [])):
                self.outs.append((self.chanidx[(L, ci)], di + 1))
                if d["kind"] in ("udp", "udpx"):
                    self.udps.append((len(self.outs), self.chanidx[(L, ci)], d["udp"]))
                if d["kind"] == "screen":
                    self.screens.append((len(self.outs), self.chanidx[(L, ci)]))
                    self.opts["screen"] = 1
                if d["kind"] == "file" and d["file"] and not d.get("broken"):
                    self.files.append("%s/%s.log" % (d["path"], d["file"]) if d["path"] else d["file"] + ".log")
                    self.seen.append(len(self.outs))
        for ci, c in enumerate(l["chans"]):
            for di, d in enumerate(c["devs"]):
                if d["kind"] == "udpin":
                    self.nq += 1
                    self.inq[(L, ci, di)] = self.nq
                    for p in [int(d["udp"].split(":")[1])] + d.get("ports", []):
                        self.inports[p] = ((L, ci, di), len(self.inports))
                    self.outs.append((self.nq, di + 1))
                    self.files.append("%s/%s.log" % (d["path"], d["file"]) if d["path"] else d["file"] + ".log")
                    self.seen.append(len(self.outs))
        return self.config(L, l)

    def config(self, L, l):
        name = "c%d" % len(self.blobs)
        self.blobs[name] = conf.render(l)
        return name

    def raw(self, text):
        name = "bad%d" % len(self.blobs)
        self.blobs[name] = text
        return name

    def version(self, over=None):
        """Registers a set of settings: the initial configurations with (L, channel) -> channel overridden. Returns its number."""
        over = over or {}
        v = [None] * self.nq
        for (L, ci), q in self.chanidx.items():
            c = over.get((L, ci), self.loggers[L]["chans"][ci])
            v[q - 1] = {"flt": c["flt"], "devs": [{"able": d["able"], "inp": d["inp"], "flt": d["flt"]} for d in c["devs"] + c.get("alts", [])]}
        for (L, ci, di), q in self.inq.items():
            d = self.loggers[L]["chans"][ci]["devs"][di]
            on, port = over.get((L, ci, di), (False, int(d["udp"].split(":")[1])))
            v[q - 1] = {"flt": conf.flt(), "devs": [{"able": j == di and on, "inp": False, "flt": conf.flt(cb=self.inports[port][1], cn=1)}
                                                    for j in range(len(self.loggers[L]["chans"][ci]["devs"]))]}
        self.vers.append(v)
        return len(self.vers)

    def change(self, over, cmds, via=()):
        """The settings of some channels ((L, channel) -> channel) change by these commands; via: settings that are in effect
        meanwhile. Returns the commands with their marks."""
        qs = ",".join(str(self.inq[k] if len(k) == 3 else self.chanidx[k]) for k in over)
        o = ["note O:%s:%d" % (qs, self.version({**self.cur, **v})) for v in via]
        self.cur.update(over)
        n = self.version(self.cur)
        return o + ["note O:%s:%d" % (qs, n)] + list(cmds) + ["note P:%s:%d" % (qs, n)]

    # ---- commands
    def ent(self, L, ch, pri, ca=0, idn=0, ln=0, vdev=0, sid=None):
        if sid is None:
            self.nid += 1
            sid = self.nid
        self.ents.append({"id": sid, "c": self.chanidx.get((L, ch), self.chanidx.get((99, 0), 0)), "pri": pri, "ca": ca, "idn": idn, "len": ln, "trans": 1 if vdev == 3 else 0})
        k = len(self.ents)
        self.byid.setdefault(sid, {})[self.ents[-1]["c"]] = k
        return sid

    def size(self, rng, sid):
        r = rng.random()
        lo = len("#%d:" % sid)
        if r < 0.5: return rng.randrange(lo + 4, 60)
        if r < 0.8: return rng.randrange(60, 300)
        if r < 0.9: return rng.choice([LOGSZ - 4, LOGSZ - 3, LOGSZ - 2, LOGSZ - 1, LOGSZ, LOGSZ + 1, LOGSZ + 300, 3000])
        return rng.randrange(300, LOGSZ + 40)

    def log(self, L, ch, pri, ca=0, idn=0, size=40, pieces=2, vdev=0):
        self.nid += 1
        sid = self.nid
        size = max(size, len("#%d:" % sid) + 3)
        self.ent(L, ch, pri, ca, idn, min(size, LOGSZ - 2) + 1, vdev, sid)
        return "log %d %d %d %d %d %d 0 %d %d" % (sid, L, ch, pri, ca, idn, size, pieces)

    def open(self, h, L, ch, pri, ca=0, idn=0, size=40, vdev=0):
        """Commands open, put, close of a statement with handle h."""
        self.nid += 1
        sid = self.nid
        size = max(size, len("#%d:" % sid) + 3)
        self.ent(L, ch, pri, ca, idn, min(size, LOGSZ - 2) + 1, vdev, sid)
        return ("open %d %d %d %d %d %d %d 0" % (h, sid, L, ch, pri, ca, idn), "put %d %d 2" % (h, size), "close %d" % h)

    def datagram(self, port, text, sids=()):
        """Command that injects a datagram; with it the lines sids (of at most its own device) are complete."""
        b = "dg%d" % len(self.blobs)
        self.blobs[b] = text
        self.dgrams[b] = list(sids)
        return "udpin 127.0.0.1 %d %s" % (port, b)

    def dgram_ent(self, port, line, sid=None):
        """Entry for a line that a datagram brings to an input device."""
        dv, ca = self.inports[port]
        if sid is None:
            self.nid += 1
            sid = self.nid
            line = "#%d:" % sid + line
            self.blobs["line%d" % sid] = line[:LOGSZ - 2] + "\n"
        self.ents.append({"id": sid, "c": self.inq[dv], "pri": 2, "ca": ca, "idn": 0, "len": len(line) + 1, "trans": 0, "dg": 1})
        self.byid.setdefault(sid, {})[self.inq[dv]] = len(self.ents)
        return sid, line

    def transmit_ent(self, sid, L, ch, pri, ca, idn, ln):
        """Entry for a log that the hook transmits to another channel."""
        self.ent(L, ch, pri, ca, idn, ln, 3, sid)

    def phase(self, *threads, crash=None):
        self.phases.append((crash, [list(t) for t in threads]))

    def text(self):
        o = ["S %s" % self.sid]
        o += ["o %s %s" % kv for kv in self.opts.items()]
        o += ["b %s %s" % (k, pct(v)) for k, v in self.blobs.items()]
        o += ["f " + f for f in self.files]
        for crash, ths in self.phases:
            o.append("P" if crash is None else "P %d" % crash)
            for t in ths:
                o.append("T")
                o += t
        o.append("E")
        return "\n".join(o) + "\n"

    # ---- numbers: TLC knows 32 bits; wide values are clusters of neighbours, mapped in order
    @staticmethod
    def num(v):
        for n, b in enumerate(WIDE):
            if abs(v - b) < 5000:
                return (n - len(WIDE) // 2) * 100000 + (v - b)
        raise ValueError(v)

    def numf(self, f):
        o = dict(f)
        for b, n in (("cb", "cn"), ("ib", "in")):
            o[b] = self.num(f[b])
            o[n] = min(f[n], 0) if f[n] <= 0 else self.num(f[b] + f[n]) - o[b]
        return o

    def numver(self, v):
        return [{"flt": self.numf(c["flt"]), "devs": [{"able": d["able"], "inp": d["inp"], "flt": self.numf(d["flt"])} for d in c["devs"]]} for c in v]

    # ---- conversion
    def trace(self, rec):
        """The recorded execution as input of FnLogTrace; also a quick opinion whether it looks unusual (0: usual)."""
        seen = self.seen + [o for o, q in self.screens] + [o for o, q, p in self.udps]
        sent = {p: [] for o, q, p in self.udps}
        q_of_seen = [self.outs[o - 1][0] for o in seen]
        nent = len(self.ents)
        acc = [0] * nent
        ev = []
        odd = 0
        trans = False
        calls, inited, thread = {}, set(), {}
        for e in rec["ev"]:
            if e["e"] == "R":
                calls[e["n"]] = e
            elif e["e"] == "B":
                thread[e["id"]] = e["t"]
        final = [[] for _ in seen]
        def num(i, q):
            return i if i < 0 else self.byid.get(i, {}).get(q, 0) if i else 0
        mainent = {}
        for k, e in enumerate(self.ents):
            mainent.setdefault(e["id"], k + 1)
        for e in rec["ev"]:
            t = e["e"]
            if t in "BZE" and "id" in e:
                ev.append([t, mainent[e["id"]]])
            elif t == "A":
                acc[mainent[e["id"]] - 1] = e["acc"]
                ev.append(["A", mainent[e["id"]], e["acc"]])
            elif t == "C":
                r = calls.get(e["n"])
                ok = 1 if r and r["r"] == 0 else 0
                bad = 1 if e.get("b", "").startswith("bad") or (r and e["op"] in ("parse", "load", "start") and not ok and r["w"] - e["w"] >= 900) else 0
                if e["op"] == "start" and e["L"] not in inited:
                    bad = 1         # nothing to start
                kind = "del" if e["op"] == "del" else "stop" if e["op"] == "stop" else "load"
                ev.append(["C", e["n"], e["L"], kind, ok, bad])
            elif t == "R":
                if e["r"] == 0 and e["op"] in ("load", "parse", "init", "initf"):
                    inited.add(e["L"])
                ev.append(["R", e["n"]])
            elif t == "S":
                s = [[num(i, q_of_seen[j]) for i in f] for j, f in enumerate(e["f"])]
                if self.screens:
                    qs = {q: n for n, (o, q) in enumerate(self.screens)}
                    scr = [[] for _ in self.screens]
                    w = []
                    for i, col, closed in e["o"]:
                        k = [self.byid[i][q] for q in self.byid.get(i, {}) if q in qs] if i > 0 else []
                        k = k[0] if len(k) == 1 else 0
                        w.append([k, col, closed])
                        if k:
                            scr[qs[self.ents[k - 1]["c"]]].append(k)
                    s = s + scr
                    ev.append(["W", w])
                s = s + [[num(i, q) for i in sent[p]] for o, q, p in self.udps]
                final = s
                ev.append(["S", s])
            elif t == "U":
                to = "%s:%d" % (e["ip"], e["port"])
                if sent: sent.get(to, sent[min(sent)]).append(e["id"] if to in sent else 0)
                k = self.byid.get(e["id"], {}).get(self.inq.get(self.inports.get(e["port"], (0, 0))[0], -1), 0)
                if k:
                    acc[k - 1] = e["rcv"]
                    ev += [["B", k], ["A", k, e["rcv"]], ["Z", k], ["E", k]]
            elif t == "V":
                for sid in self.dgrams[e["b"]]:
                    k = self.byid[sid][self.inq[self.inports[e["port"]][0]]]
                    acc[k - 1] = e["n"]
                    ev += [["B", k], ["A", k, e["n"]], ["Z", k], ["E", k]]
            elif t == "I":
                ev.append(["I", e["us"]])
            elif t == "K":
                ev.append(["K", e["L"], e["c"]])
            elif t == "H":
                k = self.byid.get(e["id"], {}).get(self.chanidx.get((self.meta.get("hook_logger", 0), e["ch"]), -1), 0)
                ev.append(["H", k, e["pr"], self.num(e["ca"]), self.num(e["idn"]), 1 if e["z"] and thread.get(e["id"]) == e["t"] else 0])
                for (L, ch, ca, idn) in self.hooktrans if trans else ():
                    k2 = self.byid.get(e["id"], {}).get(self.chanidx.get((L, ch), -1), 0)
                    if k2 and k2 != k:
                        ev.append(["B", k2])
            elif t == "T":
                q2 = self.chanidx.get((self.meta.get("hook_logger", 0), e["to"]), -1)
                k2 = self.byid.get(e["id"], {}).get(q2, 0)
                if k2 and self.ents[k2 - 1]["trans"]:
                    ev.append(["T", k2])
            elif t == "X" and e["a"][0] == "hook":
                trans = e["a"][1] == "trans"
                ev.append(["M", 0 if e["a"][1] == "off" else 1])
            elif t == "X" and e["a"][0] == "note":
                w = e["a"][1].split(":")
                if w[0] in "OP":
                    ev.append([w[0], [int(x) for x in w[1].split(",")], int(w[2])])
            elif t == "END":
                if e["why"] != "ok":
                    odd += 10
                    ev.append(["BROKEN", e["why"]])
                else:
                    ev.append(["END"])
        # where every entry finally is (first occurrence)
        pos = [[] for _ in range(nent)]
        for j, f in enumerate(final):
            for i, k in enumerate(f):
                if k > 0:
                    if any(p[0] == seen[j] for p in pos[k - 1]):
                        odd += 5
                    else:
                        pos[k - 1].append([seen[j], i + 1])
                else:
                    odd += 5
        odd += self.unusual(rec, acc, final)
        # the life of a transmitted log; whether it was accepted is for the specification to tell
        ev2 = []
        for x in ev:
            ev2 += [["A", x[1], 2], ["Z", x[1]], ["E", x[1]]] if x[0] == "T" else [x]
        return {"id": rec["id"], "cfg": {
            "chan": [{"L": k[0], "ch": k[1], "sync": self.loggers[k[0]]["chans"][k[1]]["sync"] and len(k) == 2, "inp": len(k) == 3,
                      "kinds": ["file" if len(k) == 3 and d["kind"] == "udpin" else d["kind"]
                                for d in self.loggers[k[0]]["chans"][k[1]]["devs"] + self.loggers[k[0]]["chans"][k[1]].get("alts", [])]}
                     for k, q in sorted(list(self.chanidx.items()) + list(self.inq.items()), key=lambda x: x[1])],
            "ver": [self.numver(v) for v in self.vers], "outs": [list(o) for o in self.outs],
            "ent": [{"c": e["c"], "pri": e["pri"], "ca": self.num(e["ca"]), "idn": self.num(e["idn"]), "len": e["len"]} for e in self.ents]},
            "loggers": sorted(self.loggers), "seen": seen, "acc": acc, "pos": pos, "trans": [e["trans"] for e in self.ents], "dg": [e.get("dg", 0) for e in self.ents],
            "flen": [len(f) for f in final], "ev": ev2}, odd

    def unusual(self, rec, acc, final):
        """How unusual an execution looks. Only decides which executions are judged first."""
        odd = 0
        seen = self.seen + [o for o, q in self.screens] + [o for o, q, p in self.udps]
        qof = dict(list(self.chanidx.items()) + list(self.inq.items()))
        final = [[self.ents[k - 1]["id"] if k > 0 else k for k in f] for f in final]
        begun, ended, order = {}, {}, []
        for n, e in enumerate(rec["ev"]):
            if e["e"] == "B": begun[e["id"]] = n
            elif e["e"] == "E" and "id" in e: ended[e["id"]] = n
        # entries that overlap a life cycle call that succeeds (or with the logger off)
        ok = {e["n"] for e in rec["ev"] if e["e"] == "R" and e["r"] == 0}
        cs, spans = {}, {L: [] for L in self.loggers}
        offs = {L: 0 for L in self.loggers}
        for n, e in enumerate(rec["ev"]):
            if e["e"] == "C" and e["n"] in ok:
                cs[e["n"]] = n
                if e["op"] in ("load", "parse", "start"):
                    spans[e["L"]].append((offs[e["L"]], 1 << 60, e["n"]))
            elif e["e"] == "R" and e["n"] in ok:
                if e["op"] in ("load", "parse", "start"):
                    spans[e["L"]] = [(a, n if c == e["n"] else b, c) for a, b, c in spans[e["L"]]]
                else:
                    offs[e["L"]] = cs[e["n"]]
                    spans[e["L"]].append((cs[e["n"]], n, 0))
        for L in spans:
            if not any(x[2] and x[0] >= offs[L] for x in spans[L]): spans[L].append((offs[L], 1 << 60, 0))
        def edgy(e):
            if not e["c"]: return True
            L = [x for x, q in qof.items() if q == e["c"]][0][0]
            a, b = begun.get(e["id"], 0), ended.get(e["id"], 1 << 60)
            return any(a <= y and x <= b for x, y, _ in spans[L])
        calm = {e["id"] for e in self.ents if not edgy(e)}
        v = self.vers[0]
        for k, e in enumerate(self.ents):
            if not e["c"]:
                continue
            st = v[e["c"] - 1]
            adm = conf.admits(st["flt"], e["pri"], e["ca"], e["idn"])
            if acc[k] and not adm and len(self.vers) == 1:
                odd += 4
            if acc[k]:
                for j, f in enumerate(final):
                    o = self.outs[seen[j] - 1]
                    if o[0] != e["c"]: continue
                    d = st["devs"][o[1] - 1]
                    want = d["able"] and not d["inp"] and conf.admits(d["flt"], e["pri"], e["ca"], e["idn"])
                    if want != (e["id"] in f) and (not want or e["id"] in calm):
                        odd += 2 if want else 4
        for j, f in enumerate(final):
            c = self.outs[seen[j] - 1][0]
            last = -1       # latest begin so far
            L, ch = [x for x, q in qof.items() if q == c][0][:2]
            if self.loggers[L]["chans"][ch]["sync"]: continue
            for i in f:
                if i in ended and ended[i] < last: odd += 4
                last = max(last, begun.get(i, -1))
        # after a rest or a stop everything that was accepted is visible; counters
        done, off, busy = set(), {}, 0
        prev = None
        syncs = {e["id"] for e in self.ents if e["c"] and any(q == e["c"] and self.loggers[L]["chans"][ci]["sync"] for (L, ci), q in self.chanidx.items())}
        edges = {e["c"] for k, e in enumerate(self.ents) if acc[k] and e["id"] not in calm}
        accid = {e["id"] for k, e in enumerate(self.ents) if acc[k]}
        for n, e in enumerate(rec["ev"]):
            t = e["e"]
            if t == "B": busy += 1
            elif t == "E" and "id" in e:
                busy -= 1
                if e["id"] in accid and e["id"] in calm: done.add(e["id"])
            elif t == "A" and not e["acc"] and e["id"] in calm:
                k = [x for x in self.byid.get(e["id"], {}).values()]
                if k and self.ents[k[0] - 1]["c"]:
                    x = self.ents[k[0] - 1]
                    y = v[x["c"] - 1]
                    if conf.admits(y["flt"], x["pri"], x["ca"], x["idn"]) and \
                       any(d["able"] and not d["inp"] and conf.admits(d["flt"], x["pri"], x["ca"], x["idn"]) for d in y["devs"]): odd += 1
            elif t == "S" and prev and (prev["e"] == "I" or prev["e"] == "R" and prev["op"] == "stop" or prev["e"] == "E"):
                for j, f in enumerate(e["f"]):      # files only
                    if prev["e"] == "R" and not any(q == self.outs[seen[j] - 1][0] and L == prev["L"] for (L, ci), q in self.chanidx.items()): continue
                    fin = [i for i in final[j] if i in done]
                    if prev["e"] == "E":
                        if prev.get("id") in fin and prev["id"] not in f and prev["id"] in syncs: odd += 1
                    elif len([i for i in f if i in done]) < len(fin): odd += 2
            elif t == "K" and busy == 0:
                for (L, ci), q in self.chanidx.items():
                    if L == e["L"] and ci < len(e["c"]) and q not in edges and prev and prev["e"] in "IS":
                        r = e["c"][ci]
                        mine = [x for x in self.ents if x["c"] == q and x["id"] in done]
                        if not (r["hold"] == r["push"] == r["proc"] == len(mine)) or r["pbytes"] != sum(x["len"] for x in mine) or sum(r["pri"]) != r["pbytes"]: odd += 1
                        for d in r["d"]:
                            if d["byte"] != sum(d["pri"]): odd += 1
            if t not in ("X",): prev = e
        return odd
