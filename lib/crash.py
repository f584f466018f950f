"""Processes that die at any point, with the queues in shared memory (C12): scenarios and their traces for FnShmTrace."""
import conf, conc
from conf import flt, dev, chan, lgr
from profiles import sched, some_flt

ANON = -1000000

class CScn(conc.Scn):
    def trace(self, rec):
        nent = len(self.ents)
        ev, lim, final, acc, odd = [], [], [[] for _ in self.seen], [0] * nent, 0
        calls = {e["n"]: e for e in rec["ev"] if e["e"] == "R"}
        main = {}
        for k, e in enumerate(self.ents): main[e["id"]] = k + 1
        after, cut = False, None
        def num(i, o):
            q = self.outs[o - 1][0]
            own = lambda k: k if k and self.ents[k - 1]["c"] == q else 0
            if i == -1: return 0                      # an unterminated line: cannot be
            if i == ANON: return ANON
            if i < 0: return -own(main.get(ANON - i, 0)) or 0
            return own(main.get(i, 0))
        for e in rec["ev"]:
            t = e["e"]
            if t in "BZE" and "id" in e: ev.append([t, main[e["id"]]])
            elif t == "A":
                acc[main[e["id"]] - 1] = e["acc"]
                ev.append(["A", main[e["id"]], e["acc"]])
            elif t == "C":
                r = calls.get(e["n"])
                # a start gives up when its threads do not get going for a second: what follows is not checked
                if r and r["r"] and e["op"] in ("load", "start") and r["w"] - e["w"] >= 900: cut = len(ev)
                kind = {"load": "start", "parse": "start", "start": "start", "stop": "stop"}.get(e["op"], "del")
                ev.append(["C", kind, 1 if not r or r["r"] == 0 else 0])
                if r and r["r"]: odd += 5
            elif t == "R": ev.append(["R"])
            elif t == "I": ev.append(["I", e["us"]])
            elif t == "CRASH":
                ev.append(["X"])
                after = True
            elif t == "S":
                final = [[num(i, self.seen[j]) for i in f] for j, f in enumerate(e["f"])]
                if after: lim.append([len(f) for f in final])
                after = False
                ev.append(["S", final])
            elif t == "END":
                ev.append(["END"] if e["why"] == "ok" else ["BROKEN", e["why"]])
                if e["why"] != "ok": odd += 10
        lim.append([len(f) for f in final])
        if cut is not None: del ev[cut:]
        pos = [[] for _ in range(nent)]
        whole = [0] * nent
        for j, f in enumerate(final):
            rank = []
            for x in f:
                if x == ANON: continue
                k = abs(x)
                if not k:
                    odd += 8
                    continue
                if x > 0: whole[k - 1] = 1
                else: odd += 2
                if k in rank: odd += 2
                else:
                    rank.append(k)
                    pos[k - 1].append([self.seen[j], len(rank)])
        ended = {x[1] for x in ev if x[0] == "E"}
        odd += 4 * sum(1 for k in range(nent) if acc[k] and not whole[k] and k + 1 in ended)
        # crashes that hit a filled queue are the interesting ones
        odd += sum(1 for k in range(nent) if acc[k] and not whole[k])
        for n, x in enumerate(ev):
            if x[0] == "X": odd += sum(1 for j, f in enumerate(final) for y in f[lim[0][j]:lim[0][j] + 6] if y > 0) > 2
        c0 = self.loggers[0]["chans"]
        return {"id": rec["id"], "cfg": {"chan": [{"sync": c["sync"]} for c in c0], "set": self.numver(self.vers[0]), "outs": [list(o) for o in self.outs],
                "ent": [{"c": e["c"], "pri": e["pri"], "ca": e["ca"], "idn": e["idn"]} for e in self.ents]},
                "acc": acc, "pos": pos, "whole": whole, "fin": final, "lim": lim, "ev": ev}, odd

def crash(rng, sid):
    s = CScn(sid, unbuf=1, **sched(rng))
    nch = rng.choice([1, 1, 2])
    chans = []
    for c in range(nch):
        devs = [dev("file", file="c%d0" % c)] + [dev("file", f=some_flt(rng, 0.8), file="c%d%d" % (c, d)) for d in range(1, rng.choice([1, 2, 2, 3]))]
        chans.append(chan(devs, rng.random() < 0.25, some_flt(rng, 0.2)))
    s.logger(0, lgr(chans, shm=rng.randrange(1000, 9999)))
    s.version()
    asyncs = [c for c in range(nch) if not chans[c]["sync"]]
    nh = [0]
    def attrs(): return rng.choice([2, 3, 4, 2, 6, 0, 1, 5]), rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 1, 2, 3])
    def stm(chs):
        c = rng.choice(chs)
        p, ca, idn = attrs()
        if rng.random() < 0.2:
            nh[0] += 1
            o, m, cl = s.open(nh[0], 0, c, p, ca, idn, rng.choice([14, 30, 60, 200, 625, 638, 900]))
            mid = rng.choice([[], ["yield %d" % rng.randrange(1, 60)], ["sleep %d" % rng.choice([1000, 20000])]])
            return [o] + mid + [m] + rng.choice([[], mid]) + [cl]
        return [s.log(0, c, p, ca, idn, rng.choice([12, 20, 30, 60, 200, 635, 640, 700]), rng.randrange(1, 4))]
    def work(n, chs):
        o = []
        for _ in range(n):
            o += stm(chs)
            if rng.random() < 0.15: o += ["sleep %d" % rng.choice([1000, 100000, 400000])]
        return o
    def steps(hi=3000): return int(rng.choice([20, 60, 200, 600, 1200, hi]) * (0.05 + rng.random()))
    boot = ["new 0", "load 0 cfg.yaml"]
    s.phase(["wf cfg.yaml c0 0"])
    text = s.config(0, s.loggers[0])
    s.phases[0][1][0][0] = "wf cfg.yaml %s 0" % text
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        r = rng.random()
        if r < 0.2:
            # dies while it starts (also: while it recovers)
            s.phase(boot + ["crash"], crash=steps(600))
        else:
            s.phase(boot)
            ctl = work(rng.randrange(0, 5), list(range(nch)))
            stops = rng.random() < 0.25     # (alone: what a stop still delivers of logs behind unfinished ones has no place in the queue)
            if stops:
                ctl += ["stop 0"]
                if rng.random() < 0.5: ctl += [rng.choice(["start 0", "load 0 cfg.yaml"])] + work(rng.randrange(0, 4), list(range(nch)))
            ctl += rng.choice([[], ["sleep 1000"], ["sleep 300000"]]) + ["crash"]
            ths = [work(rng.randrange(1, 14), asyncs) for _ in range(rng.choice([0, 1, 2, 3])) if asyncs and not stops]
            s.phase(ctl, *ths, crash=steps())
        s.phase(["snap"])
    s.phase(boot + rng.choice([[], ["idle 3000000", "snap"]]))
    s.phase(work(rng.randrange(0, 5), list(range(nch))), *[work(rng.randrange(1, 14), asyncs) for _ in range(rng.choice([0, 1, 2])) if asyncs])
    fin = ["idle 3000000", "snap"] if rng.random() < 0.5 else []
    fin += ["stop 0", "snap"]
    if rng.random() < 0.3: fin += ["start 0"] + work(3, list(range(nch))) + ["stop 0", "snap"]
    s.phase(fin)
    return s
