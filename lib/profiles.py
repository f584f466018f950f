"""Random scenarios for the concurrent properties. Every function takes (rng, sid) and returns a conc.Scn."""
import copy
import conf, conc
from conf import flt, dev, chan, lgr
from fnlib import LOGSZ

def sched(rng):
    o = {"seed": rng.randrange(1, 1 << 30), "strat": rng.choice([0, 0, 1, 2, 2]), "p_switch": rng.choice([30, 100, 300, 600]),
         "p_plain": rng.choice([0, 50, 150]), "pct": rng.randrange(2, 7), "est": rng.choice([500, 1500, 3000, 6000]),
         "stalls": rng.randrange(1, 6), "stall_steps": rng.choice([50, 300, 1500]), "stall_us": rng.choice([20000, 200000, 900000])}
    if rng.random() < 0.3:
        o["p_early"] = rng.choice([5, 40])
    return o

PRIS = [2, 3, 4, 2, 6, 0, 1, 5]
def some_flt(rng, strength=0.5):
    r = rng.random()
    if r > strength:
        return flt()
    k = rng.randrange(7)
    if k == 0: return flt(pri=rng.randrange(1, 5))
    if k == 1: return flt(cb=rng.randrange(0, 3), cn=rng.randrange(1, 3))
    if k == 2: return flt(cm=sorted(rng.sample(range(6), rng.randrange(1, 4))))
    if k == 3: return flt(ib=rng.randrange(0, 3), inn=rng.randrange(1, 3))
    if k == 4: return flt(im=sorted(rng.sample(range(6), rng.randrange(1, 4))))
    if k == 5: return flt(pri=rng.randrange(0, 4), cm=[0, 1, 2], ib=0, inn=3)
    return flt(pri=3, cb=0, cn=3)

def rand_chan(rng, tag, sync=False, maxdev=3, strength=0.5, kinds=("file",)):
    n = rng.randrange(1, maxdev + 1)
    devs = []
    for d in range(n):
        k = rng.choice(kinds)
        f = some_flt(rng, strength if d else strength * 0.3)
        devs.append(dev(k, f=f, file="%s%d" % (tag, d), able=rng.random() > 0.12 or n == 1))
    return chan(devs, sync, some_flt(rng, 0.25))

def attrs(rng):
    return rng.choice(PRIS), rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 1, 2, 3])

def rlog(s, rng, L, ch):
    p, c, i = attrs(rng)
    sz = s.size(rng, s.nid + 1) if rng.random() < 0.4 else rng.randrange(12, 60)
    return s.log(L, ch, p, c, i, sz, rng.randrange(1, 4))

def snaps(rng, n):
    o = []
    for _ in range(n):
        o += ["yield %d" % rng.randrange(1, 120), "snap"]
    return o

def weave_open(s, rng, L, ch, th, h):
    """Adds a statement that stays open over some other commands of the thread. Meanwhile the thread logs only on later
    channels: a thread that waits for a queue which its own unfinished statement keeps full would wait forever."""
    p, c, i = attrs(rng)
    o, m, cl = s.open(h, L, ch, p, c, i, rng.randrange(14, 200))
    pos = end = rng.randrange(0, len(th) + 1)
    stop = min(len(th), pos + 4)
    while end < stop:
        w = th[end].split()
        if w[0] == "log" and (int(w[2]), int(w[3])) <= (L, ch) or w[0] in ("open", "load", "parse", "start", "stop", "del"):
            break
        end += 1
    if end == pos or rng.random() < 0.3:
        th[pos:pos] = [rng.choice(["yield %d" % rng.randrange(1, 60), "sleep %d" % rng.choice([1000, 20000, 200000])])]
        end = pos + 1
    th[end:end] = [cl]
    th[pos:pos] = [o, m]

def basic(rng, sid, nth=None, nlog=None, opens=True, finish=True):
    s = conc.Scn(sid, **sched(rng))
    nch = rng.choice([1, 1, 2])
    cn = s.logger(0, lgr([rand_chan(rng, "c%d" % c) for c in range(nch)]))
    s.version()
    s.phase(["new 0", "parse 0 " + cn])
    ths = []
    for t in range(nth or rng.randrange(2, 6)):
        th = [rlog(s, rng, 0, rng.randrange(nch)) for _ in range(nlog or rng.randrange(3, 11))]
        if opens and rng.random() < 0.4:
            weave_open(s, rng, 0, rng.randrange(nch), th, t)
        if rng.random() < 0.3:
            th.insert(rng.randrange(len(th)), "sleep %d" % rng.choice([1000, 15000, 120000]))
        ths.append(th)
    if rng.random() < 0.7:
        ths.append(snaps(rng, rng.randrange(1, 4)))
    s.phase(*ths)
    if finish:
        end = ["idle 3000000", "snap"] if rng.random() < 0.6 else []
        if rng.random() < 0.5 and end:
            end += ["cnt 0"]
        s.phase(end + ["stop 0", "snap", "cnt 0"] + (["del 0", "snap"] if rng.random() < 0.2 else []))
    return s

def broken(rng, sid):
    """Several threads and channels; some devices can never open or never write their file, or only sometimes."""
    s = conc.Scn(sid, **sched(rng))
    nch = rng.choice([1, 2, 2])
    pre = ["mkdir bad", "mkdir bad/dir.log", "ln /dev/full bad/full.log"]
    s.blobs["none"] = ""
    pre.append("wf bad/obst none")
    chans = []
    for c in range(nch):
        ch = rand_chan(rng, "c%d" % c, sync=rng.random() < 0.25, maxdev=2)
        for _ in range(rng.choice([1, 1, 2])):
            b = dev("file", f=some_flt(rng, 0.2), path=rng.choice(["bad/obst", "bad", "bad", "bad/obst/deep", "bad/some"]), file=rng.choice(["dir", "full"]))
            b["broken"] = True
            ch["devs"].insert(rng.randrange(len(ch["devs"]) + 1), b)
        chans.append(ch)
    cn = s.logger(0, lgr(chans))
    s.version()
    if rng.random() < 0.5: s.opts["unbuf"] = 1
    if rng.random() < 0.5: pre.append("fault fopen bad/some %d %d 28" % (rng.randrange(3), rng.randrange(1, 4)))
    if rng.random() < 0.5: pre.append("fault fwrite bad/some %d %d 28" % (rng.randrange(3), rng.randrange(1, 4)))
    s.phase(pre + ["new 0", "parse 0 " + cn])
    async_ = [c for c in range(nch) if not chans[c]["sync"]]
    ths = []
    for t in range(rng.randrange(2, 5)):
        th = []
        for _ in range(rng.randrange(3, 12)):
            c = rng.randrange(nch)
            if c in async_ or t == 0: th.append(rlog(s, rng, 0, c))
            if rng.random() < 0.15: th.append("sleep %d" % rng.choice([20000, 1000000, 6000000]))
        ths.append(th)
    if rng.random() < 0.5: ths.append(snaps(rng, 3))
    if rng.random() < 0.3: ths.append(["sleep %d" % rng.choice([1000, 50000]), "stop 0", "snap"])
    s.phase(*ths)
    s.phase(["idle 3000000", "snap", "stop 0", "snap"] if "stop 0" not in ths[-1] else ["snap"])
    return s

def full(rng, sid):
    """The queue is full for long: unfinished statements hold its places, many threads wait; sometimes the logger is stopped meanwhile."""
    s = conc.Scn(sid, **sched(rng))
    cn = s.logger(0, lgr([chan([dev(file="a"), dev(file="b", f=flt(pri=4))])]))
    s.version()
    s.phase(["new 0", "parse 0 " + cn])
    nop = rng.randrange(1, 11)
    holder, closes = [], []
    for h in range(nop):
        p, c, i = attrs(rng)
        o, m, cl = s.open(h, 0, 0, p, c, i, rng.randrange(14, 300))
        holder += [o, m]
        closes.append(cl)
    rng.shuffle(closes)
    s.phase(holder)
    holder = ["sleep %d" % rng.choice([0, 5000, 200000, 200000, 1500000, 7000000, 70000000])]
    for cl in closes:
        holder.append(cl)
        if rng.random() < 0.2:
            holder.append("sleep %d" % rng.choice([1000, 30000, 30000, 3000000]))
    ths = [holder]
    for t in range(rng.randrange(1, 5)):
        pre = ["sleep %d" % rng.choice([0, 0, 1000])] if rng.random() < 0.5 else []
        ths.append(pre + [rlog(s, rng, 0, 0) for _ in range(rng.randrange(4, 16))])
    if rng.random() < 0.35:
        ths.append(["sleep %d" % rng.choice([1000, 30000, 300000]), "yield %d" % rng.randrange(1, 200), "stop 0", "snap"])
        s.phase(*ths)
        s.phase(["snap"])
        return s
    if rng.random() < 0.5:
        ths.append(snaps(rng, 2))
    s.phase(*ths)
    s.phase((["idle 3000000", "snap", "cnt 0"] if rng.random() < 0.5 else []) + ["stop 0", "snap", "cnt 0"])
    return s

def stop(rng, sid):
    """Stop while other threads log and hold unfinished statements; afterwards logging is refused; maybe a new session."""
    s = conc.Scn(sid, **sched(rng))
    nch = rng.choice([1, 1, 2])
    cn = s.logger(0, lgr([rand_chan(rng, "c%d" % c, strength=0.3) for c in range(nch)]))
    s.version()
    s.phase(["new 0", "parse 0 " + cn])
    for sess in range(rng.choice([1, 1, 2])):
        if sess:
            s.phase(["start 0" if rng.random() < 0.5 else "parse 0 " + cn])
        ths = []
        for t in range(rng.randrange(1, 5)):
            th = [rlog(s, rng, 0, rng.randrange(nch)) for _ in range(rng.randrange(2, 9))]
            if rng.random() < 0.6:
                weave_open(s, rng, 0, rng.randrange(nch), th, t)
            ths.append(th)
        st = ["yield %d" % rng.randrange(1, 400)] if rng.random() < 0.7 else ["sleep %d" % rng.choice([1000, 12000, 30000])]
        own = [rlog(s, rng, 0, rng.randrange(nch)) for _ in range(rng.randrange(0, 6))]
        st += own + ["stop 0", "snap"] + [rlog(s, rng, 0, rng.randrange(nch)) for _ in range(rng.randrange(0, 3))] + ["snap"]
        ths.append(st)
        s.phase(*ths)
        s.phase(["snap", rlog(s, rng, 0, 0), "idle 3000000", "snap", "cnt 0"])
    return s

def sync1(rng, sid):
    """A synchronous channel used by one thread each, another thread watches the files."""
    s = conc.Scn(sid, **sched(rng))
    nch = rng.choice([1, 2])
    cn = s.logger(0, lgr([rand_chan(rng, "c%d" % c, sync=True) for c in range(nch)]))
    s.version()
    s.phase(["new 0", "parse 0 " + cn])
    ths = []
    for c in range(nch):
        th = []
        for _ in range(rng.randrange(3, 9)):
            th.append(rlog(s, rng, 0, c))
            if rng.random() < 0.5:
                th.append("snap")
        ths.append(th)
    if rng.random() < 0.6:
        ths.append(snaps(rng, 3))
    s.phase(*ths)
    s.phase(["snap", "cnt 0", "stop 0", "snap", "cnt 0"])
    return s

def stopsync(rng, sid):
    """A synchronous channel used by one thread, another thread stops the logger, maybe it is started again."""
    s = conc.Scn(sid, **sched(rng))
    nch = rng.choice([1, 2])
    cn = s.logger(0, lgr([rand_chan(rng, "c%d" % c, sync=(c == 0), strength=0.3) for c in range(nch)]))
    s.version()
    s.phase(["new 0", "parse 0 " + cn])
    for sess in range(rng.choice([1, 2])):
        if sess:
            s.phase(["start 0" if rng.random() < 0.5 else "parse 0 " + cn])
        ths = [[x for _ in range(rng.randrange(2, 9)) for x in ([rlog(s, rng, 0, c)] + (["snap"] if rng.random() < 0.3 else []))] for c in range(nch)]
        ths.append(["yield %d" % rng.randrange(1, 300), "stop 0", "snap"])
        s.phase(*ths)
        s.phase(["snap", rlog(s, rng, 0, 0), "snap", "cnt 0"])
    return s

def syncn(rng, sid):
    """A synchronous channel shared by several threads."""
    s = conc.Scn(sid, **sched(rng))
    nch = rng.choice([1, 1, 2])
    cn = s.logger(0, lgr([rand_chan(rng, "c%d" % c, sync=(c == 0 or rng.random() < 0.5)) for c in range(nch)]))
    s.version()
    s.phase(["new 0", "parse 0 " + cn])
    ths = []
    for t in range(rng.randrange(2, 5)):
        ths.append([rlog(s, rng, 0, rng.randrange(nch)) for _ in range(rng.randrange(3, 9))])
    if rng.random() < 0.5:
        ths.append(snaps(rng, 2))
    s.phase(*ths)
    s.phase(["idle 3000000", "snap", "cnt 0", "stop 0", "snap", "cnt 0"])
    return s

def idle(rng, sid):
    """Bursts of any length, then silence: everything must become visible."""
    s = conc.Scn(sid, **sched(rng))
    nch = rng.choice([1, 2])
    cur = [rand_chan(rng, "c%d" % c, strength=0.3) for c in range(nch)]
    cn = s.logger(0, lgr(copy.deepcopy(cur)))
    toggle = rng.random() < 0.4         # devices are switched off and on meanwhile
    s.version()
    s.phase(["new 0", "parse 0 " + cn])
    for b in range(rng.randrange(1, 4)):
        ths = []
        for t in range(rng.choice([1, 1, 2, 3])):
            th = [rlog(s, rng, 0, rng.randrange(nch)) for _ in range(rng.choice([1, 2, 3, 5, 9, 10, 11, 12, 20]))]
            if rng.random() < 0.3:
                weave_open(s, rng, 0, rng.randrange(nch), th, t)
            if rng.random() < 0.3:
                th.insert(rng.randrange(len(th)), "sleep %d" % rng.choice([1000, 15000, 120000]))
            ths.append(th)
        if rng.random() < 0.4:
            ths.append(snaps(rng, 2))
        if toggle:
            th = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                th += [rng.choice(["yield %d" % rng.randrange(1, 60), "sleep %d" % rng.choice([100, 1000, 10000, 100000])])]
                c = rng.randrange(nch)
                d = rng.randrange(len(cur[c]["devs"]))
                cur[c]["devs"][d]["able"] = not cur[c]["devs"][d]["able"]
                th += s.change({(0, c): copy.deepcopy(cur[c])}, ["setd 0 %d %d 0 %d" % (c, d, cur[c]["devs"][d]["able"])])
            ths.append(th)
        s.phase(*ths)
        s.phase(["idle 3000000", "snap"])
    s.phase(["stop 0", "snap"])
    return s

BAD = ["- channel: 0\n  sync: async\n  -device: 0\n      bogus: 1\n", "xx: 1\n", "- channel: 1\n", ""]
def life(rng, sid):
    """Life cycle calls by several threads, with logging, configuration access and pending configuration updates."""
    s = conc.Scn(sid, **dict(sched(rng), p_born=rng.choice([0, 0, 0, 300, 700])))
    nch = rng.choice([1, 1, 2])
    hot = rng.random() < 0.4
    l = lgr([rand_chan(rng, "c%d" % c, strength=0.2, sync=False) for c in range(nch)], hot=hot)
    cn = s.logger(0, l)
    s.version()
    bad = ["bad%d" % i for i in range(len(BAD))]
    for n, t in zip(bad, BAD):
        s.blobs[n] = t
    s.phase(["new 0", "wf cfg.yaml " + cn])
    if rng.random() < 0.5:
        s.phase(["load 0 cfg.yaml" if rng.random() < 0.7 else "parse 0 " + cn])
    ths = []
    for t in range(rng.randrange(1, 4)):
        th = []
        for _ in range(rng.randrange(1, 5)):
            r = rng.random()
            if r < 0.3: th.append("load 0 cfg.yaml")
            elif r < 0.45: th.append("parse 0 " + cn)
            elif r < 0.55: th.append("parse 0 " + rng.choice(bad))
            elif r < 0.62: th.append("start 0")
            else: th.append("stop 0")
            if rng.random() < 0.3: th.append("yield %d" % rng.randrange(1, 100))
            if rng.random() < 0.15: th.append("sleep %d" % rng.choice([1000, 20000, 6000000]))
            if rng.random() < 0.3: th.append(rlog(s, rng, 0, rng.randrange(nch)))
        ths.append(th)
    for t in range(rng.randrange(0, 3)):
        th = [rlog(s, rng, 0, rng.randrange(nch)) for _ in range(rng.randrange(1, 7))]
        if rng.random() < 0.4:
            weave_open(s, rng, 0, rng.randrange(nch), th, t)
        if rng.random() < 0.4:
            th.insert(rng.randrange(len(th)), "getc 0 0 %d" % rng.randrange(0, 3))
        if rng.random() < 0.3:
            th.insert(rng.randrange(len(th)), "gdc 0 0 0 1")
        ths.append(th)
    if hot and rng.random() < 0.8:
        ths.append(["sleep %d" % rng.choice([0, 1000, 30000]), "wf cfg.yaml %s %d" % (cn, rng.randrange(1, 5)),
                    "sleep 5500000", "wf cfg.yaml %s %d" % (cn, rng.randrange(5, 9))])
    s.phase(*ths)
    # afterwards: a defined end. the logger may be on or off
    s.phase(["snap", "load 0 cfg.yaml", rlog(s, rng, 0, 0), rlog(s, rng, 0, nch - 1), "idle 3000000", "snap", "cnt 0", "stop 0", "snap",
             rlog(s, rng, 0, 0), "stop 0", "parse 0 " + cn, rlog(s, rng, 0, 0), "idle 3000000", "snap", "stop 0", "snap"]
            + (["del 0"] if rng.random() < 0.5 else []))
    return s

def multi(rng, sid):
    """Several loggers, several channels; one is stopped, destroyed, blocked or reconfigured while the others log."""
    s = conc.Scn(sid, **sched(rng))
    nl = rng.choice([2, 2, 3])
    cns = {}
    chs = {}
    for L in range(nl):
        n = rng.choice([1, 2])
        chs[L] = n
        cns[L] = s.logger(L, lgr([rand_chan(rng, "l%dc%d" % (L, c), strength=0.2, maxdev=2, sync=rng.random() < 0.2) for c in range(n)]))
    s.version()
    s.phase(["new %d" % L for L in range(nl)] + ["parse %d %s" % (L, cns[L]) for L in range(nl)])
    ths = []
    used = {}
    for t in range(rng.randrange(2, 5)):
        th = []
        for _ in range(rng.randrange(3, 10)):
            L = rng.randrange(nl)
            c = rng.randrange(chs[L])
            if s.loggers[L]["chans"][c]["sync"] and used.setdefault((L, c), t) != t:
                continue
            th.append(rlog(s, rng, L, c))
        if not th:
            th = ["yield 3"]
        if rng.random() < 0.5:
            L = rng.randrange(nl)
            c = rng.randrange(chs[L])
            if not s.loggers[L]["chans"][c]["sync"]:
                weave_open(s, rng, L, c, th, t)
        ths.append(th)
    st = []
    for _ in range(rng.randrange(1, 4)):
        L = rng.randrange(nl)
        st += ["yield %d" % rng.randrange(1, 200), "stop %d" % L, "snap"]
        if rng.random() < 0.6:
            st += ["parse %d %s" % (L, cns[L])]
    ths.append(st)
    s.phase(*ths)
    s.phase(["idle 3000000", "snap"] + ["cnt %d" % L for L in range(nl)] + ["del 0", "snap", rlog(s, rng, 1, 0), "idle 3000000", "snap"] +
            ["stop %d" % L for L in range(1, nl)] + ["snap"])
    return s
