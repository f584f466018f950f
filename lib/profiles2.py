"""Scenarios about filters and their changes, the virtual device hook and the screen."""
import copy
import conf, conc
from conf import flt, dev, chan, lgr, mask, signed
from profiles import sched, rlog, attrs, snaps, weave_open

# ------------------------------------------------------------------ filters
CCFG = {"pri": 0, "cb": 1, "cn": 2, "cm": 3, "ib": 4, "in": 5, "im": 6}
DCFG = {k: v + 1 for k, v in CCFG.items()}
BASES = {"narrow": [0, 1, 5, 31, 32, 61], "wide": [0, 3, 63, 64, 200, -5, -1, (1 << 31) - 3]}
WIDEB = [0, 7, -9, 64, (1 << 31) - 2, (1 << 31) + 5, (1 << 32) - 1, (1 << 32), -(1 << 31) - 1, 1 << 40, -(1 << 40) + 2, (1 << 62) + 12345]

def rich_flt(rng, mode, strength):
    f = flt()
    if rng.random() > strength:
        return f
    if rng.random() < 0.3:
        f["pri"] = rng.randrange(0, 7)
    if rng.random() < 0.35:
        f["cb"], f["cn"] = rng.choice(BASES[mode]), rng.choice([1, 1, 2, 3, 10, 0, -1])
    if rng.random() < 0.35:
        f["ib"], f["in"] = rng.choice(BASES["narrow"] if mode == "narrow" else WIDEB), rng.choice([1, 1, 2, 3, 10, 0, -1])
    if mode == "narrow":
        for m in ("cm", "im"):
            r = rng.random()
            if r < 0.25:
                f[m] = sorted(rng.sample([0, 1, 2, 5, 6, 31, 32, 33, 61, 62, 63], rng.randrange(1, 6)))
            elif r < 0.35:
                f[m] = sorted(set(range(64)) - set(rng.sample([0, 1, 5, 31, 32, 61, 62, 63], rng.randrange(1, 4))))
    return f

def near(rng, fs, mode):
    """Attributes of a log close to the boundaries of some filter."""
    f = rng.choice(fs)
    def val(b, n, m):
        r = rng.random()
        if f[m] and r < 0.5:
            v = rng.choice(f[m]) + rng.choice([0, 0, 0, 1, -1])
        elif f[n] > 0 and r < 0.9:
            v = f[b] + rng.choice([-1, 0, 0, f[n] - 1, f[n]])
        else:
            v = rng.choice([0, 1, 2, 63])
        return max(0, min(63, v)) if mode == "narrow" else v
    ca = val("cb", "cn", "cm")
    return max(0, min(6, f["pri"] + rng.choice([-1, 0, 0, 1, 3]))), max(-(1 << 31), min((1 << 31) - 1, ca)), val("ib", "in", "im")

def fval(k, f):
    return signed(mask(f[k])) if k in ("cm", "im") else f[k]

def mutate(rng, f, mode):
    """Another value for one field of a filter."""
    g = dict(f)
    n = rich_flt(rng, mode, 1)
    ks = [k for k in CCFG if n[k] != f[k]]
    if not ks:
        k = "pri"
        g[k] = (f[k] + 1) % 7
    else:
        k = rng.choice(ks)
        g[k] = n[k]
    return g, k

def filt(rng, sid):
    """Logs at the boundaries of all filters; settings are changed in between (and sometimes while others log)."""
    s = conc.Scn(sid, **sched(rng))
    mode = rng.choice(["narrow", "narrow", "wide"])
    nch = rng.choice([1, 1, 2, 3])
    chans = []
    for c in range(nch):
        devs = []
        for d in range(rng.choice([1, 2, 3, 4])):
            devs.append(dev("file", f=rich_flt(rng, mode, 0.75), file="f%d%d" % (c, d), able=rng.random() < 0.85))
        chans.append(chan(devs, rng.random() < 0.4, rich_flt(rng, mode, 0.45)))
    cn = s.logger(0, lgr(copy.deepcopy(chans)))
    s.logger(99, lgr([chan([])]))       # stands for channels that do not exist: a logger that never runs
    s.version()
    cur = copy.deepcopy(chans)
    s.phase(["new 0", "parse 0 " + cn])
    def stm(sync_ok=True):
        cs = [i for i in range(nch) if sync_ok or not cur[i]["sync"]]
        if not cs:
            return "yield 2"
        return stm_on(rng.choice(cs))
    def stm_on(c):
        p, ca, idn = near(rng, [cur[c]["flt"]] + [d["flt"] for d in cur[c]["devs"]], mode)
        return s.log(0, c, p, ca, idn, rng.randrange(12, 50), 1)
    def setter():
        """Commands that change something, with marks."""
        r = rng.random()
        if r < 0.25:
            c = rng.randrange(nch)
            cur[c]["flt"], k = mutate(rng, cur[c]["flt"], mode)
            cmds, chg = ["setc 0 %d %d %d" % (c, CCFG[k], fval(k, cur[c]["flt"]))], [c]
        elif r < 0.55:
            c = rng.randrange(nch)
            d = rng.randrange(len(cur[c]["devs"]))
            dv = cur[c]["devs"][d]
            dv["flt"], k = mutate(rng, dv["flt"], mode)
            cmds, chg = ["setd 0 %d %d %d %d" % (c, d, DCFG[k], fval(k, dv["flt"]))], [c]
        elif r < 0.7:
            c = rng.randrange(nch)
            d = rng.randrange(len(cur[c]["devs"]))
            dv = cur[c]["devs"][d]
            dv["able"] = not dv["able"]
            cmds, chg = ["setd 0 %d %d 0 %d" % (c, d, dv["able"])], [c]
        elif r < 0.78:
            g, k = mutate(rng, cur[0]["flt"], mode)
            for c in cur:
                c["flt"] = dict(c["flt"], **{k: g[k]})
            cmds, chg = ["bsetc 0 %d %d" % (CCFG[k], fval(k, g))], range(nch)
        elif r < 0.84:
            g, k = mutate(rng, cur[0]["devs"][0]["flt"], mode)
            for c in cur:
                for d in c["devs"]:
                    d["flt"] = dict(d["flt"], **{k: g[k]})
            cmds, chg = ["bsetd 0 %d %d %d" % (rng.choice([0, 2]), DCFG[k], fval(k, g))], range(nch)
        elif r < 0.88:
            v = rng.random() < 0.7
            for c in cur:
                for d in c["devs"]:
                    d["able"] = v
            cmds, chg = ["nset 0 0 %d" % v], range(nch)
        elif r < 0.91:
            cmds, chg = [rng.choice(["nset 0 1 0", "nset 0 2 0", "nset 0 5 6", "nset 0 6 6", "nset 0 9 1 1", "nset 0 10 1 1"])], range(nch)     # other kinds of devices
        elif r < 0.95:
            v = rng.randrange(0, 7)
            w = rng.random() < 0.5
            for c in cur:
                if w: c["flt"] = dict(c["flt"], pri=v)
                else:
                    for d in c["devs"]:
                        d["flt"] = dict(d["flt"], pri=v)
            cmds, chg = ["nset 0 %d %d" % (3 if w else 4, v)], range(nch)
        else:
            b, n, w = rng.choice([0, 1, 5, 61]), rng.choice([0, 1, 3]), rng.random() < 0.5
            for c in cur:
                if w: c["flt"] = dict(c["flt"], cb=b, cn=n)
                else:
                    for d in c["devs"]:
                        d["flt"] = dict(d["flt"], cb=b, cn=n)
            cmds, chg = ["nset 0 %d %d %d" % (7 if w else 8, b, n)], range(nch)
        # what was logged before is written first: which settings judge a log that is still queued is not specified
        return ["idle 400000"] + s.change({(0, c): copy.deepcopy(cur[c]) for c in chg}, cmds)
    for ph in range(rng.randrange(1, 4)):
        th = []
        for _ in range(rng.randrange(3, 9)):
            th.append(stm())
            if rng.random() < 0.35:
                if rng.random() < 0.2:
                    # somebody else changes settings while logs of another channel are in progress
                    c = rng.randrange(nch)
                    d = rng.randrange(len(cur[c]["devs"]))
                    oth = [i for i in range(nch) if i != c and not cur[i]["sync"]]
                    dv = cur[c]["devs"][d]
                    dv["flt"], k = mutate(rng, dv["flt"], mode)
                    cmds = s.change({(0, c): copy.deepcopy(cur[c])}, ["setd 0 %d %d %d %d" % (c, d, DCFG[k], fval(k, dv["flt"]))])
                    s.phase(th + ["idle 400000"])
                    s.phase(cmds, *[[stm_on(rng.choice(oth)) for _ in range(3)] for _ in range(2 if oth else 0)])
                    th = []
                    continue
                th += setter()
        if rng.random() < 0.25:
            # somebody else logs as well
            s.phase(th) if any(x.startswith("note") for x in th) else s.phase(th, [stm(False) for _ in range(rng.randrange(2, 6))])
        else:
            s.phase(th)
    if rng.random() < 0.2:
        s.phase([s.log(0, rng.choice([nch, nch + 1, 4, 99, -1]), 6) for _ in range(2)])
    s.phase(["idle 3000000", "snap", "stop 0", "snap"])
    return s

# ------------------------------------------------------------------ virtual devices and transmitted logs
def hook(rng, sid):
    """The hook is installed, sometimes it transmits to other channels."""
    s = conc.Scn(sid, **sched(rng))
    nch = rng.choice([2, 3, 4])
    chans = []
    mode = "narrow"
    virt = {}
    for c in range(nch):
        sync = rng.random() < 0.3
        devs = [dev("file", f=rich_flt(rng, mode, 0.2), file="h%d%d" % (c, d)) for d in range(rng.choice([0, 1, 1, 2]))]
        if rng.random() < 0.75 or not devs:
            virt[c] = len(devs)
            devs.insert(rng.randrange(len(devs) + 1), dev("virtual", f=rich_flt(rng, mode, 0.5), able=rng.random() < 0.85))
        chans.append(chan(devs, sync, rich_flt(rng, mode, 0.25)))
    s.meta["hook_logger"] = 0
    cn = s.logger(0, lgr(chans))
    s.version()
    hooks = "hook rec"
    own = {}
    for c in range(nch):
        own[c] = rng.randrange(6)      # thread that may use the sync channel
    if rng.random() < 0.7:
        # targets: asynchronous channels, or synchronous ones nobody else uses
        tg = rng.sample([c for c in range(nch)], rng.randrange(1, nch))
        s.hooktrans = [(0, c, rng.choice([0, 1, 5, 31, 32, 63]), rng.choice([0, 1, 5, 31, 62])) for c in tg if not chans[c]["sync"]]
        if s.hooktrans:
            hooks = "hook trans " + " ".join("%d %d %d %d" % x for x in s.hooktrans)
    s.phase(["new 0", "parse 0 " + cn] + ([hooks] if rng.random() < 0.9 else []))
    def stm(t, sync_ok=True):
        cs = [c for c in range(nch) if not chans[c]["sync"] or own[c] == t]
        c = rng.choice(cs) if cs else None
        if c is None:
            return "yield 3"
        p, ca, idn = near(rng, [chans[c]["flt"]] + [d["flt"] for d in chans[c]["devs"]], mode)
        size = rng.randrange(12, 80) if rng.random() < 0.8 else rng.choice([620, 636, 637, 638, 639, 640, 641, 700])
        cmd = s.log(0, c, p, ca, idn, size, rng.choice([1, 2]))
        for (L, tc, tca, tidn) in s.hooktrans:
            if tc != c:
                s.transmit_ent(s.nid, L, tc, p, tca, tidn, s.ents[-1]["len"])
        return cmd
    for ph in range(rng.choice([1, 1, 2])):
        nt = rng.choice([1, 1, 2, 3])
        ts = rng.sample(range(6), nt)
        for c in own:
            if own[c] not in ts and rng.random() < 0.7: own[c] = rng.choice(ts)
        n = max(2, 16 // nt)
        s.phase(*[[stm(t) for _ in range(rng.randrange(1, n))] for t in ts])
        if rng.random() < 0.3:
            s.phase([rng.choice(["hook off", "hook rec", hooks])])
    s.phase(["idle 3000000", "snap", "stop 0", "snap"])
    return s

# ------------------------------------------------------------------ screen
def screen(rng, sid):
    """Several channels (and loggers) print on the screen."""
    s = conc.Scn(sid, **sched(rng))
    nl = rng.choice([1, 1, 2])
    ph = []
    nch = {}
    for L in range(nl):
        chans = []
        nch[L] = rng.choice([1, 2, 3])
        for c in range(nch[L]):
            devs = [dev("screen", f=rich_flt(rng, "narrow", 0.3))]
            if rng.random() < 0.4:
                devs.insert(rng.randrange(2), dev("file", file="s%d%d" % (L, c)))
            chans.append(chan(devs, rng.random() < 0.3 and c == 0))
        cn = s.logger(L, lgr(chans))
        ph += ["new %d" % L, "parse %d %s" % (L, cn)]
    s.version()
    s.phase(ph)
    ths = []
    for t in range(rng.randrange(1, 5)):
        th = []
        for _ in range(rng.randrange(2, 10)):
            L = rng.randrange(nl)
            c = rng.randrange(nch[L])
            if s.loggers[L]["chans"][c]["sync"] and t != 0:
                continue
            x = s.loggers[L]["chans"][c]
            p, ca, idn = near(rng, [d["flt"] for d in x["devs"]], "narrow")
            if rng.random() < 0.7:
                p = rng.randrange(7)
            th.append(s.log(L, c, p, ca, idn, s.size(rng, s.nid + 1), rng.randrange(1, 4)))
        ths.append(th or ["yield 2"])
    if rng.random() < 0.5:
        ths.append(snaps(rng, 2))
    s.phase(*ths)
    s.phase(["idle 3000000", "snap"] + [x for L in range(nl) for x in ("cnt %d" % L, "stop %d" % L)] + ["snap"])
    return s
