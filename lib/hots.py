"""Configuration files that change while the logger runs."""
import copy
import conf, conc
from conf import flt, dev, chan, lgr
from profiles import sched, snaps
from profiles2 import rich_flt, near, mutate

BADC = ["bogus: 1\n", " - channel: 7\n", " - channel: 7\n    -device: 0\n", " - channel: 7\n    sync: async\n    priority info\n", "\""]

def hot(rng, sid):
    """C13: valid, invalid, missing and repeated new configurations, added devices, hot update switched off, restarts."""
    s = conc.Scn(sid, **sched(rng))
    nch = rng.choice([1, 1, 2, 3])
    chans, nd = [], []
    for c in range(nch):
        sync = rng.random() < 0.25
        n, extra = rng.choice([1, 2, 3]), rng.choice([0, 0, 1])
        devs = [dev("file", f=rich_flt(rng, "narrow", 0.6), file="u%d%d" % (c, d), able=rng.random() < 0.85) for d in range(n + extra)]
        if sync: devs[0].update(flt=flt(), able=True)           # takes everything: the channel looks at the file when it writes
        if rng.random() < 0.25 and n + extra < 4:
            # at most one virtual device, maybe an added one
            at = rng.randrange(0, n + extra + 1)
            devs.insert(at, dev("virtual", f=flt(pri=rng.choice([0, 2, 3])), able=rng.random() < 0.85))
            n += rng.choice([0, 1]) if at >= n else 1
        nd.append(n)
        f = rich_flt(rng, "narrow", 0.4) if not sync else flt(pri=rng.choice([0, 2, 3]))
        chans.append(chan(devs, sync, f))
    s.meta["hook_logger"] = 0
    def absent(cs):
        """The settings as long as only the first devices exist."""
        cs = copy.deepcopy(cs)
        for c, n in zip(cs, nd):
            for d in c["devs"][n:]: d["able"] = False
        return cs
    def text(cs, hot=True):
        return s.config(0, lgr([dict(c, devs=c["devs"][:n]) for c, n in zip(cs, nd)], hot=hot))
    s.logger(0, lgr(absent(chans)))
    s.version()
    cur = chans
    ntime = iter(rng.sample(range(1, 4000), 40))
    s.phase(["new 0", "wf cfg.yaml %s %d" % (text(cur), next(ntime)), "hook rec", "load 0 cfg.yaml"])
    syncs = [c for c in range(nch) if chans[c]["sync"]]
    asyncs = [c for c in range(nch) if not chans[c]["sync"]]
    def new(base):
        n = copy.deepcopy(base)
        for i, c in enumerate(n):
            if rng.random() < 0.5:
                if c["sync"]: c["flt"] = flt(pri=rng.choice([0, 2, 3]))
                else: c["flt"], k = mutate(rng, c["flt"], "narrow")       # one field: fields are not switched together
            if rng.random() < 0.3: nd[i] = len(c["devs"])
            for d in c["devs"]:
                if c["sync"] and d["file"] and d["file"].endswith("0"): continue
                if d["kind"] == "virtual":
                    if rng.random() < 0.5: d["flt"] = flt(pri=rng.choice([0, 2, 3, 5]))
                    elif rng.random() < 0.5: d["able"] = not d["able"]
                    continue
                if rng.random() < 0.7: d["flt"] = rich_flt(rng, "narrow", 0.6)
                if rng.random() < 0.3: d["able"] = rng.random() < 0.7
        return n
    def stm(c):
        p, ca, idn = near(rng, [cur[c]["flt"]] + [d["flt"] for d in cur[c]["devs"]], "narrow")
        return s.log(0, c, p, ca, idn, rng.randrange(12, 50), 1)
    def over(cs): return {(0, c): x for c, x in enumerate(absent(cs))}
    def settle():
        # a synchronous channel looks at the file when something is logged
        o = ["sleep 7000000"]
        for c in syncs: o += [s.log(0, c, 6, 0, 0, 20, 1), s.log(0, c, 6, 0, 0, 20, 1)]
        return o
    def others():
        ths = []
        for t in range(rng.choice([0, 1, 1, 2])):
            th = []
            for _ in range(rng.randrange(1, 6)):
                if asyncs: th.append(stm(rng.choice(asyncs)))
                if rng.random() < 0.5: th.append("sleep %d" % rng.choice([1000, 50000, 1000000, 3000000]))
            if th: ths.append(th)
        return ths
    hoton = True
    for rnd in range(rng.randrange(2, 6)):
        r = rng.random()
        ctl = []
        if rng.random() < 0.3: ctl += ["sleep %d" % rng.choice([100000, 1000000, 4000000, 5000000])]
        if not hoton or r < 0.3:
            # nothing may change
            k = rng.random()
            if not hoton: ctl += ["wf cfg.yaml %s %d" % (text(new(cur)), next(ntime))]
            elif k < 0.3: ctl += ["rm cfg.yaml"]
            elif k < 0.45: ctl += ["rm cfg.yaml", "mkdir cfg.yaml"]
            elif k < 0.6: ctl += ["wf cfg.yaml %s %d" % (s.raw(rng.choice(["", "# nothing\n", "\n\n", "- hot_update: false\n", "- hot_update: true\n"])), next(ntime))]
            elif k < 0.7: ctl += ["fault fopen cfg.yaml 0 %d 13" % rng.randrange(1, 4), "wf cfg.yaml %s %d" % (s.raw("bogus"), next(ntime))]
            else:
                t = s.blobs[text(new(cur))]
                t += rng.choice(BADC)
                if rng.random() < 0.5: t = t[:rng.randrange(len(t))] + "\nbogus: 1\n"
                ctl += ["wf cfg.yaml %s %d" % (s.raw(t), next(ntime))]
            ctl += settle()
            if hoton: ctl += ["nofault"] + ["rm cfg.yaml"] * (k < 0.45)
        else:
            via = []
            cmds = []
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                cur = new(cur)
                via.append(over(cur))
                cmds += ["wf cfg.yaml %s %d" % (text(cur), next(ntime))] + ["sleep %d" % rng.choice([0, 500000, 3000000, 6000000])] * rng.choice([0, 1])
                if rng.random() < 0.3: cmds += ["wf cfg.yaml %s %d" % (s.raw("bogus: 1\n"), next(ntime)), "sleep 2000000"]
                if rng.random() < 0.2: cmds += ["rm cfg.yaml", "sleep 1000000"]
            cur = new(cur)
            last = len(via) == 0 and rng.random() < 0.15
            if last: hoton = False
            cmds += ["wf cfg.yaml %s %d" % (text(cur, hoton), next(ntime))] + settle()
            ctl += s.change(over(cur), cmds, via)
        s.phase(ctl, *others())
        th = [stm(rng.randrange(nch)) for _ in range(rng.randrange(2, 7))]
        s.phase(th, *[[stm(rng.choice(asyncs)) for _ in range(3)] for _ in range(rng.choice([0, 1])) if asyncs])
        if rng.random() < 0.3: s.phase(["idle 3000000", "snap"])
        if rng.random() < 0.25:
            # restart: with the settings of the file, or with those in effect
            if rng.random() < 0.5:
                s.phase(["stop 0", "snap", "start 0"])
            else:
                cur = new(cur)
                hoton = True
                s.phase(["stop 0", "snap", "wf cfg.yaml %s %d" % (text(cur), next(ntime))] + s.change(over(cur), ["load 0 cfg.yaml"]))
    s.phase(["idle 3000000", "snap", "stop 0", "snap"])
    return s
