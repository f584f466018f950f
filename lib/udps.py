"""Devices that send logs as datagrams and devices that write the datagrams they receive (C18)."""
import copy, socket, struct
import conf
import conc
from conf import flt, dev, chan, lgr
from fnlib import LOGSZ
from profiles import sched, rlog, attrs, snaps, some_flt, weave_open

ERR = {"socket": 24, "bind": 98, "sendto": 101, "recvfrom": 11}

def text(rng, n):
    """Any bytes but line ends."""
    if rng.random() < 0.5: return "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789 .,%$&=!") for _ in range(n))
    return "".join(chr(rng.choice([i for i in range(256) if i != 10])) for _ in range(n))

def udp(rng, sid):
    """Output and input devices beside files: ports and switches change, sockets fail, restarts, datagrams of all lengths."""
    s = conc.Scn(sid, **sched(rng))
    s.opts["stall_us"] = min(s.opts.get("stall_us", 0), 100000)     # a change has taken effect after 0.7 s
    nch = rng.choice([1, 2, 2, 3])
    plain = rng.random() < 0.4
    solo = rng.random() < 0.25          # one thread, nothing changes: datagrams may bring parts of lines
    faulty = rng.random() < 0.35
    port = 9000
    chans, used, pokes = [], [], []
    for c in range(nch):
        sync = rng.random() < 0.25
        devs = [dev("file", f=some_flt(rng, 0.3), file="f%d" % c)]
        for d in range(rng.choice([1, 1, 2, 3] if c == 0 else [0, 1, 2, 3])):
            port += 1
            if rng.random() < 0.55 or sync and not solo:
                devs.append(dev("udp", f=some_flt(rng, 0.5), able=rng.random() < 0.85, file=None, udp="%s:%d" % (rng.choice(["127.0.0.1", "127.0.0.1", "127.0.0.7", "10.1.2.3", "200.130.255.254"]), port)))
            else:
                port += 2
                devs.append(dev("udpin", f=flt(), able=rng.random() < 0.85, file="in%d%d" % (c, d), udp="%s:%d" % (rng.choice(["127.0.0.1", "127.0.0.1", "0.0.0.0"]), port - 2), ports=[port - 1, port]))
        polled = sync and any(x["kind"] == "udpin" for x in devs)       # reads what has arrived when something is logged
        if polled:
            pokes.append(c)
            devs[0]["flt"] = flt()
        rng.shuffle(devs)
        ch = chan(devs, sync, flt() if polled else some_flt(rng, 0.2))
        chans.append(ch)
    ins = [(0, c, d) for c in range(nch) for d, x in enumerate(chans[c]["devs"]) if x["kind"] == "udpin"]
    outs = [(c, d) for c in range(nch) for d, x in enumerate(chans[c]["devs"]) if x["kind"] == "udp"]
    looped = [i for i in ins if i[1] not in pokes]
    if looped and outs and rng.random() < 0.5:
        # what is sent is received here
        i = rng.choice(looped)
        c, d = rng.choice(outs)
        used.append((i, (c, d)))
        chans[c]["devs"][d]["udp"] = "127.0.0.1:" + chans[i[1]]["devs"][i[2]]["udp"].split(":")[1]
    redirect = None
    if outs and rng.random() < 0.4:
        c, d = rng.choice(outs)
        port += 1
        ip, was = chans[c]["devs"][d]["udp"].split(":")
        to = "%s:%d" % (ip, port) if rng.random() < 0.5 else "10.%d.0.9:%s" % (port % 200, was)
        redirect = (c, d)
        chans[c]["alts"] = [dict(chans[c]["devs"][d], kind="udpx", able=False, udp=to)]
    cn = s.logger(0, lgr(copy.deepcopy(chans)))
    loop = {(0,) + o: i for i, o in used}
    on = {i: chans[i[1]]["devs"][i[2]]["able"] for i in ins}
    at = {i: int(chans[i[1]]["devs"][i[2]]["udp"].split(":")[1]) for i in ins}
    def over(listen=True):
        o = {(0, c): x for c, x in enumerate(chans)}
        o.update({i: (on[i] and listen, at[i]) for i in ins})
        return o
    def change(cmds, via=(), listen=True): return s.change(over(listen), list(cmds), via)
    s.version(over(False))              # not yet listening
    def stm(c, at=None):
        p, ca, idn = at or attrs(rng)
        line = s.log(0, c, p, ca, idn, s.size(rng, s.nid + 1) if rng.random() < 0.4 and not at else rng.randrange(12, 60), rng.randrange(1, 4))
        for d, x in enumerate(chans[c]["devs"]):
            if (0, c, d) in loop:
                i = loop[(0, c, d)]
                sid = s.nid
                e = s.ents[-1]
                s.dgram_ent(int(x["udp"].split(":")[1]), "x" * (e["len"] - 1), sid)
        return line
    def inject():
        """Commands that send datagrams to some input."""
        if not ins: return []
        i = rng.choice(ins)
        ports = [p for p, (k, ca) in s.inports.items() if k == i]
        p = at[i] if rng.random() < 0.9 else rng.choice(ports)
        r = rng.random()
        if r < 0.55:
            sid, line = s.dgram_ent(p, text(rng, rng.choice([0, 5, 40, 200, LOGSZ - 8 - len(str(s.nid + 1)), rng.randrange(1, 600)])))
            line = line[:LOGSZ - 2]
            return [s.datagram(p, line + "\n", [sid])]
        if r < 0.75:
            n = rng.choice([LOGSZ - 2, LOGSZ - 1, LOGSZ, LOGSZ, LOGSZ + 1, LOGSZ + 2, 2000, 30000])
            s.nid += 1
            t = "#%d:" % s.nid
            t += text(rng, n - len(t))
            if n < LOGSZ: t = t[:-1] + "\n"
            line = t[:LOGSZ - 2].rstrip("\n")
            s.blobs["line%d" % s.nid] = line + "\n"
            s.dgram_ent(p, line, s.nid)
            return [s.datagram(p, t, [s.nid])]
        if plain: return []
        if r < 0.85 and solo:
            sid, line = s.dgram_ent(p, text(rng, rng.randrange(2, 300)))
            k = rng.randrange(1, len(line))
            return [s.datagram(p, line[:k], []), s.datagram(p, line[k:] + "\n", [sid])]
        if r < 0.95:
            a, la = s.dgram_ent(p, text(rng, rng.randrange(2, 100)))
            b, lb = s.dgram_ent(p, text(rng, rng.randrange(2, 100)))
            return [s.datagram(p, la + "\n" + lb + "\n", [a, b])]
        if i[1] in pokes: return []         # an empty datagram ends the reading until the next log
        sid, line = s.dgram_ent(p, text(rng, 20))
        return [s.datagram(p, "", []), s.datagram(p, line + "\n", [sid])]
    def poke(): return [stm(c, (6, 0, 0)) for c in pokes]
    counted = plain and not redirect
    s.phase(["note O:%s:%d" % (",".join(str(s.inq[i]) for i in ins), s.version(over()))] * (1 if ins else 0) + ["new 0", "parse 0 " + cn])
    s.cur = dict(over())
    settled = rng.random() < 0.6
    if settled and ins: s.phase(["sleep 700000"] + poke() + change([]))
    def work(n):
        ths = []
        for t in range(n):
            th = []
            for _ in range(rng.randrange(2, 8)):
                if ins and rng.random() < 0.45: th += inject()
                else: th.append(stm(rng.randrange(nch)))
                if rng.random() < 0.15: th.append("sleep %d" % rng.choice([1000, 30000, 400000]))
            ths.append(th)
        return ths
    for rnd in range(rng.randrange(1, 5)):
        s.phase(*work(1 if solo else rng.choice([1, 1, 2, 3])))
        if rng.random() < 0.5: s.phase(poke() + ["idle 3000000", "snap"])
        if solo: continue
        r = rng.random()
        ctl = []
        if r < 0.2 and ins:
            i = rng.choice(ins)
            on[i] = not on[i]
            ctl = change(["setd 0 %d %d 0 %d" % (i[1], i[2], on[i]), "sleep 700000"])
            if rng.random() < 0.4:
                on[i] = not on[i]
                ctl += change(["setd 0 %d %d 0 %d" % (i[1], i[2], on[i]), "sleep 700000"])
        elif r < 0.4 and ins:
            i = rng.choice([i for i in ins if i not in loop.values()] or ins)
            if i in loop.values(): continue
            at[i] = rng.choice([p for p, (k, ca) in s.inports.items() if k == i])
            ctl = change(["setd 0 %d %d 14 %d" % (i[1], i[2], socket.htons(at[i])), "sleep 700000"])
        elif r < 0.55 and redirect:
            c, d = redirect
            a, b = chans[c]["devs"][d], chans[c]["alts"][0]
            if (0, c, d) in loop or not (a["able"] or b["able"]): continue
            new = copy.deepcopy(chans)
            new[c]["devs"][d]["able"], new[c]["alts"][0]["able"] = b["able"], a["able"]
            chans[:] = new
            x, y = (a, b) if new[c]["alts"][0]["able"] else (b, a)
            x, y = x["udp"].split(":"), y["udp"].split(":")
            if x[0] == y[0]: ctl = change(["setd 0 %d %d 14 %d" % (c, d, socket.htons(int(y[1])))])
            else: ctl = change(["setd 0 %d %d 13 %d" % (c, d, struct.unpack("=I", socket.inet_aton(y[0]))[0])])
        elif r < 0.7 and faulty:
            # sockets fail for a while: datagrams may be lost, nothing else
            bad = copy.deepcopy(chans)
            for c in bad:
                for x in c["devs"] + c.get("alts", []):
                    if x["kind"] in ("udp", "udpx"): x["able"] = False
            down = {(0, c): x for c, x in enumerate(bad)}
            down.update({i: (False, at[i]) for i in ins})
            fn = rng.choice(["socket", "bind", "sendto", "recvfrom"])
            n = rng.choice([1, 2, 5, 100])
            cmds = ["fault %s - 0 %d %d" % (fn, n, ERR[fn])]
            if rng.random() < 0.5: cmds += ["stop 0", "start 0"]
            cmds += work(1)[0]
            cmds += ["nofault", "sleep 4500000"]
            s.phase(change(cmds, [down]), *work(rng.choice([0, 1])))
            counted = False
            continue
        elif r < 0.9:
            o = [down for down in [over(False)]]
            ctl = change(["stop 0"] + ["snap"] * rng.choice([0, 1]) + work(1)[0][:3] + ["sleep %d" % rng.choice([0, 1000, 100000, 5000000]), "start 0"] + work(1)[0][:4] + ["sleep 700000"], o)
        if ctl: s.phase(ctl, *work(rng.choice([0, 0, 1])))
    end = poke() + ["idle 3000000", "snap"] if rng.random() < 0.6 else []
    if end and counted and rng.random() < 0.5: end += ["cnt 0"]
    s.phase(end + ["stop 0", "snap"] + (["cnt 0"] if counted else []))
    return s
