"""Structured logger configurations: rendered as the text the real parser reads and as the settings of the specification."""
PRI = ["trace", "debug", "info", "warn", "error", "alarm", "fatal"]

def flt(pri=0, cb=0, cn=0, cm=(), ib=0, inn=0, im=()):
    return {"pri": pri, "cb": cb, "cn": cn, "cm": list(cm), "ib": ib, "in": inn, "im": list(im)}

def dev(kind="file", able=True, f=None, path="log", file=None, **kw):
    d = {"kind": kind, "able": able, "flt": f or flt(), "path": path, "file": file, "inp": kind == "udpin"}
    d.update(kw)
    return d

def chan(devs, sync=False, f=None):
    return {"sync": sync, "flt": f or flt(), "devs": devs}

def lgr(chans, hot=False, shm=None, name=None, desc=None):
    return {"chans": chans, "hot": hot, "shm": shm, "name": name, "desc": desc}

def mask(bits):
    v = 0
    for b in bits:
        v |= 1 << b
    return v

def blist(bits):
    """Bits as a list with ranges."""
    o, bits = [], sorted(bits)
    i = 0
    while i < len(bits):
        j = i
        while j + 1 < len(bits) and bits[j + 1] == bits[j] + 1:
            j += 1
        o.append(str(bits[i]) if i == j else "%d-%d" % (bits[i], bits[j]))
        i = j + 1
    return ",".join(o)

def signed(v):
    return v - (1 << 64) if v >= 1 << 63 else v

def flt_lines(f, ind):
    o = []
    if f["pri"]:
        o.append("priority: " + PRI[f["pri"]])
    for a, b, m, k in (("cb", "cn", "cm", "category"), ("ib", "in", "im", "identify")):
        if f[a]:
            o.append("%s: %d" % (k, f[a]))
        if f[b]:
            o.append("%s_extend: %d" % (k, f[b]))
        if f[m]:
            rest = [b for b in range(64) if b not in f[m]]
            if len(f[m]) > 32 and rest:
                o.append("%s_bmask: %d" % (k, mask(rest)) if len(rest) % 2 and 63 not in rest else "%s_blist: \"%s\"" % (k, blist(rest)))
            else:
                o.append("%s_wmask: %d" % (k, mask(f[m])) if len(f[m]) % 2 and 63 not in f[m] else "%s_wlist: \"%s\"" % (k, blist(f[m])))
    return [" " * ind + x for x in o]

def render(l):
    o = []
    if l["hot"]:
        o.append("- hot_update: true")
    if l["name"]:
        o.append("- logger_name: \"%s\"" % l["name"])
    if l["desc"]:
        o.append("- logger_desc: \"%s\"" % l["desc"])
    if l["shm"]:
        o.append("- shm_key: %d" % l["shm"])
    for ci, c in enumerate(l["chans"]):
        o.append(" - channel: %d" % ci)
        o.append("    sync: " + ("sync" if c["sync"] else "async"))
        o += flt_lines(c["flt"], 4)
        for di, d in enumerate(c["devs"]):
            o.append("    -device: %d" % di)
            o.append("        disable: " + ("false" if d["able"] else "true"))
            k = d["kind"]
            if k == "udpin":
                o.append("        in_type: udp")
                o.append("        out_type: file")
            else:
                o.append("        out_type: " + {"file": "file", "udp": "udp", "screen": "screen", "virtual": "virtual", "empty": "empty"}[k])
            o += flt_lines(d["flt"], 8)
            if k in ("file", "udpin"):
                if d["path"]:
                    o.append("        path: \"%s\"" % d["path"])
                if d["file"]:
                    o.append("        file: \"%s\"" % d["file"])
            for key, name in (("limit", "limit_size"), ("rollback", "rollback")):
                if d.get(key):
                    o.append("        %s: %d" % (name, d[key]))
            for key, name in (("daily", "rolldaily"), ("hourly", "rollhourly"), ("stuff", "stuff_up")):
                if d.get(key) is not None:
                    o.append("        %s: %s" % (name, "true" if d[key] else "false"))
            if d.get("udp"):
                o.append("        udp_addr: " + d["udp"])
    return "\n".join(o) + "\n"

def admits(f, pri, ca, idn):
    """Only used to choose interesting cases; the specification decides."""
    return pri >= f["pri"] and (not f["cn"] or f["cb"] <= ca < f["cb"] + f["cn"]) and (not f["cm"] or ca in f["cm"]) and \
        (not f["in"] or f["ib"] <= idn < f["ib"] + f["in"]) and (not f["im"] or idn in f["im"])
