"""Runs the profiles against the real code and lets TLC judge the recorded executions."""
import json, os, random, time, traceback, multiprocessing as mp
import fnlib, profiles
from fnlib import SEED, NPROC

def select(cand, n):
    """At most n executions: half of them the most unusual ones, half of them at random."""
    cand.sort(key=lambda x: x[:2])
    a, b = cand[:n // 2], cand[n // 2:]
    b.sort(key=lambda x: x[1])
    return a + b[:n - len(a)]

def worker(arg):
    exe, w, jobs, t_run, ntlc, pid, module = arg
    try:
        rng = random.Random("%s/%d/%d" % (pid, SEED, w))
        t_end = time.time() + t_run
        cand, n, steps, evs = [], 0, 0, 0
        names = [p for p, _ in jobs]
        weights = [x for _, x in jobs]
        seen = set()
        kinds = {}
        while time.time() < t_end:
            scns = []
            for i in range(60):
                p = rng.choices(names, weights)[0]
                s = p(rng, "%d.%d" % (w, n + i))
                s.prof = p.__name__
                scns.append(s)
            recs = fnlib.run_scenarios(exe, [s.text() for s in scns], "run%d" % w, timeout=10, deadline_ms=int(1000 * (t_end - time.time()) + 12000))
            for s, r in zip(scns, recs):
                tr, odd = s.trace(r)
                n += 1
                steps += r["steps"]
                evs += len(tr["ev"])
                h = hash(json.dumps(tr["ev"]))
                if h in seen:
                    continue
                seen.add(h)
                kinds[s.prof] = kinds.get(s.prof, 0) + 1
                cand.append((-odd, rng.random(), tr, s, r))
            if len(cand) > 4 * ntlc:
                cand = select(cand, ntlc)
        odds = sum(1 for c in cand if c[0])
        cand = select(cand, ntlc)
        rej, gen, dist = fnlib.judge(module, module + ".cfg", [c[2] for c in cand], "j%d" % w, max_rejects=1 if fnlib.QUICK else 3)
        out = []
        for i, l, inv, st in rej:
            tr, s, r = cand[i][2:]
            out.append({"prof": s.prof, "text": s.text(), "at": l, "event": tr["ev"][l - 1] if l <= len(tr["ev"]) else "end", "inv": inv,
                        "state": st, "trace": tr, "rec": r, "scn": s, "module": module})
        return {"n": n, "steps": steps, "evs": evs, "distinct": len(seen), "judged": len(cand), "gen": gen, "dist": dist, "rej": out, "kinds": kinds,
                "sample": {"profile": cand[-1][3].prof, "events": cand[-1][2]["ev"][:14]} if cand else None, "err": None}
    except Exception as e:
        return {"err": "%s\n%s" % (e, traceback.format_exc())}

def confirm(exe, rj, k=0):
    """Runs the rejected scenario again; it counts only if it is rejected again."""
    strip = lambda rec: json.dumps([{a: b for a, b in e.items() if a != "pid"} for e in rec["ev"]])
    for i in range(2):
        recs = fnlib.run_scenarios(exe, [rj["text"]], "confirm%d" % k, timeout=15)
        if recs and strip(recs[0]) == strip(rj["rec"]):
            return True
        if recs and fnlib.judge(rj["module"], rj["module"] + ".cfg", [rj["scn"].trace(recs[0])[0]], "jc%d" % k)[0]:
            return True
    return False

def run(pid, jobs, t_run, ntlc, module="FnLogTrace"):
    """jobs: [(profile, weight)]; t_run: seconds of execution; ntlc: executions judged by each TLC. Returns totals and violations."""
    exe = fnlib.build()
    with mp.Pool(NPROC) as pool:
        res = pool.map(worker, [(exe, w, jobs, t_run, ntlc, pid, module) for w in range(NPROC)])
    for r in res:
        if r["err"]:
            raise fnlib.CheckError(r["err"])
    tot = {k: sum(r[k] for r in res) for k in ("n", "steps", "evs", "distinct", "judged", "gen", "dist")}
    kinds = {}
    for r in res:
        for k, v in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    tot["kinds"] = kinds
    tot["samples"] = [r["sample"] for r in res if r["sample"]][:2]
    viol = []
    tot["unconfirmed"] = 0
    for r in res:
        for rj in r["rej"]:
            if len(viol) >= 5:
                continue
            if confirm(exe, rj):
                viol.append(rj)
            else:
                tot["unconfirmed"] += 1
    tot["rejected"] = sum(len(r["rej"]) for r in res)
    return tot, viol

def explain(rj):
    return "\n".join(["profile: " + rj["prof"],
        "The recorded execution is not a behaviour of spec/" + rj["module"] + ".tla: event %d cannot happen: %s %s" % (rj["at"], json.dumps(rj["event"]), rj["inv"]),
        "", "---- events before it", "\n".join(json.dumps(e) for e in rj["trace"]["ev"][max(0, rj["at"] - 12):rj["at"]]),
        "", "---- scenario (harness/harness.cpp executes it)", rj["text"], "---- last state TLC reached", rj["state"],
        "---- trace", json.dumps(rj["trace"]), ""])
