"""What every check runs. run(pid) -> exit code."""
import json, os
import fnlib, concheck, configs, crash, files, streams, hots, udps, profiles as P, profiles2 as P2
from fnlib import QUICK, VERIF

def known(pid):
    """Known findings of a property: list of (key, text)."""
    o = []
    with open(VERIF + "/KNOWN_FINDINGS.txt") as f:
        for line in f:
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + pid:
                o.append((w[2], w[3].strip()))
    return o

T, F, S, M, C = "FnLogTrace", "FnFileTrace", "FnStreamTrace", "FnShmTrace", "FnConfigTrace"
# property -> parts: (trace specification, profiles with weights, share of the effort); models: quick, thorough
PROPS = {
    "C01": ([(T, [(P.basic, 4), (P.full, 2), (P.stop, 2), (P.idle, 1), (P.life, 1)], 1)], ["MCFnLog_async"], ["MCFnLog_async", "MCFnLog_deep"]),
    "C02": ([(T, [(P.basic, 5), (P.full, 2), (P.idle, 1), (P.stop, 1)], 1)], ["MCFnLog_async"], ["MCFnLog_async", "MCFnLog_deep"]),
    "C03": ([(T, [(P.full, 5), (P.basic, 2), (P.stop, 1)], 1)], ["MCFnLog_live"], ["MCFnLog_live", "MCFnLog_async"]),
    "C04": ([(T, [(P.stop, 6), (P.full, 1), (P.life, 1), (P.multi, 1)], 1)], ["MCFnLog_mixed"], ["MCFnLog_mixed", "MCFnLog_async", "MCFnLog_sync"]),
    "C05": ([(T, [(P.life, 6), (P.stop, 2), (P.multi, 1)], 1)], ["MCFnLog_mixed"], ["MCFnLog_mixed", "MCFnLog_sync"]),
    "C06": ([(T, [(P.sync1, 3), (P.syncn, 3), (P.stopsync, 2)], 1)], ["MCFnLog_livesync"], ["MCFnLog_livesync", "MCFnLog_sync"]),
    "C07": ([(T, [(P.idle, 6), (P.basic, 2), (P.full, 1)], 1)], ["MCFnLog_live"], ["MCFnLog_live", "MCFnLog_async"]),
    "C08": ([(T, [(P2.filt, 1)], 1)], ["MCFnLog_mixed"], ["MCFnLog_set"]),
    "C09": ([(T, [(P2.hook, 1)], 1)], ["MCFnLog_live"], ["MCFnLog_async"]),
    "C10": ([(F, [(files.size, 1)], 1)], ["MCFnFile_size"], ["MCFnFile_sizedeep"]),
    "C11": ([(F, [(files.dated, 1)], 1)], ["MCFnFile_time"], ["MCFnFile_timedeep"]),
    "C12": ([(M, [(crash.crash, 1)], 1)], ["MCFnShm_small"], ["MCFnShm_small", "MCFnShm_row", "MCFnShm_deep"]),
    "C13": ([(T, [(hots.hot, 1)], 1)], ["MCFnLog_setq"], ["MCFnLog_set"]),
    "C14": ([(C, [(configs.config, 1)], 1)], ["MCFnConfig_read"], ["MCFnConfig_read", "MCFnConfig_readdeep", "MCFnConfig_defdeep"]),
    "C15": ([(C, [(configs.variables, 1)], 1)], ["MCFnConfig_words", "MCFnConfig_def"], ["MCFnConfig_wordsdeep", "MCFnConfig_defdeep"]),
    "C16": ([(S, [(streams.content, 3), (streams.fe, 1), (streams.threads, 1)], 1)], ["MCFnStream_small"], ["MCFnStream_deep"]),
    "C17": ([(T, [(P.stop, 2), (P.syncn, 2), (P.basic, 2), (P.life, 2), (P.multi, 1), (P.full, 1), (udps.udp, 1)], 1)], ["MCFnLog_live"], ["MCFnLog_async", "MCFnLog_sync"]),
    "C18": ([(T, [(udps.udp, 1)], 1)], ["MCFnLog_setq"], ["MCFnLog_set"]),
    "C19": ([(F, [(files.faults, 1)], 0.6), (T, [(P.broken, 2), (udps.udp, 1)], 0.4)], ["MCFnFile_fault"], ["MCFnFile_faultdeep"]),
    "C20": ([(S, [(streams.prefix, 3), (streams.threads, 3), (streams.fe, 1)], 1)], ["MCFnStream_small"], ["MCFnStream_deep"]),
    "C21": ([(T, [(P.multi, 3), (P.broken, 1)], 1)], ["MCFnLog_mixed"], ["MCFnLog_mixed", "MCFnLog_sync"]),
    "C22": ([(T, [(P2.screen, 1)], 1)], ["MCFnLog_live"], ["MCFnLog_async"]),
    "C23": ([(S, [(streams.numbers, 1)], 1)], ["MCFnStream_small"], ["MCFnStream_deep"]),
}

ASSUME = ["threads are interleaved at atomic operations, at accesses to the logger's shared memory and at system calls (sequentially consistent execution; "
          "reorderings of weaker memory models are not explored)",
          "time is virtual; file contents are read from a real file system",
          "the build under test has small sizes: 10 usable places per queue, logs of 640 bytes, 4 channels of 4 devices"]

RULE = {
    T: "random programs of the listed profiles under random, PCT and stall schedules on the real code; TLC decides for the most unusual half "
       "and a random half whether the recorded execution is a behaviour of FnLog",
    M: "random programs whose process dies at a random scheduling step (several times, also while it starts, recovers or stops) and is started again on the "
       "same shared memory, with all files read after every death; TLC decides for the most unusual half and a random half whether the recorded "
       "execution is a behaviour of FnShm",
    F: "random histories of lines, times, restarts, setting changes, faults and foreign files on the real code with listings of all files; TLC decides "
       "for a random selection whether the recorded history is a behaviour of FnFile",
    C: "random configuration texts (all keys, layouts, definitions, mistakes, arbitrary bytes) parsed by the real code; TLC decides for a random selection "
       "whether the outcome is the one FnConfig computes from the text",
    S: "random statements (items of all types and lengths, prefixes, front ends) on the real code with the bytes of the file; TLC decides for a random "
       "selection whether the bytes are those FnStream computes",
}

def run_prop(pid):
    parts, mcq, mct = PROPS[pid]
    viol, tots = [], []
    for module, jobs, share in parts:
        t_run, ntlc = (9 * share, int(160 * share * WEIGHT.get(module, 1))) if QUICK else (120 * share, int(1500 * share * WEIGHT.get(module, 1)))
        tot, v = concheck.run(pid, jobs, t_run, ntlc, module)
        tots.append((module, tot))
        viol += v
    mc = []
    for c in (mcq if QUICK else mct) if not viol else []:
        v, out, g, d = fnlib.tlc(c.split("_")[0], c + ".cfg", workers=fnlib.NPROC, deadlock=False, heap="6g", timeout=3000)
        if v != "ok":
            raise fnlib.CheckError("the model %s does not satisfy its properties:\n%s" % (c, out[-3000:]))
        mc.append({"config": c + ".cfg", "transitions": g, "states": d})
    for i, rj in enumerate(viol):
        print("VIOLATION property=%s replay=%s" % (pid, fnlib.write_replay(pid, i, concheck.explain(rj))))
    sm = lambda k: sum(t[k] for _, t in tots)
    cov = {"states": sm("dist") + sum(m["states"] for m in mc), "transitions": sm("gen") + sum(m["transitions"] for m in mc),
           "traces_validated_against_impl": sm("judged"), "executions": sm("n"), "distinct_executions": sm("distinct"),
           "scheduling_steps": sm("steps"), "recorded_events": sm("evs"),
           "executions_per_profile": {k: v for _, t in tots for k, v in t["kinds"].items()}, "rejected": sm("rejected"),
           "unconfirmed": sm("unconfirmed"), "models": mc, "samples": [x for _, t in tots for x in t["samples"]][:4],
           "rule": "; ".join(sorted({RULE[m] for m, _ in tots}))}
    fnlib.write_evidence(pid, "model_checking", cov, len(viol), ASSUME)
    return 1 if viol else 0

WEIGHT = {F: 2, S: 3, M: 1.6, C: 5}     # cheaper to judge

def run(pid):
    for key, text in known(pid):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, key, text))
    return run_prop(pid)
