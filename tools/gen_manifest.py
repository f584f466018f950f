#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks registered below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TR = "TLA+ (TLC): FnLog model checked; recorded executions of the real code under a deterministic scheduler checked against it"
NOTE = ("Every recorded execution is decided by TLC to be a behaviour of spec/FnLog.tla or not (no sampling inside an execution); which executions are run is "
        "random (programs and schedules, seeded). Trusts the scheduler harness/vsched.cpp, the trace builder lib/conc.py and sequential consistency.")
CHECKS = {p: (TR, "model_checking", NOTE) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C13", "C17", "C18", "C21", "C22")}
TRF = "TLA+ (TLC): FnFile model checked; recorded file histories of the real code (virtual clock, injected faults) checked against it"
NOTEF = ("Every recorded history is decided by TLC to be a behaviour of spec/FnFile.tla or not; which histories are run is random (seeded). Trusts the harness "
         "(virtual clock, fault injection), the listing of the real files and lib/files.py.")
CHECKS.update({p: (TRF, "model_checking", NOTEF) for p in ("C10", "C11", "C19")})
TRS = "TLA+ (TLC): FnStream model checked; lines written by the real code compared with the text the specification computes"
NOTES = ("TLC computes the text of every judged line from the streamed values (decimal and hexadecimal conversion, calendar, containers, size limit are TLA+ "
         "operators) and compares it with the bytes of the file; values and lengths are random around the corner cases (seeded). Floating point values outside "
         "1e-7..2^60 are compared with the text of %.16g computed by lib/streams.py.")
CHECKS.update({p: (TRS, "model_checking", NOTES) for p in ("C16", "C20", "C23")})
TRM = "TLA+ (TLC): FnShm model checked; recorded executions of the real code with crashes at any scheduling step checked against it"
NOTEM = ("Every recorded execution is decided by TLC to be a behaviour of spec/FnShm.tla or not; programs, schedules and crash points are random (seeded). A crash is "
         "the end of all threads at a scheduling step with the shared memory left as it is (sequentially consistent); lines marked as recovered that are too "
         "short to tell whose they are are only counted.")
CHECKS["C12"] = (TRM, "model_checking", NOTEM)
TRC = "TLA+ (TLC): FnConfig model checked; what the real parser makes of a text compared with what the specification computes from it"
NOTEC = ("TLC reads every judged text line by line with the operators of spec/FnConfig.tla (blocks, keys, values, definitions) and compares the configuration or the error "
         "with that of the real parser; texts are random (seeded). Where the format says nothing (e.g. a word where a number is expected) any outcome is accepted.")
CHECKS.update({p: (TRC, "model_checking", NOTEC) for p in ("C14", "C15")})
NA = {}
PENDING = "not claimed yet: its specification and harness are not built yet"
def main():
    import importlib.util
    s = importlib.util.spec_from_file_location("mx", os.path.join(V, "tools", "manifest_extra.py"))
    if os.path.exists(s.origin):
        m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        CHECKS.update(m.CHECKS); NA.update(m.NA)
    ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    checks = [dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                   technique=CHECKS[p][0], level=CHECKS[p][1], level_note=CHECKS[p][2]) for p in ids if p in CHECKS]
    na = [dict(property=p, reason=NA.get(p, PENDING)) for p in ids if p not in CHECKS]
    json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
                   notes="No hooks in /repo: the harness compiles the headers with -fsanitize=thread and supplies its own runtime (harness/vsched.cpp), "
                         "so that every atomic access, shared memory access and system call of the unmodified code is a scheduling point."),
              open(V + "/MANIFEST.json", "w"), indent=1)
main()
