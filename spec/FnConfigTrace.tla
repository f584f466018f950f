------------------------------- MODULE FnConfigTrace -------------------------------
(***************************************************************************)
(* Conformance of the configuration parser: texts and what the real code    *)
(* made of them.                                                            *)
(*  T text     a text is given to the parser                                 *)
(*  Q err c    the outcome: error, or the configuration c                    *)
(*  N err      the logger was told to start with it and did not (err = 1)    *)
(*  F          arbitrary bytes were parsed: it came to an end                *)
(***************************************************************************)
EXTENDS FnConfig, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Tr == Data[tr]
Ev == Tr.ev[l]
vars == <<cvars, tr, l>>
Init == tr \in DOMAIN Data /\ l = 1 /\ rest = <<>> /\ st = [Start EXCEPT !.verdict = "none"]
Step == l' = l + 1 /\ tr' = tr

(* a mask: [dec |-> number, neg |-> number of the complement, bits |-> places that are set] *)
SameMask(m, o) == CASE m.t = "none" -> o.dec = "0"
                    [] m.t = "list" -> {o.bits[i] : i \in DOMAIN o.bits} = (IF m.neg THEN (0..63) \ m.v ELSE m.v)
                    [] OTHER -> (IF m.neg THEN o.neg ELSE o.dec) = m.v
SameFlt(f, o) == /\ f.pri = o.pri /\ f.cat = o.cat /\ f.catx = o.catx /\ f.idn = o.idn /\ f.idnx = o.idnx
                 /\ SameMask(f.catm, o.catm) /\ SameMask(f.idnm, o.idnm)
SameDevice(d, o) ==
    /\ SameFlt(d.flt, o.flt)
    /\ d.able = (o.able = 1) /\ d.limit = o.limit /\ d.rollback = o.rollback /\ d.daily = (o.daily = 1) /\ d.hourly = (o.hourly = 1) /\ d.stuff = (o.stuff = 1)
    /\ d.inp = o.inp /\ d.outp = o.outp /\ d.path = o.path /\ d.file = o.file
    /\ (d.given /\ d.addr.bad) \/ (~d.given /\ o.ip = "0.0.0.0" /\ o.port = "0") \/ (d.addr.ip = o.ip /\ d.addr.port = o.port)
    \* (a disabled device with a bad address may have any; it is not used)
SameChannel(c, o) == /\ c.sync = (o.sync = 1) /\ SameFlt(c.flt, o.flt) /\ Len(c.devs) = Len(o.devs)
                     /\ \A i \in DOMAIN c.devs : SameDevice(c.devs[i], o.devs[i])
Same(c, o) == /\ c.hot = (o.hot = 1) /\ Len(c.ch) = Len(o.ch) /\ \A i \in DOMAIN c.ch : SameChannel(c.ch[i], o.ch[i])
              /\ o.full = 1 => (c.name = o.name /\ c.desc = o.desc /\ c.shm = o.shm)

EvT == Ev[1] = "T" /\ Begin(Ev[2]) /\ Step
EvQ == /\ Ev[1] = "Q" /\ UNCHANGED cvars /\ Step
       /\ st.verdict = "error" => Ev[2] = 1
       /\ st.verdict = "ok" => (Ev[2] = 0 /\ Same(st.conf, Ev[3]) = TRUE)     \* (no branching inside)
EvN == Ev[1] = "N" /\ UNCHANGED cvars /\ Step /\ (st.verdict = "error" => Ev[2] = 1)
EvF == Ev[1] = "F" /\ UNCHANGED cvars /\ Step
Done == l = Len(Tr.ev) + 1 /\ UNCHANGED vars
Next == IF st.verdict = "reading" THEN ReadLine /\ UNCHANGED <<tr, l>>
        ELSE (l <= Len(Tr.ev) /\ (EvT \/ EvQ \/ EvN \/ EvF)) \/ Done
Spec == Init /\ [][Next]_vars
View == <<tr, l, Len(rest), st.verdict>>
====================================================================================
