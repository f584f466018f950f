------------------------------ MODULE FnShmTrace ------------------------------
(***************************************************************************)
(* Conformance: is a recorded execution with crashes a behaviour of FnShm?   *)
(* As in FnLogTrace recorded events are consumed by the actions they are     *)
(* observations of; admission, completion, delivery and acknowledgement are  *)
(* hidden and taken as early as possible. What bounds them is known: all     *)
(* files are read right after every crash (lim) and at the end (fin).         *)
(*                                                                          *)
(* Lines of a file: k > 0 the line of entry k; -k the unfinished entry k,    *)
(* marked as recovered; Anon a marked line that does not tell whose it is;   *)
(* 0 anything else. An entry that is nowhere in the files with its number    *)
(* has no known place in the queue: if it was unfinished at a crash it may   *)
(* be one of the anonymous lines (budget).                                    *)
(*                                                                          *)
(* Events: B k, A k a, Z k, E k, S files, I us as in FnLogTrace;             *)
(*  C kind ok / R : a life cycle call begins (ok: it succeeds or never        *)
(*  returns) / returned;  X : the process dies;  END                          *)
(***************************************************************************)
EXTENDS FnShm, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
QueueCap == 11
IdleBound == 2000000
Anon == -1000000

VARIABLES
    l,      \* next event
    zed,    \* entries whose content is final, not yet returned
    op,     \* life cycle call in progress
    anon,   \* output -> anonymous marked lines so far
    budget, \* channel -> how many of them there may be
    here,   \* entries that began in this session
    vis,    \* output -> lines seen in the file
    calm    \* everything complete must be visible: it rested for IdleBound, or a stop returned
tvars == <<l, zed, op, anon, budget, here, vis, calm>>
Tr == Data[tr]
TraceConfig(t) == Data[t].cfg
Fin(o) == Tr.fin[o]
Lim(o) == Tr.lim[sess][o]
Ev == Tr.ev[l]

Init ==
    /\ tr \in DOMAIN Data /\ l = 1 /\ ShmInit(Data[tr].cfg)
    /\ zed = {} /\ op = "none" /\ here = {} /\ calm = FALSE
    /\ anon = [o \in DOMAIN out |-> 0] /\ budget = [c \in DOMAIN que |-> 0] /\ vis = [o \in DOMAIN out |-> 0]

(* ---- hidden steps *)
Whole(k) == Tr.pos[k] # <<>> /\ Tr.whole[k] = 1       \* its line is somewhere
Placed(k) == Tr.pos[k] # <<>>                            \* its line or a marked line with its number is somewhere
Next1(o) == IF Len(out[o]) + anon[o] < Lim(o) THEN Fin(o)[Len(out[o]) + anon[o] + 1] ELSE 0
(* position of k among the first occurrences in the files *)
Firsts(o) == LET q == que[cfg.outs[o][1]] IN
    Cardinality({IF x > 0 THEN x ELSE -x : x \in Range(out[o])} \cup {x \in Range(q) : \E p \in Range(Tr.pos[x]) : p[1] = o})
InTurn(k) == Placed(k) /\ \A p \in Range(Tr.pos[k]) : p[2] = Firsts(p[1]) + 1
Admissible == {k \in Ents : Tr.acc[k] = 1 /\ ph[k] = "begun" /\ Accepts(k) /\ up # "off" /\ InTurn(k)}
Completed == {k \in zed \cup ret : ph[k] = "held" /\ Whole(k) /\ k \in here}
Writable == {w \in (DOMAIN que) \X (DOMAIN out) :
    /\ up # "off" /\ que[w[1]] # <<>> /\ w[2] \in OutsOf(w[1]) /\ w[2] \notin done[w[1]]
    /\ LET k == Head(que[w[1]]) IN \/ (ph[k] = "ready" /\ w[2] \in Takes(k) /\ Next1(w[2]) = k)
                                    \/ (ph[k] = "torn" /\ Next1(w[2]) = -k)}
Anons == {o \in DOMAIN out : Next1(o) = Anon /\ up # "off" /\ anon[o] < budget[cfg.outs[o][1]] /\ here \cap Range(out[o]) = {}}
Later(x, o) == \E i \in (Len(out[o]) + anon[o] + 1)..Len(Fin(o)) : Fin(o)[i] = x
Again(c) == LET k == Head(que[c]) IN \E o \in OutsOf(c) : Later(k, o) \/ Later(-k, o)
Releasable == {c \in DOMAIN que : up # "off" /\ que[c] # <<>> /\ ~Again(c) /\
    LET k == Head(que[c]) IN (ph[k] = "ready" /\ Takes(k) \subseteq done[c]) \/ ph[k] = "torn"}

HComplete(S) == Complete(CHOOSE k \in S : TRUE) /\ UNCHANGED tvars
HWrite(S) == (LET w == CHOOSE x \in S : TRUE IN Write(w[1], w[2])) /\ UNCHANGED tvars
HAnon(S) == anon' = [anon EXCEPT ![CHOOSE o \in S : TRUE] = @ + 1] /\ UNCHANGED <<shmvars, l, zed, op, budget, here, vis, calm>>
HRelease(S) == Release(CHOOSE c \in S : TRUE) /\ UNCHANGED tvars
HAdmit(S) == Admit(CHOOSE k \in S : TRUE) /\ UNCHANGED tvars

(* ---- observed steps *)
Is(kind) == Ev[1] = kind /\ l' = l + 1
EvB == Is("B") /\ Begin(Ev[2]) /\ here' = here \cup {Ev[2]} /\ calm' = FALSE /\ UNCHANGED <<zed, op, anon, budget, vis>>
EvA == Is("A") /\ UNCHANGED <<zed, op, anon, budget, here, vis, calm>> /\ LET k == Ev[2] IN
    IF Ev[3] = 1 THEN Accepts(k) /\ UNCHANGED shmvars ELSE Refuse(k)
EvZ == Is("Z") /\ zed' = (IF Tr.acc[Ev[2]] = 1 THEN zed \cup {Ev[2]} ELSE zed) /\ UNCHANGED <<shmvars, op, anon, budget, here, vis, calm>>
(* a statement that returned is complete, unless it was in progress around a start or stop *)
EvE == Is("E") /\ zed' = zed \ {Ev[2]} /\ Return(Ev[2]) /\ UNCHANGED <<op, anon, budget, here, vis, calm>>

Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
Busy(c) == \E k \in here : ChanOf(k) = c /\ k \notin ret
MustShow(o) == calm \/ (cfg.chan[cfg.outs[o][1]].sync /\ up = "on" /\ ~Busy(cfg.outs[o][1]))
Complete1 == {k \in ret : Tr.acc[k] = 1 /\ k \notin lossy}
EvS ==
    /\ Is("S") /\ UNCHANGED <<shmvars, zed, op, anon, budget, here, calm>>
    /\ \A o \in DOMAIN out : LET f == Ev[2][o] IN
        /\ Prefix(f, Fin(o)) /\ Len(f) >= vis[o] /\ Len(f) <= Len(out[o]) + anon[o]
        /\ MustShow(o) => \A k \in Complete1 : o \in Takes(k) => k \in Range(f)
    /\ vis' = [o \in DOMAIN out |-> Len(Ev[2][o])]
EvI == Is("I") /\ calm' = (calm \/ (Ev[2] >= IdleBound /\ up = "on" /\ here \subseteq ret)) /\ UNCHANGED <<shmvars, zed, op, anon, budget, here, vis>>
EvC ==
    /\ Is("C") /\ Ev[3] = 1 /\ op = "none"
    /\ CASE Ev[2] = "start" -> StartBegin /\ op' = "start"
         [] Ev[2] = "stop" -> StopBegin /\ op' = "stop"
         [] OTHER -> UNCHANGED shmvars /\ up = "off" /\ op' = "del"
    /\ calm' = FALSE /\ UNCHANGED <<zed, anon, budget, here, vis>>
EvR ==
    /\ Is("R")
    /\ CASE op = "start" -> StartEnd
         [] op = "stop" -> StopEnd
         [] OTHER -> UNCHANGED shmvars
    /\ op' = "none" /\ calm' = (op = "stop") /\ UNCHANGED <<zed, anon, budget, here, vis>>
(* everything on the disk at the moment of the crash is explained *)
Limbo(c) == {k \in Ents : Tr.acc[k] = 1 /\ ChanOf(k) = c /\ ph[k] \in {"begun", "held"}}
Pending(c) == {k \in here : ChanOf(k) = c /\ ph[k] = "begun" /\ k \notin ret}
EvX ==
    /\ Is("X") /\ Crash
    /\ \A o \in DOMAIN out : Len(out[o]) + anon[o] = Lim(o)
    /\ \A k \in Complete1 : Whole(k)
    /\ budget' = [c \in DOMAIN budget |-> budget[c] + Cardinality(Limbo(c) \cup Pending(c) \cup {k \in zed : ChanOf(k) = c})
                    + (IF \E o \in OutsOf(c) : Lim(o) > 0 /\ Fin(o)[Lim(o)] = Anon THEN 1 ELSE 0)]
    /\ zed' = {} /\ here' = {} /\ op' = "none" /\ calm' = FALSE /\ UNCHANGED <<anon, vis>>
EvEnd ==
    /\ Is("END") /\ UNCHANGED <<shmvars, zed, op, anon, budget, here, vis, calm>>
    /\ here \subseteq ret /\ op = "none" /\ \A o \in DOMAIN out : Len(out[o]) + anon[o] = Len(Fin(o))

Observed == l <= Len(Tr.ev) /\ (EvB \/ EvA \/ EvZ \/ EvE \/ EvS \/ EvI \/ EvC \/ EvR \/ EvX \/ EvEnd)
Finished == l > Len(Tr.ev) /\ UNCHANGED <<shmvars, tvars>>
Next == LET c == Completed IN IF c # {} THEN HComplete(c)
        ELSE LET w == Writable IN IF w # {} THEN HWrite(w)
        ELSE LET r == Releasable IN IF r # {} THEN HRelease(r)
        ELSE LET a == Admissible IN IF a # {} THEN HAdmit(a)
        ELSE LET n == Anons IN IF n # {} THEN HAnon(n)
        ELSE Observed \/ Finished
View == <<tr, l, ph, que, out, done, anon>>
Spec == Init /\ [][Next /\ UNCHANGED tr]_<<tr, shmvars, tvars>>
===============================================================================
