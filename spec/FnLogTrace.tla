------------------------------ MODULE FnLogTrace ------------------------------
(***************************************************************************)
(* Conformance: is every recorded execution of the real code a behaviour of *)
(* FnLog? Data is a batch of executions; every one is checked from its own  *)
(* initial state. A recorded event is consumed by the FnLog action it is    *)
(* the observation of; the actions that cannot be observed (Admit, Deliver, *)
(* WriteSync) are taken as early as possible. That loses nothing: the only  *)
(* upper bounds are the final contents of the files (known in advance, see  *)
(* pos) and the lower bounds are the moments at which lines must be visible.*)
(* An execution that is not a behaviour of FnLog deadlocks before its end.  *)
(*                                                                          *)
(* Events (first element is the kind, entries and outputs are numbers):     *)
(*  B k     the statement of entry k is about to be executed                *)
(*  A k a   it was accepted (a = 1) or refused (a = 0)                      *)
(*  Z k     its content is final, it is about to return                     *)
(*  E k     it returned                                                     *)
(*  C n L kind ok just   a life cycle call begins; ok: it will succeed;     *)
(*          just: its failure needs no further reason (bad configuration)   *)
(*  R n     it returned                                                     *)
(*  S       contents of all observed files: numbers of entries, 0: a line   *)
(*          nobody logged, -1: an unterminated last line                    *)
(*  I us    nothing but us micro seconds of time passed for this thread     *)
(*  K L cs  counters of the channels of logger L                            *)
(*  O C v / P C v   settings v may be / are in effect on the channels C     *)
(*  H k p c i z  the virtual device hook was called for entry k with this    *)
(*          priority, category and identify; z: by its own thread, terminated *)
(*  W ls    the lines on the screen: entry, colour code, colour was closed   *)
(*  M on    the hook is installed from now on                               *)
(*  END     every thread ended                                              *)
(***************************************************************************)
EXTENDS FnLog, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
QueueCap == 11            \* places of the queue of the build under test
IdleBound == 2000000       \* micro seconds within which lines get visible (C07)

VARIABLES
    l,      \* next event
    zed,    \* live entries whose content is final
    open,   \* accepted entries whose content is not final: each holds a place of the queue
    pend,   \* life cycle calls in progress: [n, L, kind, ok, just, w]
    calm,   \* channels at rest for at least IdleBound: everything must be visible
    hooked, \* entries for which the hook was called
    hookon, \* the hook is installed
    edge,   \* entries written although their statement overlapped a life cycle call (it may not have been counted)
    late    \* accepted and returned, found nowhere: still queued, settings that do not want them may come
tvars == <<l, zed, open, pend, calm, hooked, hookon, edge, late>>
Tr == Data[tr]
TraceConfig(t) == Data[t].cfg

Init ==
    /\ tr \in DOMAIN Data
    /\ l = 1
    /\ SysInit(Data[tr].cfg, Range(Data[tr].loggers), 1)
    /\ zed = {} /\ open = {} /\ pend = {} /\ calm = {} /\ hooked = {} /\ hookon = FALSE /\ edge = {} /\ late = {}

Ev == Tr.ev[l]

(* ---- hidden steps *)
Final(k) == {p[1] : p \in Range(Tr.pos[k])}     \* the observed outputs on which k finally is
Nxt(o) == LET q == que[cfg.outs[o][1]] IN Len(out[o]) + Cardinality({i \in DOMAIN q : o \in Final(q[i])})
InTurn(k) == IF Sync(k) THEN TRUE
             ELSE (Final(k) # {} \/ MustTake(k) \cap Range(Tr.seen) = {}) /\ \A p \in Range(Tr.pos[k]) : p[2] = Nxt(p[1]) + 1
(* was it accepted? Not observed for transmitted logs: they were if they are somewhere, or can only be where nobody looks *)
Acc(k) == IF Tr.trans[k] = 1 THEN Final(k) # {} \/ (MustAccept(k) /\ MustTake(k) \cap Range(Tr.seen) = {}) ELSE Tr.acc[k] = 1
Admissible == {k \in Ents : ph[k] = "begun" /\ Acc(k) /\ MayAdmit(k) /\ InTurn(k)}
Completed == {k \in zed \cup late : ph[k] = "admitted"}
(* an entry may be on outputs that are not observed: they take whatever they must take *)
Unseen(k) == {o \in MustTake(k) : o \notin Range(Tr.seen)}
Takers(k) == Final(k) \cup Unseen(k)
Possible(k) == MustTake(k) \subseteq Takers(k) /\ Takers(k) \subseteq MayTake(k)    \* if not: maybe after a change of settings
Deliverable == {c \in Chans : que[c] # <<>> /\ ph[Head(que[c])] = "ready" /\ Possible(Head(que[c]))}
SyncReady == {k \in Ents : ph[k] = "ready" /\ Sync(k)}
SyncWrites == UNION {{<<o, k>> : o \in {p[1] : p \in {p \in Range(Tr.pos[k]) : p[2] = Len(out[p[1]]) + 1 /\ k \notin Range(out[p[1]]) /\ p[1] \in MayTake(k)}}
                                        \cup {o \in Unseen(k) : k \notin Range(out[o])}} : k \in SyncReady}
SyncFinished == {k \in SyncReady \ zed : SyncDone(k) /\ \A o \in Final(k) : k \in Range(out[o])}
HComplete(S) == Complete(CHOOSE k \in S : TRUE) /\ UNCHANGED tvars
HDeliver(S) == LET c == CHOOSE x \in S : TRUE IN Deliver(c, Takers(Head(que[c]))) /\ UNCHANGED tvars
HAdmit(S) == Admit(CHOOSE k \in S : TRUE) /\ UNCHANGED tvars
HWriteSync(S) == LET w == CHOOSE x \in S : TRUE IN WriteSync(w[1], w[2]) /\ UNCHANGED tvars
(* A datagram that an input device has received but not written is lost if its logger is stopped meanwhile. *)
Unread == {k \in late \cap lossy : ph[k] = "begun" /\ Tr.dg[k] = 1}
HLose(S) == Drop(CHOOSE k \in S : TRUE) /\ UNCHANGED tvars
HFinishSync(S) == FinishSync(CHOOSE k \in S : TRUE) /\ UNCHANGED tvars

(* ---- observed steps *)
Is(kind) == Ev[1] = kind /\ l' = l + 1
Keep == UNCHANGED <<zed, open, pend, calm, hooked, hookon, edge, late>>

EvB == Is("B") /\ Begin(Ev[2]) /\ calm' = calm \ {ChanOf(Ev[2])} /\ UNCHANGED <<zed, open, pend, hooked, hookon, edge, late>>

EvA == Is("A") /\ UNCHANGED <<zed, pend, calm, hooked, hookon, edge, late>> /\ LET k == Ev[2] IN
    IF Acc(k)
    THEN /\ MayAccept(k) /\ k \in could /\ UNCHANGED sysvars
         /\ open' = open \cup {k}
         /\ Cardinality({j \in open \ lossy : ChanOf(j) = ChanOf(k)}) < QueueCap    \* C03: it waits while the queue is full
    ELSE Refuse(k) /\ UNCHANGED open

EvZ == Is("Z") /\ zed' = (IF ph[Ev[2]] = "refused" THEN zed ELSE zed \cup {Ev[2]}) /\ open' = open \ {Ev[2]}
    /\ UNCHANGED <<sysvars, pend, calm, hooked, hookon, edge, late>>

(* The statement returned: a synchronous channel has written the line if nothing else is in progress on it. *)
Virtual(o) == cfg.chan[cfg.outs[o][1]].kinds[cfg.outs[o][2]] = "virtual"
HookMust(k) == Acc(k) /\ hookon /\ Tr.trans[k] = 0 /\ \E o \in MustTake(k) : Virtual(o)
HookMay(k)  == hookon /\ Tr.trans[k] = 0 /\ \E o \in MayTake(k) : Virtual(o)
EvE == Is("E") /\ LET k == Ev[2] IN
    /\ zed' = zed \ {k}
    /\ HookMust(k) => k \in hooked
    /\ late' = {j \in late : ph[j] = "begun"} \cup {j \in {k} : ph[k] = "begun" /\ k \notin lossy /\ ~Sync(k) /\ Acc(k) /\ Final(k) = {}}
    /\ UNCHANGED <<open, pend, calm, hooked, hookon, edge>>
    /\ CASE ph[k] = "refused" -> UNCHANGED sysvars
         [] ph[k] \in {"ready", "written"} /\ ~Sync(k) -> UNCHANGED sysvars
         [] ph[k] = "ready" /\ Sync(k) -> (IF (MustTake(k) \cap Range(Tr.seen)) \subseteq Final(k) THEN UNCHANGED sysvars ELSE Drop(k))
         [] k \in late' -> UNCHANGED sysvars
         [] OTHER -> Drop(k)

(* ---- what must be in a file *)
InFlight(c) == {k \in Ents : ChanOf(k) = c /\ Live(k) /\ ph[k] # "ready"} \cup (zed \cap {k \in Ents : ChanOf(k) = c})
Quiet(c) == InFlight(c) = {}
LOf(o) == cfg.chan[cfg.outs[o][1]].L
MustShow(o) == LET c == cfg.outs[o][1] IN
    \/ c \in calm
    \/ cfg.chan[c].sync /\ Quiet(c) /\ que[c] = <<>>
    \/ SureOff(LOf(o)) /\ ~\E p \in pend : p.L = LOf(o)
(* the last line of the file that has to be there: completed, accepted, not dropped *)
Sure(o) == {i \in DOMAIN out[o] : out[o][i] \notin lossy /\ out[o][i] \notin zed}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
SnapOk(o, raw) ==
    LET partial == raw # <<>> /\ raw[Len(raw)] = -1
        f == IF partial THEN SubSeq(raw, 1, Len(raw) - 1) ELSE raw
        c == cfg.outs[o][1] IN
    /\ Prefix(f, out[o])
    /\ Len(f) >= vis[o]
    /\ MustShow(o) => Len(f) >= Max0(Sure(o))
    /\ (MustShow(o) /\ Quiet(c)) => ~partial /\ Len(f) = Len(out[o])
SnapLen(raw) == IF raw # <<>> /\ raw[Len(raw)] = -1 THEN Len(raw) - 1 ELSE Len(raw)
EvS ==
    /\ Is("S") /\ Keep
    /\ \A i \in DOMAIN Tr.seen : SnapOk(Tr.seen[i], Ev[2][i])
    /\ vis' = [o \in DOMAIN vis |-> IF \E i \in DOMAIN Tr.seen : Tr.seen[i] = o
                                    THEN SnapLen(Ev[2][CHOOSE i \in DOMAIN Tr.seen : Tr.seen[i] = o]) ELSE vis[o]]
    /\ UNCHANGED <<life, ph, alt, eff, que, out, could, lossy>>

EvI == Is("I") /\ (Ev[2] >= IdleBound => \A k \in late : ph[k] = "begun" => ~SureOn(LoggerOf(k))) /\ UNCHANGED <<sysvars, zed, open, pend, hooked, hookon, edge, late>>
    /\ calm' = IF Ev[2] >= IdleBound THEN calm \cup {c \in Chans : Quiet(c) /\ SureOn(cfg.chan[c].L)} ELSE calm

(* ---- life cycle calls *)
Start(p) == p.kind \in {"start", "load"}
(* a failing call has a reason, at some moment of the call *)
Reason(p, lf) == LET sureOn == lf[p.L].n = 1 /\ lf[p.L].busy = 0
                     sureOff == lf[p.L].n = 0 /\ lf[p.L].busy = 0 IN
    \/ p.just
    \/ Start(p) /\ ~sureOff
    \/ ~Start(p) /\ ~sureOn
    \/ Start(p) /\ \E q \in pend : q.L = p.L /\ q.n # p.n /\ q.bad     \* overlaps a start that fails
Refresh(P, lf) == {[p EXCEPT !.just = Reason(p, lf)] : p \in P}
Uncalm(L) == calm' = {c \in calm : cfg.chan[c].L # L}
EvC == Is("C") /\ LET p == [n |-> Ev[2], L |-> Ev[3], kind |-> Ev[4], ok |-> Ev[5] = 1, just |-> Ev[6] = 1, bad |-> Ev[6] = 1] IN
    /\ Uncalm(p.L)
    /\ IF p.ok /\ ~(p.kind = "del" /\ SureOff(p.L)) THEN LifeBegin(p.L) ELSE UNCHANGED sysvars
    /\ pend' = Refresh(pend \cup {p}, life')
    /\ edge' = edge \cup {k \in zed : LoggerOf(k) = p.L}
    /\ UNCHANGED <<zed, open, hooked, hookon, late>>
EvR == Is("R") /\ \E p \in pend :
    /\ p.n = Ev[2]
    /\ IF p.ok
       THEN IF p.kind = "del" /\ life[p.L].busy = 0 THEN UNCHANGED sysvars
            ELSE IF Start(p) THEN StartEnd(p.L) ELSE StopEnd(p.L)
       ELSE p.just /\ UNCHANGED sysvars
    /\ life'[p.L].busy = 0 => life'[p.L].n \in {0, 1}
    /\ life'[p.L].n \in -life'[p.L].busy..(1 + life'[p.L].busy)
    /\ Uncalm(p.L)
    /\ pend' = Refresh(pend \ {p}, life')
    /\ UNCHANGED <<zed, open, hooked, hookon, edge, late>>

(* ---- counters (C17), compared when they must be exact *)
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN cfg.ent[k].len + SumLen(S \ {k})
Accepted(c) == {k \in Ents : ChanOf(k) = c /\ ph[k] \in {"admitted", "ready", "written"}}
OfPri(S, p) == {k \in S : cfg.ent[k].pri = p}
ChanCount(c, r) ==
    /\ r.hold = Cardinality(Accepted(c)) /\ r.push = r.hold /\ r.proc = r.hold
    /\ r.pbytes = SumLen(Accepted(c))
    /\ \A p \in 0..(Len(r.pri) - 1) : r.pri[p + 1] = SumLen(OfPri(Accepted(c), p))
DevCount(o, r) ==
    /\ r.line = Len(out[o]) /\ r.byte = SumLen(Range(out[o]))
    /\ \A p \in 0..(Len(r.pri) - 1) : r.pri[p + 1] = SumLen(OfPri(Range(out[o]), p))
Exact(L) == \A c \in Chans : cfg.chan[c].L = L =>
    /\ Quiet(c) /\ (c \in calm \/ SureOff(L) \/ cfg.chan[c].sync)
    /\ ~\E k \in lossy \cup edge : ChanOf(k) = c /\ ph[k] # "refused"
EvK ==
    /\ Is("K") /\ Keep /\ UNCHANGED sysvars
    /\ Exact(Ev[2]) =>
        \A c \in Chans : cfg.chan[c].L = Ev[2] => LET r == Ev[3][cfg.chan[c].ch + 1] IN
            /\ ~cfg.chan[c].inp => ChanCount(c, r)
            /\ \A o \in OutsOf(c) : cfg.chan[c].kinds[cfg.outs[o][2]] \in {"file", "udp"} => DevCount(o, r.d[cfg.outs[o][2]])

(* ---- settings *)
EvO == Is("O") /\ Offer(Range(Ev[2]), Ev[3]) /\ Keep
EvP == Is("P") /\ Settle(Range(Ev[2]), Ev[3]) /\ Keep

(* ---- virtual device hook: called once per entry, by the statement, with the finished content *)
EvH == Is("H") /\ LET k == Ev[2] IN
    /\ k \in zed /\ k \notin hooked /\ HookMay(k)
    /\ Ev[3] = cfg.ent[k].pri /\ Ev[4] = cfg.ent[k].ca /\ Ev[5] = cfg.ent[k].idn /\ Ev[6] = 1
    /\ hooked' = hooked \cup {k}
    /\ UNCHANGED <<sysvars, zed, open, pend, calm, hookon, edge, late>>
EvM == Is("M") /\ hookon' = (Ev[2] = 1) /\ UNCHANGED <<sysvars, zed, open, pend, calm, hooked, edge, late>>

(* ---- the screen: a line of info priority or more is coloured and the colour is closed *)
Colour(p) == CASE p < 2 -> "" [] p = 2 -> "34m1m" [] p = 3 -> "33m" [] p = 4 -> "31m" [] p = 5 -> "32m" [] OTHER -> "35m"
EvW == Is("W") /\ Keep /\ UNCHANGED sysvars
    /\ \A i \in DOMAIN Ev[2] : LET k == Ev[2][i][1] IN
        k \in Ents /\ Ev[2][i][2] = Colour(cfg.ent[k].pri) /\ (Ev[2][i][3] = 1 <=> cfg.ent[k].pri >= 2)

EvEnd ==
    /\ Is("END") /\ Keep /\ UNCHANGED sysvars
    /\ pend = {} /\ \A k \in Ents : ~(Live(k) /\ ph[k] = "begun")
    /\ \A i \in DOMAIN Tr.seen : Len(out[Tr.seen[i]]) >= Tr.flen[i]

Observed == l <= Len(Tr.ev) /\ (EvB \/ EvA \/ EvZ \/ EvE \/ EvS \/ EvI \/ EvC \/ EvR \/ EvK \/ EvO \/ EvP \/ EvH \/ EvM \/ EvW \/ EvEnd)
Finished == l > Len(Tr.ev) /\ UNCHANGED <<sysvars, tvars>>
Next == LET c == Completed IN IF c # {} THEN HComplete(c)
        ELSE LET d == Deliverable IN IF d # {} THEN HDeliver(d)
        ELSE LET a == Admissible IN IF a # {} THEN HAdmit(a)
        ELSE LET w == SyncWrites IN IF w # {} THEN HWriteSync(w)
        ELSE LET u == Unread IN IF u # {} THEN HLose(u)
        ELSE LET f == SyncFinished IN IF f # {} THEN HFinishSync(f)
        ELSE Observed \/ Finished
TNext == Next /\ UNCHANGED tr
View == <<tr, l, ph, que, out>>
Spec == Init /\ [][TNext]_<<tr, sysvars, tvars>>

===============================================================================
