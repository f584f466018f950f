------------------------------- MODULE MCFnLog -------------------------------
(* Exhaustive check of the abstract system with small constants. One logger   *)
(* with the channels of Profile, statements by Threads threads (statement i   *)
(* of a thread begins after its predecessor ended), one controller that       *)
(* starts, stops, restarts and stops, and (Profile "set") changes settings.   *)
EXTENDS FnLog, TLC
CONSTANTS Profile, PerThread, MaxLife, Threads

NoFlt == [pri |-> 0, cb |-> 0, cn |-> 0, cm |-> <<>>, ib |-> 0, in |-> 0, im |-> <<>>]
ErrFlt == [NoFlt EXCEPT !.pri = 4]
Dev(f) == [able |-> TRUE, inp |-> FALSE, flt |-> f]
Two == [flt |-> NoFlt, devs |-> <<Dev(NoFlt), Dev(ErrFlt)>>]
One == [flt |-> NoFlt, devs |-> <<Dev(NoFlt)>>]
High == [flt |-> ErrFlt, devs |-> <<Dev(NoFlt)>>]
N == PerThread * Threads
ThreadOf(k) == 1 + ((k - 1) \div PerThread)
Ent(c, k) == [c |-> c, pri |-> IF k % 2 = 0 THEN 4 ELSE 2, ca |-> 0, idn |-> 0]
C0(t) == CASE Profile = "async" -> [chan |-> <<[L |-> 0, sync |-> FALSE]>>, ver |-> << <<Two>> >>,
                                 outs |-> << <<1, 1>>, <<1, 2>> >>, ent |-> [k \in 1..N |-> Ent(1, k)]]
      []   Profile = "sync"  -> [chan |-> <<[L |-> 0, sync |-> TRUE]>>, ver |-> << <<Two>> >>,
                                 outs |-> << <<1, 1>>, <<1, 2>> >>, ent |-> [k \in 1..N |-> Ent(1, k)]]
      []   Profile = "mixed" -> [chan |-> <<[L |-> 0, sync |-> FALSE], [L |-> 0, sync |-> TRUE]>>, ver |-> << <<One, One>> >>,
                                 outs |-> << <<1, 1>>, <<2, 1>> >>, ent |-> [k \in 1..N |-> Ent(1 + (k % 2), k)]]
      []   Profile = "set"   -> [chan |-> <<[L |-> 0, sync |-> FALSE]>>, ver |-> << <<One>>, <<High>> >>,
                                 outs |-> << <<1, 1>> >>, ent |-> [k \in 1..N |-> Ent(1, k)]]

VARIABLES ended,  \* entries whose statement returned
          done,   \* number of finished life cycle calls
          cur,    \* the life cycle call in progress
          must,   \* entries that had ended when the stop in progress began
          upd     \* progress of the settings change: 0, 1 (offered), 2 (settled)
mcvars == <<tr, sysvars, ended, done, cur, must, upd>>
rest == <<tr, ended, done, cur, must, upd>>

Init == tr = 1 /\ SysInit(C0(1), {0}, 1) /\ ended = {} /\ done = 0 /\ cur = "none" /\ must = {} /\ upd = 0
Pred(k) == {f \in 1..N : ThreadOf(f) = ThreadOf(k) /\ f < k}
MBegin(k) == Pred(k) \subseteq ended /\ Begin(k) /\ UNCHANGED rest
MRefuse(k) == Refuse(k) /\ UNCHANGED rest
MAdmit(k) == Admit(k) /\ UNCHANGED rest
MComplete(k) == Complete(k) /\ UNCHANGED rest
MFinish(k) == FinishSync(k) /\ UNCHANGED rest
MDrop0(k) == SureOff(0) /\ Drop(k) /\ UNCHANGED rest      \* accepted, but the session is over
MDrop(k) == (Sync(k) \/ SureOff(0)) /\ Drop(k) /\ UNCHANGED rest
MEnd(k) == ph[k] \in ({"written", "refused", "dropped"} \cup IF Sync(k) THEN {} ELSE {"ready"}) /\ k \notin ended
           /\ ended' = ended \cup {k} /\ UNCHANGED <<tr, sysvars, done, cur, must, upd>>
MDeliver == (\E c \in Chans : \E S \in SUBSET OutsOf(c) : Deliver(c, S)) /\ UNCHANGED rest
MWriteSync(o, k) == WriteSync(o, k) /\ UNCHANGED rest
MShow(o) == Show(o) /\ UNCHANGED rest
Op == IF done % 2 = 0 THEN "start" ELSE "stop"
(* no start while a statement of the last session is still in progress (known finding, DESIGN.md) *)
MLifeBegin == cur = "none" /\ done < MaxLife
    /\ (Op = "start" /\ done > 0 => ~\E k \in Ents : Live(k))
    /\ cur' = Op /\ LifeBegin(0) /\ must' = (IF Op = "stop" THEN ended ELSE must) /\ UNCHANGED <<tr, ended, done, upd>>
MLifeEnd == cur # "none" /\ cur' = "none" /\ done' = done + 1
    /\ (IF cur = "start" THEN StartEnd(0) ELSE StopEnd(0)) /\ UNCHANGED <<tr, ended, must, upd>>
MSet == Profile = "set" /\ upd < 2 /\ upd' = upd + 1
    /\ (IF upd = 0 THEN Offer({1}, 2) ELSE Settle({1}, 2)) /\ UNCHANGED <<tr, ended, done, cur, must>>
Next == \/ \E k \in 1..N : MBegin(k) \/ MRefuse(k) \/ MAdmit(k) \/ MComplete(k) \/ MEnd(k) \/ MFinish(k) \/ MDrop(k)
        \/ MDeliver \/ (\E o \in 1..2 : o \in Outs /\ MShow(o)) \/ (\E o \in Outs, k \in 1..N : MWriteSync(o, k))
        \/ MLifeBegin \/ MLifeEnd \/ MSet
Fair == /\ WF_mcvars(MDeliver) /\ WF_mcvars(MLifeEnd)
        /\ \A k \in 1..N : WF_mcvars(MRefuse(k)) /\ WF_mcvars(MComplete(k)) /\ WF_mcvars(MEnd(k)) /\ WF_mcvars(MAdmit(k)) /\ WF_mcvars(MDrop0(k)) /\ WF_mcvars(MFinish(k))
        /\ \A k \in 1..N : \A o \in DOMAIN C0(1).outs : WF_mcvars(MWriteSync(o, k))
        /\ \A o \in DOMAIN C0(1).outs : WF_mcvars(MShow(o))
Spec == Init /\ [][Next]_mcvars /\ Fair
SafeSpec == Init /\ [][Next]_mcvars

(* C04: what had ended before the stop began and was accepted is in the files once the stop returned. *)
StopKeepsCompleted == (cur = "none" /\ SureOff(0)) => \A k \in must : ph[k] = "written" \/ ~MustAccept(k) \/ k \in lossy
(* C04: while the logger is off nothing more is written and a new statement is refused. *)
Silent == [][(SureOff(0) /\ cur' = "none") => \A o \in DOMAIN C0(1).outs : Profile \notin {"sync", "mixed"} => out'[o] = out[o]]_mcvars
(* C02 in real time: if k ended before f began, k is not behind f. *)
RealTime == [][\A f \in 1..N : (ph[f] = "new" /\ ph'[f] = "begun") => \A k \in ended : ph[k] # "begun"]_mcvars
(* C08: after a settings change is in effect every later log is judged by it only. *)
SettledSettings == \A k \in Ents : (upd = 2 /\ ph[k] = "new") => eff[ChanOf(k)] = {2}
(* C03: every statement ends. C07: everything written gets visible. *)
EveryStatementEnds == \A k \in 1..N : (ph[k] = "begun") ~> (k \in ended)
EveryLineVisible == \A k \in 1..N : (ph[k] = "ready" /\ k \notin lossy) ~>
    (k \in lossy \/ \A o \in MustTake(k) : \E i \in 1..vis[o] : out[o][i] = k)
=============================================================================
