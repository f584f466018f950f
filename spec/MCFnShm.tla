------------------------------- MODULE MCFnShm --------------------------------
(* Exhaustive check of FnShm with small constants: one channel with two outputs, statements of two threads, starts, stops and *)
(* crashes at any point.                                                        *)
EXTENDS FnShm, TLC
CONSTANTS PerThread, Threads, Crashes, Starts
NoFlt == [pri |-> 0, cb |-> 0, cn |-> 0, cm |-> <<>>, ib |-> 0, in |-> 0, im |-> <<>>]
Dev(p) == [able |-> TRUE, inp |-> FALSE, flt |-> [NoFlt EXCEPT !.pri = p]]
N == PerThread * Threads
C0(t) == [chan |-> <<[sync |-> FALSE]>>, set |-> <<[flt |-> NoFlt, devs |-> <<Dev(0), Dev(4)>>]>>, outs |-> << <<1, 1>>, <<1, 2>> >>,
          ent |-> [k \in 1..N |-> [c |-> 1, pri |-> IF k % 2 = 0 THEN 4 ELSE 2, ca |-> 0, idn |-> 0]]]
ThreadOf(k) == 1 + ((k - 1) \div PerThread)
VARIABLES
    rep,    \* entry -> number of crashes that hit it while it was being written
    born,   \* entry -> session in which its statement began
    starts, \* number of starts so far
    op      \* the life cycle call in progress
mcvars == <<tr, shmvars, rep, born, starts, op>>
same == <<tr, rep, born, starts, op>>
Init == tr = 1 /\ ShmInit(C0(1)) /\ rep = [k \in 1..N |-> 0] /\ born = [k \in 1..N |-> 0] /\ starts = 0 /\ op = "none"
MBegin(k) == /\ \A f \in 1..N : (ThreadOf(f) = ThreadOf(k) /\ f < k) => (f \in ret \/ (born[f] < sess /\ ph[f] # "new"))
             /\ up # "off" /\ Begin(k) /\ born' = [born EXCEPT ![k] = sess] /\ UNCHANGED <<tr, rep, starts, op>>
MCrash == sess <= Crashes /\ (up # "off" \/ Open # {}) /\ Crash /\ op' = "none"
    /\ rep' = [k \in 1..N |-> IF \E c \in Chans : done[c] # {} /\ Head(que[c]) = k THEN rep[k] + 1 ELSE rep[k]] /\ UNCHANGED <<tr, born, starts>>
MStart == up = "off" /\ starts < Starts /\ Open = {} /\ StartBegin /\ op' = "start" /\ starts' = starts + 1 /\ UNCHANGED <<tr, rep, born>>
MStarted == op = "start" /\ StartEnd /\ op' = "none" /\ UNCHANGED <<tr, rep, born, starts>>
MStop == starts > 1 /\ StopBegin /\ op' = "stop" /\ UNCHANGED <<tr, rep, born, starts>>
MStopped == op = "stop" /\ StopEnd /\ op' = "none" /\ UNCHANGED <<tr, rep, born, starts>>
Alive(k) == born[k] = sess
MStep(k) == (Refuse(k) \/ Admit(k) \/ Complete(k) \/ Return(k)) /\ Alive(k) /\ UNCHANGED same
MGiveUp(k) == op = "stop" /\ GiveUp(k) /\ UNCHANGED same
MWrite(o) == Write(1, o) /\ UNCHANGED same
MRelease == Release(1) /\ UNCHANGED same
Next == (\E k \in 1..N : MBegin(k) \/ MStep(k) \/ MGiveUp(k)) \/ (\E o \in 1..2 : MWrite(o)) \/ MRelease \/ MCrash \/ MStart \/ MStarted \/ MStop \/ MStopped
Fair == /\ \A o \in 1..2 : WF_mcvars(MWrite(o))
        /\ WF_mcvars(MRelease) /\ WF_mcvars(MStarted) /\ WF_mcvars(MStopped)
        /\ \A k \in 1..N : WF_mcvars(MStep(k)) /\ WF_mcvars(MGiveUp(k))
SafeSpec == Init /\ [][Next]_mcvars
Spec == SafeSpec /\ Fair

(* C12: written lines are repeated only if a crash hit them while they were being written (or acknowledged), one per channel and crash. *)
Repeats == \A o \in Outs : \A k \in 1..N : CountIn(out[o], k) <= 1 + rep[k]
(* C12: lines of earlier processes come before those of later ones (repeated ones included). *)
Sessions == \A o \in Outs : \A i, j \in DOMAIN out[o] : i < j =>
    LET a == IF out[o][i] > 0 THEN out[o][i] ELSE -out[o][i]  b == IF out[o][j] > 0 THEN out[o][j] ELSE -out[o][j] IN born[a] <= born[b]
StoppedMeansDrained == (up = "off" /\ op = "none" /\ \A c \in Chans : que[c] = <<>>) => \A k \in 1..N : ph[k] # "ready"
(* C12: what is complete is delivered if the logger keeps running at last. *)
Delivered == \A k \in 1..N : (ph[k] = "ready") ~> (ph[k] = "written" \/ up = "off")
=============================================================================
