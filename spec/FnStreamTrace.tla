------------------------------- MODULE FnStreamTrace -------------------------------
(***************************************************************************)
(* Conformance of line contents: statements begun (O), fed with items (P),  *)
(* finished (C) by the real code, and the bytes found in the file (D).      *)
(*  O p ts k   p: the prefix asked for; its time is one of ts; k: its lane  *)
(*             (what one thread logs to one channel)                        *)
(*  P n it / C n                                                            *)
(*  D txt ks   everything in the file of the lanes ks, all statements being *)
(*             finished: the lines of each lane are in their order          *)
(***************************************************************************)
EXTENDS FnStream, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l,
          lanes,          \* lane -> its statements
          line,           \* lines of the file that are explained, while they are explained one after another
          pos             \* the ways to explain them: <<lines of each lane, bytes of the file>>
Tr == Data[tr]
Nothing == {<<<<>>, 0>>}
Ev == Tr.ev[l]
Init == tr \in DOMAIN Data /\ l = 1 /\ pos = Nothing /\ line = 0 /\ lanes = <<>> /\ SInit
Step == l' = l + 1 /\ tr' = tr /\ pos' = Nothing /\ line' = 0
Lane(k) == IF k \in DOMAIN lanes THEN lanes[k] ELSE <<>>
EvO == Ev[1] = "O" /\ Open({Prefix(Ev[2] @@ [day |-> Ev[3][i][1], sec |-> Ev[3][i][2], ms |-> Ev[3][i][3]]) : i \in DOMAIN Ev[3]}) /\ Step
       /\ lanes' = (Ev[4] :> Append(Lane(Ev[4]), Count + 1)) @@ lanes
EvP == Ev[1] = "P" /\ Put(Ev[2], Ev[3]) /\ Step /\ UNCHANGED lanes
EvC == Ev[1] = "C" /\ Close(Ev[2]) /\ Step /\ UNCHANGED lanes
\* ways to explain one more line after x, <<lines explained of each lane, bytes explained>>
More(x, ks, txt) ==
    LET At(k) == IF k \in DOMAIN x[1] THEN x[1][k] + 1 ELSE 1
        Fits(k) == {y \in done[Lane(k)[At(k)]] : x[2] + Len(y) <= Len(txt) /\ SubSeq(txt, x[2] + 1, x[2] + Len(y)) = y}
    IN {<<(k :> At(k)) @@ x[1], x[2] + Len(CHOOSE y \in Fits(k) : TRUE)>> : k \in {j \in ks : At(j) <= Len(Lane(j)) /\ Fits(j) # {}}}
EvD == /\ Ev[1] = "D" /\ DOMAIN cur = {}
       /\ UNCHANGED <<svars, lanes>>
       /\ LET ks == {Ev[3][i] : i \in DOMAIN Ev[3]}
              n == Cardinality(UNION {{Lane(k)[i] : i \in DOMAIN Lane(k)} : k \in ks})
          IN IF line = n THEN ((\E x \in pos : x[2] = Len(Ev[2])) = TRUE) /\ Step
             ELSE /\ pos' = UNION {More(x, ks, Ev[2]) : x \in pos}
                  /\ pos' # {} /\ line' = line + 1 /\ UNCHANGED <<tr, l>>
Done == l = Len(Tr.ev) + 1 /\ UNCHANGED <<svars, tr, l, lanes, line, pos>>
Next == (l <= Len(Tr.ev) /\ (EvO \/ EvP \/ EvC \/ EvD)) \/ Done
Spec == Init /\ [][Next]_<<svars, tr, l, lanes, line, pos>>
====================================================================================
