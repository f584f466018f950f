--------------------------------- MODULE MCFnFile ---------------------------------
(***************************************************************************)
(* All histories of FnFile within small bounds: devices with different      *)
(* settings, lines of several lengths and times, restarts of the logger,    *)
(* faults of device 2. The properties C10, C11 and C19 as invariants.       *)
(***************************************************************************)
EXTENDS FnFile, SequencesExt

CONSTANTS Lines, MaxTime, MaxRestart, Mode
VARIABLES when, restarts, tried, all, now
mvars == <<when, restarts, tried, all, now>>

(* a line is 10 * number + length *)
MLen(k) == k % 10
MDay(ts) == (ts \div 86400) * 86400
MHour(ts) == (ts \div 3600) * 3600
MDirs(d, ts) == <<>>
MFile(d, ts) == CASE Mode = "time" /\ d = 1 -> "a" \o ToString(ts \div 86400)
                  [] Mode = "time" /\ d = 2 -> "b" \o ToString(ts \div 3600)
                  [] OTHER -> IF d = 1 THEN "a" ELSE "b"
MNameLen(d, ts) == 1
S0 == [able |-> TRUE, limit |-> 0, rb |-> 0, stuff |-> FALSE, daily |-> FALSE, hourly |-> FALSE]
Settings ==
    CASE Mode = "size" -> {<<[S0 EXCEPT !.limit = a, !.rb = b, !.stuff = c], [S0 EXCEPT !.rb = e, !.stuff = c]>> :
                               a \in {4, 6}, b \in {1, 2}, c \in BOOLEAN, e \in {0, 1}}
      [] Mode = "time" -> {<<[S0 EXCEPT !.daily = TRUE], [S0 EXCEPT !.hourly = TRUE]>>, <<[S0 EXCEPT !.daily = TRUE, !.rb = 1], [S0 EXCEPT !.hourly = TRUE, !.rb = 2]>>}
      [] OTHER -> {<<S0, S0>>, <<[S0 EXCEPT !.limit = 6, !.rb = 1], [S0 EXCEPT !.limit = 6, !.rb = 1]>>, <<[S0 EXCEPT !.rb = 1], [S0 EXCEPT !.rb = 1]>>}
Times == CASE Mode = "time" -> {t * 1800 + 86400 - 3600 : t \in 0..MaxTime}
           [] Mode = "fault" -> {now + 2, now + 5}
           [] OTHER -> {100}
Lens == IF Mode = "size" THEN {1, 3, 7} ELSE {2}

MDevs == 1..2
Init == /\ fs = [x \in {} |-> <<>>] /\ bad = {} /\ st \in Settings
        /\ dv = [d \in Devs |-> Closed] /\ got = [d \in Devs |-> <<>>]
        /\ when = <<>> /\ restarts = 0 /\ tried = <<>> /\ all = <<>> /\ now = 100
Line == /\ Len(all) < Lines
        /\ \E n \in Lens, ts \in Times :
             LET k == 10 * (Len(all) + 1) + n
                 o == Outcome(fs, 1, k, ts)      \* device 1, then device 2
                 o2 == Outcome(o.fs, 2, k, ts)
             IN  /\ all' = Append(all, k) /\ when' = Append(when, ts) /\ now' = ts
                 /\ fs' = o2.fs /\ dv' = <<o.s, o2.s>>
                 /\ got' = <<IF o.ok THEN Append(got[1], k) ELSE got[1], IF o2.ok THEN Append(got[2], k) ELSE got[2]>>
                 /\ tried' = IF o2.s.last = ts /\ ~o2.ok THEN Append(tried, ts) ELSE tried
                 /\ UNCHANGED <<st, bad, restarts>>
Restart == /\ restarts < MaxRestart /\ restarts' = restarts + 1
           /\ \/ Stop(Devs) \/ Fresh(Devs)
           /\ UNCHANGED <<when, tried, all, now>>
Fault == /\ Mode = "fault"
         /\ \E b \in {{}, {<<2, "open">>}, {<<2, "write">>}} : b # bad /\ Break(b)
         /\ UNCHANGED mvars
Next == Line \/ Restart \/ Fault
Spec == Init /\ [][Next]_<<fvars, mvars>>

(* ---- C10 *)
Base(d) == IF d = 1 THEN "a" ELSE "b"
RECURSIVE History(_, _)
History(p, i) == IF i < 0 THEN <<>> ELSE At(fs, Bak(p, i)) \o History(p, i - 1)
IsSuffixOf(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, Len(t) - Len(s) + 1, Len(t))
Sized(d) == st[d].limit > 0 /\ st[d].rb > 0
SizeSuffix == Mode # "time" => \A d \in Devs : IsSuffixOf(History(Base(d), st[d].rb), got[d])
SizeCount == Mode # "time" => DOMAIN fs \subseteq {Bak(Base(d), j) : d \in Devs, j \in 0..2} /\ \A d \in Devs : \A j \in 1..2 : j > st[d].rb => Bak(Base(d), j) \notin DOMAIN fs
SizeLimit == Mode # "time" => \A d \in Devs : Sized(d) => \A p \in DOMAIN fs : (SubSeq(p, 1, 1) = Base(d) /\ ~st[d].stuff) => Len(fs[p]) <= 1 \/ Bytes(fs[p]) <= st[d].limit
(* nothing is discarded while a backup is free; a running device without limit has one file *)
SizeComplete == Mode # "time" => \A d \in Devs : Bak(Base(d), st[d].rb) \notin DOMAIN fs => History(Base(d), st[d].rb) = got[d]
NoSplit == (Mode # "time" /\ restarts = 0) => \A d \in Devs : ~Sized(d) => DOMAIN fs \cap {Bak(Base(d), j) : j \in 1..2} = {}
(* ---- C11 *)
WhenOf(k) == when[k \div 10]
Dated == Mode = "time" => \A p \in DOMAIN fs : \A n \in DOMAIN fs[p] :
            /\ SubSeq(p, 1, 1) = "a" => \E j \in 0..2 : p = Bak(MFile(1, WhenOf(fs[p][n])), j)
            /\ SubSeq(p, 1, 1) = "b" => \E j \in 0..2 : p = Bak(MFile(2, WhenOf(fs[p][n])), j)
Kept == (Mode = "time" /\ \A d \in Devs : st[d].rb = 0) => \A d \in Devs : \A n \in DOMAIN all : \E p \in DOMAIN fs : SubSeq(p, 1, 1) = Base(d) /\ all[n] \in Range(fs[p])
(* ---- C19 *)
Healthy == got[1] = all
Throttle == \A n \in 1..(Len(tried) - 1) : restarts = 0 => tried[n + 1] >= tried[n] + Retry \/ \E k \in Range(got[2]) : WhenOf(k) > tried[n] /\ WhenOf(k) <= tried[n + 1]
(* the lines of the broken device are a subsequence of all lines *)
OwnOnly == \A n \in 1..Len(got[2]) : got[2][n] \in Range(all) /\ (n > 1 => got[2][n - 1] < got[2][n])
AfterRecovery == [][(bad = {} /\ dv[2].last = 0 /\ all' # all) => got'[2] = Append(got[2], all'[Len(all')])]_<<fvars, mvars>>
===================================================================================
