------------------------------- MODULE FnFileTrace -------------------------------
(***************************************************************************)
(* Conformance of file outputs: every recorded history of lines, restarts,  *)
(* setting changes, faults and directory listings must be one of FnFile.    *)
(* Names are given as the sequences of literals and variables they were     *)
(* composed of; what they expand to is specified here, including calendar.  *)
(*                                                                          *)
(*  L k ts ds  line k with time ts was handed to the devices ds, in order   *)
(*  D fs       all files and their lines                                    *)
(*  X ds / N ds  the logger of these devices stopped / is a new one         *)
(*  S st       settings of all devices from now on                          *)
(*  F bad      what is broken from now on                                   *)
(*  P p c / R p  a file was created / removed by somebody else              *)
(***************************************************************************)
EXTENDS FnFile, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l,
    nth        \* devices that already took the line of the current event
Tr == Data[tr]
Cfg == Tr.cfg

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Pad(_, _)
Pad(n, w) == LET s == ToString(n) IN IF Len(s) >= w THEN s ELSE Cat([i \in 1..(w - Len(s)) |-> "0"]) \o s

(* civil date of the local time of a moment *)
Local(ts) == ts + Cfg.tz
Civil(ts) ==
    LET z == Local(ts) \div 86400 + 719468
        era == z \div 146097
        doe == z % 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN  [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1,
         h |-> (Local(ts) % 86400) \div 3600, n |-> (Local(ts) % 3600) \div 60, s |-> Local(ts) % 60]
Tok(t, c) ==
    CASE t[1] = "lit" -> t[2]
      [] t[1] = "YEAR" -> Pad(c.y, 4)
      [] t[1] = "MON" -> Pad(c.m, 2)
      [] t[1] = "DAY" -> Pad(c.d, 2)
      [] t[1] = "HOUR" -> Pad(c.h, 2)
      [] t[1] = "MIN" -> Pad(c.n, 2)
      [] t[1] = "SEC" -> Pad(c.s, 2)
      [] t[1] = "F" -> Pad(c.y, 4) \o "-" \o Pad(c.m, 2) \o "-" \o Pad(c.d, 2)
      [] t[1] = "PNAME" -> Cfg.pname
      [] t[1] = "PID" -> Tr.pid
Expand(p, c) == Cat([i \in DOMAIN p |-> Tok(p[i], c)])
RECURSIVE Prefixes(_, _)
Prefixes(q, acc) == IF q = <<>> THEN <<>> ELSE LET a == acc \o Head(q) IN <<a>> \o Prefixes(Tail(q), a \o "/")
Comps(d, ts) == LET c == Civil(ts) IN [i \in DOMAIN Cfg.dev[d].dirs |-> Expand(Cfg.dev[d].dirs[i], c)]

TDirs(d, ts) == Prefixes(Comps(d, ts), "")
TName(d, ts) == Expand(Cfg.dev[d].name, Civil(ts)) \o ".log"
TFile(d, ts) == LET q == Comps(d, ts) IN Cat([i \in DOMAIN q |-> q[i] \o "/"]) \o TName(d, ts)
TNameLen(d, ts) == Len(TFile(d, ts)) + Cfg.dev[d].noise
TDay(ts) == ts - (Local(ts) % 86400)
THour(ts) == ts - (Local(ts) % 3600)
TLen(k) == Cfg.len[k]
TDevs == 1..4

Init == /\ tr \in DOMAIN Data /\ l = 1
        /\ fs = [x \in {} |-> <<>>] /\ bad = {}
        /\ dv = [d \in TDevs |-> Closed]
        /\ got = [d \in TDevs |-> <<>>]
        /\ st = Data[tr].st0
tvars == <<tr, l, nth>>
Rng(s) == {s[x] : x \in DOMAIN s}
Ev == Tr.ev[l]
Step == l' = l + 1 /\ nth' = 0 /\ tr' = tr
More == l <= Len(Tr.ev)
EvLine == /\ More /\ Ev[1] = "L"
          /\ IF nth < Len(Ev[4]) THEN Write(Ev[4][nth + 1], Ev[2], Ev[3]) /\ nth' = nth + 1 /\ UNCHANGED <<tr, l>>
             ELSE Step /\ UNCHANGED fvars
EvList == /\ More /\ Ev[1] = "D"
          /\ {<<f[1], f[2]>> : f \in Rng(Ev[2])} = {<<p, fs[p]>> : p \in DOMAIN fs}
          /\ Step /\ UNCHANGED fvars
EvOther == /\ More
           /\ \/ Ev[1] = "X" /\ Stop(Rng(Ev[2]))
              \/ Ev[1] = "N" /\ Fresh(Rng(Ev[2]))
              \/ Ev[1] = "S" /\ Set(Ev[2])
              \/ Ev[1] = "F" /\ Break({<<b[1], b[2]>> : b \in Rng(Ev[2])})
              \/ Ev[1] = "P" /\ Place(Ev[2], Ev[3])
              \/ Ev[1] = "R" /\ Remove(Ev[2])
           /\ Step
Done == l = Len(Tr.ev) + 1 /\ UNCHANGED <<fvars, tvars>>
Next == EvLine \/ EvList \/ EvOther \/ Done
Spec == Init /\ nth = 0 /\ [][Next]_<<fvars, tvars>>
=================================================================================
