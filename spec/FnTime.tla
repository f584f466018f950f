---------------------------------- MODULE FnTime ----------------------------------
(* Calendar and text of numbers. *)
EXTENDS Integers, Sequences, TLC

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Pad(_, _)
Pad(n, w) == LET s == ToString(n) IN IF Len(s) >= w THEN s ELSE Cat([i \in 1..(w - Len(s)) |-> "0"]) \o s

(* civil date and time of second s of day z (days since 1970-01-01) *)
CivilDay(zz, s) ==
    LET z == zz + 719468
        era == z \div 146097
        doe == z % 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN  [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1,
         h |-> s \div 3600, n |-> (s % 3600) \div 60, s |-> s % 60]
(* of a moment given as day and second (both of UTC), seen from an offset *)
CivilAt(z, s, off) == CivilDay(z + ((s + off) \div 86400), (s + off) % 86400)
===================================================================================
