--------------------------------- MODULE FnFile ---------------------------------
(***************************************************************************)
(* Output files of fn-log: which file a line goes to, when files are closed *)
(* and opened, how backups are shifted, what happens when an output fails.  *)
(* One state is one moment between two lines; devices write one line at a   *)
(* time (a channel hands its lines to its devices in order).                *)
(*                                                                          *)
(*  fs   path -> sequence of the lines of the file there                    *)
(*  st   settings of every device: [able, limit, rb, stuff, daily, hourly]  *)
(*  dv   state of every device:                                             *)
(*        open   path of the open file, "" if none                          *)
(*        size   bytes of the current file (also after it was closed by a   *)
(*               stop: a restart continues with it)                         *)
(*        day, hour  start of the day and of the hour of the opening line   *)
(*        last   time of the last failed attempt to open, 0 if none         *)
(*        lost   the last write failed                                      *)
(*  bad  what is broken: pairs <<device, "open"/"write">>                   *)
(*  got  all lines every device wrote so far (history)                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Devs,
    LenOf(_),        \* bytes of a line
    DirsOf(_, _),    \* directories on the way to the file of a device at a time, outermost first
    FileOf(_, _),    \* path of the file of a device at a time
    NameLen(_, _),   \* length of that path as it is configured
    DayOf(_),        \* first second of the local day of a time
    HourOf(_),       \* first second of the local hour
    MaxPath,         \* a path must be shorter than this
    Retry            \* seconds between attempts to open after a failure

VARIABLES fs, st, dv, bad, got
fvars == <<fs, st, dv, bad, got>>

NoFile == ""
Closed == [open |-> NoFile, size |-> 0, day |-> 0, hour |-> 0, last |-> 0, lost |-> FALSE]

RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN 0 ELSE LenOf(Head(s)) + Bytes(Tail(s))

At(f, p) == IF p \in DOMAIN f THEN f[p] ELSE <<>>
Put(f, p, c) == [x \in DOMAIN f \cup {p} |-> IF x = p THEN c ELSE f[x]]
Drop(f, p) == [x \in DOMAIN f \ {p} |-> f[x]]
Bak(p, i) == IF i = 0 THEN p ELSE p \o "." \o ToString(i)

(* shift path, path.1 ... path.n by one; the last of a gapless run of n + 1 is discarded *)
RECURSIVE Run(_, _, _)
Run(f, p, i) == IF Bak(p, i) \in DOMAIN f THEN 1 + Run(f, p, i + 1) ELSE 0    \* length of the gapless run from number i on
Roll(f, p, n) ==
    LET r == Run(f, p, 0)
        m == IF r > n + 1 THEN n + 1 ELSE r                 \* numbers 0 .. m-1 take part
        from == {Bak(p, i) : i \in 0..(m - 1)}
        keep == IF m = n + 1 THEN m - 1 ELSE m              \* that many survive, one number higher
        to == {Bak(p, i) : i \in 1..keep}
    IN  [x \in (DOMAIN f \ from) \cup to |->
            IF x \in to THEN f[Bak(p, CHOOSE i \in 0..(keep - 1) : Bak(p, i + 1) = x)] ELSE f[x]]

(* must the open file (or the one that was open before a stop) be left before this line? *)
OverSize(d, k) == st[d].limit > 0 /\ st[d].rb > 0 /\ dv[d].size + LenOf(k) > st[d].limit
OverTime(d, ts) ==
    IF st[d].daily THEN ts < dv[d].day \/ ts >= dv[d].day + 86400
    ELSE st[d].hourly /\ (ts < dv[d].hour \/ ts >= dv[d].hour + 3600)

Blocked(F, d, ts) ==      \* the file cannot be opened
    \/ NameLen(d, ts) >= MaxPath
    \/ <<d, "open">> \in bad
    \/ \E i \in DOMAIN DirsOf(d, ts) : DirsOf(d, ts)[i] \in DOMAIN F

(* outcome of handing line k of time ts to device d when the files are F: [files, device, written] *)
WithOpen(d, k, f, s) ==
    IF <<d, "write">> \in bad
    THEN [fs |-> f, s |-> [s EXCEPT !.open = NoFile, !.lost = TRUE], ok |-> FALSE]
    ELSE [fs |-> Put(f, s.open, Append(At(f, s.open), k)), s |-> [s EXCEPT !.size = @ + LenOf(k)], ok |-> TRUE]
Opening(F, d, k, ts, s, full) ==
    LET p == FileOf(d, ts)
        rolls == (st[d].rb > 0 \/ st[d].limit > 0) /\ (~st[d].stuff \/ full) /\ ~(s.lost /\ ~full)
        n == IF st[d].rb > 0 THEN st[d].rb ELSE 1
        f == IF rolls /\ NameLen(d, ts) < MaxPath THEN Roll(F, p, n) ELSE F
    IN  IF Blocked(F, d, ts) THEN [fs |-> f, s |-> [s EXCEPT !.last = ts], ok |-> FALSE]
        ELSE WithOpen(d, k, Put(f, p, At(f, p)),
                      [open |-> p, size |-> Bytes(At(f, p)), day |-> DayOf(ts), hour |-> HourOf(ts), last |-> 0, lost |-> FALSE])
Outcome(F, d, k, ts) ==
    LET s == dv[d]
        full == OverSize(d, k)
        leave == full \/ OverTime(d, ts)
        s1 == IF leave THEN [s EXCEPT !.open = NoFile, !.size = 0, !.lost = FALSE] ELSE s
    IN  IF ~st[d].able \/ (s.open = NoFile /\ s.last + Retry > ts) THEN [fs |-> F, s |-> s, ok |-> FALSE]
        ELSE IF s1.open = NoFile THEN Opening(F, d, k, ts, s1, full) ELSE WithOpen(d, k, F, s1)

Write(d, k, ts) ==
    LET o == Outcome(fs, d, k, ts)
    IN  /\ fs' = o.fs
        /\ dv' = [dv EXCEPT ![d] = o.s]
        /\ got' = IF o.ok THEN [got EXCEPT ![d] = Append(@, k)] ELSE got
        /\ UNCHANGED <<st, bad>>

(* the logger stops: files are closed, the rest is remembered; a new logger remembers nothing *)
Stop(D) == /\ dv' = [d \in Devs |-> IF d \in D THEN [dv[d] EXCEPT !.open = NoFile] ELSE dv[d]]
           /\ UNCHANGED <<fs, st, bad, got>>
Fresh(D) == /\ dv' = [d \in Devs |-> IF d \in D THEN Closed ELSE dv[d]]
            /\ UNCHANGED <<fs, st, bad, got>>
Set(s) == st' = s /\ UNCHANGED <<fs, dv, bad, got>>
Break(b) == bad' = b /\ UNCHANGED <<fs, st, dv, got>>
(* somebody else creates or removes a file *)
Place(p, c) == fs' = Put(fs, p, c) /\ UNCHANGED <<st, dv, bad, got>>
Remove(p) == fs' = Drop(fs, p) /\ UNCHANGED <<st, dv, bad, got>>
=================================================================================
