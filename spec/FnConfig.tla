---------------------------------- MODULE FnConfig ----------------------------------
(***************************************************************************)
(* What a configuration text says: the lines are read one after another;    *)
(* indentation says what they belong to (C14); define and var lines rewrite *)
(* the text below them (C15). The outcome is a configuration, an error, or  *)
(* "any" where the format leaves open what happens (e.g. a word where a     *)
(* number is expected).                                                     *)
(*                                                                          *)
(* Characters the language of this module cannot write: "`" stands for the  *)
(* NUL byte, "~" for the vertical tab, "~~~" at the beginning for the UTF-8 *)
(* byte order mark.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS MaxChannels, MaxDevices,
          MaxPath, MaxFile, MaxName, MaxDesc       \* longest texts that are sure to be taken

VARIABLES rest,    \* lines still to be read, as rewritten by the definitions above
          st       \* [at, ci, di, conf, verdict, addr]
cvars == <<rest, st>>

(* ---- characters and words *)
At(s, i) == SubSeq(s, i, i)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
Digit == {DigitSeq[i] : i \in 1..10}
NameChar == Lower \cup Upper \cup Digit \cup {"_"}
NameFirst == Lower \cup Upper \cup {"_"}
KeyChar == Lower \cup Digit \cup {"_"}
Blank == {" ", "\t", "\f", "~"}
Nul == "`"

(* first position from i on (i <= Len(s) + 1) that is in C; Len + 1 if there is none *)
Find(s, i, C) == IF \A j \in i..Len(s) : At(s, j) \notin C THEN Len(s) + 1
                 ELSE CHOOSE k \in i..Len(s) : At(s, k) \in C /\ \A j \in i..(k - 1) : At(s, j) \notin C
(* ... that is not in C *)
Skip(s, i, C) == IF \A j \in i..Len(s) : At(s, j) \in C THEN Len(s) + 1
                 ELSE CHOOSE k \in i..Len(s) : At(s, k) \notin C /\ \A j \in i..(k - 1) : At(s, j) \in C
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # "" /\ At(s, Len(s)) \in Blank THEN TrimEnd(Take(s, Len(s) - 1)) ELSE s
Trim(s) == TrimEnd(Drop(s, Skip(s, 1, Blank) - 1))
RECURSIVE Split(_, _)        \* pieces between the characters of C
Split(s, C) == LET p == Find(s, 1, C) IN IF p > Len(s) THEN <<s>> ELSE <<Take(s, p - 1)>> \o Split(Drop(s, p), C)
OnlyOf(s, C) == Skip(s, 1, C) > Len(s)
Pad(s, n) == IF Len(s) >= n THEN s ELSE s \o SubSeq("                                                                                                    ", 1, n - Len(s))

(* ---- lines of a text: \n, \r, or the pair of both in any order *)
RECURSIVE SplitLines(_)
SplitLines(s) ==
    LET p == Find(s, 1, {"\r", "\n"}) IN
    IF p > Len(s) THEN <<s>>
    ELSE LET pair == p < Len(s) /\ At(s, p + 1) \in {"\r", "\n"} /\ At(s, p + 1) # At(s, p)
         IN  <<Take(s, p - 1)>> \o SplitLines(Drop(s, IF pair THEN p + 1 ELSE p))
Lines(s) == SplitLines(IF Len(s) >= 3 /\ Take(s, 3) = "~~~" THEN Drop(s, 3) ELSE s)

(* ---- definitions: occurrences of key become val, filled up with blanks *)
RECURSIVE Sub(_, _, _, _, _, _)   \* s from place i on
Sub(s, i, key, val, pre, suf) ==
    LET p == Find(s, i, {At(key, 1)})
        hit == /\ p + Len(key) - 1 <= Len(s)
               /\ SubSeq(s, p, p + Len(key) - 1) = key
               /\ pre => (p = 1 \/ At(s, p - 1) \notin NameChar)
               /\ suf => (p + Len(key) > Len(s) \/ At(s, p + Len(key)) \notin NameChar)
    IN  IF p + Len(key) - 1 > Len(s) THEN Drop(s, i - 1)
        ELSE IF hit THEN SubSeq(s, i, p - 1) \o Pad(val, Len(key)) \o Sub(s, p + Len(key), key, val, pre, suf)
        ELSE SubSeq(s, i, p) \o Sub(s, p + 1, key, val, pre, suf)
Occurs(key, s) == ReplaceFirstSubSeq("", key, s) # s     \* (TLC does this one quickly)
SubAll(ls, key, val, pre, suf) == TLCEval([n \in DOMAIN ls |-> IF Occurs(key, ls[n]) THEN Sub(ls[n], 1, key, val, pre, suf) ELSE ls[n]])

Wrong == [k |-> "error"]
Whatever == [k |-> "any"]
(* "define: symbol content": a list of replacements, an error, or any *)
Define(v) ==
    LET p == Find(v, 1, {" "})
        sym == Take(v, p - 1)
        con == Drop(v, Skip(v, p, Blank) - 1)
    IN  IF OnlyOf(v, NameChar \cup {"-", ".", "/", "$"}) THEN Wrong
        ELSE IF Find(v, 1, {"\t", "\f", "~"}) <= Len(v) \/ ~OnlyOf(sym, NameChar \cup {"-", ".", "/", "$"}) \/ ~OnlyOf(Take(sym, 1) \o Drop(sym, Len(sym) - 1), NameChar) THEN Whatever
        ELSE IF Len(con) > Len(sym) THEN Wrong
        ELSE [k |-> "sub", subs |-> <<[key |-> sym, val |-> con, pre |-> TRUE, suf |-> TRUE]>>]
(* "var: name = value, name = value" *)
RECURSIVE VarList(_)
VarList(ps) ==
    IF ps = <<>> \/ (Len(ps) = 1 /\ Trim(ps[1]) = "") THEN [k |-> "sub", subs |-> <<>>]
    ELSE LET p == ps[1]
             e == Find(p, 1, {"="})
             name == Trim(Take(p, e - 1))
             val == Trim(Drop(p, e))
             more == VarList(Tail(ps))
         IN  IF e > Len(p) \/ name = "" \/ At(name, 1) \notin NameFirst THEN Wrong
             ELSE IF Find(p, 1, {"\f", "~"}) <= Len(p) \/ ~OnlyOf(name, NameChar) THEN Whatever
             ELSE IF Len(val) > Len(name) + 1 THEN Wrong
             ELSE IF more.k # "sub" THEN more
             ELSE [k |-> "sub", subs |-> <<[key |-> "${" \o name \o "}", val |-> val, pre |-> FALSE, suf |-> FALSE],
                                           [key |-> "$" \o name, val |-> val, pre |-> FALSE, suf |-> TRUE]>> \o more.subs]
Var(v) == IF v = "" THEN Whatever ELSE VarList(Split(v, {","}))
RECURSIVE Apply(_, _)
Apply(ls, subs) == IF subs = <<>> THEN ls ELSE LET x == Head(subs) IN Apply(SubAll(ls, x.key, x.val, x.pre, x.suf), Tail(subs))

(* ---- a line: blank, [indentation, key, value], an error or any *)
Known == {"hot_update", "define", "var", "logger_name", "logger_desc", "shm_key", "channel", "sync", "device", "disable", "priority", "category",
          "category_extend", "category_wlist", "category_blist", "category_wmask", "category_bmask", "identify", "identify_extend", "identify_wlist",
          "identify_blist", "identify_wmask", "identify_bmask", "in_type", "out_type", "file", "path", "limit_size", "rollback", "rolldaily", "rollhourly",
          "stuff_up", "udp_addr"}
KeyInitials == {"c", "d", "f", "h", "i", "l", "o", "p", "r", "s", "u", "v"}
Closing(q) == CASE q = "\"" -> "\"" [] q = "[" -> "]" [] OTHER -> "}"
Line(s) ==
    LET n == Len(s)
        ind == Skip(s, 1, Blank) - 1
        j == Skip(s, 1, Blank \cup {"-"})
        e == Skip(s, j, KeyChar)
        key == SubSeq(s, j, e - 1)
        c == Skip(s, e, {" ", "\t"})
        v == Skip(s, c + 1, Blank)
        Key(val) == [k |-> "key", ind |-> ind, key |-> key, val |-> val]
    IN  IF Find(s, 1, {Nul}) <= n THEN Wrong
        ELSE IF j > n \/ At(s, j) = "#" THEN [k |-> "blank"]
        ELSE IF At(s, j) \notin Lower THEN Wrong
        ELSE IF key \notin Known /\ (Len(key) < 2 \/ At(key, 1) \notin KeyInitials) THEN Wrong
        ELSE IF c > n \/ At(s, c) # ":" THEN Wrong
        ELSE IF key \notin Known THEN Whatever
        ELSE IF v > n \/ At(s, v) = "#" THEN Key("")
        ELSE IF At(s, v) \in {"\"", "[", "{"}
             THEN LET p == Find(s, v + 1, {Closing(At(s, v)), "#"})
                      r == Skip(s, p + 1, Blank) IN
                  IF p > n \/ At(s, p) = "#" THEN Wrong
                  ELSE IF r <= n /\ At(s, r) # "#" THEN Whatever
                  ELSE Key(Trim(SubSeq(s, v + 1, p - 1)))
             ELSE Key(TrimEnd(SubSeq(s, v, Find(s, v, {"#"}) - 1)))

(* ---- values; [any |-> TRUE] if the format does not say *)
Is(x) == [any |-> FALSE, v |-> x]
Open == [any |-> TRUE]
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ At(s, 1) = "0" THEN NoZeros(Drop(s, 1)) ELSE s
Num(s) == IF s # "" /\ OnlyOf(s, Digit) /\ Len(s) <= 18 THEN Is(NoZeros(s)) ELSE Open
ValOf(d) == CHOOSE i \in 0..9 : DigitSeq[i + 1] = d
RECURSIVE Small(_)
Small(s) == IF s = "" THEN 0 ELSE 10 * Small(Take(s, Len(s) - 1)) + ValOf(At(s, Len(s)))
(* a size in megabytes, the unit may be written *)
Size(s) == LET e == Skip(s, 1, Digit) IN
    IF e = 1 \/ e > 10 \/ Trim(Drop(s, e - 1)) \notin {"", "m", "M"} THEN Open
    ELSE LET d == NoZeros(Take(s, e - 1)) IN Is(IF d = "0" THEN d ELSE d \o "000000")
Bool(s) == IF s \in {"true", "True", "TRUE", "1"} THEN Is(TRUE) ELSE IF s \in {"false", "False", "FALSE", "0"} THEN Is(FALSE) ELSE Open
Pri(s) ==
    CASE s \in {"trace", "Trace", "TRACE"} -> Is("0") [] s \in {"debug", "Debug", "DEBUG"} -> Is("1") [] s \in {"info", "Info", "INFO"} -> Is("2")
      [] s \in {"warn", "Warn", "WARN"} -> Is("3") [] s \in {"error", "Wrong", "ERROR"} -> Is("4") [] s \in {"alarm", "Alarm", "ALARM"} -> Is("5")
      [] s \in {"fatal", "Fatal", "FATAL"} -> Is("6") [] OTHER -> Open
Sync(s) == IF s \in {"sync", "Sync", "SYNC"} THEN Is(TRUE) ELSE IF s \in {"async", "Async", "ASYNC"} THEN Is(FALSE) ELSE Open
InType(s) == IF s \in {"udp", "UDP", "Udp"} THEN Is("udp") ELSE IF s \in {"null", "none"} THEN Is("null") ELSE Open
OutType(s) ==
    CASE s \in {"file", "File", "FILE"} -> Is("file") [] s \in {"screen", "Screen", "SCREEN"} -> Is("screen") [] s \in {"udp", "UDP", "Udp"} -> Is("udp")
      [] s \in {"virtual", "Virtual", "VIRTUAL"} -> Is("virtual") [] s \in {"empty", "Empty", "EMPTY"} -> Is("empty")
      [] s = "null" \/ s = "" -> Is("bad")
      [] OTHER -> IF At(s, 1) \in {"e", "f", "n", "u", "s", "v", "E", "F", "N", "U", "S", "V"} THEN Open ELSE Is("bad")
(* "1, 3, 5-7": numbers below 64 *)
Place(s) == IF s # "" /\ OnlyOf(s, Digit) /\ Len(s) <= 2 /\ Small(s) < 64 THEN {Small(s)} ELSE {}
Span(p) == LET d == Find(p, 1, {"-"})
                a == Place(Trim(Take(p, d - 1)))
                b == IF d > Len(p) THEN a ELSE Place(Trim(Drop(p, d)))
            IN  IF a = {} \/ b = {} THEN Open
                ELSE LET x == CHOOSE i \in a : TRUE  y == CHOOSE i \in b : TRUE IN Is(IF x <= y THEN x..y ELSE y..x)
List(s) == IF s = "" THEN Is({}) ELSE LET r == [i \in DOMAIN Split(s, {","}) |-> Span(Split(s, {","})[i])] IN
    IF \E i \in DOMAIN r : r[i].any THEN Open ELSE Is(UNION {r[i].v : i \in DOMAIN r})
(* "ip:port" -> [bad, ip, port] *)
Octet(s) == s # "" /\ OnlyOf(s, Digit) /\ Len(s) <= 3 /\ Small(s) <= 255 /\ (Len(s) = 1 \/ At(s, 1) # "0")
Addr(s) ==
    LET c == Split(s, {":"})
        ip == Trim(c[1])
        port == IF Len(c) > 1 THEN Trim(c[2]) ELSE ""
        o == Split(ip, {"."})
        full == Len(o) = 4 /\ \A i \in 1..4 : Octet(o[i])
        \* short forms and leading zeros are left open, names may or may not be known
        lax == ~OnlyOf(ip, Digit \cup {"."}) \/ Len(o) < 4 \/ \E i \in DOMAIN o : o[i] # "" /\ At(o[i], 1) = "0" /\ Len(o[i]) > 1
    IN  IF s = "" THEN Is([bad |-> TRUE, ip |-> "", port |-> ""])
        ELSE IF Len(c) > 2 THEN Open
        ELSE IF port = "" THEN IF full \/ ~lax THEN Is([bad |-> TRUE, ip |-> "", port |-> ""]) ELSE Open
        ELSE IF ~OnlyOf(port, Digit) \/ Len(port) > 8 \/ At(port, 1) = "0" THEN IF port = "0" /\ full THEN Is([bad |-> TRUE, ip |-> "", port |-> ""]) ELSE Open
        ELSE IF full THEN Is(IF Small(port) > 65535 THEN [bad |-> TRUE, ip |-> "", port |-> ""] ELSE [bad |-> FALSE, ip |-> ip, port |-> port])
        ELSE IF lax THEN Open
        ELSE Is([bad |-> TRUE, ip |-> "", port |-> ""])

(* ---- the configuration *)
NoMask == [t |-> "none"]
NoFlt == [pri |-> "0", cat |-> "0", catx |-> "0", catm |-> NoMask, idn |-> "0", idnx |-> "0", idnm |-> NoMask]
NewDevice == [able |-> FALSE, flt |-> NoFlt, limit |-> "0", rollback |-> "0", daily |-> FALSE, hourly |-> FALSE, stuff |-> FALSE,
              inp |-> "null", outp |-> "null", path |-> "", file |-> "", addr |-> [bad |-> FALSE, ip |-> "0.0.0.0", port |-> "0"], given |-> FALSE]
NewChannel == [sync |-> FALSE, flt |-> NoFlt, devs |-> <<>>]
NewConf == [hot |-> FALSE, name |-> "", desc |-> "", shm |-> "0", ch |-> <<>>]
Start == [at |-> "logger", ci |-> 0, di |-> 0, conf |-> NewConf, verdict |-> "reading"]

Flt(f, key, val) ==   \* a key of a filter
    LET Set(field, x) == IF x.any THEN Open ELSE Is([f EXCEPT ![field] = x.v])
        Mask(field, t, neg, x) == IF x.any THEN Open ELSE Is([f EXCEPT ![field] = [t |-> t, neg |-> neg, v |-> x.v]]) IN
    CASE key = "priority" -> Set("pri", Pri(val))
      [] key = "category" -> Set("cat", Num(val))
      [] key = "category_extend" -> Set("catx", Num(val))
      [] key = "category_wlist" -> Mask("catm", "list", FALSE, List(val))
      [] key = "category_blist" -> Mask("catm", "list", TRUE, List(val))
      [] key = "category_wmask" -> Mask("catm", "num", FALSE, Num(val))
      [] key = "category_bmask" -> Mask("catm", "num", TRUE, Num(val))
      [] key = "identify" -> Set("idn", Num(val))
      [] key = "identify_extend" -> Set("idnx", Num(val))
      [] key = "identify_wlist" -> Mask("idnm", "list", FALSE, List(val))
      [] key = "identify_blist" -> Mask("idnm", "list", TRUE, List(val))
      [] key = "identify_wmask" -> Mask("idnm", "num", FALSE, Num(val))
      [] key = "identify_bmask" -> Mask("idnm", "num", TRUE, Num(val))
FltKeys == {"priority", "category", "category_extend", "category_wlist", "category_blist", "category_wmask", "category_bmask", "identify",
            "identify_extend", "identify_wlist", "identify_blist", "identify_wmask", "identify_bmask"}
Text(s, n) == IF Len(s) <= n THEN Is(s) ELSE Open

BadAddr(d) == d.given /\ d.able /\ (d.addr.bad \/ (d.inp = "null" /\ d.addr.ip = "0.0.0.0"))
(* the line is read in state s; the lines below it may be rewritten: <<new state, new rest>> *)
Fail(s) == [s EXCEPT !.verdict = "error"]
Leave(s) == [s EXCEPT !.verdict = "any"]
NCh(s) == Len(s.conf.ch)
NDev(s) == Len(s.conf.ch[NCh(s)].devs)
(* id of a channel or device: the next number *)
NextId(s, val, have, max) == IF val = "" \/ ~OnlyOf(val, Digit) \/ Len(val) > 8 THEN "any" ELSE IF have >= max \/ Small(val) # have THEN "error" ELSE "ok"
DeviceEnds(s) == s.at = "device" /\ BadAddr(s.conf.ch[NCh(s)].devs[NDev(s)])

InLogger(s, key, val, below) ==
    LET Put(field, x) == <<IF x.any THEN Leave(s) ELSE [s EXCEPT !.conf[field] = x.v], below>>
        Rewrite(d) == IF d.k = "error" THEN <<Fail(s), below>> ELSE IF d.k = "any" THEN <<Leave(s), below>> ELSE <<s, Apply(below, d.subs)>> IN
    CASE key = "hot_update" -> Put("hot", Bool(val))
      [] key = "logger_name" -> Put("name", Text(val, MaxName))
      [] key = "logger_desc" -> Put("desc", Text(val, MaxDesc))
      [] key = "shm_key" -> Put("shm", IF Len(val) > 1 /\ At(val, 1) = "0" THEN Open ELSE Num(val))
      [] key = "define" -> Rewrite(Define(val))
      [] key = "var" -> Rewrite(Var(val))
      [] key = "channel" -> (CASE NextId(s, val, NCh(s), MaxChannels) = "any" -> <<Leave(s), below>>
                               [] NextId(s, val, NCh(s), MaxChannels) = "error" -> <<Fail(s), below>>
                               [] OTHER -> <<[s EXCEPT !.at = "channel", !.conf.ch = Append(@, NewChannel)], below>>)
      [] OTHER -> <<Fail(s), below>>
InChannel(s, key, val, below) ==
    LET n == NCh(s)
        c == s.conf.ch[n] IN
    CASE key \in FltKeys -> (LET f == Flt(c.flt, key, val) IN <<IF f.any THEN Leave(s) ELSE [s EXCEPT !.conf.ch[n].flt = f.v], below>>)
      [] key = "sync" -> <<IF Sync(val).any THEN Leave(s) ELSE [s EXCEPT !.conf.ch[n].sync = Sync(val).v], below>>
      [] key = "device" -> (CASE NextId(s, val, Len(c.devs), MaxDevices) = "any" -> <<Leave(s), below>>
                              [] NextId(s, val, Len(c.devs), MaxDevices) = "error" -> <<Fail(s), below>>
                              [] OTHER -> <<[s EXCEPT !.at = "device", !.conf.ch[n].devs = Append(@, NewDevice)], below>>)
      [] OTHER -> <<Fail(s), below>>
InDevice(s, key, val, below) ==
    LET n == NCh(s)
        m == NDev(s)
        d == s.conf.ch[n].devs[m]
        To(x) == IF x.given /\ x.able /\ x.addr.bad THEN Fail(s) ELSE [s EXCEPT !.conf.ch[n].devs[m] = x]
        Put(field, x) == <<IF x.any THEN Leave(s) ELSE To([d EXCEPT ![field] = x.v]), below>>
    IN
    CASE key \in FltKeys -> Put("flt", Flt(d.flt, key, val))
      [] key = "in_type" -> Put("inp", InType(val))
      [] key = "out_type" -> IF ~OutType(val).any /\ OutType(val).v = "bad" THEN <<Fail(s), below>> ELSE Put("outp", OutType(val))
      [] key = "disable" -> Put("able", IF Bool(val).any THEN Open ELSE Is(~Bool(val).v))
      [] key = "limit_size" -> Put("limit", Size(val))
      [] key = "rollback" -> Put("rollback", Num(val))
      [] key = "rolldaily" -> Put("daily", Bool(val))
      [] key = "rollhourly" -> Put("hourly", Bool(val))
      [] key = "stuff_up" -> Put("stuff", Bool(val))
      [] key = "path" -> Put("path", IF val = "" THEN Is(d.path) ELSE Text(val, MaxPath))
      [] key = "file" -> Put("file", IF val = "" THEN Is(d.file) ELSE Text(val, MaxFile))
      [] key = "udp_addr" -> IF Addr(val).any THEN <<Leave(s), below>> ELSE <<To([d EXCEPT !.addr = Addr(val).v, !.given = TRUE]), below>>
      [] OTHER -> <<Fail(s), below>>

(* One line. What it belongs to is the innermost block it is indented deeper than. *)
Read(s, line, below) ==
    LET x == Line(line) IN
    CASE x.k = "blank" -> <<s, below>>
      [] x.k = "error" -> <<Fail(s), below>>
      [] x.k = "any" -> <<Leave(s), below>>
      [] OTHER ->
         LET up1 == s.at = "device" /\ x.ind <= s.di
             at1 == IF up1 THEN "channel" ELSE s.at
             at2 == IF at1 = "channel" /\ x.ind <= s.ci THEN "logger" ELSE at1
             s2 == [s EXCEPT !.at = at2]
             r == CASE at2 = "logger" -> InLogger(s2, x.key, x.val, below)
                    [] at2 = "channel" -> InChannel(s2, x.key, x.val, below)
                    [] OTHER -> InDevice(s2, x.key, x.val, below)
         IN  IF up1 /\ DeviceEnds(s) THEN <<Fail(s), below>>
             ELSE IF r[1].at = "channel" /\ at2 = "logger" THEN <<[r[1] EXCEPT !.ci = x.ind], r[2]>>
             ELSE IF r[1].at = "device" /\ at2 = "channel" THEN <<[r[1] EXCEPT !.di = x.ind], r[2]>>
             ELSE r
AtEnd(s) == IF DeviceEnds(s) \/ s.conf.ch = <<>> THEN Fail(s) ELSE [s EXCEPT !.verdict = "ok"]
Step1(s, ls) == IF ls = <<>> THEN <<AtEnd(s), ls>> ELSE Read(s, Head(ls), Tail(ls))
RECURSIVE Run(_, _)
Run(s, ls) == IF s.verdict # "reading" THEN s ELSE LET r == Step1(s, ls) IN Run(r[1], r[2])

Begin(text) == rest' = Lines(text) /\ st' = Start
ReadLine == /\ st.verdict = "reading"
            /\ LET r == Step1(st, rest) IN st' = r[1] /\ rest' = r[2]
=====================================================================================
