---------------------------------- MODULE FnStream ----------------------------------
(***************************************************************************)
(* What the line of a log statement is: the prefix, then everything that is *)
(* streamed into it, item by item, bounded by LogSize, then one newline.    *)
(* Numbers are given by their value (16 bit limbs, most significant first); *)
(* their text is computed here.                                             *)
(*                                                                          *)
(*  cur   statement (numbered in the order they were begun) -> its text     *)
(*        (a set: the last digit of a real number may be rounded either way)*)
(*  done  statement -> finished line                                        *)
(***************************************************************************)
EXTENDS FnTime, FiniteSets
CONSTANTS LogSize,
          Room,      \* a number is left out unless so much room is left
          RoomDate   \* the same for times and percentages

VARIABLES cur, done
svars == <<cur, done>>

Min(a, b) == IF a < b THEN a ELSE b

(* ---- numbers *)
(* limbs divided by 10000: <<quotient, remainder>> *)
RECURSIVE Div(_, _, _)
Div(q, rem, bs) == IF bs = <<>> THEN <<q, rem>>
                   ELSE LET v == rem * 65536 + Head(bs) IN Div(Append(q, v \div 10000), v % 10000, Tail(bs))
IsZero(bs) == \A i \in DOMAIN bs : bs[i] = 0
RECURSIVE Dec(_)
Dec(bs) == LET d == Div(<<>>, 0, bs) IN IF IsZero(d[1]) THEN ToString(d[2]) ELSE Dec(d[1]) \o Pad(d[2], 4)
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Hex4(n) == HexDigit[n \div 4096 + 1] \o HexDigit[((n \div 256) % 16) + 1] \o HexDigit[((n \div 16) % 16) + 1] \o HexDigit[(n % 16) + 1]
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Strip(SubSeq(s, 2, Len(s))) ELSE s
Hex(bs) == Strip(Cat([i \in DOMAIN bs |-> Hex4(bs[i])]))
Pointer(bs) == IF IsZero(bs) THEN "null" ELSE "0x" \o Hex(bs)
Sign(neg, s) == IF neg = 1 THEN "-" \o s ELSE s
(* numbers of a least width: padded with zeros; the sign of a decimal number counts *)
RECURSIVE Zeros(_, _), Bits(_, _)
Zeros(s, n) == IF Len(s) >= n THEN s ELSE Zeros("0" \o s, n)
Bits(n, k) == IF k = 0 THEN "" ELSE Bits(n \div 2, k - 1) \o ToString(n % 2)
Bin(bs) == Strip(Cat([i \in DOMAIN bs |-> Bits(bs[i], 16)]))
Wide(kind, w, neg, bs) == CASE kind = "d" -> Sign(neg, Zeros(Dec(bs), w - neg))
                            [] kind = "x" -> Zeros(Hex(bs), w)
                            [] kind = "b" -> Zeros(Bin(bs), w)

(* fraction limbs times 10000: <<integer part, rest>> *)
RECURSIVE Mul(_, _)
Mul(fs, carry) == \* from the least significant limb on
    IF fs = <<>> THEN <<carry, <<>>>>
    ELSE LET v == fs[Len(fs)] * 10000 + carry
             r == Mul(SubSeq(fs, 1, Len(fs) - 1), v \div 65536)
         IN  <<r[1], Append(r[2], v % 65536)>>
RECURSIVE StripEnd(_)
StripEnd(s) == IF Len(s) > 2 /\ SubSeq(s, Len(s), Len(s)) = "0" THEN StripEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
Inc(bs) == LET RECURSIVE I(_) I(i) == IF i = 0 THEN [k \in DOMAIN bs |-> 0]
                 ELSE IF bs[i] < 65535 THEN [bs EXCEPT ![i] = @ + 1] ELSE [I(i - 1) EXCEPT ![i] = 0] IN I(Len(bs))
Fixed(ip, p) == IF p = 0 THEN Dec(ip) ELSE IF p >= 10000 THEN Dec(Inc(ip)) ELSE Dec(ip) \o "." \o StripEnd(Pad(p, 4))
(* texts of a number with integer part and fraction: less than 0.0001 away from it, two to four decimals if there are any *)
Near(m) == IF IsZero(m[2]) THEN {m[1]} ELSE {m[1], m[1] + 1}
Real(neg, ip, frac) == {Sign(neg, Fixed(ip, q)) : q \in Near(Mul(frac, 0))}
(* below 0.0001: eight decimals *)
Tiny(neg, frac) == LET a == Mul(frac, 0) b == Mul(a[2], 0) IN {Sign(neg, "0." \o Pad(a[1], 4) \o Pad(q, 4)) : q \in {x \in Near(b) : x < 10000}}
                       \cup (IF b[1] = 9999 THEN {Sign(neg, "0." \o Pad(a[1] + 1, 4) \o "0000")} ELSE {})
Number(it) ==
    CASE it[1] = "i" -> {Sign(it[2], Dec(it[3]))}
      [] it[1] = "w" -> {Wide("d", it[2], it[3], it[4])}
      [] it[1] = "p" -> {Pointer(it[2])}
      [] it[1] = "t" -> {it[2]}                                                   \* text of a number taken as it is
      [] it[1] = "f" -> CASE it[2] = "zero" -> {"0"}
                          [] it[2] = "nan" -> {"nan"}
                          [] it[2] = "inf" -> {Sign(it[3], "inf")}
                          [] it[2] = "tiny" -> Tiny(it[3], it[5])
                          [] OTHER -> Real(it[3], it[4], it[5])
Date(z, s, ms, off) == LET c == CivilAt(z, s, off) IN
    "[" \o Pad(c.y, 4) \o Pad(c.m, 2) \o Pad(c.d, 2) \o " " \o Pad(c.h, 2) \o ":" \o Pad(c.n, 2) \o ":" \o Pad(c.s, 2) \o "." \o Pad(ms, 3) \o "]"

(* ---- items *)
Str(b, s) == IF Len(b) >= LogSize THEN b ELSE b \o SubSeq(s, 1, Min(Len(s), LogSize - Len(b)))
Num(b, s) == IF Len(b) + Room <= LogSize THEN b \o s ELSE b
Blanks(n) == Cat([i \in 1..n |-> " "])
Align(b, n) == IF Len(b) + n < LogSize /\ n > Len(b) THEN b \o Blanks(n - Len(b)) ELSE b
Printable == "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Shown(c) == IF c = 32 THEN "   " ELSE IF c \in 33..126 THEN " " \o SubSeq(Printable, c - 32, c - 32) \o " " ELSE " . "
Hex2(c) == HexDigit[c \div 16 + 1] \o HexDigit[(c % 16) + 1]
(* a dump: rows of 32 bytes, as characters and in hexadecimal *)
RECURSIVE HexRow(_, _)
HexRow(b, cs) == IF cs = <<>> \/ Len(b) + 30 >= LogSize THEN b ELSE HexRow(Str(b \o Hex2(Head(cs)), " "), Tail(cs))
RECURSIVE CharRow(_, _)
CharRow(b, cs) == IF cs = <<>> THEN b ELSE CharRow(Str(b, Shown(Head(cs))), Tail(cs))
AddrPlus(a, n) == [a EXCEPT ![4] = @ + n]       \* the dumped memory begins at a multiple of 4096
Row(b, cs, a) ==
    LET b1 == CharRow(Str(Num(Str(b, "\r\n\t["), Pointer(a)), ": "), cs)
        b2 == Str(b1, "\r\n\t[")
        b3 == Str(Num(b2, Pointer(a)), ": ")
    IN  HexRow(b3, cs)
RECURSIVE Rows(_, _, _, _)
Rows(b, cs, a, i) == IF i > Len(cs) \div 32 THEN b
    ELSE Rows(Row(b, SubSeq(cs, i * 32 + 1, Min(Len(cs), i * 32 + 32)), AddrPlus(a, i * 32)), cs, a, i + 1)
Dump(b, cs, a) == Str(Rows(Str(b, "\r\n\t["), cs, a, 0), "\r\n\t]\r\n\t")

(* a container shows its size and at most five elements *)
Parts(it) ==
    CASE it[1] = "c" -> LET n == Len(it[4]) IN
                        <<<<"s", it[2]>>, <<"s", "(">>, <<"i", 0, it[3]>>, <<"s", ")[">>>> \o
                        (IF n = 0 THEN <<>> ELSE <<it[4][1]>>) \o
                        (IF n < 2 THEN <<>> ELSE <<<<"s", ", ">>, it[4][2]>>) \o (IF n < 3 THEN <<>> ELSE <<<<"s", ", ">>, it[4][3]>>) \o
                        (IF n < 4 THEN <<>> ELSE <<<<"s", ", ">>, it[4][4]>>) \o (IF n < 5 THEN <<>> ELSE <<<<"s", ", ">>, it[4][5]>>) \o
                        (IF n < 6 THEN <<>> ELSE <<<<"s", "..., ">>>>) \o <<<<"s", "]">>>>
      [] it[1] = "<" -> <<<<"s", "<">>, it[2], <<"s", ":">>, it[3], <<"s", ">">>>>
(* the possible texts after an item (the last digit of a real number may be rounded either way) *)
RECURSIVE After(_, _), AfterAll(_, _)
After(b, it) ==
    CASE it[1] = "s" -> {Str(b, it[2])}
      [] it[1] \in {"i", "f", "p", "t", "w"} -> {Num(b, s) : s \in Number(it)}
      [] it[1] = "W" -> {Str(b, Wide(it[2], it[3], it[4], it[5]))}               \* text made by a formatting function beforehand
      [] it[1] = "A" -> {Align(b, it[2])}
      [] it[1] = "D" -> {IF Len(b) + RoomDate < LogSize THEN b \o Date(it[2], it[3], it[4], it[5]) ELSE b}
      [] it[1] = "K" -> {IF Len(b) + RoomDate < LogSize THEN b \o s ELSE b : s \in
                          IF it[2] = "zero" THEN {"00.00%"} ELSE {x \o "%" : x \in Number(<<"f">> \o Tail(it))}}
      [] it[1] = "X" -> {Dump(b, it[2], it[3])}
      [] it[1] \in {"c", "<"} -> AfterAll({b}, Parts(it))
AfterAll(B, its) == IF its = <<>> THEN B ELSE AfterAll(UNION {After(b, Head(its)) : b \in B}, Tail(its))

(* ---- prefix: the parts asked for in this order, then a blank *)
PriName == <<"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]">>
(* the last three levels of a path *)
RECURSIVE Cuts(_, _)
Cuts(p, i) == IF i = 0 THEN <<>> ELSE (IF SubSeq(p, i, i) \in {"/", "\\"} THEN <<i>> ELSE <<>>) \o Cuts(p, i - 1)
ShortPath(p) == LET c == Cuts(p, Len(p)) IN IF Len(c) < 3 THEN p ELSE SubSeq(p, c[3] + 1, Len(p))
Has(flags, bit) == (flags \div bit) % 2 = 1
Prefix(x) ==
    IF x.flags = 0 THEN ""
    ELSE (IF Has(x.flags, 1) THEN Date(x.day, x.sec, x.ms, x.off) ELSE "") \o
         (IF Has(x.flags, 2) THEN PriName[x.pri + 1] ELSE "") \o
         (IF Has(x.flags, 4) THEN "[" \o Dec(x.tid) \o "]" ELSE "") \o
         (IF Has(x.flags, 8) THEN "[" \o x.name \o "]" ELSE "") \o
         (IF Has(x.flags, 16) THEN "[" \o x.desc \o "]" ELSE "") \o
         (IF Has(x.flags, 32) THEN "[" \o (IF x.file = "" THEN "nofile" ELSE ShortPath(x.file)) \o ":" \o Dec(x.line) \o "]" ELSE "") \o
         (IF Has(x.flags, 64) THEN "(" \o (IF x.func = "" THEN "null" ELSE x.func) \o ")" ELSE "") \o " "

(* ---- steps *)
Line(b) == SubSeq(b, 1, Min(Len(b), LogSize - 2)) \o "\n"
Count == Cardinality(DOMAIN cur) + Cardinality(DOMAIN done)
Open(texts) == cur' = (Count + 1 :> texts) @@ cur /\ UNCHANGED done
Put(n, it) == n \in DOMAIN cur /\ cur' = [cur EXCEPT ![n] = AfterAll(@, <<it>>)] /\ UNCHANGED done
Close(n) == /\ n \in DOMAIN cur
            /\ done' = (n :> {Line(b) : b \in cur[n]}) @@ done
            /\ cur' = [m \in DOMAIN cur \ {n} |-> cur[m]]
SInit == cur = <<>> /\ done = <<>>
=====================================================================================
