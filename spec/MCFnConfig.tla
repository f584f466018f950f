-------------------------------- MODULE MCFnConfig --------------------------------
(***************************************************************************)
(* Small instances of FnConfig.                                             *)
(* Read: every sequence of at most MaxLines lines of LineSet is read.       *)
(* Words: every text of at most MaxLen characters of Alphabet is rewritten  *)
(* by every definition of Defs.                                             *)
(***************************************************************************)
EXTENDS FnConfig
CONSTANTS LineSet, MaxLines, Alphabet, MaxLen, Defs
VARIABLES all,     \* the text
          at       \* what each line read so far belonged to (<<>> where it was blank)
mvars == <<cvars, all, at>>
S(n) == UNION {[1..k -> LineSet] : k \in 0..n}
ReadInit == all \in S(MaxLines) /\ rest = all /\ st = Start /\ at = <<>>
Where(s) == CASE s.at = "logger" -> <<"logger">> [] s.at = "channel" -> <<"channel", NCh(s)>> [] OTHER -> <<"device", NCh(s), NDev(s)>>
ReadNext == /\ ReadLine /\ UNCHANGED all
            /\ at' = IF rest = <<>> \/ Line(Head(rest)).k = "blank" THEN Append(at, <<>>) ELSE Append(at, Where(st'))
ReadSpec == ReadInit /\ [][ReadNext]_mvars

NRead == Len(all) - Len(rest)
(* ---- a result is what its lines say *)
Sizes == /\ Len(st.conf.ch) <= MaxChannels
         /\ \A i \in DOMAIN st.conf.ch : Len(st.conf.ch[i].devs) <= MaxDevices
         /\ st.verdict = "ok" => rest = <<>> /\ st.conf.ch # <<>> /\ \A i \in 1..Len(all) : Line(all[i]).k # "error"
         /\ st.verdict \in {"reading", "ok", "error", "any"}
(* Declarative: line i opens a block if it is a channel or device line; it belongs to the last line before it
   that opens a block and is indented less than every line from there on *)
Opens(i, ls) == Line(ls[i]).k = "key" /\ Line(ls[i]).key \in {"channel", "device"}
Inside(j, i, ls) == j < i /\ \A m \in (j + 1)..i : Line(ls[m]).k = "key" => Line(ls[m]).ind > Line(ls[j]).ind
OwnerLine(i, ls) == LET c == {j \in 1..(i - 1) : Opens(j, ls) /\ Inside(j, i, ls)} IN IF c = {} THEN 0 ELSE CHOOSE j \in c : \A m \in c : m <= j
(* the kind of block a line must be in *)
Hierarchy == (st.verdict \in {"reading", "ok"} /\ \A i \in 1..NRead : Line(all[i]).k # "key" \/ Line(all[i]).key \notin {"define", "var"}) =>
    \A i \in 1..NRead : Line(all[i]).k = "key" =>
        LET o == OwnerLine(i, all)
            k == Line(all[i]).key IN
        CASE k = "channel" -> o = 0
          [] k = "device" -> o > 0 /\ Line(all[o]).key = "channel"
          [] OTHER -> at[i] = (IF o = 0 THEN <<"logger">> ELSE at[o])
(* ---- layout does not matter *)
Wide(s) == IF s = "" THEN s ELSE SubSeq("        ", 1, Skip(s, 1, {" "}) - 1) \o s
Noisy(ls) == [i \in 1..(2 * Len(ls)) |-> IF i % 2 = 0 THEN ls[i \div 2] ELSE IF i % 4 = 1 THEN "      # - channel: 3" ELSE " - "]
Commented(s) == s \o " # x: \"["
Outcome(ls) == LET r == Run(Start, ls) IN IF r.verdict = "ok" THEN <<"ok", r.conf>> ELSE <<r.verdict>>
Layout == NRead = 0 /\ st.verdict = "reading" =>
    LET o == Outcome(all) IN
    /\ Outcome([i \in DOMAIN all |-> Wide(all[i])]) = o
    /\ Outcome(Noisy(all)) = o
    /\ Outcome([i \in DOMAIN all |-> Commented(all[i])]) = o
    /\ \A b \in {"\n", "\r", "\r\n", "\n\r"} : \* (no blank lines at the end: there "\n" and "\r" are the same)
          Outcome(Lines(FoldRight(LAMBDA x, acc : x \o b \o acc, all, ""))) = o
(* a key that comes later wins; lines above a definition are not changed by it *)
Grows == [][rest' # rest => /\ Len(st'.conf.ch) \in {Len(st.conf.ch), Len(st.conf.ch) + 1}
                            /\ \A i \in 1..(Len(st.conf.ch) - 1) : st'.conf.ch[i] = st.conf.ch[i]
                            /\ Len(rest') = Len(rest) - 1]_mvars

(* ---- definitions *)
Join(t) == FoldRight(LAMBDA x, acc : x \o acc, t, "")
WordsInit == all = <<>> /\ rest = <<>> /\ st = Start /\ at = <<>>
WordsSpec == WordsInit /\ [][Len(all) < MaxLen /\ (\E c \in Alphabet : all' = Append(all, c)) /\ UNCHANGED <<cvars, at>>]_mvars
(* the same, one place after the other *)
RECURSIVE Plain(_, _, _, _, _, _)
Plain(s, i, key, val, pre, suf) ==
    IF i > Len(s) THEN ""
    ELSE IF /\ i + Len(key) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(key) - 1) = key
            /\ pre => (i = 1 \/ At(s, i - 1) \notin NameChar)
            /\ suf => (i + Len(key) > Len(s) \/ At(s, i + Len(key)) \notin NameChar)
         THEN Pad(val, Len(key)) \o Plain(s, i + Len(key), key, val, pre, suf)
         ELSE At(s, i) \o Plain(s, i + 1, key, val, pre, suf)
Whole(s, i, key) == SubSeq(s, i, i + Len(key) - 1) = key /\ (i = 1 \/ At(s, i - 1) \notin NameChar) /\ (i + Len(key) > Len(s) \/ At(s, i + Len(key)) \notin NameChar)
Rewriting ==
    LET s == Join(all) IN
    \A d \in Defs :
        LET x == IF d[1] = "define" THEN Define(d[2]) ELSE Var(d[2]) IN
        /\ x.k = "sub"
        /\ Apply(<<s>>, x.subs)[1] = (LET RECURSIVE All(_, _)
                                          All(t, us) == IF us = <<>> THEN t ELSE LET u == Head(us) IN All(Plain(t, 1, u.key, u.val, u.pre, u.suf), Tail(us))
                                      IN All(s, x.subs))
        \* the text keeps its length: values are never longer than what they replace
        /\ Len(Apply(<<s>>, x.subs)[1]) = Len(s)
        \* exactly the whole words of a define are replaced, nothing else is touched
        /\ d[1] = "define" => LET u == x.subs[1]
                                  t == Apply(<<s>>, x.subs)[1]
                                  hits == {i \in 1..Len(s) : i + Len(u.key) - 1 <= Len(s) /\ Whole(s, i, u.key)} IN
              \A i \in 1..Len(s) : At(t, i) = IF \E h \in hits : h <= i /\ i < h + Len(u.key)
                                              THEN LET h == CHOOSE h \in hits : h <= i /\ i < h + Len(u.key) IN At(Pad(u.val, Len(u.key)), i - h + 1)
                                              ELSE At(s, i)
        \* text without a "$" is not changed by variables
        /\ (d[1] = "var" /\ \A i \in 1..Len(s) : At(s, i) # "$") => Apply(<<s>>, x.subs)[1] = s

SmallLines == {"channel: 0", "- channel: 1", " - device: 0", " device: 1", "  device: 0", "  udp_addr: 300.1.1.1:1", "  disable: false", "  priority: warn", " priority: error", "priority: info",
               "  category: 7", "", "  path: a", "logger_name: b", "hot_update: x", " bogus: 1"}
DefLines == {"channel: 0", "define: a_b c", "var: a=0, b=1", "var: b=$a", "  path: a_b", " device: $a", " device: ${b}", "channel: $b", "  file: a_b$a", "define: x", "logger_name: \"a_b"}
SmallDefs == {<<"define", "a b">>, <<"define", "ab b">>, <<"define", "aa a">>, <<"define", "a_b ab">>, <<"var", "a=b">>, <<"var", "a=$b, b=$a">>, <<"var", "ab = a">>, <<"var", "a=b, ab=aa">>,
              <<"var", "a_=a, a=_,">>, <<"var", "b=">>}
====================================================================================
