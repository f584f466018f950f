-------------------------------- MODULE MCFnStream --------------------------------
(* Small instances of FnStream: two statements with interleaved items and a tiny size limit. *)
EXTENDS FnStream
CONSTANTS Items, MaxPut
VARIABLES hist     \* statement -> items put so far
mvars == <<cur, done, hist>>
Init == SInit /\ hist = <<>>
Next == \/ Count < 2 /\ Open({""}) /\ hist' = (Count + 1 :> <<>>) @@ hist
        \/ \E n \in DOMAIN cur : \E it \in Items : Len(hist[n]) < MaxPut /\ Put(n, it) /\ hist' = [hist EXCEPT ![n] = Append(@, it)]
        \/ \E n \in DOMAIN cur : Close(n) /\ UNCHANGED hist
Spec == Init /\ [][Next]_mvars

RECURSIVE Texts(_)     \* what the items mean without a limit
Text(it) == IF it[1] = "s" THEN {it[2]} ELSE IF it[1] = "W" THEN {Wide(it[2], it[3], it[4], it[5])} ELSE Number(it)
Texts(its) == IF its = <<>> THEN {""} ELSE {a \o b : a \in Text(Head(its)), b \in Texts(Tail(its))}
NoNumbers(its) == \A i \in DOMAIN its : its[i][1] \in {"s", "W"}
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Within(_, _)  \* s is what is left of t when some of its characters are left out
Within(s, t) == s = "" \/ (t # "" /\ (IF SubSeq(s, 1, 1) = SubSeq(t, 1, 1) THEN Within(SubSeq(s, 2, Len(s)), SubSeq(t, 2, Len(t))) ELSE Within(s, SubSeq(t, 2, Len(t)))))

Bounded == /\ \A n \in DOMAIN cur : \A b \in cur[n] : Len(b) <= LogSize
           /\ \A n \in DOMAIN done : \A b \in done[n] : Len(b) <= LogSize - 1
OneNewline == \A n \in DOMAIN done : \A b \in done[n] : SubSeq(b, Len(b), Len(b)) = "\n" /\ \A i \in 1..(Len(b) - 1) : SubSeq(b, i, i) # "\n"
(* with room for everything the line is the concatenation; strings alone are cut only at the limit; otherwise only numbers are missing *)
Concatenation == \A n \in DOMAIN done : \A b \in done[n] : LET t == SubSeq(b, 1, Len(b) - 1) its == hist[n] IN
    /\ (\A x \in Texts(its) : Len(x) + Room <= LogSize) => t \in Texts(its)
    /\ NoNumbers(its) => \E x \in Texts(its) : t = SubSeq(x, 1, Min(Len(x), LogSize - 2))
    /\ \E x \in Texts(its) : Within(t, x)
(* items never change what is there, nor another statement *)
Extends == [][/\ \A n \in DOMAIN cur : n \in DOMAIN cur' => \A b \in cur'[n] : \E a \in cur[n] : StartsWith(b, a)
              /\ Cardinality({n \in DOMAIN cur \cap DOMAIN cur' : cur[n] # cur'[n]}) <= 1
              /\ \A n \in DOMAIN done : n \in DOMAIN done' /\ done'[n] = done[n]]_mvars
Smalls == {<<"s", "a">>, <<"w", 3, 1, <<0, 0, 0, 2>>>>, <<"W", "b", 5, 0, <<0, 0, 0, 6>>>>, <<"s", "0123456789">>, <<"i", 1, <<0, 0, 0, 42>>>>, <<"f", "norm", 0, <<0, 0, 0, 1>>, <<32768, 0, 0, 0, 0>>>>}
===================================================================================
