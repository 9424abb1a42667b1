----------------------------- MODULE DataDesign -----------------------------
(* Values written and read back in the same sequence of types and byte orders: *)
(* the values come back, whatever the byte orders were.                        *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
CONSTANTS Types, Depth
VARIABLES bytes, log, e
vars == <<bytes, log, e>>
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Laid(bs, x) == IF x = "native" THEN bs ELSE Reversed(bs)
Init == bytes = <<>> /\ log = <<>> /\ e = "native"
Put == \E n \in Types : LET v == [i \in 1..n |-> Len(log) * 8 + i] IN
         bytes' = bytes \o Laid(v, e) /\ log' = Append(log, [v |-> v, e |-> e]) /\ e' = e
Turn == e' = (IF e = "native" THEN "other" ELSE "native") /\ UNCHANGED <<bytes, log>>
Next == Len(log) < Depth /\ (Put \/ Turn)
Spec == Init /\ [][Next]_vars
ReadAll == FoldLeft(LAMBDA acc, x : [at |-> acc.at + Len(x.v), vs |-> Append(acc.vs, Laid(SubSeq(bytes, acc.at + 1, acc.at + Len(x.v)), x.e))],
                    [at |-> 0, vs |-> <<>>], log)
RoundTrip == ReadAll.vs = [i \in 1..Len(log) |-> log[i].v]
Shape == Len(bytes) = ReadAll.at
=============================================================================
