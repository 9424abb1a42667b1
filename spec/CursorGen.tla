----------------------------- MODULE CursorGen -----------------------------
(* Generates histories of iterator operations: every history of Depth steps    *)
(* over every text in Texts (breadth first), or random ones (-simulate).       *)
EXTENDS Cursor, TLC, Json
CONSTANTS Alphabet, MaxLen, Depth, MaxStep, ExactLen
VARIABLE hist
Texts == UNION {[1..n -> Alphabet] : n \in ExactLen..MaxLen}
Init == /\ text \in Texts /\ pos \in {0, Len(text)} /\ hist = << <<"at", pos>> >>
Did(o, n) == hist' = Append(hist, <<o, n>>)
Next == /\ Len(hist) <= Depth
        /\ \/ \E o \in {"inc", "postinc"} : Inc /\ Did(o, 1)
           \/ \E o \in {"inc", "postinc"} : IncAtEnd /\ Did(o, 1)
           \/ \E o \in {"dec", "postdec"} : Dec /\ Did(o, 1)
           \/ \E o \in {"add", "plus", "lplus"}, n \in 0..MaxStep : Forward(n) /\ Did(o, n)
           \/ \E n \in 1..MaxStep : Overshoot(n) /\ Did("over", n)
           \/ \E o \in {"sub", "minus", "lminus"}, n \in 0..MaxStep : Backward(n) /\ Did(o, n)
Spec == Init /\ [][Next]_<<text, pos, hist>>
Emit == (Len(hist) = Depth + 1) => PrintT("@" \o ToJson([txt |-> text, ops |-> hist]))
=============================================================================
