------------------------------- MODULE Cursor -------------------------------
(* An iterator over the code points of a text: a position between 0 and the    *)
(* number of code points.  A reverse iterator is the same cursor over the      *)
(* reversed text.  "Strict" encodings (UTF-8, UTF-16) refuse to be incremented *)
(* at the end.                                                                 *)
EXTENDS Integers, Sequences
VARIABLES text, pos

TypeOk == pos \in 0..Len(text)

AtEnd == pos = Len(text)
\* what dereferencing yields: <<c>>, or <<>> when it throws iterated_past_end
Here(p) == IF p < Len(text) THEN <<text[p + 1]>> ELSE <<>>

Move(n) == /\ pos + n \in 0..Len(text)
           /\ pos' = pos + n
           /\ UNCHANGED text
Stay == UNCHANGED <<text, pos>>

Inc == ~AtEnd /\ Move(1)
IncAtEnd == AtEnd /\ Stay            \* throws iterated_past_end
\* a copy that is asked to move beyond the end throws iterated_past_end
Overshoot(n) == pos + n > Len(text) /\ Stay
Dec == pos > 0 /\ Move(-1)
Forward(n) == n >= 0 /\ Move(n)
Backward(n) == n >= 0 /\ Move(-n)

\* forward and backward are inverse; every move keeps the cursor inside the text
Inverse == \A n \in 0..Len(text) : (pos + n <= Len(text)) => (pos + n) - n = pos
=============================================================================
