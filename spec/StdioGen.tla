------------------------------ MODULE StdioGen ------------------------------
(* Conversations of a program with its standard streams: its laws over every   *)
(* way the bytes may leave and arrive, and the histories the checks replay.    *)
EXTENDS Stdio, TLC, Json
CONSTANTS Texts, Sizes, MaxOps, Explore
VARIABLES q, h, all, gone, talk
vars == <<q, h, all, gone, talk>>
\* what arrives on standard input, by number
InText(k) == CASE k = 1 -> <<97, 10>> [] k = 2 -> <<195, 169, 32, 98, 10>> [] k = 3 -> <<32, 240, 159, 152, 128, 13, 10, 99>>
               [] k = 4 -> <<>> [] k = 5 -> <<10, 226, 128, 168, 100, 32>> [] k = 6 -> <<97, 226, 130>>
Bytes(n, k) == [i \in 1..n |-> 65 + ((k * 5 + i) % 26)]
Init == /\ \E k \in Texts : q = Started(InText(k))
        /\ h = <<>> /\ all = [o \in Outs |-> <<>>] /\ gone = [o \in Outs |-> <<>>] /\ talk = <<>>
Put(o, n) == LET bs == Bytes(n, Len(h)) IN
             /\ q' = Accepted(q, o, bs) /\ all' = [all EXCEPT ![o] = @ \o bs]
             /\ h' = Append(h, [op |-> "raw", s |-> o, in |-> bs]) /\ UNCHANGED <<gone, talk>>
Flush(o) == FlushedOk(q, o) /\ h' = Append(h, [op |-> "flush", s |-> o]) /\ UNCHANGED <<q, all, gone, talk>>
Ask(k) == LET r == CASE k = "cp" -> UinChar(q) [] k = "word" -> UinWord(q) [] k = "line" -> UinLine(q) IN
          /\ ReadOk(q) /\ (r.xs # {} => q.arrived = Len(q.input)) /\ (r.xs = {} => r.s.pos <= q.arrived)
          /\ r.xs \subseteq {"read_past_end"}
          /\ q' = Used(q, r) /\ h' = Append(h, [op |-> "get", k |-> k]) /\ UNCHANGED <<all, gone>>
          /\ talk' = Append(talk, [said |-> Len(all["out"]), seen |-> Len(gone["out"])])
\* the operating system: some of the pending bytes leave, some of the input arrives
Leave(o, n) == LET bs == SubSeq(q.pend[o], 1, n) IN
               /\ n <= Len(q.pend[o]) /\ WriteOk(q, o, bs) /\ q' = Written(q, o, bs)
               /\ gone' = [gone EXCEPT ![o] = @ \o bs] /\ UNCHANGED <<h, all, talk>>
Arrive(n) == q.arrived + n <= Len(q.input) /\ ReadOk(q) /\ q' = Arrived(q, n) /\ UNCHANGED <<h, all, gone, talk>>
Next == \/ Len(h) < MaxOps /\ \E o \in Outs : Flush(o) \/ \E n \in Sizes : Put(o, n)
        \/ Len(h) < MaxOps /\ \E k \in {"cp", "word", "line"} : Ask(k)
        \/ IF Explore THEN (\E o \in Outs, n \in 1..3 : Leave(o, n)) \/ (\E n \in 1..3 : Arrive(n))
           ELSE \* as the code does it: everything at once
                (\E o \in Outs : q.pend[o] # <<>> /\ Leave(o, Len(q.pend[o])))
                \/ (q.arrived < Len(q.input) /\ Arrive(Len(q.input) - q.arrived))
Spec == Init /\ [][Next]_vars
\* what has left and what is pending is what was written; nothing is used before it arrived;
\* whoever answers has seen everything that was said before
Laws == /\ Sound(q)
        /\ \A o \in Outs : gone[o] \o q.pend[o] = all[o]
        /\ \A i \in 1..Len(talk) : talk[i].said = talk[i].seen
Emit == Len(h) = MaxOps => PrintT("@" \o ToJson([input |-> q.input, ops |-> h]))
=============================================================================
