------------------------------- MODULE Duplex -------------------------------
(* A resource that cannot seek (a connection, a terminal): what can be read    *)
(* and what is written are two sequences of bytes that have nothing to do with *)
(* each other, however reads, writes and flushes take turns.                   *)
(* in   what has not been read yet     sent  what was written, in order        *)
(* out  how many bytes of it have arrived at least                             *)
EXTENDS Integers, Sequences
Least(a, b) == IF a < b THEN a ELSE b
ReadResult(c, n) == SubSeq(c.in, 1, Least(n, Len(c.in)))
AfterRead(c, n) == [c EXCEPT !.in = SubSeq(c.in, n + 1, Len(c.in))]
AfterWrite(c, bs) == [c EXCEPT !.sent = c.sent \o bs, !.out = IF c.cap = 0 THEN Len(c.sent) + Len(bs) ELSE c.out]
Flushed(c) == [c EXCEPT !.out = Len(c.sent)]
\* what has arrived is a prefix of what was written that never shrinks
Explains(c, d) == Len(d) >= c.out /\ Len(d) <= Len(c.sent) /\ d = SubSeq(c.sent, 1, Len(d))
Observe(c, d) == [c EXCEPT !.out = Len(d)]
=============================================================================
