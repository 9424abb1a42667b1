------------------------------- MODULE Stdio -------------------------------
(* The standard streams: bytes accepted by uout and uerr and not yet on their  *)
(* descriptors, standard input as far as it has arrived and been used, and the *)
(* tie that makes reading uin bring out what was written before.               *)
(* A state is a record pend ("out", "err" to bytes), input (bytes), arrived,   *)
(* used (numbers of bytes), tied (the stream that reading flushes).            *)
EXTENDS Streams
Outs == {"out", "err"}
Started(input) == [pend |-> [o \in Outs |-> <<>>], input |-> input, arrived |-> 0, used |-> 0, tied |-> "out"]

\* ------------------------------------------------------------ the program's side
\* it hands bytes to a stream
Accepted(q, o, bs) == [q EXCEPT !.pend[o] = q.pend[o] \o bs]
\* a flush may only return when nothing is left behind
FlushedOk(q, o) == q.pend[o] = <<>>
\* nor may the program end before
EndOk(q) == \A o \in Outs : q.pend[o] = <<>>
Tie(q, o) == [q EXCEPT !.tied = o]

\* ------------------------------------------------------------ the operating system's side
\* a write moves the oldest pending bytes to the descriptor, in order and once
WriteOk(q, o, bs) == Len(bs) <= Len(q.pend[o]) /\ bs = SubSeq(q.pend[o], 1, Len(bs))
Written(q, o, bs) == [q EXCEPT !.pend[o] = SubSeq(q.pend[o], Len(bs) + 1, Len(q.pend[o]))]
\* input is only waited for when the tied stream's text is out
ReadOk(q) == q.pend[q.tied] = <<>>
Arrived(q, n) == [q EXCEPT !.arrived = q.arrived + n]

\* ------------------------------------------------------------ what reading uin gives
Src(q) == [bytes |-> q.input, pos |-> q.used, form |-> "u8", endian |-> "big"]
\* standard input does not know its end before it reads there, so a piece that is cut off by the end is read past it
RECURSIVE Until(_, _, _)
Until(s, stop(_), acc) ==
    LET a == NextChar(s) IN
    IF a.xs # {} THEN [s |-> s, out |-> acc, xs |-> a.xs]
    ELSE IF stop(a.c) THEN [s |-> Skip(s, a.n), out |-> acc, xs |-> {}]
    ELSE Until(Skip(s, a.n), stop, Append(acc, a.c))
RECURSIVE White(_)
White(s) == LET a == NextChar(s) IN
            IF a.xs # {} THEN [s |-> s, xs |-> a.xs]
            ELSE IF IsWhitespace(a.c) THEN White(Skip(s, a.n)) ELSE [s |-> s, xs |-> {}]
UinLine(q) == Until(Src(q), LAMBDA c : c = 10, <<>>)
UinWord(q) == LET t == White(Src(q)) IN
              IF t.xs # {} THEN [s |-> t.s, out |-> <<>>, xs |-> t.xs] ELSE Until(t.s, IsWhitespace, <<>>)
UinChar(q) == Char(Src(q))
\* the state after a reading with outcome r
Used(q, r) == [q EXCEPT !.used = IF r.xs = {} THEN r.s.pos ELSE Len(q.input)]
Sound(q) == 0 <= q.used /\ q.used <= q.arrived /\ q.arrived <= Len(q.input)
=============================================================================
