----------------------------- MODULE StdioTrace -----------------------------
(* Recorded conversations: the program's calls and the system calls they made, *)
(* in order.  The text of a call is accepted when the call begins; reading is  *)
(* judged when it returns.                                                     *)
EXTENDS Stdio, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, q, over, bad
vars == <<ex, l, q, over, bad>>
E == Trace[ex].ev[l]
TraceInit == ex \in 1..Len(Trace) /\ l = 1 /\ q = Started(Trace[ex].input) /\ over = FALSE /\ bad = FALSE
Text(cps) == TextBytes("u8", "big", cps)
IntText(n) == LET m == IF n < 0 THEN -n ELSE n
                  RECURSIVE D(_)
                  D(k) == IF k < 10 THEN <<48 + k>> ELSE D(k \div 10) \o <<48 + (k % 10)>>
              IN (IF n < 0 THEN <<45>> ELSE <<>>) \o D(m)
Given == CASE E.op = "text" -> (LET d == Dec(E.src, E.in) IN Text(d.cps))
           [] E.op = "cp"   -> IF IsScalar(E.c) THEN Text(<<E.c>>) ELSE <<>>
           [] E.op = "raw"  -> E.in
           [] E.op = "bool" -> IF E.c = 1 THEN <<49>> ELSE <<48>>
           [] E.op = "int"  -> IntText(E.c)
           [] OTHER         -> <<>>
Was == Trace[ex].ev[CHOOSE i \in 1..(l - 1) : Trace[ex].ev[i].op = E.of /\ \A j \in (i + 1)..(l - 1) : Trace[ex].ev[j].op \in {"sw", "swx", "sr"}]
Returns == /\ E.x = IF E.of = "cp" /\ ~IsScalar(Was.c) THEN "invalid_code_point" ELSE ""
           /\ (E.of = "raw" => E.n = Len(Was.in) - (IF bad THEN Len(q.pend[E.s]) ELSE 0))
           /\ (E.of = "flush" => FlushedOk(q, E.s))
Outcome(r) == /\ ReadOk(q)
              /\ IF r.xs # {} THEN E.x \in r.xs ELSE E.x = ""
              /\ q' = IF E.x = "invalid_unicode_encoding" THEN q ELSE Used(q, r)
              /\ q'.used <= q.arrived
              \* where reading would go on after ill-formed text is open
              /\ over' = (E.x = "invalid_unicode_encoding")
Read ==
    IF E.k = "raw" THEN
        LET n == Len(E.out) IN
        /\ ReadOk(q) /\ E.x = "" /\ n <= E.n /\ q.used + n <= q.arrived
        /\ E.out = SubSeq(q.input, q.used + 1, q.used + n)
        /\ (n = 0 => E.n = 0 \/ bad \/ q.used = Len(q.input))
        /\ q' = [q EXCEPT !.used = q.used + n] /\ over' = over
    ELSE LET r == CASE E.k = "cp" -> UinChar(q) [] E.k = "word" -> UinWord(q) [] E.k = "line" -> UinLine(q) IN
         /\ Outcome(r)
         /\ (r.xs = {} => IF E.k = "cp" THEN E.out = r.out ELSE E.out = EncSeq(E.t, r.out))
Step ==
    CASE E.op \in {"text", "cp", "raw", "bool", "int", "flush"} -> q' = Accepted(q, E.s, Given) /\ over' = over
      [] E.op = "ret"  -> /\ Returns /\ over' = over
                          \* what an unbuffered transfer that failed for good did not move was never accepted
                          /\ q' = IF bad THEN [q EXCEPT !.pend[E.s] = <<>>] ELSE q
      [] E.op = "ask"  -> q' = q /\ over' = over
      [] E.op = "get"  -> Read
      [] E.op = "sw"   -> WriteOk(q, E.s, E.b) /\ q' = Written(q, E.s, E.b) /\ over' = over
      [] E.op = "sr"   -> ReadOk(q) /\ q' = (IF E.n > 0 THEN Arrived(q, E.n) ELSE q) /\ over' = over
      [] E.op = "swx"  -> q' = q /\ over' = over
      [] E.op = "tie"  -> q' = Tie(q, E.s) /\ over' = over
      [] E.op = "exit" -> q' = q /\ over' = over
      [] OTHER -> FALSE
\* the end of the program: what was pending has been written by its exit handlers
Ending == l = Len(Trace[ex].ev) + 1 /\ EndOk(q) /\ UNCHANGED vars
\* has a system call failed for good since the call began (only unbuffered resources meet such failures here)
Bad == bad' = CASE E.op \in {"swx", "sr"} -> bad \/ E.n = -5 [] E.op = "sw" -> bad [] E.op = "get" -> FALSE [] E.op = "ret" -> FALSE [] OTHER -> FALSE
Consume == l <= Len(Trace[ex].ev) /\ Bad /\ l' = l + 1 /\ ex' = ex /\ (IF over THEN q' = q /\ over' = over ELSE Step)
TraceNext == Consume \/ (~over /\ Ending) \/ (over /\ l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
