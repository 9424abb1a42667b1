------------------------------ MODULE FarTrace ------------------------------
(* Recorded histories of very large files and containers: results, positions,  *)
(* and, after a flush, the size and the bytes around every multiple of B.      *)
EXTENDS Far, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, r
vars == <<ex, l, r>>
E == Trace[ex].ev[l]
Sentinel == 238
None == [cells |-> <<>>, size |-> Zero, pos |-> Zero, mode |-> "none"]
TraceInit == ex \in 1..Len(Trace) /\ l = 1 /\ r = None
ArrayOk(buf, bytes) == /\ SubSeq(buf, 1, Len(bytes)) = bytes
                       /\ \A i \in (Len(bytes) + 1)..Len(buf) : buf[i] = Sentinel
OpOk == CASE E.op = "read" -> LET bs == ReadResult(r, E.n) IN E.r = Len(bs) /\ ArrayOk(E.buf, bs)
          [] E.op = "write" -> E.r = Len(E.bs)
          [] OTHER -> TRUE
After == CASE E.op = "new" -> New(E.size, E.mode)
           [] E.op = "read" -> AfterRead(r, E.n)
           [] E.op = "write" -> AfterWrite(r, E.bs)
           [] E.op = "seek" -> AfterSeek(r, E.ref, E.n)
           [] E.op = "fwd" -> AfterSeek(r, "current", E.n)
           [] E.op = "back" -> AfterSeek(r, "current", <<-E.n[1], -E.n[2]>>)
           [] E.op \in {"flush", "gone"} -> r
DiskOk(q) == E.win # <<>> =>
    /\ E.size = q.size
    /\ \A i \in 1..Len(E.win) : E.win[i].bs = Window(q, E.win[i].at, 64)
Step == /\ OpOk
        /\ LET q == After IN /\ E.q = 0 \/ (E.pos = q.pos /\ E.end = AtEnd(q))
                             /\ DiskOk(q)
                             /\ r' = q
Consume == l <= Len(Trace[ex].ev) /\ Step /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
