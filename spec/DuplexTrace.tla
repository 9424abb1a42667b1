---------------------------- MODULE DuplexTrace ----------------------------
(* Recorded histories of resources of the user's own that cannot seek, derived *)
(* from input_resource, output_resource and io_resource.                       *)
EXTENDS Duplex, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, c
vars == <<ex, l, c>>
E == Trace[ex].ev[l]
Sentinel == 238
TraceInit == ex \in 1..Len(Trace) /\ l = 1 /\ c = [in |-> <<>>, sent |-> <<>>, out |-> 0, cap |-> 0]
ArrayOk(buf, bytes) == /\ SubSeq(buf, 1, Len(bytes)) = bytes
                       /\ \A i \in (Len(bytes) + 1)..Len(buf) : buf[i] = Sentinel
\* E.cut: one of the transfers of the resource itself moved fewer bytes than it was asked for
AmountOk(n, m) == IF E.cut THEN n <= m /\ (m > 0 => n > 0) ELSE n = m
OpOk == CASE E.op = "new"   -> TRUE
          [] E.op = "read"  -> AmountOk(E.r, Len(ReadResult(c, E.n))) /\ ArrayOk(E.buf, SubSeq(c.in, 1, E.r))
          [] E.op = "write" -> E.kept /\ AmountOk(E.r, Len(E.bs)) /\ (Len(E.bs) <= c.cap => E.r = Len(E.bs))
          [] E.op \in {"flush", "tieread", "copy", "move"} -> TRUE
          [] OTHER -> FALSE
After == CASE E.op = "new"   -> [in |-> E.content, sent |-> <<>>, out |-> 0, cap |-> E.cap]
           [] E.op = "read"  -> AfterRead(c, E.r)
           [] E.op = "write" -> AfterWrite(c, SubSeq(E.bs, 1, E.r))
           [] E.op \in {"copy", "move"} -> c       \* the history goes on with the new object
           [] OTHER -> Flushed(c)
Step == OpOk /\ Explains(After, E.out) /\ c' = Observe(After, E.out)
Consume == l <= Len(Trace[ex].ev) /\ Step /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
