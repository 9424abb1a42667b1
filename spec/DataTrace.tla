------------------------------ MODULE DataTrace ------------------------------
(* Recorded data streams on one resource: values as the bytes of their         *)
(* object representation, in memory order.                                     *)
EXTENDS Resource, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, r, ein, eout
vars == <<ex, l, r, ein, eout>>
E == Trace[ex].ev[l]
Native == Trace[ex].native
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Laid(bs, e) == IF e = Native THEN bs ELSE Reversed(bs)
TraceInit == /\ ex \in 1..Len(Trace) /\ l = 1 /\ ein = Trace[ex].ein /\ eout = Trace[ex].eout
             /\ r = [disk |-> Trace[ex].content, pend |-> <<>>, pos |-> 0, elem |-> 1, cap |-> Trace[ex].cap, mode |-> "rw"]
Step ==
    CASE E.op = "put" -> /\ E.x = "" /\ E.after = E.v          \* the source is never modified
                         /\ r' = AfterWrite(r, Laid(E.v, eout)) /\ UNCHANGED <<ein, eout>>
      [] E.op = "get" -> /\ UNCHANGED <<ein, eout>>
                         /\ LET bs == ReadResult(r, Len(E.before)) IN
                            IF Len(bs) = Len(E.before) THEN E.x = "" /\ E.v = Laid(bs, ein) /\ r' = AfterRead(r, Len(bs))
                            ELSE E.x = "read_past_end" /\ E.v = E.before /\ r' = AfterRead(r, Len(bs))
      [] E.op \in {"raw", "rev"} -> /\ UNCHANGED <<ein, eout>> /\ E.x = "" /\ E.n = Len(E.v)
                                    /\ r' = AfterWrite(r, IF E.op = "raw" THEN E.v ELSE Reversed(E.v))
      [] E.op = "grab" -> /\ UNCHANGED <<ein, eout>> /\ E.x = "" /\ E.rest
                          /\ E.v = ReadResult(r, E.n) /\ r' = AfterRead(r, Len(E.v))
      [] E.op = "ein"  -> ein' = E.e /\ UNCHANGED <<eout, r>> /\ E.x = ""
      [] E.op = "eout" -> eout' = E.e /\ UNCHANGED <<ein, r>> /\ E.x = ""
      [] E.op = "seek" -> r' = AfterSeek(r, "begin", E.n) /\ UNCHANGED <<ein, eout>> /\ E.x = ""
      [] E.op = "flush" -> r' = Flushed(r) /\ UNCHANGED <<ein, eout>> /\ E.x = ""
      [] E.op = "copy" -> UNCHANGED <<ein, eout, r>> /\ E.x = ""
      [] E.op = "end"  -> r' = Flushed(r) /\ UNCHANGED <<ein, eout>>
      [] OTHER -> FALSE
\* without a buffer everything arrives at once; otherwise what is seen is compared after a flush
Seen == /\ E.same /\ (IF E.op = "end" THEN TRUE ELSE E.iend = AtEnd(r') /\ E.oend = AtEnd(r'))
        /\ E.gein = ein' /\ E.geout = eout'
        /\ (E.op \in {"flush", "end", "seek"} \/ r.cap = 0) => E.disk = Content(r')
Consume == l <= Len(Trace[ex].ev) /\ Step /\ Seen /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
