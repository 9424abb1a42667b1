---------------------------- MODULE FormatsTrace ----------------------------
EXTENDS Formats, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l
TraceInit == ex \in 1..Len(Trace) /\ l = 1 /\ FInit
E == Trace[ex].ev[l]
Step == CASE E.op = "init" -> UNCHANGED fm
          [] E.op = "set" -> Set(E.k, E.o, E.a, E.v, E.x)
          [] E.op = "ctor" -> Construct(E.k, E.o, E.r, E.x)
          [] E.op = "reset" -> Reset(E.k, E.o)
          [] E.op = "copy" -> CopyTo(E.k, E.o)
          [] OTHER -> FALSE
\* what every accessor returned after the call
Seen == \A k \in DOMAIN fm, o \in 1..2 : fm'[k][o] = E.st[k][o]
Consume == l <= Len(Trace[ex].ev) /\ Step /\ Seen /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED <<ex, l, fm>>
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_<<ex, l, fm>>
=============================================================================
