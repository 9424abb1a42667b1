-------------------------- MODULE ApplicationTrace --------------------------
EXTENDS Application, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, s
vars == <<ex, l, s>>
E == Trace[ex].ev[l]
TraceInit == ex \in 1..Len(Trace) /\ l = 1 /\ s = Begin
Seen == /\ \A o \in Objs : E.seen[o] = s'.obj[o]
        /\ E.same
        /\ (s'.which > 0 => E.app = s'.which)
Consume == l <= Len(Trace[ex].ev) /\ CanDo(s, E) /\ s' = After(s, E) /\ Seen /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
