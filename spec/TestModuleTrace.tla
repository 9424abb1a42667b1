-------------------------- MODULE TestModuleTrace --------------------------
EXTENDS TestModule, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, s
vars == <<ex, l, s>>
E == Trace[ex].ev[l]
TraceInit == ex \in 1..Len(Trace) /\ l = 1 /\ s = Idle(Trace[ex].tests)
Shows == CASE E.op = "pop"   -> E.got = Popped(s)
           [] E.op = "count" -> E.got = Len(s.queue)
           [] E.op = "dget"  -> Definite(s, E) => E.got = s.vals[ValOf(s, E.d)].v
           [] E.op = "done"  -> LET t == After(s, E) IN E.got = Len(t.bad) /\ E.out = t.out /\ E.err = t.err
           [] OTHER -> TRUE
Consume == l <= Len(Trace[ex].ev) /\ CanDo(s, E) /\ Shows /\ s' = After(s, E) /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ s.phase = "idle" /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
