---------------------------- MODULE WindowTrace -----------------------------
EXTENDS Window, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, s
vars == <<ex, l, s>>
E == Trace[ex].ev[l]
TraceInit == ex \in 1..Len(Trace) /\ l = 1 /\ s = Begin
Same == /\ \A o \in Objs : E.obj[o] = s'.obj[o]
        /\ Len(E.nat) = Len(s'.nat)
        /\ \A n \in 1..Len(E.nat) :
              /\ E.nat[n].alive = s'.nat[n].alive
              /\ (E.nat[n].alive => /\ E.nat[n].title = s'.nat[n].title /\ E.nat[n].w = s'.nat[n].w /\ E.nat[n].h = s'.nat[n].h
                                    /\ E.nat[n].mode = s'.nat[n].mode /\ E.nat[n].vis = s'.nat[n].vis)
Step == CASE E.op = "b"    -> CanBegin(s, E) /\ s' = AfterBegin(s, E)
          [] E.op = "hb"   -> CanCall(s, E) /\ Right(s, E) /\ s' = AfterCall(s, E)
          [] E.op = "he"   -> CanReturn(s) /\ s' = AfterReturn(s, E)
          [] E.op = "e"    -> CanEnd(s) /\ s' = AfterEnd(s) /\ Same
          [] E.op = "got"  -> TopIs(s, "op") /\ Answer(s, E) /\ s' = s
          [] E.op = "tick" -> s.stack = <<>> /\ s' = [s EXCEPT !.now = E.now]
          [] E.op = "run"  -> CanRun(s) /\ s' = AfterRun(s)
          [] E.op = "poll" -> CanPoll(s) /\ s' = AfterPoll(s, E)
          [] E.op = "appear" -> TopIs(s, "run") /\ s' = AfterAppear(s, E)
          [] E.op = "ran"  -> CanRan(s) /\ E.r = 0 /\ s' = AfterRan(s)
          [] OTHER -> FALSE
Consume == l <= Len(Trace[ex].ev) /\ Step /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
Laws == Owned(s) /\ Tidy(s)
=============================================================================
