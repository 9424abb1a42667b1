--------------------------- MODULE OpenPathTrace ---------------------------
(* Recorded openings: an event says what the path led to before, what open     *)
(* returned, what was read or written through the file, and what is there      *)
(* after it was closed.                                                        *)
EXTENDS OpenPath, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l
vars == <<ex, l>>
E == Trace[ex].ev[l]
TraceInit == ex \in 1..Len(Trace) /\ l = 1
Poss == {E.poss[i] : i \in 1..Len(E.poss)}
Step ==
    LET right == Right(E.kind, Poss, E.there, E.mode, E.create) IN
    /\ E.x = ""
    /\ E.r \in right
    /\ E.open = E.r
    /\ E.leak = 0
    /\ E.r => E.gmode = E.mode /\ E.pos = 0
    \* a file that was there and is regular is delivered and overwritten as it is, a new one starts empty
    /\ (E.r /\ (E.plain \/ ~E.there)) =>
          /\ (IF E.mode = "w" THEN E.rx = "invalid_access_mode" ELSE E.rx = "" /\ E.got = E.before)
          /\ (IF E.mode = "r" THEN E.wx = "invalid_access_mode" /\ E.after = E.before
              ELSE E.wx = "" /\ E.after = Over(E.before, <<200, 201>>))
    /\ (~E.r) => E.after = E.before
    /\ E.thereafter = (E.there \/ E.r)
Consume == l <= Len(Trace[ex].ev) /\ Step /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
