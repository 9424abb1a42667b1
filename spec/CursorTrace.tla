---------------------------- MODULE CursorTrace ----------------------------
EXTENDS Cursor, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l
vars == <<text, pos, ex, l>>
Strict(f) == f \in {"u8", "u16"}
Ev == Trace[ex].ev[l]
\* what the driver observed after the step: position (counted from the beginning), the code point
\* there, equality with begin and end, distance to a copy moved there independently
Observed(e) == /\ e.p = pos'
               /\ e.here = (IF pos' < Len(text) THEN <<text[pos' + 1]>> ELSE <<>>)
               /\ e.dx = (IF pos' < Len(text) THEN "" ELSE "iterated_past_end")
               /\ e.eb = (pos' = 0) /\ e.ee = (pos' = Len(text)) /\ e.ne = (pos' # 0)
TraceInit == /\ ex \in 1..Len(Trace) /\ l = 1
             /\ text = (IF Trace[ex].rev = 1 THEN [i \in 1..Len(Trace[ex].txt) |-> Trace[ex].txt[Len(Trace[ex].txt) + 1 - i]]
                        ELSE Trace[ex].txt)
             /\ pos = 0
Step(e) ==
    \/ e.op = "at" /\ e.x = "" /\ Move(e.n - pos)
    \/ e.op \in {"inc", "postinc"} /\ e.x = "" /\ Inc
    \/ e.op \in {"inc", "postinc"} /\ Strict(Trace[ex].form) /\ e.x = "iterated_past_end" /\ IncAtEnd
    \/ e.op = "over" /\ Strict(Trace[ex].form) /\ e.x = "iterated_past_end" /\ Overshoot(e.n)
    \/ e.op \in {"dec", "postdec"} /\ e.x = "" /\ Dec
    \/ e.op \in {"add", "plus", "lplus"} /\ e.x = "" /\ Forward(e.n)
    \/ e.op \in {"sub", "minus", "lminus"} /\ e.x = "" /\ Backward(e.n)
OldOk(e) == e.op \in {"postinc", "postdec"} /\ e.x = "" => e.old = Here(pos)
\* what was dereferenced before the step is still that when it is used after it
HeldOk(e) == e.hx = "" /\ e.held = Here(pos)
Consume == /\ l <= Len(Trace[ex].ev)
           /\ Step(Ev) /\ OldOk(Ev) /\ HeldOk(Ev) /\ Observed(Ev)
           /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
