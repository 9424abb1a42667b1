--------------------------- MODULE FileLifeTrace ---------------------------
(* Recorded histories of file objects: after every call what it returned,      *)
(* is_open, mode and position of every object, the descriptors open on every   *)
(* path, closes of descriptors that were not open, and every file.             *)
EXTENDS FileLife, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, s
vars == <<ex, l, s>>
E == Trace[ex].ev[l]
Start(t) == [obj |-> [o \in Objs |-> Nobody], disk |-> t.disk, there |-> t.there]
TraceInit == ex \in 1..Len(Trace) /\ l = 1 /\ s = Start(Trace[ex])
Sentinel == 238
ArrayOk(buf, bytes) == /\ SubSeq(buf, 1, Len(bytes)) = bytes
                       /\ \A i \in (Len(bytes) + 1)..Len(buf) : buf[i] = Sentinel
ResultOk ==
    LET o == E.o IN
    CASE E.op = "open" -> E.x = "" /\ E.r = (IF CanOpen(Close(s, o), E) THEN 1 ELSE 0)
      [] E.op = "read" -> IF CanRead(R(s, o)) THEN LET bs == ReadResult(R(s, o), E.n) IN E.x = "" /\ E.r = Len(bs) /\ ArrayOk(E.buf, bs)
                          ELSE E.x = "invalid_access_mode" /\ ArrayOk(E.buf, <<>>)
      [] E.op = "write" -> IF CanWrite(R(s, o)) THEN E.x = "" /\ E.r = Len(E.bs) ELSE E.x = "invalid_access_mode"
      [] OTHER -> E.x = ""
\* what was seen of the files, against state t
SeenOk(t) ==
    /\ \A p \in Paths : E.there[p] = t.there[p] /\ E.fds[p] = Cardinality(OpenOn(t, p))
    /\ E.nfds = Cardinality({o \in Objs : Open(t, o)})
    /\ E.badclose = 0
    /\ \A o \in Objs : /\ E.obj[o].open = t.obj[o].st
                       /\ Open(t, o) => E.obj[o].mode = t.obj[o].mode /\ E.obj[o].pos = t.obj[o].pos
    /\ \A p \in Paths : LET ws == {o \in OpenOn(t, p) : t.obj[o].mode # "r"} IN
          IF ws = {} THEN E.disk[p] = t.disk[p] ELSE \A o \in ws : Explains(R(t, o), E.disk[p])
RECURSIVE See(_, _)
See(t, os) == IF os = {} THEN t ELSE LET o == CHOOSE x \in os : TRUE IN
              See(IF Open(t, o) /\ t.obj[o].mode # "r" THEN Put(t, o, Observe(R(t, o), E.disk[t.obj[o].path])) ELSE t, os \ {o})
Step == /\ Sensible(s, E)
        /\ ResultOk
        /\ LET t == After(s, E) IN SeenOk(t) /\ s' = See(t, Objs)
Consume == l <= Len(Trace[ex].ev) /\ Step /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
Laws == Consistent(s)
=============================================================================
