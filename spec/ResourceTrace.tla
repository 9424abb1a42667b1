--------------------------- MODULE ResourceTrace ---------------------------
(* Recorded histories of container resources and of one file: every call with  *)
(* its result, the caller's whole array after a read, the position and end     *)
(* test where they were asked for, and the backing store after every call.     *)
EXTENDS Resource, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, obj
vars == <<ex, l, obj>>
None == [disk |-> <<>>, pend |-> <<>>, pos |-> 0, elem |-> 1, cap |-> 0, mode |-> "none"]
Alive(r) == r.mode # "none"
E == Trace[ex].ev[l]
Sentinel == 238

TraceInit == ex \in 1..Len(Trace) /\ l = 1 /\ obj = <<None, None>>

\* the caller's array: the bytes read, and nothing else touched
ArrayOk(buf, bytes) == /\ SubSeq(buf, 1, Len(bytes)) = bytes
                       /\ \A i \in (Len(bytes) + 1)..Len(buf) : buf[i] = Sentinel
\* E.err: the operating system failed a transfer for good during the call; then fewer bytes may have been moved
\* (specified for unbuffered resources only)
Cut(bs, n) == SubSeq(bs, 1, n)
\* E.cut: a resource of the user's own moved fewer bytes than one of its transfers was asked for, but at least one;
\* what is read or written past the buffer may then fall short, what is in the buffer may not get lost
AmountOk(n, m) == IF E.err THEN n <= m ELSE IF E.cut THEN n <= m /\ (m > 0 => n > 0) ELSE n = m
OpOk(r) ==
    CASE E.op = "new"   -> TRUE
      [] E.op = "read"  -> IF ~CanRead(r) THEN E.x = "invalid_access_mode" /\ ArrayOk(E.buf, <<>>)
                           ELSE LET bs == ReadResult(r, E.n) IN
                                /\ E.x = ""
                                /\ AmountOk(E.r, Len(bs))
                                /\ ArrayOk(E.buf, Cut(bs, E.r))
      [] E.op = "write" -> /\ E.kept
                           /\ IF ~CanWrite(r) THEN E.x = "invalid_access_mode"
                              ELSE E.x = "" /\ AmountOk(E.r, Len(E.bs)) /\ ((~E.err /\ Len(E.bs) <= r.cap) => E.r = Len(E.bs))
      [] E.op \in {"seek", "fwd", "back", "flush", "copy", "copyself", "renew", "move", "tieread", "drop"} -> TRUE
      \* only while nothing is in the buffer, which the driver sees to
      [] E.op = "outside" -> r.pend = <<>>
      [] OTHER -> FALSE
After(r) ==
    CASE E.op = "new"   -> [disk |-> E.content, pend |-> <<>>, pos |-> 0, elem |-> E.elem, cap |-> E.cap, mode |-> E.mode]
      [] E.op = "read"  -> IF CanRead(r) THEN AfterRead(r, E.r) ELSE r
      [] E.op = "write" -> IF CanWrite(r) THEN AfterWrite(r, Cut(E.bs, E.r)) ELSE r
      [] E.op = "seek"  -> AfterSeek(r, E.ref, E.n)
      [] E.op = "fwd"   -> AfterSeek(r, "current", E.n)
      [] E.op = "back"  -> AfterSeek(r, "current", -E.n)
      [] E.op = "flush" -> Flushed(r)
      [] E.op = "tieread" -> Flushed(r)
      [] E.op = "drop"  -> Flushed(r)     \* a file object destroyed
      [] E.op = "outside" -> AfterOutside(r, E.content)
      [] E.op \in {"copyself", "renew"} -> r     \* assigned to itself; replaced by a copy of itself
      [] E.op \in {"copy", "move"} -> obj[3 - E.o]
\* the two objects after the call, before looking at their backing stores
Objs ==
    LET a == [obj EXCEPT ![E.o] = After(obj[E.o])]
        b == IF E.op = "move" THEN [a EXCEPT ![3 - E.o] = None] ELSE a
    IN \* without a buffer everything arrives at once
       [o \in 1..2 |-> IF b[o].cap = 0 THEN Flushed(b[o]) ELSE b[o]]
\* where positions were asked for
AskedOk(r) == E.q = 0 \/ (/\ E.pos = r.pos
                          /\ (E.end = AtEnd(r) \/ (r.elem > 1 /\ r.pend # <<>> /\ r.pos + r.elem > Size(r))))
Step ==
    /\ OpOk(obj[E.o])
    /\ LET os == Objs IN
       /\ AskedOk(os[E.o])
       /\ \A o \in 1..2 : Alive(os[o]) => Explains(os[o], E.disk[o])
       /\ obj' = [o \in 1..2 |-> IF Alive(os[o]) THEN Observe(os[o], E.disk[o]) ELSE os[o]]
Consume == l <= Len(Trace[ex].ev) /\ Step /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
\* what is pending lies in the future of what has arrived
TypeOk == \A o \in 1..2 : obj[o].pos >= 0 /\ (obj[o].cap = 0 => obj[o].pend = <<>>)
=============================================================================
