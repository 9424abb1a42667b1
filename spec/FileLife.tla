------------------------------ MODULE FileLife ------------------------------
(* The life of file objects: several objects and several paths.                *)
(* The state is a record: obj (per object: st, "none", "closed" or "open";     *)
(* path, mode, cap, pend, pos), disk (content per path), there (per path).     *)
(* A call is a record e with e.op, e.o and its arguments; Result is what it    *)
(* returns and After the state it leaves.                                      *)
EXTENDS Resource, FiniteSets
CONSTANTS NObj, NPath, Impossible         \* Impossible: paths at which nothing can ever be
Objs == 1..NObj
Paths == 1..NPath
Nobody == [st |-> "none", path |-> 1, mode |-> "r", cap |-> 0, pend |-> <<>>, pos |-> 0]
Unknown == -1                             \* capacity of an object that was moved from

Open(s, o) == s.obj[o].st = "open"
OpenOn(s, p) == {o \in Objs : Open(s, o) /\ s.obj[o].path = p}
\* object o as a resource
R(s, o) == LET x == s.obj[o] IN [disk |-> s.disk[x.path], pend |-> x.pend, pos |-> x.pos, elem |-> 1, cap |-> x.cap, mode |-> x.mode]
\* s with object o and its file as in resource r
Put(s, o, r) == [s EXCEPT !.disk[s.obj[o].path] = r.disk, !.obj[o].pend = r.pend, !.obj[o].pos = r.pos]
\* without a buffer everything arrives at once
Settle(s, o) == IF Open(s, o) /\ s.obj[o].cap = 0 THEN Put(s, o, Flushed(R(s, o))) ELSE s

Close(s, o) == IF Open(s, o)
               THEN LET t == Put(s, o, Flushed(R(s, o))) IN [t EXCEPT !.obj[o].st = "closed", !.obj[o].pend = <<>>, !.obj[o].pos = 0]
               ELSE s
CanOpen(s, e) == ~e.fault /\ e.path \notin Impossible /\ (s.there[e.path] \/ e.create)
DoOpen(s, o, e) ==
    LET c == Close(s, o) IN
    IF CanOpen(c, e)
    THEN [c EXCEPT !.obj[o].st = "open", !.obj[o].path = e.path, !.obj[o].mode = e.mode, !.obj[o].pend = <<>>, !.obj[o].pos = 0,
                   !.there[e.path] = TRUE]
    ELSE c
\* what may be asked for at all: the histories specified
Sensible(s, e) ==
    LET o == e.o IN
    /\ o \in Objs
    /\ CASE e.op = "make" -> s.obj[o].st = "none"
         [] e.op = "makeopen" -> s.obj[o].st = "none"
         [] e.op \in {"open", "close"} -> s.obj[o].st # "none"
         [] e.op = "drop" -> TRUE
         [] e.op = "mvctor" -> e.from # o /\ s.obj[o].st = "none" /\ s.obj[e.from].st # "none"
         [] e.op = "mvassign" -> s.obj[o].st # "none" /\ s.obj[e.from].st # "none"
         [] OTHER -> Open(s, o)
    \* nobody else writes a file that is open
    /\ e.op \in {"open", "makeopen"} => \A q \in OpenOn(s, e.path) \ {o} : e.mode = "r" /\ s.obj[q].mode = "r"
After(s, e) ==
    LET o == e.o IN
    CASE e.op = "make"     -> [s EXCEPT !.obj[o] = [Nobody EXCEPT !.st = "closed", !.cap = e.cap]]
      [] e.op = "makeopen" -> DoOpen([s EXCEPT !.obj[o] = [Nobody EXCEPT !.st = "closed", !.cap = e.cap]], o, e)
      [] e.op = "open"     -> DoOpen(s, o, e)
      [] e.op = "close"    -> Close(s, o)
      [] e.op = "drop"     -> [Close(s, o) EXCEPT !.obj[o] = Nobody]
      [] e.op \in {"mvctor", "mvassign"} ->
            IF e.from = o THEN s ELSE
            LET c == IF e.op = "mvassign" THEN Close(s, o) ELSE s
                f == c.obj[e.from]
            IN [c EXCEPT !.obj[o] = f, !.obj[e.from] = [Nobody EXCEPT !.st = "closed", !.cap = Unknown]]
      [] e.op = "read"     -> IF CanRead(R(s, o)) THEN Put(s, o, AfterRead(R(s, o), e.n)) ELSE s
      [] e.op = "write"    -> IF CanWrite(R(s, o)) THEN Settle(Put(s, o, AfterWrite(R(s, o), e.bs)), o) ELSE s
      [] e.op = "seek"     -> Put(s, o, AfterSeek(R(s, o), e.ref, e.n))
      [] e.op = "flush"    -> Put(s, o, Flushed(R(s, o)))
\* ------------------------------------------------------------------ laws
Consistent(s) ==
    /\ \A o \in Objs : Open(s, o) => s.there[s.obj[o].path] /\ s.obj[o].path \notin Impossible
    /\ \A o \in Objs : s.obj[o].st # "open" => s.obj[o].pend = <<>>
    /\ \A o \in Objs : s.obj[o].pend # <<>> => s.obj[o].mode # "r"
    /\ \A p \in Paths : Cardinality(OpenOn(s, p)) > 1 => \A o \in OpenOn(s, p) : s.obj[o].mode = "r"
=============================================================================
