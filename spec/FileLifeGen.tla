---------------------------- MODULE FileLifeGen ----------------------------
(* Histories of FileLife.tla, and its laws on them.                            *)
EXTENDS FileLife, TLC, Json
CONSTANTS Modes, Caps, Reads, Writes, Depth, Ops, Faults
VARIABLES s, h, total
vars == <<s, h, total>>
Bytes(n, k) == [i \in 1..n |-> 100 + ((k * 7 + i) % 120)]
Start == [obj |-> [o \in Objs |-> Nobody], disk |-> [p \in Paths |-> IF p <= 2 THEN [i \in 1..(11 - 4 * p) |-> 10 * p + i] ELSE <<>>],
          there |-> [p \in Paths |-> p <= 2]]
Init == s = Start /\ h = <<>> /\ total = 0
Events ==
    {[op |-> "make", o |-> o, cap |-> 1024] : o \in Objs}
    \cup {[op |-> k, o |-> o, cap |-> c, path |-> p, mode |-> m, create |-> cr, fault |-> f] :
             k \in {"makeopen"}, o \in Objs, c \in Caps, p \in Paths, m \in Modes, cr \in BOOLEAN, f \in Faults}
    \cup {[op |-> "open", o |-> o, path |-> p, mode |-> m, create |-> cr, fault |-> f] :
             o \in Objs, p \in Paths, m \in Modes, cr \in BOOLEAN, f \in Faults}
    \cup {[op |-> k, o |-> o] : k \in {"close", "drop", "flush"}, o \in Objs}
    \cup {[op |-> k, o |-> o, from |-> f] : k \in {"mvctor", "mvassign"}, o \in Objs, f \in Objs}
    \cup {[op |-> "read", o |-> o, n |-> n] : o \in Objs, n \in Reads}
    \cup {[op |-> "write", o |-> o, bs |-> Bytes(n, Len(h))] : o \in Objs, n \in Writes}
    \cup {[op |-> "seek", o |-> o, ref |-> ref, n |-> n] : o \in Objs, ref \in {"begin", "end"}, n \in {0, 2}}
Next == /\ Len(h) < Depth
        /\ \E e \in Events : /\ e.op \in Ops
                             /\ (e.op \in {"drop", "flush", "close"} => s.obj[e.o].st # "none")
                             /\ Sensible(s, e) /\ s' = After(s, e) /\ h' = Append(h, e)
                             /\ total' = total + IF e.op = "write" THEN Len(e.bs) ELSE 0
Spec == Init /\ [][Next]_vars
Laws == Consistent(s)
\* a file not open for writing does not change, and no file ever shrinks
Monotone == [][\A p \in Paths : /\ Len(s'.disk[p]) >= Len(s.disk[p])
                                /\ (\A o \in OpenOn(s, p) : s.obj[o].mode = "r") => s'.disk[p] = s.disk[p]
                                /\ (s.there[p] => s'.there[p])]_vars
Emit == Len(h) = Depth => PrintT("@" \o ToJson([ops |-> h]))
=============================================================================
