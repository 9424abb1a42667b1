--------------------------- MODULE ApplicationGen ---------------------------
EXTENDS Application, TLC, Json
CONSTANTS Depth
VARIABLES s, h
vars == <<s, h>>
Init == s = Begin /\ h = <<>>
Events == {[op |-> "make", o |-> o, argc |-> a, argv |-> a, own |-> w, r |-> a + 1] : o \in Objs, a \in {0, 3}, w \in BOOLEAN}
          \cup {[op |-> "notice", o |-> o, text |-> t] : o \in Objs, t \in {<<>>, <<194, 169, 32, 65>>}}
          \cup {[op |-> "drop", o |-> o] : o \in Objs}
Next == Len(h) < Depth /\ \E e \in Events : CanDo(s, e) /\ s' = After(s, e) /\ h' = Append(h, e)
Spec == Init /\ [][Next]_vars
Laws == /\ (s.which > 0 => s.obj[s.which].live)
        /\ (\A i \in 1..Len(h) : (h[i].op = "make" /\ \A j \in (i + 1)..Len(h) : h[j].op # "make" /\ ~(h[j].op = "drop" /\ h[j].o = h[i].o))
                                  => s.which = h[i].o /\ s.obj[h[i].o].argc = h[i].argc)
Emit == Len(h) = Depth => PrintT("@" \o ToJson([ops |-> h]))
=============================================================================
