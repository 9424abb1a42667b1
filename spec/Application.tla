---------------------------- MODULE Application ----------------------------
(* Application objects and the one app() stands for.                           *)
EXTENDS Integers, Sequences
Objs == 1..3
Nothing == [live |-> FALSE]
\* which = 0: none yet; -1: the one it stood for is gone, so it stands for nothing one may look at
Begin == [obj |-> [o \in Objs |-> Nothing], which |-> 0]
CanDo(s, e) == CASE e.op = "make" -> ~s.obj[e.o].live
                 [] e.op \in {"notice", "drop"} -> s.obj[e.o].live
                 [] e.op = "look" -> TRUE
                 [] OTHER -> FALSE
After(s, e) ==
    CASE e.op = "make"   -> [obj |-> [s.obj EXCEPT ![e.o] = [live |-> TRUE, argc |-> e.argc, argv |-> e.argv, notice |-> <<>>, run |-> IF e.own THEN e.r ELSE 0]],
                             which |-> e.o]
      [] e.op = "notice" -> [s EXCEPT !.obj[e.o].notice = e.text]
      [] e.op = "drop"   -> [obj |-> [s.obj EXCEPT ![e.o] = Nothing], which |-> IF s.which = e.o THEN -1 ELSE s.which]
      [] OTHER           -> s
=============================================================================
