------------------------------- MODULE Window -------------------------------
(* Window objects, the native windows they own, the events of the native windows  *)
(* and the application loop.  What runs inside what is a stack: operations on      *)
(* windows and events of native windows, the handlers they call, and the           *)
(* operations those handlers perform in turn.                                      *)
EXTENDS Integers, Sequences, FiniteSets
Objs == 1..5
\* obj[o]: -1 there is no such object, 0 its window is closed, otherwise the number of the native window it owns
Begin == [obj |-> [o \in Objs |-> -1], nat |-> <<>>, stack |-> <<>>, now |-> 0]
Depth(s) == Len(s.stack)
Top(s) == s.stack[Len(s.stack)]
TopIs(s, f) == s.stack # <<>> /\ Top(s).f = f
Pop(s) == SubSeq(s.stack, 1, Len(s.stack) - 1)
Alive(s) == {n \in 1..Len(s.nat) : s.nat[n].alive}
Owners(s, n) == {o \in Objs : s.obj[o] = n}
\* a native window is destroyed, and whoever owns it has a closed window
Destroy(s, n) == IF n < 1 \/ ~s.nat[n].alive THEN s
                 ELSE [s EXCEPT !.nat[n].alive = FALSE, !.nat[n].vis = FALSE, !.nat[n].real = FALSE,
                                !.obj = [o \in Objs |-> IF s.obj[o] = n THEN 0 ELSE s.obj[o]]]
Fresh(s, e) == [alive |-> TRUE, title |-> e.title, w |-> e.w, h |-> e.h, mode |-> e.mode, vis |-> FALSE, real |-> FALSE,
                start |-> s.now, last |-> s.now, closing |-> FALSE]
Opened(s, e) == [s EXCEPT !.nat = Append(s.nat, Fresh(s, e)), !.obj[e.o] = Len(s.nat) + 1]
-----------------------------------------------------------------------------
(* Keys: the name and the text of the key of a key symbol.                      *)
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Low == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Up == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Num == [i \in 1..24 |-> IF i < 10 THEN Digit[i + 1] ELSE Digit[(i \div 10) + 1] \o Digit[(i % 10) + 1]]
F1 == 65470
KP0 == 65456
KeyOf(v) == CASE v \in F1..(F1 + 23)    -> <<"f" \o Num[v - F1 + 1], "F" \o Num[v - F1 + 1]>>
              [] v \in KP0..(KP0 + 9)   -> <<"numpad_" \o Digit[v - KP0 + 1], "Numpad " \o Digit[v - KP0 + 1]>>
              [] v \in 48..57           -> <<"number_" \o Digit[v - 47], Digit[v - 47]>>
              [] v \in 65..90           -> <<Low[v - 64], Up[v - 64]>>
              [] v \in 97..122          -> <<Low[v - 96], Up[v - 96]>>
              [] v = 32                 -> <<"space_bar", "Space Bar">>
              [] OTHER                  -> <<"unknown", "Unknown">>
-----------------------------------------------------------------------------
(* An operation or an event of a native window begins.                          *)
NativeEvents == {"key", "resize", "userclose"}
\* an operation is possible at the top, inside a handler, and (events only) when the loop has found one
Place(s, e) == s.stack = <<>> \/ TopIs(s, "h") \/ (TopIs(s, "run") /\ e.what \in NativeEvents)
Assigning(s, o) == \E i \in 1..Len(s.stack) : s.stack[i].f = "op" /\ s.stack[i].e.what = "assign" /\ o \in {s.stack[i].e.o, s.stack[i].e.from}
Handling(s, o) == \E i \in 1..Len(s.stack) : s.stack[i].f = "h" /\ s.stack[i].o = o
CanBegin(s, e) ==
    /\ Place(s, e)
    /\ IF e.what \in NativeEvents
       THEN e.n \in Alive(s) /\ \A o \in Owners(s, e.n) : ~Assigning(s, o)
       ELSE /\ ~Assigning(s, e.o)
            /\ CASE e.what = "make"  -> s.obj[e.o] = -1
                 [] e.what = "movec" -> s.obj[e.o] = -1 /\ s.obj[e.from] >= 0 /\ ~Assigning(s, e.from)
                 [] e.what = "assign" -> s.obj[e.o] >= 0 /\ s.obj[e.from] >= 0 /\ ~Assigning(s, e.from)
                 [] e.what \in {"open", "close"} -> s.obj[e.o] >= 0
                 [] e.what = "drop" -> s.obj[e.o] >= 0 /\ ~Handling(s, e.o)
                 [] e.what \in {"show", "hide", "settitle", "gettitle"} -> s.obj[e.o] > 0
                 [] OTHER -> FALSE
\* the native window whose handler is called, and which handler, and whether it must be ("yes"), may be or must not be
Closable(s, n) == n > 0 /\ s.nat[n].real /\ ~s.nat[n].closing
Call(s, e) == CASE e.what = "key" -> [want |-> "yes", h |-> IF e.dir = "down" THEN "keydown" ELSE "keyup", n |-> e.n]
                [] e.what = "resize" -> [want |-> "yes", h |-> "resize", n |-> e.n]
                [] e.what = "userclose" -> [want |-> IF Closable(s, e.n) THEN "yes" ELSE "no", h |-> "close", n |-> e.n]
                [] e.what = "close" -> [want |-> IF Closable(s, s.obj[e.o]) THEN "yes" ELSE "no", h |-> "close", n |-> s.obj[e.o]]
                [] e.what = "assign" -> [want |-> IF e.o # e.from /\ Closable(s, s.obj[e.o]) THEN "may" ELSE "no", h |-> "close", n |-> s.obj[e.o]]
                [] OTHER -> [want |-> "no", h |-> "none", n |-> 0]
Effect(s, e) == CASE e.what = "make" -> Opened(s, e)
                  [] e.what = "open" -> IF s.obj[e.o] = 0 THEN Opened(s, e) ELSE s
                  [] e.what = "movec" -> [s EXCEPT !.obj = [s.obj EXCEPT ![e.o] = s.obj[e.from], ![e.from] = 0]]
                  [] e.what = "drop" -> [Destroy(s, s.obj[e.o]) EXCEPT !.obj[e.o] = -1]
                  [] e.what = "show" -> [s EXCEPT !.nat[s.obj[e.o]].vis = TRUE, !.nat[s.obj[e.o]].real = TRUE]
                  [] e.what = "hide" -> [s EXCEPT !.nat[s.obj[e.o]].vis = FALSE]
                  [] e.what = "settitle" -> [s EXCEPT !.nat[s.obj[e.o]].title = e.title]
                  [] e.what = "resize" -> IF e.dim = "w" THEN [s EXCEPT !.nat[e.n].w = e.v] ELSE [s EXCEPT !.nat[e.n].h = e.v]
                  [] OTHER -> s
AfterBegin(s, e) == LET c == Call(s, e)
                        t == Effect(s, e)
                    IN [t EXCEPT !.stack = Append(s.stack, [f |-> "op", e |-> e, want |-> c.want, h |-> c.h, n |-> c.n, was |-> IF e.what \in NativeEvents \/ e.what = "make" THEN 0 ELSE s.obj[e.o]])]
-----------------------------------------------------------------------------
(* A handler is called: of the object that owns the window, or the update of a    *)
(* window the loop has not updated since it last looked for events.               *)
CanCall(s, e) ==
    /\ e.o \in Objs /\ s.obj[e.o] > 0
    /\ \/ TopIs(s, "op") /\ Top(s).want \in {"yes", "may"} /\ e.h = Top(s).h /\ s.obj[e.o] = Top(s).n
       \/ TopIs(s, "run") /\ e.h = "update" /\ s.obj[e.o] \notin Top(s).done
Right(s, e) == CASE e.h \in {"keydown", "keyup"} -> /\ e.kind = "key" /\ e.dir = Top(s).e.dir
                                                    /\ <<e.key, e.text>> = KeyOf(Top(s).e.val)
                 [] e.h = "close" -> e.kind = "close" /\ e.should
                 [] e.h = "update" -> e.d = s.now - s.nat[s.obj[e.o]].last /\ e.t = s.now - s.nat[s.obj[e.o]].start
                 [] OTHER -> TRUE
AfterCall(s, e) ==
    LET n == s.obj[e.o]
        k == Len(s.stack)
        fr == [f |-> "h", h |-> e.h, o |-> e.o, n |-> n]
        t == IF e.h = "update" THEN [s EXCEPT !.nat[n].last = s.now, !.stack[k].done = @ \cup {n}]
             ELSE [s EXCEPT !.stack[k].want = "done", !.nat[n].closing = @ \/ e.h = "close"]
    IN [t EXCEPT !.stack = Append(t.stack, fr)]
CanReturn(s) == TopIs(s, "h")
AfterReturn(s, e) ==
    LET f == Top(s)
        t == [s EXCEPT !.stack = Pop(s), !.nat[f.n].closing = @ /\ f.h # "close"]
    IN IF f.h = "close" /\ e.acc THEN Destroy(t, f.n) ELSE t
(* The operation ends.                                                          *)
CanEnd(s) == TopIs(s, "op") /\ Top(s).want # "yes"
AfterEnd(s) ==
    LET e == Top(s).e
        t == [s EXCEPT !.stack = Pop(s)]
    IN IF e.what = "assign" /\ e.o # e.from
       THEN LET u == Destroy(t, t.obj[e.o]) IN [u EXCEPT !.obj = [u.obj EXCEPT ![e.o] = u.obj[e.from], ![e.from] = 0]]
       ELSE t
\* what open and get_title answer
Answer(s, e) == CASE Top(s).e.what = "open" -> e.r = (Top(s).was = 0)
                  [] Top(s).e.what = "gettitle" -> e.t = s.nat[s.obj[Top(s).e.o]].title
                  [] OTHER -> FALSE
-----------------------------------------------------------------------------
(* The loop.  When it has looked for events and found none, every window that is  *)
(* open then and still open when it looks again is updated exactly once.           *)
RoundDone(s) == Top(s).idle => \A n \in Top(s).need : s.nat[n].alive => n \in Top(s).done
CanRun(s) == s.stack = <<>>
AfterRun(s) == [s EXCEPT !.stack = <<[f |-> "run", idle |-> FALSE, need |-> {}, done |-> {}]>>]
CanPoll(s) == TopIs(s, "run") /\ RoundDone(s)
AfterPoll(s, e) == [s EXCEPT !.now = e.now, !.stack = Append(Pop(s), [f |-> "run", idle |-> ~e.more, need |-> Alive(s), done |-> {}])]
CanRan(s) == TopIs(s, "run") /\ Alive(s) = {}
AfterRan(s) == [s EXCEPT !.stack = Pop(s)]
AfterAppear(s, e) == [s EXCEPT !.nat[e.n].real = TRUE, !.nat[e.n].vis = TRUE]
-----------------------------------------------------------------------------
(* What holds in every state.                                                   *)
\* every native window belongs to exactly one object, and no object keeps one that is gone
Owned(s) == /\ \A n \in Alive(s) : Cardinality(Owners(s, n)) = 1
            /\ \A o \in Objs : s.obj[o] > 0 => s.obj[o] \in Alive(s)
\* nothing destroyed is shown or being closed
Tidy(s) == \A n \in 1..Len(s.nat) : s.nat[n].vis => s.nat[n].real /\ s.nat[n].alive
=============================================================================
