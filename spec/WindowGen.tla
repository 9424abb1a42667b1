----------------------------- MODULE WindowGen ------------------------------
(* Histories of windows: what is done, what happens inside the handlers, and the   *)
(* loop.  Every step is one of Window's; the history is turned into a script.       *)
EXTENDS Window, TLC, Json
CONSTANTS Budget, Ops, Slots, Nats, MaxStack, Simulating
VARIABLES s, h, left
vars == <<s, h, left>>
Init == s = Begin /\ h = <<>> /\ left = Budget
W(op, o) == [op |-> "b", what |-> op, o |-> o, w |-> 10 * o, h |-> 20, title |-> <<64 + o>>, mode |-> "standard"]
Things == {x \in
             {W(op, o) : op \in {"make", "open"}, o \in Slots}
             \cup {[op |-> "b", what |-> w, o |-> o] : w \in {"show", "hide", "close", "drop", "gettitle"}, o \in Slots}
             \cup {[op |-> "b", what |-> "settitle", o |-> o, title |-> <<90, o>>] : o \in Slots}
             \cup {[op |-> "b", what |-> w, o |-> o, from |-> p] : w \in {"movec", "assign"}, o \in Slots, p \in Slots}
             \cup {[op |-> "b", what |-> "key", n |-> n, dir |-> d, val |-> 65] : n \in 1..Nats, d \in {"down", "up"}}
             \cup {[op |-> "b", what |-> "resize", n |-> n, dim |-> "w", v |-> 500 + Len(h)] : n \in 1..Nats}
             \cup {[op |-> "b", what |-> "userclose", n |-> n] : n \in 1..Nats}
           : x.what \in Ops}
Do(e, t) == s' = t /\ h' = Append(h, e)
Start == \E e \in Things : /\ left > 0 /\ CanBegin(s, e)
                           /\ (e.what \in {"make", "open"} => Len(s.nat) < Nats)
                           /\ (TopIs(s, "run") => ~Top(s).idle \/ RoundDone(s))
                           /\ Do(e, AfterBegin(s, e)) /\ left' = left - 1
Owner(n) == CHOOSE o \in Objs : s.obj[o] = n
CallIt == /\ TopIs(s, "op") /\ Top(s).want \in {"yes", "may"} /\ Len(s.stack) < MaxStack
          /\ LET e == [op |-> "hb", h |-> Top(s).h, o |-> Owner(Top(s).n)] IN Do(e, AfterCall(s, e)) /\ left' = left
Update == /\ TopIs(s, "run") /\ Top(s).idle
          /\ \E n \in Top(s).need : /\ s.nat[n].alive /\ n \notin Top(s).done
                                    /\ \A m \in Top(s).need : m < n => m \in Top(s).done \/ ~s.nat[m].alive
                                    /\ LET e == [op |-> "hb", h |-> "update", o |-> Owner(n)] IN Do(e, AfterCall(s, e)) /\ left' = left
Return == TopIs(s, "h") /\ \E a \in (IF Top(s).h = "close" THEN BOOLEAN ELSE {TRUE}) :
             LET e == [op |-> "he", acc |-> a] IN Do(e, AfterReturn(s, e)) /\ left' = left
End == TopIs(s, "op") /\ Top(s).want \in {"no", "done"} /\ Do([op |-> "e"], AfterEnd(s)) /\ left' = left
Run == left > 0 /\ "run" \in Ops /\ CanRun(s) /\ Do([op |-> "run"], AfterRun(s)) /\ left' = left - 1
Idle == /\ left > 0 /\ CanPoll(s) /\ Alive(s) # {}
        /\ LET e == [op |-> "poll", more |-> FALSE, now |-> s.now + 2] IN Do(e, AfterPoll(s, e)) /\ left' = left - 1
Ran == CanRan(s) /\ Do([op |-> "ran"], AfterRan(s)) /\ left' = left
Next == Start \/ CallIt \/ Update \/ Return \/ End \/ Run \/ Idle \/ Ran
Spec == Init /\ [][Next]_vars
Laws == Owned(s) /\ Tidy(s)
\* finished, or as far as the budget goes
Emit == (left = 0 /\ (s.stack = <<>> \/ (TopIs(s, "run") /\ ~Top(s).idle) \/ (TopIs(s, "run") /\ RoundDone(s)))) => PrintT("@" \o ToJson([h |-> h]))
=============================================================================
