------------------------------ MODULE Transfer ------------------------------
(* One transfer of n bytes over an operating system that moves fewer bytes     *)
(* than asked, interrupts calls, or fails them for good: the loop the file     *)
(* and standard stream resources run, against every schedule of such faults.   *)
(* Its behaviours are the fault schedules the checks inject.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sizes, MaxFaults, Hard
VARIABLES n, moved, sched, done, there
vars == <<n, moved, sched, done, there>>
Init == n \in Sizes /\ moved = <<>> /\ sched = <<>> /\ done = (n = 0) /\ there = [i \in 1..n |-> i]
\* a call moves k of the bytes that are left
Call(k) == moved' = moved \o SubSeq(there, Len(moved) + 1, Len(moved) + k)
Left == n - Len(moved)
Short == \E k \in 1..(Left - 1) : Len(sched) < MaxFaults /\ Call(k) /\ sched' = Append(sched, k) /\ done' = FALSE
Interrupted == Len(sched) < MaxFaults /\ moved' = moved /\ sched' = Append(sched, -4) /\ done' = FALSE
Fails == Hard /\ Len(sched) < MaxFaults /\ moved' = moved /\ sched' = Append(sched, -5) /\ done' = TRUE
Whole == Call(Left) /\ sched' = Append(sched, 0) /\ done' = TRUE
Next == ~done /\ (Short \/ Interrupted \/ Fails \/ Whole) /\ UNCHANGED <<n, there>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* what has been moved is always a prefix, each byte once; without a hard failure everything is moved in the end
Prefix == moved = SubSeq(there, 1, Len(moved))
Complete == done => (Len(moved) = n \/ (Hard /\ sched[Len(sched)] = -5))
Ends == <>done
Emit == done => PrintT("@" \o ToJson([n |-> n, f |-> sched]))
=============================================================================
