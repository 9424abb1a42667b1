--------------------------- MODULE TestModuleGen ---------------------------
(* Test modules: every history of a few tests with a few operations each.      *)
EXTENDS TestModule, Json, FiniteSets
CONSTANTS NTests, MaxBody, Runs, Ops
VARIABLES s, h, n, runs
vars == <<s, h, n, runs>>
Init == \E k \in NTests : s = Idle([i \in 1..k |-> (i * 3) % 8]) /\ h = <<>> /\ n = 0 /\ runs = 0
Body == {[op |-> "stage"], [op |-> "push", m |-> "copy"], [op |-> "pop"], [op |-> "clear"], [op |-> "count"]}
        \cup {[op |-> "dmake", d |-> d, v |-> 7 + d] : d \in 1..2} \cup {[op |-> "ddrop", d |-> d] : d \in 1..2}
        \cup {[op |-> k, d |-> d, from |-> 3 - d] : k \in {"dcopy", "dmove"}, d \in 1..2} \cup {[op |-> "dget", d |-> d] : d \in 1..2}
Do(e) == CanDo(s, e) /\ Definite(s, e) /\ s' = After(s, e) /\ h' = Append(h, e)
Next == \/ runs < Runs /\ Do([op |-> "run"]) /\ n' = 0 /\ runs' = runs + 1
        \/ s.at < Len(s.tests) /\ Do([op |-> "enter", fn |-> s.tests[s.at + 1]]) /\ n' = 0 /\ runs' = runs
        \/ Do([op |-> "start", name |-> "t" \o ToString(s.at)]) /\ UNCHANGED <<n, runs>>
        \/ s.phase = "test" /\ n < MaxBody /\ \E e \in Body : e.op \in Ops /\ Do(e) /\ n' = n + 1 /\ runs' = runs
        \/ \E ok \in BOOLEAN : Do([op |-> "return", ok |-> ok]) /\ UNCHANGED <<n, runs>>
        \/ Do([op |-> "done"]) /\ UNCHANGED <<n, runs>>
Spec == Init /\ [][Next]_vars
\* every test is counted once; the messages of a test do not reach the next one; dummies in the queue balance
Laws == /\ s.good + Len(s.bad) \in {s.at, s.at - 1, 0}
        /\ (s.phase = "idle" /\ runs > 0 => s.good + Len(s.bad) = Len(s.tests) /\ s.queue = <<>>)
        /\ (s.phase = "entered" => s.queue = <<>>)
        /\ \A i, j \in 1..Len(s.bad) : i < j => s.bad[i].n < s.bad[j].n
Emit == (s.phase = "idle" /\ runs = Runs) => PrintT("@" \o ToJson([tests |-> s.tests, h |-> h]))
=============================================================================
