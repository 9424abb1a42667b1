----------------------------- MODULE TestModule -----------------------------
(* The test module: tests run in order, stages, outcome, messages, dummies,    *)
(* and the report it prints, as text.                                          *)
EXTENDS Integers, Sequences, TLC
\* a state: tests (function numbers), phase, at (number of the current test, 0 before the first), stage, name, ok,
\* good, bad (failed tests as records), queue (messages), vals (values of the dummies), out, err (text)
Idle(tests) == [tests |-> tests, phase |-> "idle", at |-> 0, stage |-> 0, name |-> "", ok |-> TRUE, good |-> 0, bad |-> <<>>,
                queue |-> <<>>, vals |-> <<>>, out |-> "", err |-> ""]
Digits(n) == Len(ToString(n))
RECURSIVE Times(_, _)
Times(c, n) == IF n <= 0 THEN "" ELSE c \o Times(c, n - 1)
Padded(s, n) == Times("0", Digits(Len(s.tests)) - Digits(n)) \o ToString(n)
Say(s, t) == [s EXCEPT !.out = s.out \o t]
\* the outcome of the test that has just returned
Closed(s) ==
    LET head == "Test #" \o Padded(s, s.at)
        t == Say(s, head \o " - '" \o s.name \o "' " \o (IF s.ok THEN "succeeded" ELSE "failed") \o " with " \o ToString(s.stage)
                    \o (IF s.stage = 1 THEN " successful stage." ELSE " successful stages.") \o "\n" \o Times("=", Len(head)) \o "\n")
    IN [t EXCEPT !.queue = <<>>,
                 !.good = IF s.ok THEN @ + 1 ELSE @,
                 !.bad = IF s.ok THEN @ ELSE Append(@, [n |-> s.at, name |-> s.name, stage |-> s.stage + 1])]
RECURSIVE Failures(_, _)
Failures(b, i) == IF i > Len(b) THEN ""
                  ELSE "Test #" \o ToString(b[i].n) \o " - '" \o b[i].name \o "' failed on stage " \o ToString(b[i].stage) \o "\n" \o Failures(b, i + 1)
Totals(s) == Say(s, "Successful tests: " \o ToString(s.good) \o "\nFailed tests: " \o ToString(Len(s.bad)) \o "\n\n" \o Failures(s.bad, 1))

Dummies(s) == {s.vals[i].d : i \in 1..Len(s.vals)}
ValOf(s, d) == (CHOOSE i \in 1..Len(s.vals) : s.vals[i].d = d)
Without(s, d) == SelectSeq(s.vals, LAMBDA x : x.d # d)
Push(s, m) == [s EXCEPT !.queue = Append(@, m)]
With(s, d, v) == [s EXCEPT !.vals = Append(Without(s, d), [d |-> d, v |-> v, known |-> TRUE])]
Unknown(s, d) == [s EXCEPT !.vals = Append(Without(s, d), [d |-> d, v |-> 0, known |-> FALSE])]
Take(s, d, from) == [s EXCEPT !.vals = Append(Without(s, d), [s.vals[ValOf(s, from)] EXCEPT !.d = d])]
\* what a pop gives
Popped(s) == IF s.queue = <<>> THEN "empty" ELSE s.queue[1]

\* is e something that can happen next, and does it show what it must?
CanDo(s, e) ==
    CASE e.op = "run"    -> s.phase = "idle"
      [] e.op = "enter"  -> /\ s.phase \in {"run", "returned"} /\ s.at < Len(s.tests) /\ e.fn = s.tests[s.at + 1]
      [] e.op = "start"  -> s.phase = "entered"
      [] e.op = "stage"  -> s.phase = "test"
      [] e.op = "return" -> s.phase = "test"
      [] e.op = "done"   -> /\ s.phase \in {"run", "returned"} /\ s.at = Len(s.tests)
      [] e.op \in {"dcopy", "dmove"} -> e.from \in Dummies(s) /\ e.d \notin Dummies(s)
      [] e.op = "dmake"  -> e.d \notin Dummies(s)
      [] e.op \in {"dset", "dget", "ddrop"} -> e.d \in Dummies(s)
      [] e.op = "pop"    -> TRUE
      [] e.op \in {"push", "count", "clear", "info", "error"} -> TRUE
      [] OTHER -> FALSE
After(s, e) ==
    CASE e.op = "run"    -> [s EXCEPT !.phase = "run", !.at = 0, !.good = 0, !.bad = <<>>, !.out = "", !.err = ""]
      [] e.op = "enter"  -> [(IF s.phase = "returned" THEN Closed(s) ELSE s) EXCEPT !.phase = "entered", !.at = @ + 1]
      [] e.op = "start"  -> [Say(s, "Test #" \o Padded(s, s.at) \o " - '" \o e.name \o "' starting.\n") EXCEPT !.phase = "test", !.name = e.name, !.stage = 0]
      [] e.op = "stage"  -> [Say(s, "Stage " \o ToString(s.stage + 1) \o " completed successfully.\n") EXCEPT !.stage = @ + 1]
      [] e.op = "return" -> [s EXCEPT !.phase = "returned", !.ok = e.ok]
      [] e.op = "done"   -> [Totals(IF s.phase = "returned" THEN Closed(s) ELSE s) EXCEPT !.phase = "idle"]
      [] e.op = "push"   -> Push(s, e.m)
      [] e.op = "pop"    -> [s EXCEPT !.queue = IF @ = <<>> THEN @ ELSE Tail(@)]
      [] e.op = "clear"  -> [s EXCEPT !.queue = <<>>]
      [] e.op = "info"   -> Say(s, "info: " \o e.text \o "\n")
      [] e.op = "error"  -> [s EXCEPT !.err = s.err \o "error: " \o e.text \o "\n"]
      [] e.op = "dmake"  -> With(Push(s, "constructor"), e.d, e.v)
      [] e.op = "dcopy"  -> Take(Push(s, "copy"), e.d, e.from)
      \* what a dummy that was moved from holds is open until it is set again
      [] e.op = "dmove"  -> Unknown(Take(Push(s, "move"), e.d, e.from), e.from)
      [] e.op = "dset"   -> With(s, e.d, e.v)
      [] e.op = "ddrop"  -> [Push(s, "destructor") EXCEPT !.vals = Without(s, e.d)]
      [] OTHER -> s
\* a dummy whose value is open is not looked at
Definite(s, e) == e.op \in {"dget"} => s.vals[ValOf(s, e.d)].known
=============================================================================
