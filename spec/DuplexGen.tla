----------------------------- MODULE DuplexGen -----------------------------
(* Histories of calls on a connection.                                         *)
EXTENDS Duplex, TLC, Json
CONSTANTS Reads, WriteLens, Sizes, Caps, Modes, Depth
VARIABLES c, h, mode, given
vars == <<c, h, mode, given>>
Bytes(n) == [i \in 1..n |-> 100 + ((Len(c.sent) + i) % 120)]
Init == \E s \in Sizes, k \in Caps, m \in Modes :
    /\ c = [in |-> [i \in 1..s |-> i], sent |-> <<>>, out |-> 0, cap |-> k]
    /\ mode = m /\ given = <<>> /\ h = <<[op |-> "new", size |-> s]>>
DoRead == mode # "w" /\ \E n \in Reads : c' = AfterRead(c, Len(ReadResult(c, n))) /\ given' = given \o ReadResult(c, n) /\ h' = Append(h, [op |-> "read", n |-> n])
DoWrite == mode # "r" /\ \E n \in WriteLens : c' = AfterWrite(c, Bytes(n)) /\ given' = given /\ h' = Append(h, [op |-> "write", bs |-> Bytes(n)])
DoFlush == mode # "r" /\ c' = Flushed(c) /\ given' = given /\ h' = Append(h, [op |-> "flush"])
Next == Len(h) <= Depth /\ (DoRead \/ DoWrite \/ DoFlush) /\ mode' = mode
Spec == Init /\ [][Next]_vars
\* every byte is read once and in order, and writing changes nothing about it
Laws == /\ given \o c.in = [i \in 1..h[1].size |-> i]
        /\ c.out <= Len(c.sent)
        /\ (h[Len(h)].op = "flush" => c.out = Len(c.sent))
Emit == Len(h) = Depth + 1 => PrintT("@" \o ToJson([cap |-> c.cap, mode |-> mode, ops |-> h]))
=============================================================================
