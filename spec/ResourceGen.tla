---------------------------- MODULE ResourceGen ----------------------------
(* Histories of calls on a resource, and the laws of Resource.tla on them.     *)
EXTENDS Resource, TLC, Json
CONSTANTS Reads, WriteLens, Offsets, Refs, Depth, Sizes, Modes, Ops
VARIABLES r, h, seen
vars == <<r, h, seen>>
\* byte values that tell which call wrote them
Bytes(n, k) == [i \in 1..n |-> 100 + ((k * 7 + i) % 120)]
Init == /\ \E s \in Sizes, m \in Modes :
             r = [disk |-> [i \in 1..s |-> i], pend |-> <<>>, pos |-> 0, elem |-> 1, cap |-> 1, mode |-> m]
        /\ h = <<[op |-> "new", size |-> Len(r.disk), mode |-> r.mode]>>
        /\ seen = <<>>
Log(x) == h' = Append(h, x)
DoRead == "read" \in Ops /\ CanRead(r) /\ \E n \in Reads : r' = AfterRead(r, n) /\ seen' = ReadResult(r, n) /\ Log([op |-> "read", n |-> n])
DoWrite == "write" \in Ops /\ CanWrite(r) /\ \E n \in WriteLens :
    r' = AfterWrite(r, Bytes(n, Len(h))) /\ seen' = <<>> /\ Log([op |-> "write", bs |-> Bytes(n, Len(h))])
DoSeek == "seek" \in Ops /\ \E ref \in Refs, n \in Offsets \cup {-k : k \in Offsets} :
    r' = AfterSeek(r, ref, n) /\ seen' = <<>> /\ Log([op |-> "seek", ref |-> ref, n |-> n])
DoStep == "step" \in Ops /\ \E n \in Offsets :
    \/ r' = AfterSeek(r, "current", n) /\ seen' = <<>> /\ Log([op |-> "fwd", n |-> n])
    \/ r' = AfterSeek(r, "current", -n) /\ seen' = <<>> /\ Log([op |-> "back", n |-> n])
DoFlush == "flush" \in Ops /\ r' = Flushed(r) /\ seen' = <<>> /\ Log([op |-> "flush"])
Next == Len(h) <= Depth /\ (DoRead \/ DoWrite \/ DoSeek \/ DoStep \/ DoFlush)
Spec == Init /\ [][Next]_vars
\* laws
Positive == r.pos >= 0
Last == h[Len(h)]
\* what was written is what the content has there; what is read is what the content has there
ReadBack == Last.op = "write" => SubSeq(Content(r), r.pos - Len(Last.bs) + 1, r.pos) = Last.bs
\* some prefix of the writes explains every state of the backing store between none and all of them
Prefixes == \A s \in Splits(r) : Explains(r, Arrived(r, s[1], s[2])) /\ Content(Observe(r, Arrived(r, s[1], s[2]))) = Content(r)
Emit == Len(h) = Depth + 1 => PrintT("@" \o ToJson([ops |-> h]))
=============================================================================
