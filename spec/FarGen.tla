------------------------------- MODULE FarGen -------------------------------
EXTENDS Far, TLC, Json
CONSTANTS Depth, Modes, Regions, Near
VARIABLES r, h
vars == <<r, h>>
Bytes(n, k) == [i \in 1..n |-> 100 + ((k * 7 + i) % 120)]
Init == /\ \E m \in Modes, s \in {<<1, 5>>, <<1, -1>>, <<0, 9>>, <<2, 2>>} : r = New(s, m)
        /\ h = <<[op |-> "new", size |-> r.size, mode |-> r.mode]>>
Log(x) == h' = Append(h, x)
InReach(a) == a[1] <= 2 /\ a[2] \in -30..30
Offs == {<<b, n>> : b \in Regions, n \in Near \cup {-k : k \in Near}}
DoRead == r.mode # "w" /\ \E n \in {1, 3, 9} : r' = AfterRead(r, n) /\ Log([op |-> "read", n |-> n])
DoWrite == r.mode # "r" /\ \E n \in {1, 4, 9} : r' = AfterWrite(r, Bytes(n, Len(h))) /\ Log([op |-> "write", bs |-> Bytes(n, Len(h))])
DoSeek == \E ref \in {"begin", "current", "end"}, o \in Offs, s \in {1, -1} :
    LET x == <<s * o[1], o[2]>> IN r' = AfterSeek(r, ref, x) /\ Log([op |-> "seek", ref |-> ref, n |-> x])
DoStep == \E o \in Offs :
    \/ r' = AfterSeek(r, "current", o) /\ Log([op |-> "fwd", n |-> o])
    \/ r' = AfterSeek(r, "current", <<-o[1], -o[2]>>) /\ Log([op |-> "back", n |-> o])
DoFlush == r.mode # "r" /\ r' = r /\ Log([op |-> "flush"])
Next == Len(h) <= Depth /\ (DoRead \/ DoWrite \/ DoSeek \/ DoStep \/ DoFlush) /\ InReach(r'.pos) /\ InReach(r'.size)
Spec == Init /\ [][Next]_vars
Last == h[Len(h)]
Laws == /\ ~Less(r.pos, Zero) /\ \A a \in DOMAIN r.cells : ~Less(a, Zero) /\ Less(a, r.size)
        /\ Last.op = "write" => Window(r, <<r.pos[1], r.pos[2] - Len(Last.bs)>>, Len(Last.bs)) = Last.bs
Emit == Len(h) = Depth + 1 => PrintT("@" \o ToJson([ops |-> h]))
=============================================================================
