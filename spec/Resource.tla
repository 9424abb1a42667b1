------------------------------ MODULE Resource ------------------------------
(* What a resource is to its user: an array of bytes with one position.        *)
(* Buffering shows only in how much of what was written has arrived in the     *)
(* backing store (file or container): disk is the backing store, pend the      *)
(* writes that need not have arrived yet, in order.                            *)
(* A resource is a record disk, pend, pos, elem (the size of the elements of   *)
(* a container; a container grows by whole elements), cap (buffer capacity)    *)
(* and mode.                                                                   *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt

Max2(a, b) == IF a > b THEN a ELSE b
RoundUp(n, elem) == ((n + elem - 1) \div elem) * elem

\* bytes bs written at position p (0-based) of d; a gap is filled with zeros
WriteAt(d, p, bs, elem) ==
    IF bs = <<>> THEN d
    ELSE LET e == p + Len(bs)
             n == IF e > Len(d) THEN RoundUp(e, elem) ELSE Len(d)
         IN [i \in 1..n |-> IF i > p /\ i <= e THEN bs[i - p] ELSE IF i <= Len(d) THEN d[i] ELSE 0]
ApplyAll(d, ws, elem) == FoldLeft(LAMBDA acc, w : WriteAt(acc, w.at, w.bs, elem), d, ws)
Content(r) == ApplyAll(r.disk, r.pend, r.elem)
Size(r) == Len(Content(r))

CanRead(r)  == r.mode # "w"
CanWrite(r) == r.mode # "r"

\* ------------------------------------------------------------------ operations
\* the bytes a read of n returns
ReadResult(r, n) == LET c == Content(r) IN
    IF r.pos >= Len(c) THEN <<>> ELSE SubSeq(c, r.pos + 1, IF r.pos + n > Len(c) THEN Len(c) ELSE r.pos + n)
AfterRead(r, n) == [r EXCEPT !.pos = r.pos + Len(ReadResult(r, n))]
AfterWrite(r, bs) == [r EXCEPT !.pos = r.pos + Len(bs),
                               !.pend = IF bs = <<>> THEN r.pend ELSE Append(r.pend, [at |-> r.pos, bs |-> bs])]
Flushed(r) == [r EXCEPT !.disk = Content(r), !.pend = <<>>]
SeekTarget(r, ref, off) ==
    LET t == CASE ref = "begin" -> off
               [] ref = "current" -> r.pos + off
               [] ref = "end" -> Size(r) + off
    IN IF t < 0 THEN 0 ELSE t
AfterSeek(r, ref, off) == [Flushed(r) EXCEPT !.pos = SeekTarget(r, ref, off)]
\* somebody else replaces the content: through the container, or another handle of the file
AfterOutside(r, d) == [r EXCEPT !.disk = d]
AtEnd(r) == r.pos >= Size(r)

\* --------------------------------------------------- what the backing store shows
\* k whole writes and the first j bytes of the next one have arrived
Arrived(r, k, j) ==
    LET d == ApplyAll(r.disk, SubSeq(r.pend, 1, k), r.elem) IN
    IF j = 0 THEN d ELSE WriteAt(d, r.pend[k + 1].at, SubSeq(r.pend[k + 1].bs, 1, j), r.elem)
Splits(r) == {<<Len(r.pend), 0>>} \cup
             UNION {{<<k, j>> : j \in 0..(IF Len(r.pend[k + 1].bs) <= 64 THEN Len(r.pend[k + 1].bs) - 1 ELSE 0)} : k \in 0..(Len(r.pend) - 1)}
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* the backing store, seen as d, holds a prefix of the writes
Explains(r, d) == d = r.disk \/ \E s \in Splits(r) : Arrived(r, s[1], s[2]) = d
\* the resource after its backing store was seen as d: the fewest arrivals that explain it
\* (what the fewest allow from then on includes what any other allows)
Observe(r, d) ==
    IF d = r.disk THEN r ELSE
    LET ok == {s \in Splits(r) : Arrived(r, s[1], s[2]) = d}
        s == CHOOSE x \in ok : \A y \in ok : ~Before(y, x)
        rest == SubSeq(r.pend, s[1] + 1, Len(r.pend))
    IN [r EXCEPT !.disk = d,
                 !.pend = IF s[2] = 0 THEN rest
                          ELSE <<[at |-> rest[1].at + s[2], bs |-> SubSeq(rest[1].bs, s[2] + 1, Len(rest[1].bs))]>>
                               \o SubSeq(rest, 2, Len(rest))]
=============================================================================
