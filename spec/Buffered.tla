------------------------------ MODULE Buffered ------------------------------
(* The design of the buffered, seekable input and output resource, with one    *)
(* buffer shared by reading and writing, run in lock step with the abstract    *)
(* array of bytes of Resource.tla: whatever is done, both agree.               *)
(*                                                                             *)
(* raw   position of the backing store       bpos   position in the buffer     *)
(* data  what the buffer holds               size   how much of it was filled  *)
(* rdirty the buffer holds nothing to read   wdirty it holds something to write*)
(* last  how much the last fill took (the raw position stays before it)        *)
(* One transfer of the backing store may move fewer bytes than it was asked    *)
(* for (at most k of them, 0 standing for no limit), but at least one.         *)
EXTENDS Resource, TLC
CONSTANTS Limits, Caps, Sizes, Reads, WriteLens, Offsets, MaxSize, MaxPos, Modes
VARIABLES disk, raw, data, bpos, size, rdirty, wdirty, last, cap, r, agree
impl == <<disk, raw, data, bpos, size, rdirty, wdirty, last>>
vars == <<disk, raw, data, bpos, size, rdirty, wdirty, last, cap, r, agree>>

S == [disk |-> disk, raw |-> raw, data |-> data, bpos |-> bpos, size |-> size, rdirty |-> rdirty, wdirty |-> wdirty, last |-> last]
Become(s) == /\ disk' = s.disk /\ raw' = s.raw /\ data' = s.data /\ bpos' = s.bpos /\ size' = s.size
             /\ rdirty' = s.rdirty /\ wdirty' = s.wdirty /\ last' = s.last
Least(m, k) == IF k > 0 /\ k < m THEN k ELSE m
\* --- raw operations of the backing store
RawRead(s, m, fill, k) ==      \* <<state, bytes>>
    LET p == s.raw + s.last
        n == Least(m, k)
        bs == IF p >= Len(s.disk) THEN <<>> ELSE SubSeq(s.disk, p + 1, IF p + n > Len(s.disk) THEN Len(s.disk) ELSE p + n)
    IN <<[s EXCEPT !.raw = IF fill THEN p ELSE p + Len(bs), !.last = IF fill THEN Len(bs) ELSE 0], bs>>
RawWrite(s, bs) == [s EXCEPT !.disk = WriteAt(s.disk, s.raw, bs, 1), !.raw = s.raw + Len(bs)]
RawSeek(s, ref, n) ==
    LET t == IF ref = "end" THEN Len(s.disk) + n ELSE n
    IN [s EXCEPT !.raw = IF t < 0 THEN 0 ELSE t, !.last = 0]
Position(s) == s.raw + s.bpos
\* --- buffered operations
Fill(s, k) == LET x == RawRead(s, cap, TRUE, k) IN [x[1] EXCEPT !.rdirty = FALSE, !.bpos = 0, !.size = Len(x[2]), !.data = x[2]]
RECURSIVE WriteOut(_, _, _)
WriteOut(s, bs, k) == IF bs = <<>> THEN s
    ELSE LET n == Least(Len(bs), k) IN WriteOut(RawWrite(s, SubSeq(bs, 1, n)), SubSeq(bs, n + 1, Len(bs)), k)
FlushI(s, k) == IF s.wdirty THEN [WriteOut(s, SubSeq(s.data, 1, s.bpos), k) EXCEPT !.wdirty = FALSE, !.bpos = 0] ELSE s
DropRead(s) == [s EXCEPT !.rdirty = TRUE, !.bpos = 0]
ReadI(s0, n, k) ==          \* <<state, bytes>>
    LET s1 == FlushI(s0, k) IN
    IF cap = 0 THEN RawRead(s1, n, FALSE, k)
    ELSE LET s == IF s1.rdirty THEN Fill(s1, k) ELSE s1 IN
         IF s.bpos + n <= s.size THEN <<[s EXCEPT !.bpos = s.bpos + n], SubSeq(s.data, s.bpos + 1, s.bpos + n)>>
         ELSE LET have == SubSeq(s.data, s.bpos + 1, s.size)
                  left == n - Len(have)
                  t == [s EXCEPT !.bpos = s.size]
              IN IF left > cap THEN LET x == RawRead(t, left, FALSE, k) IN <<DropRead(x[1]), have \o x[2]>>
                 ELSE LET f == Fill(t, k)
                          j == IF f.size < left THEN f.size ELSE left
                      IN <<[f EXCEPT !.bpos = j], have \o SubSeq(f.data, 1, j)>>
Direct(s, bs, k) == LET n == Least(Len(bs), k) IN <<RawWrite(s, SubSeq(bs, 1, n)), n>>
WriteI(s0, bs, k) ==        \* <<state, how much>>
    LET s1 == IF s0.rdirty THEN s0 ELSE DropRead(RawSeek(s0, "begin", Position(s0))) IN
    IF cap = 0 THEN Direct(s1, bs, k)
    ELSE LET full == s1.bpos + Len(bs) > cap
             s == IF full THEN FlushI(s1, k) ELSE s1
         IN IF full /\ Len(bs) > cap THEN Direct(s, bs, k)
            ELSE <<[s EXCEPT !.data = WriteAt(SubSeq(s.data, 1, s.bpos), s.bpos, bs, 1), !.bpos = s.bpos + Len(bs), !.wdirty = TRUE], Len(bs)>>
SeekI(s0, ref, n, k) ==
    LET s == FlushI(s0, k)
        m == IF ref = "current" THEN n + Position(s) ELSE n
    IN DropRead(RawSeek(s, IF ref = "current" THEN "begin" ELSE ref, m))

Init == \E c \in Caps, n \in Sizes, m \in Modes :
    /\ cap = c
    /\ disk = [i \in 1..n |-> i] /\ raw = 0 /\ data = <<>> /\ bpos = 0 /\ size = 0 /\ rdirty = TRUE /\ wdirty = FALSE /\ last = 0
    /\ r = [disk |-> disk, pend |-> <<>>, pos |-> 0, elem |-> 1, cap |-> c, mode |-> m]
    /\ agree = TRUE
\* two byte values are enough to tell an old byte from a new one; fresh makes neighbours differ
Bytes(n) == [i \in 1..n |-> 50 + ((r.pos + i) % 3)]
DoRead == CanRead(r) /\ \E n \in Reads, k \in Limits : LET x == ReadI(S, n, k) IN
    /\ Become(x[1]) /\ r' = AfterRead(r, Len(x[2]))
    /\ agree' = /\ x[2] = SubSeq(ReadResult(r, n), 1, Len(x[2]))
                /\ (k = 0 => Len(x[2]) = Len(ReadResult(r, n))) /\ (ReadResult(r, n) # <<>> => x[2] # <<>>)
DoWrite == CanWrite(r) /\ \E n \in WriteLens, k \in Limits : /\ r.pos + n <= MaxSize
    /\ LET x == WriteI(S, Bytes(n), k) IN
       /\ Become(x[1]) /\ agree' = (x[2] <= n /\ ((k = 0 \/ n <= cap) => x[2] = n) /\ (n > 0 => x[2] > 0))
       /\ r' = [Flushed(AfterWrite(r, SubSeq(Bytes(n), 1, x[2]))) EXCEPT !.pos = r.pos + x[2]]
DoSeek == \E ref \in {"begin", "current", "end"}, n \in Offsets \cup {-j : j \in Offsets}, k \in Limits :
    /\ SeekTarget(r, ref, n) <= MaxPos
    /\ Become(SeekI(S, ref, n, k)) /\ agree' = TRUE /\ r' = AfterSeek(r, ref, n)
DoFlush == CanWrite(r) /\ \E k \in Limits : Become(FlushI(S, k)) /\ agree' = TRUE /\ r' = Flushed(r)
Next == (DoRead \/ DoWrite \/ DoSeek \/ DoFlush) /\ cap' = cap
Spec == Init /\ [][Next]_vars

Agrees == agree
Positions == Position(S) = r.pos
Contents == FlushI(S, 0).disk = Content(r)
Bounded == bpos <= cap /\ size <= cap /\ (wdirty => rdirty)
=============================================================================
