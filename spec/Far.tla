-------------------------------- MODULE Far --------------------------------
(* The array of bytes of Resource.tla when it is larger than 31 or 32 bits can *)
(* count.  An address is a pair <<b, n>> for byte b * B + n, where B (2^31,    *)
(* 2^32, ...) is known to the driver only and n is small: histories stay near  *)
(* the multiples of B.  A resource is a record cells (the bytes that are not   *)
(* zero), size, pos and mode; every other byte below size is zero.             *)
EXTENDS Integers, Sequences
Add(a, o) == <<a[1] + o[1], a[2] + o[2]>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Zero == <<0, 0>>
Floor0(a) == IF Less(a, Zero) THEN Zero ELSE a
MaxA(a, b) == IF Less(a, b) THEN b ELSE a
At(r, a) == IF a \in DOMAIN r.cells THEN r.cells[a] ELSE 0
\* how many of n bytes from position a on exist
Avail(r, n) == IF ~Less(r.pos, r.size) THEN 0
               ELSE IF r.pos[1] < r.size[1] THEN n
               ELSE IF r.pos[2] + n > r.size[2] THEN r.size[2] - r.pos[2] ELSE n
ReadResult(r, n) == [i \in 1..Avail(r, n) |-> At(r, <<r.pos[1], r.pos[2] + i - 1>>)]
AfterRead(r, n) == [r EXCEPT !.pos = Add(r.pos, <<0, Avail(r, n)>>)]
AfterWrite(r, bs) ==
    IF bs = <<>> THEN r ELSE
    LET new == {<<r.pos[1], r.pos[2] + i - 1>> : i \in 1..Len(bs)}
        e == Add(r.pos, <<0, Len(bs)>>) IN
    [r EXCEPT !.cells = [a \in DOMAIN r.cells \cup new |-> IF a \in new THEN bs[a[2] - r.pos[2] + 1] ELSE r.cells[a]],
              !.pos = e, !.size = MaxA(r.size, e)]
AfterSeek(r, ref, o) == [r EXCEPT !.pos = Floor0(Add(CASE ref = "begin" -> Zero [] ref = "current" -> r.pos [] ref = "end" -> r.size, o))]
AtEnd(r) == ~Less(r.pos, r.size)
\* the bytes of the window of w bytes from address a on that exist
Window(r, a, w) == [i \in 1..Avail([r EXCEPT !.pos = a], w) |-> At(r, <<a[1], a[2] + i - 1>>)]
New(size, mode) ==
    [cells |-> [a \in {<<0, i>> : i \in 0..3} \cup {<<size[1], size[2] - i>> : i \in 1..4} |-> 1 + a[1] * 40 + (a[2] % 37)],
     size |-> size, pos |-> Zero, mode |-> mode]
=============================================================================
