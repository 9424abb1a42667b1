---------------------------- MODULE UnicodeTrace ----------------------------
(* Validation of recorded calls of the unicode library: every line is one      *)
(* execution, every event one call with its arguments and results.             *)
EXTENDS Unicode, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, str    \* str: the string being edited by insert/append/prepend
vars == <<ex, l, str>>

ErrorKinds == {"invalid_unicode_encoding", "iterated_past_end", "invalid_code_point"}

\* ---- conversion (C01, C02)
ConvOk(e) ==
    LET d == Dec(e.src, e.in) IN
    IF d.ok /\ (e.dst = "c" => SelectSeq(d.cps, LAMBDA c : ~IsAscii(c)) = <<>>)
    THEN e.x = "" /\ e.out = EncSeq(e.dst, d.cps)
    ELSE e.x \in ErrorKinds /\ e.out = <<>>
IterOk(e) ==
    LET d == Dec(e.src, e.in) IN
    /\ e.cps = d.cps
    /\ (e.x = "") = d.ok
    /\ e.x \in ErrorKinds \cup {""}
ValidOk(e) ==
    LET d == Dec(e.src, e.in) IN e.n = Len(d.cps) /\ e.end = d.ok /\ e.x = ""
\* ---- single code points a..b, appended to empty strings of every type
SweepOk(e) ==
    LET n == e.b - e.a + 1 IN
    /\ Len(e.u8) = n /\ Len(e.u16) = n /\ Len(e.u32) = n /\ Len(e.w) = n
    /\ \A i \in 1..n : LET c == e.a + i - 1 IN
        IF IsScalar(c) THEN /\ e.u8[i] = Enc8(c) /\ e.u16[i] = Enc16(c)
                            /\ e.u32[i] = <<c>> /\ e.w[i] = <<c>>
        ELSE \* refused, leaving the (empty) string unchanged
             e.u8[i] = <<>> /\ e.u16[i] = <<>> /\ e.u32[i] = <<>> /\ e.w[i] = <<>>
    /\ e.thrown = [i \in 1..n |-> IF IsScalar(e.a + i - 1) THEN 0 ELSE 4]
    /\ e.pairs_same     \* each of the 16 conversions of the whole range gave the concatenation of the above
\* ---- editing history
InsOk(e) ==
    IF IsScalar(e.cp)
    THEN /\ e.x = ""
         /\ e.after = SubSeq(str, 1, e.idx) \o Enc(e.form, e.cp) \o SubSeq(str, e.idx + 1, Len(str))
    ELSE e.x = "invalid_code_point" /\ e.after = str
\* ---- prefixes and suffixes (C04): 0 false, 1 true, 2 thrown
AffixOk(e) ==
    \A i \in 1..Len(e.r) :
        /\ e.r[i][3] = (IF IsPrefixOf(e.b, e.a) THEN 1 ELSE 0)
        /\ e.r[i][4] = (IF IsSuffixOf(e.b, e.a) THEN 1 ELSE 0)
AffixRawOk(e) ==
    LET da == Dec(e.ea, e.a)  db == Dec(e.eb, e.b) IN
    IF da.ok /\ db.ok
    THEN /\ e.sw = (IF IsPrefixOf(db.cps, da.cps) THEN 1 ELSE 0)
         /\ e.ew = (IF IsSuffixOf(db.cps, da.cps) THEN 1 ELSE 0)
    ELSE e.sw \in {0, 1, 2} /\ e.ew \in {0, 1, 2}
\* ---- classification (C05): maximal runs of values for which the function is true, within [lo, hi];
\*      64-bit ends are given as <<high 16 bits, low 16 bits>>
Big(p) == p[1] > 32767
Val(p) == p[1] * 65536 + p[2]
\* The value of the last element of the examined interval, clipped to what TLC can hold: all classes
\* lie below 2^21, so an interval reaching beyond that is compared as if it ended at 2^21.
Clip(p) == IF p[1] >= 32 THEN 2097152 ELSE Val(p)
ClassOk(e) ==
    LET lo == Clip(e.lo)  hi == Clip(e.hi)
        want == ClassRuns(e.f, e.radix)
        cut == SelectSeq([i \in 1..Len(want) |->
                  <<IF want[i][1] < lo THEN lo ELSE want[i][1], IF want[i][2] > hi THEN hi ELSE want[i][2]>>],
                  LAMBDA r : r[1] <= r[2])
        got == [i \in 1..Len(e.runs) |-> <<Clip(<<e.runs[i][1], e.runs[i][2]>>), Clip(<<e.runs[i][3], e.runs[i][4]>>)>>]
    IN got = cut
\* ---- string_size
SizeOk(e) == e.n = Len(e.in)

EventOk(e) ==
    CASE e.op = "conv"  -> ConvOk(e)
      [] e.op = "iter"  -> IterOk(e)
      [] e.op = "valid" -> ValidOk(e)
      [] e.op = "sweep" -> SweepOk(e)
      [] e.op = "start" -> TRUE
      [] e.op = "ins"   -> InsOk(e)
      [] e.op = "affix" -> AffixOk(e)
      [] e.op = "affixraw" -> AffixRawOk(e)
      [] e.op = "class" -> ClassOk(e)
      [] e.op = "size"  -> SizeOk(e)
      [] OTHER -> FALSE
TraceInit == ex \in 1..Len(Trace) /\ l = 1 /\ str = <<>>
Consume == /\ l <= Len(Trace[ex].ev)
           /\ EventOk(Trace[ex].ev[l])
           /\ str' = IF Trace[ex].ev[l].op \in {"ins", "start"} THEN Trace[ex].ev[l].after ELSE str
           /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
============================================================================
