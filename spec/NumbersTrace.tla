---------------------------- MODULE NumbersTrace ----------------------------
(* Recorded calls of the formatting, parsing and numeric helper functions.     *)
EXTENDS Numbers, Unicode, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l
vars == <<ex, l>>

EncodingErrors == {"invalid_unicode_encoding", "iterated_past_end", "invalid_code_point"}
FormatIntOk(e) == /\ IsBig(e.mag) /\ e.x = ""
                  /\ LET d == Dec(e.form, e.out) IN d.ok /\ FormatIntegerOk(e.f, e.neg, e.mag, d.cps)
ParseIntOk(e) == /\ e.in = EncSeq(e.form, e.txt)
                 /\ ParseIntegerOk(e.f, e.signed, e.bits, e.txt, e.x, e.neg, e.mag)
\* text that need not be well formed: an encoding error, or a parse failure, never a number
ParseRawOk(e) == LET d == Dec(e.form, e.in) IN
                 IF d.ok THEN ParseIntegerOk(e.f, e.signed, e.bits, d.cps, e.x, e.neg, e.mag)
                 ELSE e.x # "" /\ e.x # "unknown"
FormatFltOk(e) == /\ e.x = ""
                  /\ LET d == Dec(e.form, e.out) IN d.ok /\ FormatFloatOk(e.f, e.neg, e.int, e.num, e.k, d.cps)
\* formatted and parsed back with the same format
BackOk(e) == e.x = "" /\ e.gneg = e.neg /\ e.gmag = e.mag
FormatCloseEventOk(e) == /\ e.x = ""
                         /\ LET d == Dec(e.form, e.out) IN d.ok /\ FormatCloseOk(e.f, e.slack, e.neg, e.int, e.frac, d.cps)
ParseFltOk(e) == /\ e.in = EncSeq(e.form, e.txt)
                 /\ ParseFloatOk(e.f, e.slack, e.txt, e.x, e.neg, e.int, e.frac, e.exact)
\* bool
FormatBoolOk(e) == e.x = "" /\ e.out = EncSeq(e.form, IF e.v THEN e.ts ELSE e.fs)
ParseBoolOk(e) == /\ e.in = EncSeq(e.form, e.txt)
                  /\ IF e.txt = <<>> THEN e.x = "empty_input"
                     ELSE IF e.txt = e.ts THEN e.x = "" /\ e.v
                     ELSE IF e.txt = e.fs THEN e.x = "" /\ ~e.v
                     ELSE e.x = "neither_boolean"
\* count_digits
CountOk(e) == IF e.mag = <<>> THEN e.n = 1
              ELSE e.n >= 1 /\ e.n <= 128 /\ Le(Pow(e.radix, e.n - 1), e.mag) /\ Lt(e.mag, Pow(e.radix, e.n))
\* cmp_equal on a = an / 2^aj and b = bn / 2^bj (exponents of either sign): equal after cutting off after p decimal places
Magn(n) == IF n < 0 THEN -n ELSE n
Cut(n, j, p) == LET m == TimesPow(FromNat(Magn(n)), 10, p)
                    s == (12 - (j % 12)) % 12
                    up == Shift(m, s)
                IN IF j <= 0 THEN NormB(Shift(m, -j)) ELSE NormB(SubSeq(up, ((j + s) \div 12) + 1, Len(up)))
CmpOk(e) == LET ca == Cut(e.an, e.aj, e.p)
                cb == Cut(e.bn, e.bj, e.p)
                q == ca = cb /\ (ca = <<>> \/ ((e.an < 0) <=> (e.bn < 0)))
            IN e.eq = q /\ e.ne = ~q
\* invert_endianness on the bytes lo..hi of a buffer
InvertOk(e) == LET n == Len(e.before) IN
    e.after = [i \in 1..n |-> IF i \in (e.at + 1)..(e.at + e.n) THEN e.before[2 * e.at + e.n + 1 - i] ELSE e.before[i]]
OppositeOk(e) == e.little = "big" /\ e.big = "little"

EventOk(e) ==
    CASE e.op = "fmt"   -> FormatIntOk(e)
      [] e.op = "parse" -> ParseIntOk(e)
      [] e.op = "parseraw" -> ParseRawOk(e)
      [] e.op = "ffmt"  -> FormatFltOk(e)
      [] e.op = "back" -> BackOk(e)
      [] e.op = "fapprox" -> FormatCloseEventOk(e)
      [] e.op = "fparse" -> ParseFltOk(e)
      [] e.op = "bfmt"  -> FormatBoolOk(e)
      [] e.op = "bparse" -> ParseBoolOk(e)
      [] e.op = "count" -> CountOk(e)
      [] e.op = "cmp"   -> CmpOk(e)
      [] e.op = "invert" -> InvertOk(e)
      [] e.op = "opposite" -> OppositeOk(e)
      [] OTHER -> FALSE
TraceInit == ex \in 1..Len(Trace) /\ l = 1
Consume == l <= Len(Trace[ex].ev) /\ EventOk(Trace[ex].ev[l]) /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
