------------------------------ MODULE Unicode ------------------------------
(* The Unicode encoding forms, defined from the scalar values upwards.        *)
(* Code units above 2^31-1 reach TLC as negative numbers (two's complement),  *)
(* so every non-scalar value is simply "not in 0..1114111 without surrogates".*)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt

Forms == {"c", "u8", "u16", "u32", "w"}

IsSurrogate(c) == 55296 <= c /\ c <= 57343
IsScalar(c)    == 0 <= c /\ c <= 1114111 /\ ~IsSurrogate(c)
IsAscii(c)     == 0 <= c /\ c <= 127

Enc8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Enc16(c) ==
    IF c < 65536 THEN <<c>>
    ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>

Enc32(c) == <<c>>

\* The one canonical encoding of scalar value c ("c", plain char text, is ASCII only;
\* wchar_t has 32 bits here).
Enc(f, c) ==
    IF f = "u8" THEN Enc8(c) ELSE IF f = "u16" THEN Enc16(c) ELSE Enc32(c)

EncSeq(f, cps) == FlattenSeq([i \in 1..Len(cps) |-> Enc(f, cps[i])])

\* How long a sequence the unit at position i announces (0: it cannot start one).
Announced(f, x) ==
    IF f = "u8" THEN
        IF x \in 0..127 THEN 1
        ELSE IF x \in 192..223 THEN 2
        ELSE IF x \in 224..239 THEN 3
        ELSE IF x \in 240..247 THEN 4
        ELSE 0
    ELSE IF f = "u16" THEN (IF x \in 55296..56319 THEN 2 ELSE 1)
    ELSE 1

Candidate(f, u, i, n) ==
    IF f = "u8" THEN
        IF n = 1 THEN u[i]
        ELSE IF n = 2 THEN ((u[i] % 32)) * 64 + (u[i+1] % 64)
        ELSE IF n = 3 THEN ((u[i] % 16)) * 4096 + ((u[i+1] % 64)) * 64 + (u[i+2] % 64)
        ELSE ((u[i] % 8)) * 262144 + ((u[i+1] % 64)) * 4096 + ((u[i+2] % 64)) * 64 + (u[i+3] % 64)
    ELSE IF f = "u16" /\ n = 2 THEN 65536 + (u[i] - 55296) * 1024 + ((u[i+1] % 1024))
    ELSE u[i]

\* <<c, n>>: scalar value c is encoded at i in n units;  <<-1, 0>>: ill-formed there.
\* c is encoded at i exactly when its canonical encoding is what stands there.
DecAt(f, u, i) ==
    LET n == Announced(f, u[i]) IN
    IF n = 0 \/ i + n - 1 > Len(u) THEN <<-1, 0>>
    ELSE LET c == Candidate(f, u, i, n) IN
         IF IsScalar(c) /\ (f = "c" => IsAscii(c)) /\ Enc(f, c) = SubSeq(u, i, i + n - 1)
         THEN <<c, n>> ELSE <<-1, 0>>

\* The longest well-formed prefix of u, whether it is all of u, and where the first
\* ill-formed sequence starts.
Dec(f, u) ==
    LET step(m, i) ==
            IF m.at # i \/ ~m.ok THEN m        \* inside of a sequence, or past the first ill-formed one
            ELSE LET d == DecAt(f, u, i) IN
                 IF d[2] = 0 THEN [m EXCEPT !.ok = FALSE]
                 ELSE [cps |-> Append(m.cps, d[1]), ok |-> TRUE, at |-> i + d[2]]
    IN FoldLeft(step, [cps |-> <<>>, ok |-> TRUE, at |-> 1], [i \in 1..Len(u) |-> i])
WellFormed(f, u) == Dec(f, u).ok

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSuffixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a

\* ------------------------------------------------------- classification
\* Each class as its canonical list of maximal intervals.
WhiteSpaceRuns == << <<9, 13>>, <<32, 32>>, <<133, 133>>, <<160, 160>>, <<5760, 5760>>,
                     <<8192, 8202>>, <<8232, 8233>>, <<8239, 8239>>, <<8287, 8287>>, <<12288, 12288>> >>
RadixRuns(r) ==
    IF r <= 10 THEN << <<48, 47 + r>> >>
    ELSE << <<48, 57>>, <<65, 54 + r>>, <<97, 86 + r>> >>
ClassRuns(f, r) ==
    CASE f = "fits_in_7_bits"        -> << <<0, 127>> >>
      [] f = "is_standalone_byte"    -> << <<0, 127>> >>
      [] f = "is_leading_byte"       -> << <<192, 247>> >>
      [] f = "is_trailing_byte"      -> << <<128, 191>> >>
      [] f = "is_leading_surrogate"  -> << <<55296, 56319>> >>
      [] f = "is_trailing_surrogate" -> << <<56320, 57343>> >>
      [] f = "is_surrogate"          -> << <<55296, 57343>> >>
      [] f = "is_code_point_valid"   -> << <<0, 55295>>, <<57344, 1114111>> >>
      [] f = "is_whitespace"         -> WhiteSpaceRuns
      [] f = "is_radix_digit"        -> RadixRuns(r)
      [] OTHER                       -> << <<-1, -1>> >>

InRuns(c, runs) == \E i \in 1..Len(runs) : runs[i][1] <= c /\ c <= runs[i][2]
IsWhitespace(c) == InRuns(c, WhiteSpaceRuns)
============================================================================
