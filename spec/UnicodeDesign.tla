--------------------------- MODULE UnicodeDesign ---------------------------
(* The encoding forms on their own: for every 21-bit value (and beyond), the  *)
(* definitions of Unicode.tla are a bijection between scalar values and       *)
(* canonical encodings, the classes of code units partition the units, and an *)
(* incremental decoder shaped like the library's (leading unit, then trailing *)
(* units, then range check) agrees with the definition.                       *)
EXTENDS Unicode, TLC
CONSTANTS Lo, Hi
VARIABLE c

Init == c \in Lo..Hi
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

\* the decoder of the library, as an algorithm over a whole buffer
AlgoUtf8(u) ==
    LET b == u[1]
        n == IF b < 128 THEN 1 ELSE IF b \div 32 = 6 THEN 2 ELSE IF b \div 16 = 14 THEN 3
             ELSE IF b \div 8 = 30 THEN 4 ELSE 0
        init == IF n = 1 THEN b ELSE IF n = 2 THEN (b % 32) ELSE IF n = 3 THEN (b % 16) ELSE (b % 8)
        v == IF n <= 1 THEN init
             ELSE IF n = 2 THEN init * 64 + (u[2] % 64)
             ELSE IF n = 3 THEN (init * 64 + (u[2] % 64)) * 64 + (u[3] % 64)
             ELSE ((init * 64 + (u[2] % 64)) * 64 + (u[3] % 64)) * 64 + (u[4] % 64)
    IN IF n = 0 \/ Len(u) < n \/ (\E i \in 2..n : u[i] \div 64 # 2) THEN -1
       ELSE IF ~IsScalar(v) \/ (n = 2 /\ v < 128) \/ (n = 3 /\ v < 2048) \/ (n = 4 /\ v < 65536) THEN -1
       ELSE v
Round == IsScalar(c) =>
    /\ \A f \in {"u8", "u16", "u32", "w"} : DecAt(f, Enc(f, c), 1) = <<c, Len(Enc(f, c))>>
    /\ AlgoUtf8(Enc8(c)) = c
    /\ \A i \in 2..Len(Enc8(c)) : Enc8(c)[i] \in 128..191
    /\ Enc8(c)[1] \notin 128..193 /\ Enc8(c)[1] <= 244
    /\ \A k \in 1..(Len(Enc8(c)) - 1) : DecAt("u8", SubSeq(Enc8(c), 1, k), 1) = <<-1, 0>>
    /\ (Len(Enc16(c)) = 2) = (c >= 65536)
\* every three-byte and four-byte combination derived from c: the algorithm agrees with the definition
Agree ==
    LET u3 == <<((c \div 4096) % 256), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
        u2 == <<((c \div 64) % 256), 128 + (c % 64)>>
        u4 == <<240 + ((c \div 262144) % 16), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
        u2x == <<((c \div 256) % 256), (c % 256)>>
    IN \A u \in {u2, u3, u4, u2x} : AlgoUtf8(u) = DecAt("u8", u, 1)[1]
Surrogates == IsSurrogate(c) => DecAt("u16", <<c>>, 1) = <<-1, 0>> /\ DecAt("u32", <<c>>, 1) = <<-1, 0>>
WhiteCount == IsWhitespace(c) => IsScalar(c)
Inv == Round /\ Agree /\ Surrogates /\ WhiteCount
============================================================================
