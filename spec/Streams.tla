------------------------------ MODULE Streams ------------------------------
(* Text and data as bytes: encoding forms with a byte order, what a text       *)
(* input stream makes of bytes, and what words, lines and numbers in it are.   *)
(* A text source is a record bytes, pos (0-based), form, endian.               *)
EXTENDS Unicode, Numbers
LOCAL INSTANCE SequencesExt
CONSTANT Swallow      \* how a carriage return not before a line feed is treated: delivered, or (TRUE) swallowed

Width(form) == IF form = "u8" THEN 1 ELSE IF form = "u16" THEN 2 ELSE 4
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* a code unit as bytes
UnitBytes(form, endian, u) ==
    LET big == CASE form = "u8"  -> <<u>>
                 [] form = "u16" -> <<u \div 256, u % 256>>
                 [] form = "u32" -> <<u \div 16777216, (u \div 65536) % 256, (u \div 256) % 256, u % 256>>
    IN IF endian = "big" THEN big ELSE Reversed(big)
CpBytes(form, endian, c) == LET u == Enc(form, c) IN FlattenSeq([i \in 1..Len(u) |-> UnitBytes(form, endian, u[i])])
TextBytes(form, endian, cps) == LET u == EncSeq(form, cps) IN
    IF form = "u8" THEN u ELSE FlattenSeq([i \in 1..Len(u) |-> UnitBytes(form, endian, u[i])])

\* the code unit whose bytes start at i (1-based); a 32-bit unit too large for a scalar value is -1
UnitAt(form, endian, b, i) ==
    CASE form = "u8"  -> b[i]
      [] form = "u16" -> IF endian = "big" THEN b[i] * 256 + b[i + 1] ELSE b[i + 1] * 256 + b[i]
      [] form = "u32" -> LET x == IF endian = "big" THEN SubSeq(b, i, i + 3) ELSE Reversed(SubSeq(b, i, i + 3))
                         IN IF x[1] > 0 \/ x[2] > 16 THEN -1 ELSE x[2] * 65536 + x[3] * 256 + x[4]
\* as many whole units as there are at i, at most n
UnitsAt(form, endian, b, i, n) ==
    LET w == Width(form)
        k == (Len(b) - i + 1) \div w
    IN [j \in 1..(IF k < n THEN k ELSE n) |-> UnitAt(form, endian, b, i + (j - 1) * w)]

Left(s) == Len(s.bytes) - s.pos
Ended(s) == s.pos >= Len(s.bytes)
\* the first bytes of some well-formed UTF-8 sequence
Beginning(u) == /\ u[1] \in 194..244
                /\ Len(u) > 1 => /\ (u[1] = 224 => u[2] >= 160) /\ (u[1] = 237 => u[2] <= 159)
                                 /\ (u[1] = 240 => u[2] >= 144) /\ (u[1] = 244 => u[2] <= 143)
\* what decoding the next code point gives: [c, n, xs]; if it is well formed c is the code point, n the number of its
\* bytes and xs empty; otherwise xs are the exceptions that say so
Next1(s) ==
    LET w == Width(s.form)
        u == UnitsAt(s.form, s.endian, s.bytes, s.pos + 1, 4)
        d == DecAt(s.form, u, 1)
        n == Announced(s.form, u[1])
    IN IF Len(u) = 0 THEN [c |-> -1, n |-> 0, xs |-> {"read_past_end"}]
       ELSE IF d[2] > 0 THEN [c |-> d[1], n |-> d[2] * w, xs |-> {}]
       ELSE IF n > Len(u)                       \* the input ends inside the sequence, if it is one at all
            THEN IF \A i \in 2..Len(u) : u[i] \in 128..191
                 THEN \* a beginning of a well-formed sequence: the end is what is wrong with it
                      (IF s.form # "u8" \/ Beginning(u)
                       THEN [c |-> -1, n |-> 0, xs |-> {"read_past_end"}]
                       ELSE [c |-> -1, n |-> 0, xs |-> {"read_past_end", "invalid_unicode_encoding"}])
                 ELSE [c |-> -1, n |-> 0, xs |-> {"invalid_unicode_encoding"}]
            ELSE [c |-> -1, n |-> 0, xs |-> {"invalid_unicode_encoding"}]
Skip(s, n) == [s EXCEPT !.pos = s.pos + n]
\* the next character of the text: a carriage return directly before a line feed is dropped
NextChar(s) ==
    LET a == Next1(s) IN
    IF a.c # 13 \/ Ended(Skip(s, a.n)) THEN a
    ELSE LET b == Next1(Skip(s, a.n)) IN
         IF b.c = 10 \/ Swallow THEN [c |-> b.c, n |-> a.n + b.n, xs |-> b.xs] ELSE a

\* ------------------------------------------------------------ pieces of a text
\* each gives [s, out, xs]: the source afterwards, the characters, and possible exceptions
TakeUntil(s, stop(_)) ==
    LET step(m, i) ==
            IF m.done THEN m
            ELSE IF Ended(m.s) THEN [m EXCEPT !.done = TRUE]
            ELSE LET a == NextChar(m.s) IN
                 IF a.xs # {} THEN [m EXCEPT !.done = TRUE, !.xs = a.xs]
                 ELSE IF stop(a.c) THEN [m EXCEPT !.done = TRUE, !.s = Skip(m.s, a.n)]
                 ELSE [m EXCEPT !.s = Skip(m.s, a.n), !.out = Append(m.out, a.c)]
    IN FoldLeft(step, [s |-> s, out |-> <<>>, xs |-> {}, done |-> FALSE], [i \in 1..(Left(s) + 1) |-> i])
\* white space is left out, what follows it stays
SkipWhite(s) ==
    LET step(m, i) ==
            IF m.done \/ Ended(m.s) THEN m
            ELSE LET a == NextChar(m.s) IN
                 IF a.xs # {} THEN [m EXCEPT !.done = TRUE, !.xs = a.xs]
                 ELSE IF IsWhitespace(a.c) THEN [m EXCEPT !.s = Skip(m.s, a.n)]
                 ELSE [m EXCEPT !.done = TRUE]
    IN FoldLeft(step, [s |-> s, xs |-> {}, done |-> FALSE], [i \in 1..(Left(s) + 1) |-> i])
Line(s) == TakeUntil(s, LAMBDA c : c = 10)
All(s) == TakeUntil(s, LAMBDA c : FALSE)
Word(s) == LET t == SkipWhite(s) IN
           IF t.xs # {} THEN [s |-> s, out |-> <<>>, xs |-> t.xs] ELSE TakeUntil(t.s, IsWhitespace)
Char(s) == LET a == NextChar(s) IN [s |-> IF a.xs = {} THEN Skip(s, a.n) ELSE s, out |-> IF a.xs = {} THEN <<a.c>> ELSE <<>>, xs |-> a.xs]
\* reading a byte order mark: the mark in either byte order sets the byte order
Bom(s) ==
    LET w == Width(s.form)
        u == IF Left(s) >= w THEN SubSeq(s.bytes, s.pos + 1, s.pos + w) ELSE <<>>
        a == Next1(s)
    IN IF s.form # "u8" /\ u = CpBytes(s.form, "big", 65279) THEN [s |-> [Skip(s, w) EXCEPT !.endian = "big"], out |-> <<65279>>, xs |-> {}]
       ELSE IF s.form # "u8" /\ u = CpBytes(s.form, "little", 65279) THEN [s |-> [Skip(s, w) EXCEPT !.endian = "little"], out |-> <<65279>>, xs |-> {}]
       ELSE [s |-> IF a.xs = {} THEN Skip(s, a.n) ELSE s, out |-> IF a.xs = {} THEN <<a.c>> ELSE <<>>, xs |-> a.xs]

DefaultInt == [radix |-> 10, sign |-> "neg", sep |-> "none"]
DefaultFlt == [radix |-> 10, sign |-> "neg", sep |-> "none", rchar |-> "period", limit |-> "none", places |-> 0]
=============================================================================
