--------------------------- MODULE NumbersDesign ---------------------------
(* Small-scope exhaustive check of what Numbers.tla says, and the generator of *)
(* the texts the implementation is asked to parse: every text over an alphabet *)
(* up to a length, in every format.                                            *)
EXTENDS Numbers, TLC, Json
CONSTANTS Alphabet, MaxLen, Radices
Signs == {"always", "neg"}
Seps == {"none", "comma", "period"}
VARIABLES t, f
vars == <<t, f>>
Init == t = <<>> /\ f \in [radix : Radices, sign : Signs, sep : Seps]
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c) /\ f' = f
Spec == Init /\ [][Next]_vars

\* the canonical text, constructed (magnitudes here are small numbers)
RECURSIVE Group(_, _, _, _)
Group(n, r, sep, k) ==
    IF n = 0 THEN <<>>
    ELSE Group(n \div r, r, sep, k + 1) \o <<DigitChar(n % r)>> \o (IF sep # 0 /\ k > 0 /\ k % 3 = 0 THEN <<sep>> ELSE <<>>)
Canon(g, neg, n) ==
    (IF n = 0 THEN <<>> ELSE IF neg THEN <<Minus>> ELSE IF g.sign = "always" THEN <<Plus>> ELSE <<>>)
    \o (IF n = 0 THEN <<48>> ELSE Group(n, g.radix, IF g.sep = "none" THEN 0 ELSE SepChar(g), 0))
RECURSIVE ToNat(_, _)
ToNat(ds, r) == IF ds = <<>> THEN 0 ELSE ToNat(SubSeq(ds, 1, Len(ds) - 1), r) * r + ds[Len(ds)]

\* every text that denotes a number denotes the one whose canonical text is unique and denotes it too
Canonical ==
    IsNumber(f, t) =>
        LET neg == IsNegative(t)
            ds == Digits(f, Unsigned(f, t))
            n == ToNat(ds, f.radix)
            c == Canon(f, neg, n)
        IN /\ Magnitude(f, t) = FromNat(n)
           /\ FormatIntegerOk(f, neg, FromNat(n), c)
           /\ (FormatIntegerOk(f, neg, FromNat(n), t) <=> t = c)
           /\ IsNumber(f, c)
           /\ Magnitude(f, c) = FromNat(n)
           /\ (n # 0 => IsNegative(c) = neg)
\* the outcome of parsing is decided: no text both has a value and must be refused
Decided ==
    \A signed \in BOOLEAN :
        ~( /\ ParseIntegerOk(f, signed, 8, t, "", IsNegative(t) /\ Magnitude(f, t) # <<>>, IF IsNumber(f, t) THEN Magnitude(f, t) ELSE <<>>)
           /\ ParseIntegerOk(f, signed, 8, t, "out_of_range", FALSE, <<>>))
Emit == (f.radix = CHOOSE r \in Radices : \A q \in Radices : r <= q) /\ f.sign = "always" /\ f.sep = "none"
        => PrintT("@" \o ToJson(t))
=============================================================================
