------------------------------ MODULE Numbers ------------------------------
(* What number formats mean: which text is the canonical representation of a   *)
(* value, which texts denote a number, and which number.  Texts are sequences  *)
(* of code points.                                                             *)
(* A format is a record radix, sign ("always"/"neg"), sep ("none"/"comma"/     *)
(* "period") and, for floating point, rchar ("comma"/"period"), limit          *)
(* ("none"/"exactly"/"upto") and places.                                       *)
EXTENDS BigNat
LOCAL INSTANCE SequencesExt

Minus == 45
Plus  == 43
SepChar(f) == IF f.sep = "comma" THEN 44 ELSE 46
RadixChar(f) == IF f.rchar = "comma" THEN 44 ELSE 46

\* digit value of a code point, -1 if it is none
DigitOf(c, r) ==
    LET v == IF c \in 48..57 THEN c - 48
             ELSE IF c \in 65..90 THEN c - 55
             ELSE IF c \in 97..122 THEN c - 87 ELSE -1
    IN IF v < r THEN v ELSE -1
DigitChar(d) == IF d < 10 THEN 48 + d ELSE 55 + d

\* ---------------------------------------------------------------- formatting
\* Position of a character from the right, 0-based, within the unsigned part: with separators every
\* fourth place (3, 7, 11, ...) holds the separator and every other a digit.
SepPlace(f, n, i) == f.sep # "none" /\ ((n - i) % 4) = 3
\* digits of an unsigned text u laid out as the format wants, <<-1>> if it is not laid out so
Digits(f, u) ==
    LET n == Len(u) IN
    IF n = 0 \/ SepPlace(f, n, 1) THEN <<-1>>
    ELSE IF \E i \in 1..n : IF SepPlace(f, n, i) THEN u[i] # SepChar(f) ELSE DigitOf(u[i], f.radix) = -1 THEN <<-1>>
    ELSE LET ix == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~SepPlace(f, n, i))
         IN [k \in 1..Len(ix) |-> DigitOf(u[ix[k]], f.radix)]
Upper(u) == \A i \in 1..Len(u) : u[i] \notin 97..122

\* the sign the canonical text of a value has
SignText(f, neg, zero) ==
    IF zero THEN <<>> ELSE IF neg THEN <<Minus>> ELSE IF f.sign = "always" THEN <<Plus>> ELSE <<>>
StartsWith(t, p) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
Rest(t, n) == SubSeq(t, n + 1, Len(t))

\* u is the canonical unsigned text of magnitude mag
CanonicalUnsigned(f, mag, u) ==
    LET ds == Digits(f, u) IN
    /\ ds # <<-1>>
    /\ Upper(u)
    /\ (IF mag = <<>> THEN ds = <<0>> ELSE ds[1] # 0)
    /\ Value(ds, f.radix) = mag
FormatIntegerOk(f, neg, mag, t) ==
    LET s == SignText(f, neg, mag = <<>>) IN
    StartsWith(t, s) /\ CanonicalUnsigned(f, mag, Rest(t, Len(s)))

\* the first n places of the fraction num / 2^k in radix r, fewer if it is exhausted before
PlacesUntil(num, k, r, n) ==
    LET p == FoldLeft(LAMBDA acc, i : IF acc[2] = <<>> THEN acc
                                      ELSE LET m == Mul(acc[2], r) IN <<Append(acc[1], DigitChar(SmallHigh(m, k))), LowBits(m, k)>>,
                      <<<<>>, num>>, Indices(n))
    IN p[1]
\* exactly n places
Places(num, k, r, n) == LET p == PlacesUntil(num, k, r, n) IN p \o [i \in 1..(n - Len(p)) |-> 48]
IsEven(r) == r % 2 = 0
FindChar(t, c) == IF \E i \in 1..Len(t) : t[i] = c
                  THEN CHOOSE i \in 1..Len(t) : t[i] = c /\ \A j \in 1..(i - 1) : t[j] # c
                  ELSE 0
\* the last position of c (the radix character may equal the separator)
LastChar(t, c) == IF \E i \in 1..Len(t) : t[i] = c
                  THEN CHOOSE i \in 1..Len(t) : t[i] = c /\ \A j \in (i + 1)..Len(t) : t[j] # c
                  ELSE 0
FormatFloatOk(f, neg, int, num, k, t) ==
    LET zero == int = <<>> /\ num = <<>>
        s == SignText(f, neg, zero)
        body == Rest(t, Len(s))
        \* how many places stand in the text; 0 if there is no radix character
        want == IF f.limit = "exactly" THEN Places(num, k, f.radix, f.places)
                ELSE IF f.limit = "upto" THEN PlacesUntil(num, k, f.radix, f.places)
                ELSE IF IsEven(f.radix) THEN PlacesUntil(num, k, f.radix, 2000)
                ELSE \* the expansion does not end: some non-empty beginning of it
                     PlacesUntil(num, k, f.radix,
                        LET p == LastChar(body, RadixChar(f)) IN
                        IF p = 0 \/ Len(body) = p THEN 1 ELSE Len(body) - p)
        tail == IF want = <<>> THEN <<>> ELSE <<RadixChar(f)>> \o want
        n == Len(body) - Len(tail)
    IN /\ StartsWith(t, s)
       /\ n >= 1
       /\ Rest(body, n) = tail
       /\ CanonicalUnsigned(f, int, SubSeq(body, 1, n))

\* ------------------------------------------------------------------- parsing
HasSign(f, t) == Len(t) >= 1 /\ (t[1] = Minus \/ (t[1] = Plus /\ f.sign = "always"))
Unsigned(f, t) == IF HasSign(f, t) THEN Rest(t, 1) ELSE t
IsNumber(f, t) == Digits(f, Unsigned(f, t)) # <<-1>>
IsNegative(t) == Len(t) >= 1 /\ t[1] = Minus
Magnitude(f, t) == Value(Digits(f, Unsigned(f, t)), f.radix)
SignCount(t) == Len(SelectSeq(t, LAMBDA c : c = Minus \/ c = Plus))

\* types: signed bits or unsigned bits
Fits(signed, bits, neg, mag) ==
    IF signed THEN (IF neg THEN Le(mag, Pow2(bits - 1)) ELSE Lt(mag, Pow2(bits - 1)))
    ELSE Lt(mag, Pow2(bits))

\* outcome of parsing t as an integer: x is "" or the type of parse_failed
ParseIntegerOk(f, signed, bits, t, x, neg, mag) ==
    IF t = <<>> THEN x = "empty_input"
    ELSE IF IsNumber(f, t) THEN
        LET m == Magnitude(f, t)  n == IsNegative(t) IN
        IF n /\ ~signed THEN x \in {"negative_unsigned", "out_of_range"}
        ELSE IF Fits(signed, bits, n, m) THEN x = "" /\ mag = m /\ neg = (n /\ m # <<>>)
        ELSE x = "out_of_range"
    ELSE /\ x \in {"multiple_signs", "thousands_separator_missing", "digit_character_expected", "out_of_range", "negative_unsigned"}
         /\ (x = "multiple_signs" => SignCount(t) >= 2)
         /\ (x = "thousands_separator_missing" => f.sep # "none")
         /\ (x = "negative_unsigned" => ~signed)

\* outcome of parsing t as a floating point number; the result is given as integral part and the first
\* 47 binary places of the fraction, exact says that no further place was cut off
ParseFloatOk(f, slack, t, x, neg, int, frac, exact) ==
    LET p == FindChar(t, RadixChar(f))
        it == IF p = 0 THEN t ELSE SubSeq(t, 1, p - 1)
        ft == IF p = 0 THEN <<>> ELSE Rest(t, p)
        ds == [i \in 1..Len(ft) |-> DigitOf(ft[i], f.radix)]
        placesOk == CASE f.limit = "none" -> TRUE
                      [] f.limit = "exactly" -> Len(ft) = f.places
                      [] OTHER -> Len(ft) <= f.places
        n == Len(ft)
        m == Magnitude(f, it)
        \* value * radix^n, compared with the result times 2^47
        num == Add(Value(ds, f.radix), TimesPow(m, f.radix, n))
        got == Add(Shift(int, 47), frac)
        scaled == TimesPow(got, f.radix, n)
        want == Shift(num, 47)
        tol == Shift(Mul(Pow(f.radix, n), 16), slack + (IF BitLen(m) > 5 THEN BitLen(m) - 5 ELSE 0))
    IN IF t = <<>> \/ it = <<>> THEN x = "empty_input"
       ELSE IF ~IsNumber(f, it) THEN x \in {"multiple_signs", "thousands_separator_missing", "digit_character_expected", "out_of_range"}
       ELSE IF ~Fits(TRUE, 64, IsNegative(it), m) THEN x = "out_of_range"
       ELSE IF \E i \in 1..n : ds[i] = -1 THEN x \in {"wrong_place_limit", "digit_character_expected"}
       ELSE IF ~placesOk THEN x = "wrong_place_limit"
       ELSE IF p # 0 /\ ft = <<>> /\ x # "" THEN TRUE     \* nothing after the radix character: may be refused
       ELSE /\ x = ""
            /\ (neg = IsNegative(it) \/ got = <<>>)
            /\ (IF f.radix \in {2, 4, 8, 16, 32} /\ n * BitsOf(f.radix - 1) <= 47
                   /\ n * BitsOf(f.radix - 1) + BitLen(m) <= (IF slack = 0 THEN 53 ELSE 24)
                THEN exact /\ scaled = want ELSE Le(Diff(scaled, want), tol))

\* a text close to a value whose fraction the implementation cannot scale exactly: the layout is exact, and
\* so is the integral part; the fraction is off by rounding (slack) and by at most one unit of its last place
FormatCloseOk(f, slack, neg, int, frac, t) ==
    LET zero == int = <<>> /\ frac = <<>>
        s == SignText(f, neg, zero)
        body == Rest(t, Len(s))
        p == LastChar(body, RadixChar(f))
        it == IF p = 0 THEN body ELSE SubSeq(body, 1, p - 1)
        ft == IF p = 0 THEN <<>> ELSE Rest(body, p)
        n == Len(ft)
        ds == [i \in 1..n |-> DigitOf(ft[i], f.radix)]
    IN /\ StartsWith(t, s)
       /\ CanonicalUnsigned(f, int, it)
       /\ (p # 0 => n >= 1)
       /\ \A i \in 1..n : ds[i] # -1
       /\ Upper(ft)
       /\ (f.limit = "exactly" => n = f.places)
       /\ (f.limit = "upto" => n <= f.places)
       /\ Le(Diff(Shift(Value(ds, f.radix), 47), TimesPow(frac, f.radix, n)),
             Add(Shift(Mul(Pow(f.radix, n), 16), slack), IF f.limit = "none" THEN <<>> ELSE Pow2(47)))
=============================================================================
