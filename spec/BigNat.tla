------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as sequences of base-4096 limbs, least          *)
(* significant first, without leading zero limbs (zero is <<>>).  TLC's        *)
(* integers have 32 bits; limbs keep every intermediate result below 2^31.     *)
(* Folds rather than recursive operators: TLC evaluates their accumulator      *)
(* once, where nested operator arguments would be evaluated again and again.   *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
Base == 4096

Seq0(n) == [i \in 1..n |-> 0]
NormB(a) == LET n == FoldLeftDomain(LAMBDA acc, i : IF a[i] # 0 THEN i ELSE acc, 0, a) IN SubSeq(a, 1, n)

FromNat(n) == NormB(<<n % Base, (n \div Base) % Base, n \div (Base * Base)>>)

\* a * m + c for small m, c (m < 2^18, c < 2^30)
MulAdd(a, m, c) ==
    LET r == FoldLeft(LAMBDA acc, x : LET v == x * m + acc[2] IN <<Append(acc[1], v % Base), v \div Base>>, <<<<>>, c>>, a)
    IN NormB(r[1] \o FromNat(r[2]))
Mul(a, m) == MulAdd(a, m, 0)

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Indices(n) == [i \in 1..n |-> i]
MaxLenOf(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
Add(a, b) ==
    LET r == FoldLeft(LAMBDA acc, i : LET v == Limb(a, i) + Limb(b, i) + acc[2] IN <<Append(acc[1], v % Base), v \div Base>>,
                      <<<<>>, 0>>, Indices(MaxLenOf(a, b)))
    IN NormB(r[1] \o FromNat(r[2]))

\* -1, 0, 1
Cmp(a, b) ==
    IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
    ELSE FoldLeftDomain(LAMBDA acc, i : IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE acc, 0, a)
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0

\* a - b for a >= b
Sub(a, b) ==
    LET r == FoldLeftDomain(LAMBDA acc, i : LET v == a[i] - Limb(b, i) - acc[2] IN
                                IF v < 0 THEN <<Append(acc[1], v + Base), 1>> ELSE <<Append(acc[1], v), 0>>,
                            <<<<>>, 0>>, a)
    IN NormB(r[1])
Diff(a, b) == IF Lt(a, b) THEN Sub(b, a) ELSE Sub(a, b)

\* a * r^n
TimesPow(a, r, n) == FoldLeft(LAMBDA acc, i : Mul(acc, r), a, Indices(n))
Pow(r, n) == TimesPow(<<1>>, r, n)
Pow2(k) == Seq0(k \div 12) \o <<(2 ^ (k % 12))>>
\* a * 2^k
Shift(a, k) == IF a = <<>> THEN <<>> ELSE Seq0(k \div 12) \o Mul(a, 2 ^ (k % 12))

\* a div 2^k, where that is known to be small, and a mod 2^k
SmallHigh(a, k) == LET q == k \div 12 IN (Limb(a, q + 1) + Limb(a, q + 2) * Base) \div (2 ^ (k % 12))
LowBits(a, k) == LET q == k \div 12 IN
    IF Len(a) <= q THEN a ELSE NormB(SubSeq(a, 1, q) \o <<(a[q + 1] % (2 ^ (k % 12)))>>)

\* value of a digit sequence (most significant first) in radix r
Value(ds, r) == FoldLeft(LAMBDA acc, d : MulAdd(acc, r, d), <<>>, ds)

BitsOf(n) == IF n = 0 THEN 0 ELSE CHOOSE k \in 1..13 : 2 ^ (k - 1) <= n /\ n < 2 ^ k
BitLen(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + BitsOf(a[Len(a)])

IsBig(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(Base - 1)
            /\ (a # <<>> => a[Len(a)] # 0)
=============================================================================
