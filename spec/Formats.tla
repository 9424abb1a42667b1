------------------------------ MODULE Formats ------------------------------
(* Two objects of each kind of format, with every attribute as a string.       *)
EXTENDS Integers, Sequences, TLC
RadixNames == {ToString(i) : i \in 2..36}
Default == [int |-> [radix |-> "10", sign |-> "neg", sep |-> "none"],
            flt |-> [radix |-> "10", sign |-> "neg", sep |-> "none", rchar |-> "period", limit |-> "none", places |-> "0"],
            bool |-> [ts |-> "1", fs |-> "0"]]
VARIABLE fm      \* fm[k][o]: object o (1, 2) of kind k
FInit == fm = [k \in {"int", "flt", "bool"} |-> <<Default[k], Default[k]>>]
Refused(a, v) == a = "radix" /\ v \notin RadixNames
\* set one attribute
Set(k, o, a, v, x) ==
    IF Refused(a, v) THEN x = "invalid_radix" /\ UNCHANGED fm
    ELSE x = "" /\ fm' = [fm EXCEPT ![k][o][a] = v]
\* construct with all attributes given and assign
Construct(k, o, r, x) ==
    IF k # "bool" /\ Refused("radix", r.radix) THEN x = "invalid_radix" /\ UNCHANGED fm
    ELSE x = "" /\ fm' = [fm EXCEPT ![k][o] = r]
Reset(k, o) == fm' = [fm EXCEPT ![k][o] = Default[k]]
CopyTo(k, o) == fm' = [fm EXCEPT ![k][o] = fm[k][3 - o]]
FTypeOk == /\ \A o \in 1..2 : fm["int"][o].radix \in RadixNames /\ fm["flt"][o].radix \in RadixNames
=============================================================================
