----------------------------- MODULE FormatsGen -----------------------------
EXTENDS Formats, Json
CONSTANTS Depth
VARIABLE h
Vals == [radix |-> {"0", "1", "2", "3", "8", "10", "16", "35", "36", "37", "4294967295"}, sign |-> {"always", "neg"},
         sep |-> {"none", "comma", "period"}, rchar |-> {"comma", "period"}, limit |-> {"none", "exactly", "upto"},
         places |-> {"0", "1", "7", "300", "4294967295"}, ts |-> {"", "1", "0", "yes", "wahr!"}, fs |-> {"", "0", "1", "no", "falsch"}]
Attrs(k) == DOMAIN Default[k]
Log(r) == h' = Append(h, r)
DoSet == \E k \in DOMAIN Default, o \in 1..2 : \E a \in Attrs(k) : \E v \in Vals[a] :
    /\ Set(k, o, a, v, IF Refused(a, v) THEN "invalid_radix" ELSE "")
    /\ Log([op |-> "set", k |-> k, o |-> o, a |-> a, v |-> v])
\* construct from the current attributes with one of them and the radix changed
DoConstruct == \E k \in DOMAIN Default, o \in 1..2 : \E a \in Attrs(k) : \E v \in Vals[a], w \in Vals.radix :
    LET q == [fm[k][o] EXCEPT ![a] = v]
        r == IF k = "bool" THEN q ELSE [q EXCEPT !.radix = w] IN
    /\ Construct(k, o, r, IF k # "bool" /\ Refused("radix", r.radix) THEN "invalid_radix" ELSE "")
    /\ Log([op |-> "ctor", k |-> k, o |-> o, r |-> r])
DoReset == \E k \in DOMAIN Default, o \in 1..2 : Reset(k, o) /\ Log([op |-> "reset", k |-> k, o |-> o])
DoCopy == \E k \in DOMAIN Default, o \in 1..2 : CopyTo(k, o) /\ Log([op |-> "copy", k |-> k, o |-> o])
Init == FInit /\ h = <<>>
Next == Len(h) < Depth /\ (DoSet \/ DoConstruct \/ DoReset \/ DoCopy)
Spec == Init /\ [][Next]_<<fm, h>>
\* no attribute changes but the one that is set
OnlyOne == [][\A k \in DOMAIN Default, o \in 1..2 :
    (fm'[k][o] # fm[k][o]) => (h'[Len(h')].k = k /\ h'[Len(h')].o = o)]_<<fm, h>>
Emit == Len(h) = Depth => PrintT("@" \o ToJson([ops |-> h]))
=============================================================================
