---------------------------- MODULE OpenPathGen ----------------------------
EXTENDS OpenPath, TLC, Json
VARIABLES k, m, c, w, b
vars == <<k, m, c, w, b>>
Init == k \in Kinds /\ m \in {"r", "w", "rw"} /\ c \in BOOLEAN /\ w \in {"ctor", "open", "reopen"} /\ b \in {0, 8}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* nothing is created unless asked for; what can be opened is opened either way
Laws == /\ \A p \in SUBSET {"r", "w", "rw"} : k # "directory" => Right(k, p, TRUE, m, TRUE) = Right(k, p, TRUE, m, FALSE)
        /\ Right(k, {}, FALSE, m, FALSE) = {FALSE}
Emit == PrintT("@" \o ToJson([kind |-> k, mode |-> m, create |-> c, way |-> w, cap |-> b]))
=============================================================================
