------------------------------ MODULE OpenPath ------------------------------
(* When open succeeds, for everything a path can lead to.                      *)
(* kind: what the path leads to; poss: the modes in which the operating system *)
(* opens it as it is (no creation), asked by the driver itself.                *)
EXTENDS Sequences, Integers
Kinds == {"regular", "empty", "symlink", "hardlink", "relative", "unicode", "spaces", "dotted", "deep", "readonly", "writeonly", "noperm",
          "directory", "device", "fifo", "socket", "dangling", "missing", "noparent", "fileparent", "nothing", "toolong", "loop"}
Creatable == {"dangling", "missing"}
\* the outcomes of open that are right
Right(kind, poss, there, mode, create) ==
    IF there THEN IF create /\ kind = "directory" THEN {TRUE, FALSE}      \* creating where a directory is
                  ELSE {mode \in poss}
    ELSE {create /\ kind \in Creatable}
\* content of a file after writing bs at its start
Over(d, bs) == bs \o SubSeq(d, Len(bs) + 1, Len(d))
=============================================================================
