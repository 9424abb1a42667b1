---------------------------- MODULE TextInTrace ----------------------------
(* Recorded text input.  An execution ends with its first encoding error or    *)
(* past-the-end error inside the text: where reading would go on is open.      *)
EXTENDS Streams, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, s, old
vars == <<ex, l, s, old>>
E == Trace[ex].ev[l]
TraceInit == /\ ex \in 1..Len(Trace) /\ l = 1 /\ old = [t \in {"c", "u8", "u16", "u32", "w"} |-> <<>>]
             /\ s = [bytes |-> Trace[ex].bytes, pos |-> 0, form |-> Trace[ex].form, endian |-> Trace[ex].endian]
\* the outcome r of reading a string into the target of type E.t (its units are E.out)
Str(r, base) ==
    IF r.xs # {} THEN E.x \in r.xs /\ s' = s /\ old' = old
    ELSE E.x = "" /\ s' = r.s /\ old' = [old EXCEPT ![E.t] = base \o r.out] /\ E.out = EncSeq(E.t, base \o r.out)
ValueOk(t) ==
    CASE E.op = "bool" -> IF t = <<>> THEN E.x = "empty_input" ELSE IF t = <<49>> THEN E.x = "" /\ E.v
                          ELSE IF t = <<48>> THEN E.x = "" /\ ~E.v ELSE E.x = "neither_boolean"
      [] E.op = "int"  -> ParseIntegerOk(DefaultInt, E.signed, E.bits, t, E.x, E.neg, E.mag)
      [] E.op = "flt"  -> ParseFloatOk(DefaultFlt, E.slack, t, E.x, E.neg, E.int, E.frac, E.exact)
Step ==
    CASE E.op = "form"   -> s' = [s EXCEPT !.form = E.form] /\ old' = old
      [] E.op = "endian" -> s' = [s EXCEPT !.endian = E.endian] /\ old' = old
      [] E.op = "copy"   -> s' = s /\ old' = old
      [] E.op = "grab"   -> LET n == IF E.n <= Len(s.bytes) - s.pos THEN E.n ELSE Len(s.bytes) - s.pos IN
                            /\ E.x = "" /\ E.v = SubSeq(s.bytes, s.pos + 1, s.pos + n) /\ s' = [s EXCEPT !.pos = @ + n] /\ old' = old
      [] E.op = "bom"    -> LET r == Bom(s) IN old' = old /\
                            IF r.xs # {} THEN E.x \in r.xs /\ s' = s ELSE E.x = "" /\ s' = r.s /\ <<E.c>> = r.out
      [] E.op = "cp"     -> LET r == Char(s) IN old' = old /\
                            IF r.xs # {} THEN E.x \in r.xs /\ s' = s /\ E.kept ELSE E.x = "" /\ s' = r.s /\ <<E.c>> = r.out
      [] E.op = "word"   -> Str(Word(s), <<>>)
      [] E.op = "line"   -> Str(Line(s), <<>>)
      [] E.op = "all"    -> Str(All(s), <<>>)
      [] E.op = "aline"  -> Str(Line(s), old[E.t])
      [] E.op = "aall"   -> Str(All(s), old[E.t])
      [] E.op \in {"bool", "int", "flt"} ->
            LET r == Word(s) IN old' = old /\
            IF r.xs # {} THEN E.x \in r.xs /\ s' = s
            ELSE /\ s' = r.s
                 /\ ValueOk(r.out)
      [] OTHER -> FALSE
Encoding == {"invalid_unicode_encoding", "read_past_end"}
Seen == /\ E.same
        /\ E.gform = s'.form /\ E.gendian = s'.endian
        /\ (E.x \notin Encoding \/ (E.op = "cp" /\ Ended(s)) => E.pos = s'.pos /\ E.end = Ended(s'))
        \* nothing follows an error inside the text
        /\ (E.x \in Encoding /\ ~Ended(s) => l = Len(Trace[ex].ev))
Consume == l <= Len(Trace[ex].ev) /\ Step /\ Seen /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
