---------------------------- MODULE TextOutTrace ----------------------------
(* Recorded text output: what was written so far must be the bytes of the      *)
(* texts, in the encoding form and byte order of the time.                     *)
EXTENDS Streams, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ex, l, form, endian, bytes
vars == <<ex, l, form, endian, bytes>>
E == Trace[ex].ev[l]
TraceInit == ex \in 1..Len(Trace) /\ l = 1 /\ form = Trace[ex].form /\ endian = Trace[ex].endian /\ bytes = <<>>
Keep == UNCHANGED <<form, endian>>
Put(cps) == bytes' = bytes \o TextBytes(form, endian, cps)
\* the text that stands after what was there before
Added == LET n == Len(bytes) IN
         IF Len(E.disk) < n \/ SubSeq(E.disk, 1, n) # bytes THEN <<-1>>
         ELSE LET r == All([bytes |-> SubSeq(E.disk, n + 1, Len(E.disk)), pos |-> 0, form |-> form, endian |-> endian])
              IN IF r.xs = {} THEN r.out ELSE <<-1>>
Step ==
    CASE E.op = "form"   -> form' = E.form /\ UNCHANGED <<endian, bytes>> /\ E.x = ""
      [] E.op = "endian" -> endian' = E.endian /\ UNCHANGED <<form, bytes>> /\ E.x = ""
      [] E.op = "raw"    -> bytes' = bytes \o E.v /\ E.n = Len(E.v) /\ Keep /\ E.x = ""
      [] E.op = "bom"    -> Put(<<65279>>) /\ Keep /\ E.x = ""
      [] E.op = "cp"     -> /\ Keep
                            /\ IF IsScalar(E.c) THEN E.x = "" /\ Put(<<E.c>>) ELSE E.x = "invalid_code_point" /\ bytes' = bytes
      [] E.op = "text"   -> LET d == Dec(E.src, E.in) IN d.ok /\ E.x = "" /\ Put(d.cps) /\ Keep
      [] E.op = "bool"   -> Put(IF E.v THEN <<49>> ELSE <<48>>) /\ Keep /\ E.x = ""
      [] E.op = "int"    -> Keep /\ E.x = "" /\ bytes' = E.disk /\ FormatIntegerOk(DefaultInt, E.neg, E.mag, Added)
      [] E.op = "flt"    -> Keep /\ E.x = "" /\ bytes' = E.disk /\ FormatFloatOk(DefaultFlt, E.neg, E.int, E.num, E.k, Added)
      [] E.op \in {"flush", "copy"} -> UNCHANGED <<form, endian, bytes>> /\ E.x = ""
      [] E.op = "end"    -> UNCHANGED <<form, endian, bytes>>
      [] OTHER -> FALSE
Seen == /\ E.same
        /\ (E.q = 1 => E.disk = bytes')
        /\ E.gform = form' /\ E.gendian = endian'
Consume == l <= Len(Trace[ex].ev) /\ Step /\ Seen /\ l' = l + 1 /\ ex' = ex
Finished == l = Len(Trace[ex].ev) + 1 /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
