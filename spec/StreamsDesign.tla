--------------------------- MODULE StreamsDesign ---------------------------
(* Laws of Streams.tla over all short texts, and the generator of reading      *)
(* histories: a text is built piece by piece, then read by a chain of calls.   *)
EXTENDS Streams, TLC, Json, FiniteSets
CONSTANTS Pieces, MaxLen, MaxOps, Ops
VARIABLES txt, s, h, got
vars == <<txt, s, h, got>>
\* pieces of text by number
Piece(k) == CASE k = 1 -> <<97>> [] k = 2 -> <<98>> [] k = 3 -> <<32>> [] k = 4 -> <<10>> [] k = 5 -> <<13, 10>>
              [] k = 6 -> <<233>> [] k = 7 -> <<128512>> [] k = 8 -> <<9>> [] k = 9 -> <<160>> [] k = 10 -> <<8232>>
              [] k = 11 -> <<49>> [] k = 12 -> <<45>> [] k = 13 -> <<46>> [] k = 14 -> <<57>>
Src(form, endian, t) == [bytes |-> TextBytes(form, endian, t), pos |-> 0, form |-> form, endian |-> endian]
Init == txt = <<>> /\ s = Src("u8", "big", <<>>) /\ h = <<>> /\ got = <<>>
Grow == h = <<>> /\ Len(txt) < MaxLen /\ \E k \in Pieces : txt' = txt \o Piece(k) /\ s' = Src("u8", "big", txt') /\ UNCHANGED <<h, got>>
Do(op, r) == r.xs = {} /\ s' = r.s /\ h' = Append(h, op) /\ got' = Append(got, r.out) /\ txt' = txt
Read == Len(h) < MaxOps /\ \E op \in Ops :
          \/ op = "word" /\ Do(op, Word(s))
          \/ op = "line" /\ Do(op, Line(s))
          \/ op = "all"  /\ Do(op, All(s))
          \/ op = "cp"   /\ Do(op, Char(s))
Next == Grow \/ Read
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------------- laws
RECURSIVE Lines(_)
Lines(q) == IF Ended(q) THEN <<>> ELSE LET r == Line(q) IN <<r.out>> \o Lines(r.s)
RECURSIVE Words(_)
Words(q) == IF Ended(q) THEN <<>> ELSE LET r == Word(q) IN (IF r.out = <<>> THEN <<>> ELSE <<r.out>>) \o Words(r.s)
NoCRLF(t) == SelectSeq([i \in 1..Len(t) |-> IF t[i] = 13 /\ i < Len(t) /\ t[i + 1] = 10 THEN -1 ELSE t[i]], LAMBDA c : c # -1)
Laws == h = <<>> =>
    \A form \in {"u8", "u16", "u32"}, e \in {"big", "little"} :
       LET q == Src(form, e, txt)  all == All(q) IN
       \* everything read is the text itself, whatever the encoding
       /\ all.xs = {} /\ all.out = NoCRLF(txt) /\ Ended(all.s)
       \* lines hold no line feed and join to the text
       /\ LET ls == Lines(q) IN
          /\ \A i \in 1..Len(ls) : \A j \in 1..Len(ls[i]) : ls[i][j] # 10
          /\ LET joined == [i \in 1..Len(ls) |-> ls[i] \o (IF i < Len(ls) THEN <<10>> ELSE <<>>)]
                 flat == IF ls = <<>> THEN <<>> ELSE CHOOSE x \in {joined} : TRUE
             IN ls = <<>> \/ LET j == LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<>> ELSE F(k - 1) \o flat[k] IN F(Len(flat)) IN
                             j = all.out \/ j \o <<10>> = all.out
       \* words are the maximal runs of other characters
       /\ LET ws == Words(q) IN
          /\ \A i \in 1..Len(ws) : ws[i] # <<>> /\ \A j \in 1..Len(ws[i]) : ~IsWhitespace(ws[i][j])
          /\ LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<>> ELSE F(k - 1) \o ws[k] IN
             F(Len(ws)) = SelectSeq(all.out, LAMBDA c : ~IsWhitespace(c))
       \* a byte order mark is found whatever the byte order was set to
       /\ \A e2 \in {"big", "little"} :
             LET b == Bom([Src(form, e, <<65279>> \o txt) EXCEPT !.endian = e2]) IN
             (form # "u8" => b.out = <<65279>> /\ b.s.endian = e /\ All(b.s).out = NoCRLF(txt))
Emit == h # <<>> => PrintT("@" \o ToJson([txt |-> txt, ops |-> h]))
=============================================================================
