-------------------------------- MODULE Wire --------------------------------
(* The HBCI wire syntax: segments, data elements and group elements out of bytes.
   A message is a sequence of segments, a segment a sequence of elements, an element a sequence of group elements,
   a group element a record [bin |-> is it binary, v |-> its bytes]. *)
EXTENDS Chars, SequencesExt

PLUS == 43
COLON == 58
QUOTE == 39
ESC == 63
AT == 64
Reserved == {PLUS, COLON, QUOTE, ESC, AT}
(* long runs: the code 1000 + n stands for n >= 1000 times the letter x *)
Width(c) == IF c > 1000 THEN c - 1000 ELSE 1
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE Width(Head(q)) + Size(Tail(q))

-----------------------------------------------------------------------------
(* writing *)
RECURSIVE Escape(_)
Escape(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q) \in Reserved THEN <<ESC, Head(q)>> ELSE <<Head(q)>>) \o Escape(Tail(q))
WriteGde(g) == IF g.bin THEN <<AT>> \o Dec(Size(g.v)) \o <<AT>> \o g.v ELSE Escape(g.v)
RECURSIVE Join(_, _)
Join(qs, c) == IF Len(qs) = 0 THEN <<>> ELSE IF Len(qs) = 1 THEN qs[1] ELSE qs[1] \o <<c>> \o Join(Tail(qs), c)
WriteEl(e) == Join([i \in 1..Len(e) |-> WriteGde(e[i])], COLON)
WriteSeg(s) == Join([i \in 1..Len(s) |-> WriteEl(s[i])], PLUS) \o <<QUOTE>>
WriteMsg(m) == Concat([i \in 1..Len(m) |-> WriteSeg(m[i])])

-----------------------------------------------------------------------------
(* reading: one byte at a time. mode: start of a group element, text, escaped character, length of binary data, binary data, dead *)
R0 == [mode |-> "start", n |-> 0, gde |-> <<>>, el |-> <<>>, seg |-> <<>>, gdes |-> <<>>, els |-> <<>>, segs |-> <<>>]
CloseGde(r) == [r EXCEPT !.gdes = Append(@, r.gde), !.gde = <<>>, !.mode = "start"]
CloseEl(r) == LET s == CloseGde(r) IN [s EXCEPT !.els = Append(@, [raw |-> r.el, gdes |-> s.gdes]), !.gdes = <<>>, !.el = <<>>]
CloseSeg(r) == LET s == CloseEl(r) IN [s EXCEPT !.segs = Append(@, [raw |-> Append(r.seg, QUOTE), els |-> s.els]), !.els = <<>>, !.seg = <<>>]
Take(r, c, mode) == [r EXCEPT !.gde = Append(@, c), !.el = Append(@, c), !.seg = Append(@, c), !.mode = mode]
Delim(r, c) == CASE c = COLON -> LET s == CloseGde(r) IN [s EXCEPT !.el = Append(@, c), !.seg = Append(@, c)]
                 [] c = PLUS -> LET s == CloseEl(r) IN [s EXCEPT !.seg = Append(@, c)]
                 [] c = QUOTE -> CloseSeg(r)
RStep(r, c) ==
  CASE r.mode = "dead" -> r
    [] r.mode = "esc" -> IF c \in Reserved THEN Take(r, c, "text") ELSE [r EXCEPT !.mode = "dead"]
    [] r.mode = "bin" -> LET s == Take(r, c, "bin") IN IF r.n = Width(c) THEN [s EXCEPT !.n = 0, !.mode = "after"] ELSE IF r.n < Width(c) THEN [s EXCEPT !.mode = "dead"] ELSE [s EXCEPT !.n = @ - Width(c)]
    [] r.mode \in {"len", "len0"} ->
         IF IsDigit(c) THEN [Take(r, c, "len") EXCEPT !.n = @ * 10 + c - 48]
         ELSE IF c = AT /\ r.mode = "len" THEN Take(r, c, IF r.n = 0 THEN "after" ELSE "bin") ELSE [r EXCEPT !.mode = "dead"]
    [] c \in {COLON, PLUS, QUOTE} -> Delim(r, c)
    [] r.mode = "after" -> [r EXCEPT !.mode = "dead"]
    [] r.mode = "start" /\ c = AT -> [Take(r, c, "len0") EXCEPT !.n = 0]
    [] c = ESC -> Take(r, c, "esc")
    [] OTHER -> Take(r, c, "text")
Read(q) == FoldLeft(RStep, R0, q)
(* a complete message ends with the end of a segment *)
WellFormed(r) == r.mode = "start" /\ r.seg = <<>> /\ r.gde = <<>> /\ r.gdes = <<>>

(* the value of a raw group element *)
RECURSIVE Unescape(_)
Unescape(q) == IF q = <<>> THEN <<>> ELSE IF Head(q) = ESC /\ Len(q) > 1 THEN <<q[2]>> \o Unescape(From(q, 3)) ELSE <<Head(q)>> \o Unescape(Tail(q))
ValueOf(raw) ==
  IF raw # <<>> /\ raw[1] = AT
  THEN LET k == CHOOSE j \in 2..Len(raw) : raw[j] = AT /\ \A i \in 2..(j - 1) : raw[i] # AT IN [bin |-> TRUE, v |-> From(raw, k + 1)]
  ELSE [bin |-> FALSE, v |-> Unescape(raw)]
Values(r) == [i \in 1..Len(r.segs) |-> [j \in 1..Len(r.segs[i].els) |-> [k \in 1..Len(r.segs[i].els[j].gdes) |-> ValueOf(r.segs[i].els[j].gdes[k])]]]

(* trailing empty parts carry no meaning *)
RECURSIVE Trim(_)
Trim(qs) == IF qs # <<>> /\ qs[Len(qs)] = <<>> THEN Trim(SubSeq(qs, 1, Len(qs) - 1)) ELSE qs

(* the identifier of a segment: its first group element *)
IdOf(s) == s.els[1].gdes[1]

(* a decimal with a superfluous leading zero is not allowed as a number, and the library rejects it; texts of that shape are left out *)
BadFloat(raw) == Len(raw) > 2 /\ raw[1] = 48 /\ IsDigit(raw[2]) /\ \E k \in 3..Len(raw) : raw[k] = 44 /\ \A i \in 1..Len(raw) : i = k \/ IsDigit(raw[i])
=============================================================================
