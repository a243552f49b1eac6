-------------------------------- MODULE Times --------------------------------
(* Dates and time frames as texts: JSON, plain text, URL queries. A date is [y, m, d]; the zero date is the first day of the year 1. *)
EXTENDS Chars

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
D(y, m, d) == [y |-> y, m |-> m, d |-> d]
Zero == D(1, 1, 1)
Real(x) == x.m \in 1..12 /\ x.y <= 9999 /\ x.d >= 1 /\ (IF x.m \in 1..12 THEN x.d <= Days(x.y, x.m) ELSE FALSE)
DASH == 45
COMMA == 44
Q == 34
Iso(x) == DecW(x.y, 4) \o <<DASH>> \o DecW(x.m, 2) \o <<DASH>> \o DecW(x.d, 2)
Compact(x) == DecW(x.y, 4) \o DecW(x.m, 2) \o DecW(x.d, 2)
Quoted(q) == <<Q>> \o q \o <<Q>>

(* writing; w: the form *)
WriteDate(w, x) == IF w = "json" THEN (IF x = Zero THEN Quoted(<<>>) ELSE Quoted(Iso(x))) ELSE Iso(x)
(* the parameters from and to of a query *)
WriteQuery(a, b) == <<Compact(a), Compact(b)>>
WriteFrame(a, b) == IF a = Zero \/ b = Zero THEN Quoted(<<>>) ELSE Quoted(Iso(a) \o <<COMMA>> \o Iso(b))

(* reading *)
Fail == [ok |-> FALSE, a |-> Zero, b |-> Zero]
Digits(q) == q # <<>> /\ \A i \in 1..Len(q) : IsDigit(q[i])
Check(x) == IF Real(x) THEN [ok |-> TRUE, a |-> x, b |-> Zero] ELSE Fail
FromCompact(q) == IF Len(q) = 8 /\ Digits(q) THEN Check(D(Num(SubSeq(q, 1, 4)), Num(SubSeq(q, 5, 6)), Num(SubSeq(q, 7, 8)))) ELSE Fail
FromIso(q) == IF Len(q) # 10 THEN Fail ELSE IF q[5] = DASH /\ q[8] = DASH THEN FromCompact(SubSeq(q, 1, 4) \o SubSeq(q, 6, 7) \o SubSeq(q, 9, 10)) ELSE Fail
Unquoted(q) == IF Len(q) >= 2 /\ q[1] = Q /\ q[Len(q)] = Q THEN SubSeq(q, 2, Len(q) - 1) ELSE <<0>>
ReadDate(w, q) == IF w = "json" THEN (IF q = Quoted(<<>>) THEN [ok |-> TRUE, a |-> Zero, b |-> Zero] ELSE FromIso(Unquoted(q))) ELSE FromIso(q)
Both(p, r) == IF p.ok /\ r.ok THEN [ok |-> TRUE, a |-> p.a, b |-> r.a] ELSE Fail
ReadQuery(f, t) == Both(FromCompact(f), FromCompact(t))
ReadFrame(q) == IF q = Quoted(<<>>) THEN [ok |-> TRUE, a |-> Zero, b |-> Zero]
                ELSE LET u == Unquoted(q) IN IF Len(u) # 21 THEN Fail ELSE IF u[11] # COMMA THEN Fail ELSE Both(FromIso(SubSeq(u, 1, 10)), FromIso(SubSeq(u, 12, 21)))
=============================================================================
