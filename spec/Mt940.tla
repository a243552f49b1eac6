-------------------------------- MODULE Mt940 --------------------------------
(* Account statements (S.W.I.F.T. MT940 as HBCI banks send them): how a statement is written, what it means, and a reader
   of the bytes that knows nothing of how they were written. Text is a sequence of byte codes. *)
EXTENDS Chars, Integers, FiniteSets, SequencesExt

CR == 13
LF == 10
CRLF == <<13, 10>>
DASH == 45
COLON == 58
QM == 63

-----------------------------------------------------------------------------
(* calendar *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysIn(y, m) == IF m = 2 /\ Leap(y) THEN 29 ELSE MonthDays[m]
IsDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
DayNo(y, m, d) == LET a == (14 - m) \div 12
                      yy == y + 4800 - a
                      mm == m + 12 * a - 3
                  IN d + ((153 * mm + 2) \div 5) + 365 * yy + (yy \div 4) - (yy \div 100) + (yy \div 400) - 32045
Abs(n) == IF n < 0 THEN -n ELSE n
(* month and day m, d are the day closest to the value date v; there may be two of them *)
Closest(v, m, d) == LET years == {y \in (v[1] - 8)..(v[1] + 8) : IsDate(y, m, d)}
                        dist(y) == Abs(DayNo(y, m, d) - DayNo(v[1], v[2], v[3]))
                    IN {<<y, m, d>> : y \in {z \in years : \A w \in years : dist(z) <= dist(w)}}

-----------------------------------------------------------------------------
(* amounts: digits, a comma, digits *)
IsAmount(q) == /\ Len(q) >= 2 /\ Cardinality({i \in 1..Len(q) : q[i] = 44}) = 1
               /\ \A i \in 1..Len(q) : IsDigit(q[i]) \/ (q[i] = 44 /\ i > 1)
Comma(q) == CHOOSE i \in 1..Len(q) : q[i] = 44
(* the number as decimal digits without superfluous zeros *)
Canon(q) == LET i == Comma(q)
                int == DropLeading(SubSeq(q, 1, i - 1), 48)
                frac == DropTrailing(From(q, i + 1), 48)
            IN (IF int = <<>> THEN <<48>> ELSE int) \o (IF frac = <<>> THEN <<>> ELSE <<46>> \o frac)
Signed(neg, q) == IF neg /\ Canon(q) # <<48>> THEN <<DASH>> \o Canon(q) ELSE Canon(q)
Marks == {Codes("C"), Codes("D"), Codes("RC"), Codes("RD")}
(* a reversed credit is a debit *)
Negative(mark) == mark \in {Codes("D"), Codes("RC")}

-----------------------------------------------------------------------------
(* details *)
FieldKeys == {0, 10} \cup 20..34 \cup 60..63
PurposeKeys == 20..29
Purpose2Keys == 60..63

RECURSIVE JoinBlank(_)
JoinBlank(qs) == IF qs = <<>> THEN <<>> ELSE IF Len(qs) = 1 THEN qs[1] ELSE qs[1] \o <<32>> \o JoinBlank(Tail(qs))
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Ascending(S \ {x})
(* fs: sequence of [k, v], every k at most once *)
KeysOf(fs) == {fs[i].k : i \in 1..Len(fs)}
ValOf(fs, k) == IF k \in KeysOf(fs) THEN (fs[CHOOSE i \in 1..Len(fs) : fs[i].k = k]).v ELSE <<>>
Lines(fs, ks) == LET a == Ascending(KeysOf(fs) \cap ks) IN <<>> \o [i \in 1..Len(a) |-> ValOf(fs, a[i])]
(* two lines of the name are joined by a blank *)
NameOf(fs) == IF 33 \notin KeysOf(fs) THEN {ValOf(fs, 32)}
              ELSE IF 32 \notin KeysOf(fs) THEN {ValOf(fs, 33), <<32>> \o ValOf(fs, 33)}
              ELSE {ValOf(fs, 32) \o <<32>> \o ValOf(fs, 33)}
DetailMeaning(code, fs) ==
  [code |-> Num(code), text |-> ValOf(fs, 0), prima |-> ValOf(fs, 10), purpose |-> Lines(fs, PurposeKeys), pbank |-> ValOf(fs, 30), pacct |-> ValOf(fs, 31),
   name |-> NameOf(fs), keyadd |-> IF 34 \in KeysOf(fs) THEN Num(ValOf(fs, 34)) ELSE 0, purpose2 |-> Lines(fs, Purpose2Keys)]
NoDetail == [code |-> 0, text |-> <<>>, prima |-> <<>>, purpose |-> <<>>, pbank |-> <<>>, pacct |-> <<>>, name |-> {<<>>}, keyadd |-> 0, purpose2 |-> <<>>]

-----------------------------------------------------------------------------
(* Writing. A statement is
     [job, ref, bank, acct, num, open, txs, close, cur, info]  ref, cur, info: sequences of at most one
   a balance [mark, date, ccy, amt], a transaction [val, book, mark, kind, amt, key, ref, sup, det], details [code, fs, brk]. *)
Two(n) == DecW(n, 2)
WDate(d) == Two(d[1] % 100) \o Two(d[2]) \o Two(d[3])
WBal(b) == b.mark \o WDate(b.date) \o b.ccy \o b.amt
WTag(id, v) == CRLF \o <<COLON>> \o Codes(id) \o <<COLON>> \o v
WField(f) == <<QM>> \o Two(f.k) \o f.v
(* line breaks before the given positions *)
WDet(d) == LET q == d.code \o Concat(<<>> \o [i \in 1..Len(d.fs) |-> WField(d.fs[i])])
           IN Concat(<<>> \o [i \in 1..Len(q) |-> IF i \in d.brk THEN CRLF \o <<q[i]>> ELSE <<q[i]>>])
WTx(t) == WTag("61", WDate(t.val) \o (IF t.book = <<>> THEN <<>> ELSE Two(t.book[1]) \o Two(t.book[2])) \o t.mark \o t.kind \o t.amt \o Codes("N") \o t.key \o t.ref \o t.sup)
          \o (IF t.det = <<>> THEN <<>> ELSE WTag("86", WDet(t.det[1])))
WStmt(s) == WTag("20", s.job) \o (IF s.ref = <<>> THEN <<>> ELSE WTag("21", s.ref[1])) \o WTag("25", s.bank \o <<47>> \o s.acct) \o WTag("28C", s.num)
            \o WTag(IF s.mid THEN "60M" ELSE "60F", WBal(s.open)) \o Concat(<<>> \o [i \in 1..Len(s.txs) |-> WTx(s.txs[i])]) \o WTag(IF s.mid THEN "62M" ELSE "62F", WBal(s.close))
            \o (IF s.cur = <<>> THEN <<>> ELSE WTag("64", WBal(s.cur[1])) \o WTag("65", WBal(s.cur[1])))
            \o (IF s.info = <<>> THEN <<>> ELSE WTag("86", WDet(s.info[1]))) \o CRLF \o <<DASH>>
Write(ss) == Concat(<<>> \o [i \in 1..Len(ss) |-> WStmt(ss[i])])

BalMeaning(b) == [amt |-> Signed(b.mark = Codes("D"), b.amt), ccy |-> b.ccy, date |-> b.date]
TxMeaning(s, t) == [bank |-> s.bank, acct |-> s.acct, amt |-> Signed(Negative(t.mark), t.amt), ccy |-> s.open.ccy, val |-> t.val,
                    book |-> IF t.book = <<>> THEN {} ELSE Closest(t.val, t.book[1], t.book[2]),
                    before |-> BalMeaning(s.open), after |-> BalMeaning(s.close), det |-> IF t.det = <<>> THEN NoDetail ELSE DetailMeaning(t.det[1].code, t.det[1].fs)]
Meaning(ss) == Concat(<<>> \o [i \in 1..Len(ss) |-> <<>> \o [j \in 1..Len(ss[i].txs) |-> TxMeaning(ss[i], ss[i].txs[j])]])

-----------------------------------------------------------------------------
(* Reading *)
At(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE 0
(* a line break begins a new tag or ends the statement, or it is part of a text *)
Ends(t, i) == At(t, i + 2) = DASH /\ (i + 2 = Len(t) \/ (At(t, i + 3) = CR /\ At(t, i + 4) = LF))
Begins(t, i) == At(t, i + 2) = COLON /\ IsDigit(At(t, i + 3))
Boundary(t, i) == t[i] = CR /\ At(t, i + 1) = LF /\ (Ends(t, i) \/ Begins(t, i))
Boundaries(t) == LET b == [i \in 1..Len(t) |-> i] IN SelectSeq(b, LAMBDA i : Boundary(t, i))
Pieces(t) == LET b == Boundaries(t) IN <<>> \o [k \in 1..Len(b) |-> SubSeq(t, b[k] + 2, IF k = Len(b) THEN Len(t) ELSE b[k + 1] - 1)]
NoBreak(q) == \A i \in 1..Len(q) : q[i] # CR /\ q[i] # LF
Index(q, c) == IF \E i \in 1..Len(q) : q[i] = c THEN CHOOSE i \in 1..Len(q) : q[i] = c /\ \A j \in 1..(i - 1) : q[j] # c ELSE 0
TagOf(p) == IF p = <<DASH>> THEN [id |-> <<DASH>>, v |-> <<>>]
            ELSE LET i == Index(Tail(p), COLON) IN IF i = 0 THEN [id |-> <<>>, v |-> p] ELSE [id |-> SubSeq(p, 2, i), v |-> From(p, i + 2)]

Broken == [ok |-> FALSE, es |-> <<>>]
Digits(q) == q # <<>> /\ AllOf(q, IsDigit)
RDate(q) == <<2000 + Num(SubSeq(q, 1, 2)), Num(SubSeq(q, 3, 4)), Num(SubSeq(q, 5, 6))>>
GoodDate(q) == Len(q) = 6 /\ Digits(q) /\ LET d == RDate(q) IN IsDate(d[1], d[2], d[3])
GoodBal(v) == NoBreak(v) /\ Len(v) >= 12 /\ SubSeq(v, 1, 1) \in {Codes("C"), Codes("D")} /\ GoodDate(SubSeq(v, 2, 7)) /\ AllOf(SubSeq(v, 8, 10), IsUpper) /\ IsAmount(From(v, 11)) /\ Len(v) <= 26
RBal(v) == [amt |-> Signed(v[1] = 68, From(v, 11)), ccy |-> SubSeq(v, 8, 10), date |-> RDate(SubSeq(v, 2, 7))]

(* :61: *)
RTx(v) ==
  LET hasBook == IsDigit(At(v, 7))
      k == IF hasBook THEN 11 ELSE 7
      bd == IF hasBook THEN SubSeq(v, 7, 10) ELSE <<>>
      markLen == IF At(v, k) = 82 THEN 2 ELSE 1
      mark == SubSeq(v, k, k + markLen - 1)
      hasKind == IsUpper(At(v, k + markLen))
      a == k + markLen + (IF hasKind THEN 1 ELSE 0)
      n == Index(From(v, a), 78)
      amt == SubSeq(v, a, a + n - 2)
  IN IF Len(v) >= 15 /\ GoodDate(SubSeq(v, 1, 6)) /\ (~hasBook \/ Digits(bd)) /\ mark \in Marks /\ n > 2 /\ Len(amt) <= 15 /\ IsAmount(amt) /\ Len(v) >= a + n + 2
        /\ AllOf(SubSeq(v, a + n, a + n + 2), IsAlnum)
        /\ (~hasBook \/ (Num(SubSeq(bd, 1, 2)) \in 1..12 /\ Num(SubSeq(bd, 3, 4)) \in 1..31
                         /\ \E y \in {RDate(v)[1] - 1, RDate(v)[1], RDate(v)[1] + 1} : IsDate(y, Num(SubSeq(bd, 1, 2)), Num(SubSeq(bd, 3, 4)))))
     THEN [ok |-> TRUE, amt |-> Signed(Negative(mark), amt), val |-> RDate(v), book |-> IF hasBook THEN Closest(RDate(v), Num(SubSeq(bd, 1, 2)), Num(SubSeq(bd, 3, 4))) ELSE {}]
     ELSE [ok |-> FALSE]

(* :86: the text without line breaks, cut at every key *)
KeyAt(q, i) == At(q, i) = QM /\ IsDigit(At(q, i + 1)) /\ IsDigit(At(q, i + 2))
RDet(v) ==
  LET q == SelectSeq(v, LAMBDA c : c # CR /\ c # LF)
      b == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : KeyAt(q, i))
      fs == <<>> \o [j \in 1..Len(b) |-> [k |-> Num(SubSeq(q, b[j] + 1, b[j] + 2)), v |-> SubSeq(q, b[j] + 3, IF j = Len(b) THEN Len(q) ELSE b[j + 1] - 1)]]
      breaks == \A i \in 1..Len(v) : (v[i] = CR => At(v, i + 1) = LF) /\ (v[i] = LF => At(v, i - 1) = CR)
  IN IF Len(v) >= 3 /\ Digits(SubSeq(v, 1, 3)) /\ breaks /\ KeysOf(fs) \subseteq FieldKeys /\ Cardinality(KeysOf(fs)) = Len(fs)
        /\ (Len(q) = 3 \/ (b # <<>> /\ b[1] = 4))
        /\ (34 \in KeysOf(fs) => Digits(ValOf(fs, 34)) /\ Len(ValOf(fs, 34)) <= 3)
     THEN [ok |-> TRUE, d |-> DetailMeaning(SubSeq(v, 1, 3), fs)] ELSE [ok |-> FALSE]

(* one statement after the other; `at' is where in the statement we are *)
Fresh == [at |-> 0, bank |-> <<>>, acct |-> <<>>, open |-> <<>>, txs |-> <<>>, des |-> FALSE]
RECURSIVE Scan(_, _, _, _)
Scan(ps, i, s, es) ==
  IF i > Len(ps) THEN (IF s.at = 0 THEN [ok |-> TRUE, es |-> es] ELSE Broken)
  ELSE
  LET g == TagOf(ps[i])
      v == g.v
      go(t) == Scan(ps, i + 1, t, es)
      is(id) == g.id = Codes(id)
  IN CASE is("20") /\ s.at = 0 /\ NoBreak(v) -> go([s EXCEPT !.at = 1])
       [] is("21") /\ s.at = 1 /\ NoBreak(v) -> go([s EXCEPT !.at = 2])
       [] is("25") /\ s.at \in {1, 2} /\ NoBreak(v) /\ Cardinality({j \in 1..Len(v) : v[j] = 47}) = 1 /\ AllOf(v, LAMBDA c : IsAlnum(c) \/ c = 47)
            -> LET j == Index(v, 47) IN go([s EXCEPT !.at = 3, !.bank = SubSeq(v, 1, j - 1), !.acct = From(v, j + 1)])
       [] is("28C") /\ s.at = 3 /\ NoBreak(v) /\ LET j == Index(v, 47) IN (IF j = 0 THEN Digits(v) /\ Len(v) <= 5 ELSE Digits(SubSeq(v, 1, j - 1)) /\ Digits(From(v, j + 1)) /\ Len(v) <= 11)
            -> go([s EXCEPT !.at = 4])
       [] (is("60F") \/ is("60M")) /\ s.at = 4 /\ GoodBal(v) -> go([s EXCEPT !.at = 5, !.open = <<RBal(v)>>])
       [] is("61") /\ s.at = 5 /\ RTx(v).ok -> go([s EXCEPT !.txs = Append(@, RTx(v) @@ [det |-> NoDetail]), !.des = FALSE])
       [] is("86") /\ s.at = 5 /\ s.txs # <<>> /\ ~s.des /\ RDet(v).ok -> go([s EXCEPT !.txs[Len(s.txs)].det = RDet(v).d, !.des = TRUE])
       [] (is("62F") \/ is("62M")) /\ s.at = 5 /\ GoodBal(v)
            -> Scan(ps, i + 1, [s EXCEPT !.at = 6],
                    es \o [j \in 1..Len(s.txs) |-> [bank |-> s.bank, acct |-> s.acct, amt |-> s.txs[j].amt, ccy |-> s.open[1].ccy, val |-> s.txs[j].val, book |-> s.txs[j].book,
                                                    before |-> s.open[1], after |-> RBal(v), det |-> s.txs[j].det]])
       [] is("64") /\ s.at = 6 /\ GoodBal(v) -> go([s EXCEPT !.at = 7])
       [] is("65") /\ s.at \in {6, 7} /\ GoodBal(v) -> go([s EXCEPT !.at = 7])
       [] is("86") /\ s.at \in {6, 7} /\ RDet(v).ok -> go([s EXCEPT !.at = 8])
       [] is("-") /\ s.at \in 6..8 -> go(Fresh)
       [] OTHER -> Broken

Read(t) == IF t = <<>> THEN [ok |-> TRUE, es |-> <<>>]
           ELSE IF Len(t) < 3 \/ ~Boundary(t, 1) \/ \E i \in 1..(Len(t) - 3) : SubSeq(t, i, i + 3) = CRLF \o <<DASH, COLON>> THEN Broken
           ELSE Scan(Pieces(t), 1, Fresh, <<>>)
=============================================================================
