------------------------------- MODULE CliTrace -------------------------------
(***************************************************************************)
(* One call of the command line client: what it sent is judged by the      *)
(* monitor of HbciMonitor, as if the library had been called; what it      *)
(* printed, its exit code and what it left in the home directory here.     *)
(***************************************************************************)
EXTENDS HbciMonitor, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, m
vars == <<ti, l, m>>
T == Traces[ti]

RECURSIVE Squeeze(_)
Squeeze(s) == IF s = "" THEN "" ELSE (IF SubSeq(s, 1, 1) = " " THEN "" ELSE SubSeq(s, 1, 1)) \o Squeeze(SubSeq(s, 2, Len(s)))
Contains(s, x) == \E i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x
\* all parts occur one after the other; an amount without a sign is printed without one
RECURSIVE InOrder(_, _)
InOrder(s, xs) ==
  IF xs = <<>> THEN TRUE
  ELSE LET x == xs[1].t
           I == {i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x /\ ~(xs[1].plus /\ i > 0 /\ SubSeq(s, i, i) = "-")} IN
       IF I = {} THEN FALSE
       ELSE LET i == CHOOSE j \in I : \A k \in I : j <= k IN InOrder(SubSeq(s, i + Len(x) + 1, Len(s)), Tail(xs))
Zeros(n) == IF n = 0 THEN "" ELSE IF n = 1 THEN "0" ELSE "00"
Fmt2(v) == LET P == {i \in 1..Len(v) : SubSeq(v, i, i) = "."} IN
           IF P = {} THEN v \o ".00" ELSE LET d == Len(v) - (CHOOSE i \in P : TRUE) IN v \o Zeros(2 - d)
Money(a) == (IF a.cd = "D" /\ a.val # "0" THEN "-" ELSE "") \o Fmt2(a.val) \o a.cur
Txt(x) == [t |-> Squeeze(x), plus |-> FALSE]
Amt(a) == [t |-> Squeeze(Money(a)), plus |-> ~(a.cd = "D" /\ a.val # "0")]
Iso(d) == SubSeq(d, 1, 4) \o "-" \o SubSeq(d, 5, 6) \o "-" \o SubSeq(d, 7, 8)

AcctRow(a) == <<Txt(a.bank), Txt(a.id), Txt(a.user), Txt(a.cur), Txt(a.n1), Txt(a.n2), Txt(a.prod)>>
              \o (IF a.limit = <<>> THEN <<>> ELSE <<Txt(a.limit[1].kind), Txt(Fmt2(a.limit[1].amt) \o a.limit[1].cur)>>)
BalRow(b, sepa) == <<Txt(b.prod)>> \o (IF sepa THEN <<Txt(b.bic), Txt(b.iban)>> ELSE <<Txt(b.bank), Txt(b.acct)>>) \o <<Txt(Iso(b.booked.date)), Amt(b.booked)>>
                   \o (IF b.earmark = <<>> \/ b.earmark[1].val = "0" THEN <<>> ELSE <<Amt(b.earmark[1])>>)
                   \o (IF b.credit = <<>> THEN <<>> ELSE <<Amt(b.credit[1])>>)
TxRow(x) == <<Txt("2015-01-01"), Txt("UEBERWEISUNG"), Amt([cd |-> "C", val |-> x, cur |-> "EUR"]), Txt("P" \o x)>>
WantRows(n) == CASE n.op = "accounts" -> [i \in 1..Len(n.accts) |-> AcctRow(n.accts[i])]
                 [] n.op = "bal" -> LET b == FlatSeq(n.bals) IN [i \in 1..Len(b) |-> BalRow(b[i], FALSE)]
                 [] n.op = "sepabal" -> LET b == FlatSeq(n.bals) IN [i \in 1..Len(b) |-> BalRow(b[i], TRUE)]
                 [] OTHER -> LET x == FlatSeq(n.pages) IN [i \in 1..Len(x) |-> TxRow(x[i])]
Row(r, xs) == InOrder(r, xs)
\* pages may come in any order, the entries of a page may not: the rows are those of the pages put one after the other in some order
RowsOK(n, rows) == LET w == WantRows(n) IN
  /\ Len(rows) = Len(w)
  /\ \/ \A i \in 1..Len(w) : Row(rows[i], w[i])
     \/ n.nbiz > 1 /\ (\A i \in 1..Len(w) : \E j \in 1..Len(rows) : Row(rows[j], w[i])) /\ (\A j \in 1..Len(rows) : \E i \in 1..Len(w) : Row(rows[j], w[i]))

C(ok, why) == IF ok THEN {} ELSE {[p |-> "C33", why |-> why]}
\* a BIC need not be sent with a query of transactions
Bics(op, b) == IF op = "sepatx" THEN {"", b} ELSE {b}
Seen == LET E == {i \in 1..Len(T.events) : T.events[i].ev = "send" /\ T.events[i].parse = "" /\ Len(T.events[i].biz) = 1} IN
        {T.events[i].biz[1].els[1][2] : i \in {j \in E : Len(T.events[j].biz[1].els) > 0 /\ Len(T.events[j].biz[1].els[1]) > 1}}
Call(e) == IF e.op \notin {"sepatx", "sepabal"} THEN e
           ELSE LET ok == Seen \cap Bics(e.op, T.want.bic) IN [e EXCEPT !.args.acct.bic = IF ok = {} THEN T.want.bic ELSE CHOOSE x \in ok : TRUE]

Local(e) ==
  CASE e.ev = "send" -> C(FALSE, "something is sent although the call cannot be carried out")
    [] e.ev = "ret" -> C(~e.ok, "success although the call cannot be carried out") \cup C(e.rows = <<>>, "entries printed although nothing was asked")
                       \cup C(e.panic = "" /\ ~e.timeout, "the program crashes or hangs") \cup C(e.leak = <<>>, "PIN printed or stored")
                       \cup C(e.same, "an existing configuration file is changed")
    [] OTHER -> {}
After(n, e) ==
  IF e.ev # "ret" THEN {}
  ELSE (IF e.ok /\ n.causes = {} THEN C(RowsOK(n, e.rows), "what is printed differs from what the bank sent") ELSE {})
       \cup C(e.ok \/ e.rows = <<>>, "entries printed although the call failed")
       \cup C(e.same, "an existing configuration file is changed")
       \cup C(e.ok \/ e.said, "a failing call says nothing")

TInit == ti \in 1..Len(Traces) /\ l = 1 /\ m = MInit(Traces[ti].cfg)
Consume == /\ l <= Len(T.events)
           /\ l' = l + 1
           /\ ti' = ti
           /\ LET e == T.events[l] IN
              IF T.want.local THEN m' = Add(m, Local(e))
              ELSE LET n == Step(m, IF e.ev = "call" THEN Call(e) ELSE e) IN m' = Add(n, After(n, e))
           /\ IF m'.bad # m.bad THEN PrintT("@@BAD " \o ToJson([id |-> T.id, at |-> l, bad |-> m'.bad \ m.bad])) ELSE TRUE
Finish == /\ l = Len(T.events) + 1
          /\ l' = l + 1
          /\ UNCHANGED <<ti, m>>
          /\ PrintT("@@END " \o ToString(ti))
TSpec == TInit /\ [][Consume \/ Finish]_vars
===============================================================================
