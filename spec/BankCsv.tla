-------------------------------- MODULE BankCsv --------------------------------
(* The bank directory as it is published: a table with a header, fields separated by semicolons, quoted where necessary. *)
EXTENDS Chars, FiniteSets, Integers, SequencesExt

SEMI == 59
DQ == 34
NL == 10
CR == 13
Space == {9, 10, 11, 12, 13, 32, 133, 160}

(* the columns that matter: field of the entry -> header *)
Umlaut == [blz |-> Codes("BLZ"), bic |-> Codes("BIC"), inst |-> Codes("Institut"), num |-> Codes("HBCI-Version"), url |-> Codes("PIN/TAN-Zugang URL"), name |-> Codes("Version"),
           city |-> Codes("Ort"), changed |-> Codes("Datum letzte ") \o <<196>> \o Codes("nderung"), bankl |-> Codes("Bank-leitzahl"), other |-> Codes("Nr."), more |-> Codes("RZ"), none |-> <<>>]
Infos == <<"blz", "bic", "inst", "num", "url", "name", "city", "changed">>

RECURSIVE TrimL(_)
TrimL(q) == IF q # <<>> /\ q[1] \in Space THEN TrimL(Tail(q)) ELSE q
RECURSIVE TrimR(_)
TrimR(q) == IF q # <<>> /\ q[Len(q)] \in Space THEN TrimR(SubSeq(q, 1, Len(q) - 1)) ELSE q
TrimS(q) == TrimL(TrimR(q))

(* reading a table: mode start (of a field), plain, quoted, quote (seen in a quoted field), dead *)
RECURSIVE Double(_)
Double(q) == IF q = <<>> THEN <<>> ELSE (IF q[1] = DQ THEN <<DQ, DQ>> ELSE <<q[1]>>) \o Double(Tail(q))
(* a carriage return before the end of the line belongs to it *)
RECURSIVE Unix(_)
Unix(q) == IF q = <<>> THEN <<>> ELSE IF q[1] = CR /\ Len(q) > 1 /\ q[2] = NL THEN <<NL>> \o Unix(From(q, 3)) ELSE IF q = <<CR>> THEN <<>> ELSE <<q[1]>> \o Unix(Tail(q))
S0 == [mode |-> "line", cell |-> <<>>, row |-> <<>>, rows |-> <<>>]
EndCell(s) == [s EXCEPT !.row = Append(@, s.cell), !.cell = <<>>, !.mode = "start"]
EndRow(s) == LET t == EndCell(s) IN [t EXCEPT !.rows = Append(@, t.row), !.row = <<>>, !.mode = "line"]
Step(s, c) ==
  CASE s.mode = "dead" -> s
    [] s.mode = "line" /\ c = NL -> s
    [] s.mode \in {"quoted"} -> IF c = DQ THEN [s EXCEPT !.mode = "quote"] ELSE [s EXCEPT !.cell = Append(@, c)]
    [] s.mode = "quote" /\ c = DQ -> [s EXCEPT !.mode = "quoted", !.cell = Append(@, DQ)]
    [] c = SEMI -> EndCell(s)
    [] c = NL -> EndRow(s)
    [] s.mode = "quote" -> [s EXCEPT !.mode = "dead"]
    [] s.mode \in {"line", "start"} /\ c \in Space -> [s EXCEPT !.mode = "start"]
    [] s.mode \in {"line", "start"} /\ c = DQ -> [s EXCEPT !.mode = "quoted"]
    [] c = DQ -> [s EXCEPT !.mode = "dead"]
    [] OTHER -> [s EXCEPT !.mode = "plain", !.cell = Append(@, c)]
Table(text) == LET s == FoldLeft(Step, S0, Unix(text))
               IN IF s.mode \in {"dead", "quoted"} THEN [ok |-> FALSE, rows |-> <<>>]
                  ELSE [ok |-> TRUE, rows |-> IF s.mode = "line" THEN s.rows ELSE EndRow(s).rows]

(* what the table says: one entry per row with a bank number, in the order of the rows *)
Column(h, name) == LET k == {i \in 1..Len(h) : h[i] = Umlaut[name]} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : j <= i
Cell(h, r, name) == LET k == Column(h, name) IN IF k = 0 \/ k > Len(r) THEN <<>> ELSE TrimS(r[k])
Entries(rows, fields) == IF rows = <<>> THEN <<>> ELSE
  LET h == rows[1] all == [i \in 1..(Len(rows) - 1) |-> [j \in 1..Len(fields) |-> Cell(h, rows[i + 1], fields[j])]]
  IN SelectSeq(<<>> \o all, LAMBDA e : e[1] # <<>>)
=============================================================================
