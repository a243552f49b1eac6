---------------------------- MODULE BankCsvDesign ----------------------------
(* A directory written row by row: columns in some order, cells of all sorts, quoted or not, rows too short or too long, empty lines. *)
EXTENDS BankCsv, Json

CONSTANTS Dev, Rand, Emit, Mut, MaxRows

VARIABLES cols, rows, cur, dev, style, phase, text
vars == <<cols, rows, cur, dev, style, phase, text>>

Usual(f) == CASE f \in {"blz", "bankl"} -> Codes("10010010") [] f = "bic" -> Codes("PBNKDEFF") [] f = "inst" -> Codes("Postbank") [] f = "num" -> Codes("3.0") [] f = "url" -> Codes("https://hbci.example.de/x?a=b")
              [] f = "name" -> Codes("FinTS V3.0") [] f = "city" -> Codes("Berlin") [] f = "changed" -> Codes("03.06.2014") [] f = "none" -> <<>> [] OTHER -> Codes("7")
Cells == {<<>>, Codes("20020020"), Codes(" 30030030 "), Codes("  "), Codes("a;b"), Codes("say \"hi\""), <<252, 223>>, <<65, NL, 66>>, Codes("Bank") \o <<160>>, Codes("\"x\""), Codes("c:\\n"), <<9, 65>>, Codes("a,b'c"), Codes("{{.}}"), <<150, 132, 128>>, <<255, 192, 163>>}
Layouts == {Infos, <<"other", "blz", "more", "bic", "inst", "city", "url", "num", "name", "changed">>, <<"changed", "name", "url", "num", "inst", "bic", "blz", "city">>, <<"blz", "inst">>, <<"bic", "blz", "none", "none">>,
            <<"other", "inst", "blz">>, <<"bic", "inst">>, <<"bankl", "bic">>, <<"other", "bic", "bankl", "more">>}
Styles == {"lf", "crlf", "open"} \* "open": the last line has no end
Init == /\ cols \in (IF Rand THEN {Infos} ELSE Layouts) /\ style \in Styles /\ rows = <<>> /\ cur = <<>> /\ dev = 0 /\ phase = "rows" /\ text = <<>>
Rnd(n) == RandomElement(0..(n + 0 * Len(cur)))
RCell == LET n == Rnd(6) m == Rnd(1) IN <<>> \o TLCEval([i \in 1..n |-> RandomElement(IF m = 0 THEN {65, 66, 48, 57, 45 + 0 * (i + Len(cur))} ELSE {59, 34, 32, 10, 196, 39, 92, 13, 9 + 0 * (i + Len(cur))})])
F == cols[Len(cur) + 1]
Cellx == /\ phase = "rows" /\ Len(rows) < MaxRows /\ Len(cur) < Len(cols) /\ UNCHANGED <<cols, rows, style, phase, text>>
         /\ IF Rand THEN (\E k \in {Rnd(2)}, r \in {RCell}, b \in {Rnd(1)} : cur' = Append(cur, [v |-> IF k = 0 THEN Usual(F) ELSE r, q |-> b = 0])) /\ dev' = dev
            ELSE \/ cur' = Append(cur, [v |-> Usual(F), q |-> FALSE]) /\ dev' = dev
                 \/ dev < Dev /\ dev' = dev + 1 /\ (\E c \in Cells : \E q \in BOOLEAN : cur' = Append(cur, [v |-> c, q |-> q]))
Close == rows' = Append(rows, cur) /\ cur' = <<>> /\ UNCHANGED <<cols, style, phase, text>>
Row == phase = "rows" /\ Len(rows) < MaxRows /\ Len(cur) = Len(cols) /\ Close /\ dev' = dev
\* too short, too long, a row of which is only one empty cell
Ragged == phase = "rows" /\ Len(rows) < MaxRows /\ dev < Dev /\ dev' = dev + 1
          /\ \/ Len(cur) > 0 /\ Len(cur) < Len(cols) /\ Close
             \/ Len(cur) = Len(cols) /\ rows' = Append(rows, Append(cur, [v |-> Codes("extra"), q |-> FALSE])) /\ cur' = <<>> /\ UNCHANGED <<cols, style, phase, text>>
             \/ Len(cur) = 0 /\ rows' = Append(rows, <<>>) /\ cur' = <<>> /\ UNCHANGED <<cols, style, phase, text>>

\* a cell must be quoted if it contains a separator, a quote or a line break; quoting it anyway keeps its blanks
Must(v) == \E i \in 1..Len(v) : v[i] \in {SEMI, DQ, NL, CR}
Cr(v) == \E i \in 1..Len(v) : v[i] = CR
WCell(c) == IF c.q \/ Must(c.v) THEN <<DQ>> \o Double(c.v) \o <<DQ>> ELSE c.v
RECURSIVE JoinS(_)
JoinS(qs) == IF Len(qs) = 0 THEN <<>> ELSE IF Len(qs) = 1 THEN qs[1] ELSE qs[1] \o <<SEMI>> \o JoinS(Tail(qs))
WRow(r) == JoinS([i \in 1..Len(r) |-> WCell(r[i])])
Eol == IF style = "crlf" THEN <<CR, NL>> ELSE <<NL>>
Header == [i \in 1..Len(cols) |-> [v |-> Umlaut[cols[i]], q |-> FALSE]]
WTable == LET all == <<Header>> \o rows IN Concat([i \in 1..Len(all) |-> WRow(all[i]) \o (IF i = Len(all) /\ style = "open" THEN <<>> ELSE Eol)])
Finish == phase = "rows" /\ cur = <<>> /\ phase' = "done" /\ text' = WTable /\ UNCHANGED <<cols, rows, cur, dev, style>>
\* an unfinished quote, a quote in the middle
Damage == phase = "done" /\ dev = 0 /\ rows # <<>> /\ phase' = "bad" /\ UNCHANGED <<cols, rows, cur, dev, style>>
          /\ \E x \in {<<DQ>>, <<65, DQ>>, <<DQ, 65, DQ, 66>>} : text' = WTable \o (IF style = "open" THEN Eol ELSE <<>>) \o x \o Eol
Next == Cellx \/ Row \/ Ragged \/ Finish \/ Damage
Spec == Init /\ [][Next]_vars

\* rows that come out as empty lines are none
Lines == SelectSeq(rows, LAMBDA r : WRow(r) # <<>>)
Fields == IF \E i \in 1..Len(cols) : cols[i] = "bankl" THEN <<"bankl", "bic">> ELSE Infos
ValueOfCell(c) == LET u == Unix(Append(c.v, 0)) IN IF c.q \/ Must(c.v) THEN SubSeq(u, 1, Len(u) - 1) ELSE TrimL(c.v)
Plain == <<[i \in 1..Len(cols) |-> Umlaut[cols[i]]]>> \o [i \in 1..Len(Lines) |-> [j \in 1..Len(Lines[i]) |-> ValueOfCell(Lines[i][j])]]
MTable(q) == IF Mut = "noquote" THEN Table(SelectSeq(q, LAMBDA c : c # DQ)) ELSE Table(q)
Good == /\ phase = "done" => LET t == MTable(text) IN t.ok /\ t.rows = <<>> \o Plain
        /\ phase = "bad" => ~Table(text).ok
EmitState == (Emit /\ phase \in {"done", "bad"}) => PrintT("@@IN " \o ToJson([op |-> "directory", text |-> text, fields |-> Fields]))
=============================================================================
