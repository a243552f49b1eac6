----------------------------- MODULE Mt940Design -----------------------------
(* Statements as a bank composes them: open a statement, add transactions and their details field by field, break lines,
   close it, begin the next. Every complete sequence of statements is a test input, and so are its damaged versions.
   Mode: "struct" (how many of what), "money" (marks, amounts, dates), "details" (fields, order, breaks), "rand". *)
EXTENDS Mt940, Json

CONSTANTS Mode, MaxSt, MaxTx, MaxF, Emit, Mut, Full, Seed, Damaged

VARIABLES ss, cur, at, dmg, how
vars == <<ss, cur, at, dmg, how>>

Rand == Mode = "rand"
Pick(S) == CHOOSE x \in S : TRUE
BalOf(mark, date, ccy, amt) == [mark |-> mark, date |-> date, ccy |-> ccy, amt |-> amt]
Accounts == <<[b |-> Codes("37040044"), a |-> Codes("532013000")], [b |-> Codes("10050000"), a |-> Codes("7")], [b |-> Codes("DEUTDEFF"), a |-> Codes("DE02100")]>>
EUR == Codes("EUR")
PlainDate == <<2020, 5, 15>>

-----------------------------------------------------------------------------
(* what a statement opens with *)
Amts == {Codes("0,01"), Codes("1,"), Codes("10,5"), Codes("12345678,99"), Codes("0,"), Codes("100,00"), Codes("007,70")}
BalDates == {<<2020, 5, 15>>, <<2019, 12, 31>>, <<2020, 2, 29>>, <<2000, 1, 1>>, <<2037, 2, 28>>}
Opens == IF Mode = "money" THEN [mark : {Codes("C"), Codes("D")}, date : IF Full THEN BalDates ELSE {<<2020, 2, 29>>, <<2019, 12, 31>>}, ccy : {EUR, Codes("USD")}, amt : IF Full THEN Amts ELSE {Codes("10,5"), Codes("0,")}]
         ELSE IF Rand THEN [mark : {Codes("C"), Codes("D")}, date : {<<2020, 5, 15>>, <<2019, 12, 31>>}, ccy : {EUR, Codes("USD")}, amt : {Codes("0,01"), Codes("12345678,99"), Codes("99,1")}]
         ELSE {BalOf(Codes("C"), PlainDate, EUR, DecW(Len(ss), 1) \o Codes(",1"))}
Heads == IF Mode = "struct" /\ ~Damaged THEN {[job |-> Codes("STARTUMSE"), ref |-> <<>>, num |-> Codes("1")], [job |-> Codes("1"), ref |-> <<Codes("NONREF")>>, num |-> Codes("00012/001")]}
         ELSE IF Rand THEN [job : {Codes("STARTUMSE"), Codes("A"), Codes("2020/1-x"), Codes("12,3"), Codes("1"), <<>>}, ref : {<<>>, <<Codes("NONREF")>>, <<<<>>>>, <<Codes("?20")>>}, num : {Codes("1"), Codes("00000/001")}]
         ELSE {[job |-> Codes("STARTUMSE"), ref |-> <<>>, num |-> Codes("0")]}

Open == /\ at = "idle" /\ Len(ss) < MaxSt
        /\ \E h \in Heads, o \in Opens : \E mid \in IF Rand THEN BOOLEAN ELSE {Mode = "struct" /\ h.ref # <<>>} :
             LET k == Accounts[((Len(ss) + Seed) % 3) + 1] IN
             cur' = [job |-> h.job, ref |-> h.ref, num |-> h.num, bank |-> k.b, acct |-> k.a, mid |-> mid, open |-> o, txs |-> <<>>, close |-> o, cur |-> <<>>, info |-> <<>>]
        /\ at' = "open" /\ UNCHANGED <<ss, dmg, how>>

-----------------------------------------------------------------------------
(* transactions *)
Vals == IF Full THEN {<<2019, 12, 31>>, <<2020, 1, 1>>, <<2020, 1, 2>>, <<2020, 2, 28>>, <<2020, 2, 29>>, <<2020, 3, 1>>, <<2020, 6, 30>>, <<2020, 7, 1>>, <<2020, 7, 3>>, <<2020, 12, 28>>, <<2020, 12, 31>>, <<2021, 1, 1>>,
                      <<2021, 2, 28>>, <<2021, 3, 1>>, <<2019, 3, 1>>, <<2000, 1, 3>>, <<2024, 8, 31>>}
        ELSE {<<2019, 12, 31>>, <<2020, 1, 2>>, <<2020, 2, 29>>, <<2020, 7, 1>>, <<2021, 3, 1>>}
AllMD == {<<m, d>> : m \in 1..12, d \in 1..31}
Near(v) == {md \in AllMD : \E y \in {v[1] - 1, v[1], v[1] + 1} : IsDate(y, md[1], md[2])}
BookMD(v) == {md \in Near(v) : Full \/ (md[2] \in {1, 2, 3, 27, 28, 29, 30, 31} /\ (md[1] \in {12, 1, 2, 3} \/ md[2] \in {1, 3, 30})) \/ md = <<v[2], v[3]>>}
Amounts == {Codes("0,01"), Codes("1,"), Codes("10,5"), Codes("12345678,99"), Codes("0,00"), Codes("1000,"), Codes("0012,10"), Codes("999999999999,99"), Codes("1234567890123,5")}
NoTx == [val |-> PlainDate, book |-> <<5, 15>>, mark |-> Codes("C"), kind |-> <<>>, amt |-> Codes("1,00"), key |-> Codes("MSC"), ref |-> Codes("NONREF"), sup |-> <<>>, det |-> <<>>]
Sups == {<<>>, Codes("//B4711"), CRLF \o Codes("/OCMT/EUR1,50/"), Codes("//NR") \o CRLF \o Codes("/CHGS/EUR0,10/")}
Txs ==
  IF Mode = "money" THEN
       (* dates, and what the amount is about *)
       {[NoTx EXCEPT !.val = v, !.book = b] : v \in Vals, b \in {<<>>}} \cup UNION {{[NoTx EXCEPT !.val = v, !.book = b, !.mark = Codes("D")] : b \in BookMD(v)} : v \in Vals}
       \cup {[NoTx EXCEPT !.mark = m, !.kind = k, !.amt = a, !.book = b, !.sup = u] : m \in Marks, k \in {<<>>, Codes("R")}, a \in Amounts, b \in {<<>>, <<5, 16>>}, u \in IF Full THEN Sups ELSE {<<>>, CRLF \o Codes("/OCMT/EUR1,50/")}}
  ELSE IF Mode = "struct" THEN {[NoTx EXCEPT !.amt = Dec(10 * Len(ss) + Len(cur.txs) + 1) \o Codes(",00"), !.mark = m, !.sup = u] : m \in {Codes("D")}, u \in IF Full THEN {<<>>, CRLF \o Codes("/OCMT/EUR1,50/")} ELSE {IF Len(cur.txs) % 2 = 1 THEN CRLF \o Codes("/OCMT/EUR1,50/") ELSE <<>>}}
  ELSE IF Rand THEN [val : {<<2019, 12, 31>>, <<2020, 1, 1>>, <<2020, 2, 29>>, <<2020, 7, 1>>}, book : {<<>>, <<12, 31>>, <<1, 2>>, <<2, 28>>}, mark : Marks, kind : {<<>>, Codes("R")},
                     amt : {Codes("0,01"), Codes("1,"), Codes("12345678,99")}, key : {Codes("MSC"), Codes("NTR")}, ref : {Codes("NONREF"), Codes("KREF+")}, sup : {<<>>, CRLF \o Codes("/OCMT/EUR1,50/")}, det : {<<>>}]
  ELSE {NoTx}
AddTx == /\ at = "open" /\ Len(cur.txs) < MaxTx
         /\ (Mode = "money" /\ ~Full => cur.open = BalOf(Codes("C"), <<2020, 2, 29>>, EUR, Codes("10,5")))
         /\ \E t \in Txs : cur' = [cur EXCEPT !.txs = Append(@, t)]
         /\ at' = "tx" /\ UNCHANGED <<ss, dmg, how>>
(* detail or not *)
TxDone == at = "tx" /\ at' = "open" /\ UNCHANGED <<ss, cur, dmg, how>>
NT == Len(cur.txs)
DetFor(n) == [code |-> IF Mode = "details" \/ Rand THEN Codes("105") ELSE DecW((n * 37 + 5) % 1000, 3), fs |-> <<>>, brk |-> {}]
AddDet == /\ at = "tx"
          /\ cur' = [cur EXCEPT !.txs[NT].det = <<IF Mode \in {"details", "rand"} THEN DetFor(NT)
                                                   ELSE [DetFor(NT) EXCEPT !.fs = <<[k |-> 0, v |-> Codes("T") \o Dec(Len(ss)) \o Dec(NT)], [k |-> 20, v |-> Codes("P") \o Dec(NT)]>>]>>]
          /\ at' = "det" /\ UNCHANGED <<ss, dmg, how>>

(* texts with everything that is not a key: question marks, colons and dashes, umlauts (one byte each) *)
\* and blanks, which belong to the text wherever they stand
Texts == {<<>>, Codes("X"), Codes("wo? a:1-b"), <<196, 46, 45, 228>>, Codes("AB12,5"), Codes(" a  b "), Codes("V+ "), <<32>>, <<9, 65, 160>>, Codes("x?2"), Codes("?9 ?4"), Codes("ZYXWVUTSRQPONMLKJIHGFEDCBA0")}
FText(k) == IF k = 34 THEN {Codes("000"), Codes("7"), Codes("010")} ELSE IF Rand \/ (Full /\ MaxF <= 2) THEN Texts
            ELSE {Codes("V") \o Dec(k), IF (k + Seed) % 3 = 0 THEN Codes("a?:-") ELSE IF (k + Seed) % 3 = 1 THEN <<228>> ELSE Codes(" b ")}
D == cur.txs[NT].det[1]
DLen(d) == 3 + Len(Concat(<<>> \o [i \in 1..Len(d.fs) |-> WField(d.fs[i])]))
DText(d) == d.code \o Concat(<<>> \o [i \in 1..Len(d.fs) |-> WField(d.fs[i])])
AddField == /\ at = "det" /\ Mode \in {"details", "rand"} /\ Len(D.fs) < MaxF /\ D.brk = {}
            /\ \E k \in FieldKeys \ KeysOf(D.fs) : \E v \in FText(k) : cur' = [cur EXCEPT !.txs[NT].det[1].fs = Append(@, [k |-> k, v |-> v])]
            /\ UNCHANGED <<ss, at, dmg, how>>
(* a line break before a character that would not begin a tag; lines keep their break order *)
AddBreak == /\ at = "det" /\ Mode \in {"details", "rand"} /\ Cardinality(D.brk) < (IF Full \/ Rand THEN 2 ELSE 1) /\ Len(D.fs) <= (IF Rand THEN MaxF ELSE 2)
            /\ \E i \in 4..DLen(D) : /\ \A j \in D.brk : j < i
                                     /\ (Full \/ Rand \/ Len(D.fs) < 2 \/ (i + Seed) % 3 = 0)
                                     /\ DText(D)[i] \notin {COLON, DASH}
                                     /\ cur' = [cur EXCEPT !.txs[NT].det[1].brk = @ \cup {i}]
            /\ UNCHANGED <<ss, at, dmg, how>>
DetDone == at = "det" /\ at' = "open" /\ UNCHANGED <<ss, cur, dmg, how>>

Closes == IF Mode = "money" THEN {cur.open, [cur.open EXCEPT !.mark = IF @ = Codes("C") THEN Codes("D") ELSE Codes("C"), !.amt = Codes("77,07"), !.date = <<2020, 12, 31>>]}
          ELSE {[cur.open EXCEPT !.amt = Codes("77,0") \o Dec(Len(ss)), !.date = <<2020, 12, 31>>]}
Tails == IF Mode = "struct" \/ Rand THEN [cur : {<<>>, <<BalOf(Codes("D"), <<2020, 6, 1>>, EUR, Codes("5,55"))>>}, info : {<<>>, <<[code |-> Codes("999"), fs |-> <<[k |-> 20, v |-> Codes("INFO")]>>, brk |-> {}]>>}]
         ELSE {[cur |-> <<>>, info |-> <<>>]}
Close == /\ at = "open" /\ (Mode = "details" => cur.txs # <<>>)
         /\ \E c \in Closes, x \in Tails : ss' = Append(ss, [cur EXCEPT !.close = c, !.cur = x.cur, !.info = x.info])
         /\ at' = "idle" /\ UNCHANGED <<cur, dmg, how>>

(* something is lost or added on the way: then only that the reader survives matters *)
Bytes == Write(ss)
Damage == /\ Damaged /\ at = "idle" /\ ss # <<>> /\ dmg = <<>>
          /\ \E i \in 1..Len(Bytes), w \in {"cut", "del", "dig", "sep", "brk"} :
               /\ (Full \/ w = "cut" \/ (i + Seed) % 3 = 0)
               /\ how' = w
               /\ dmg' = CASE w = "cut" -> SubSeq(Bytes, 1, i)
                        [] w = "del" -> SubSeq(Bytes, 1, i - 1) \o From(Bytes, i + 1)
                        [] w = "dig" -> [Bytes EXCEPT ![i] = IF IsDigit(@) THEN 88 ELSE 57]
                        [] w = "sep" -> [Bytes EXCEPT ![i] = IF @ = COLON THEN 47 ELSE COLON]
                        [] w = "brk" -> SubSeq(Bytes, 1, i - 1) \o CRLF \o From(Bytes, i)
          /\ at' = "end" /\ UNCHANGED <<ss, cur>>
Init == ss = <<>> /\ cur = [txs |-> <<>>] /\ at = "idle" /\ dmg = <<>> /\ how = ""
Finish == Rand /\ at = "idle" /\ Len(ss) = MaxSt /\ at' = "end" /\ UNCHANGED <<ss, cur, dmg, how>>
Next == Open \/ AddTx \/ TxDone \/ AddDet \/ AddField \/ AddBreak \/ DetDone \/ Close \/ Damage \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Whole == IF Rand THEN at = "end" ELSE at = "idle"
(* the reader understands what the writer meant; mutants of the writer are noticed *)
MBytes == IF Mut = "" THEN Bytes ELSE IF Mut = "mark" THEN [i \in 1..Len(Bytes) |-> IF i > 60 /\ Bytes[i] = 68 THEN 67 ELSE Bytes[i]]
          ELSE Concat(<<>> \o [i \in 1..Len(ss) |-> WStmt([ss[i] EXCEPT !.txs = [j \in 1..Len(ss[i].txs) |-> [ss[i].txs[j] EXCEPT !.det = IF j > 1 THEN ss[i].txs[j - 1].det ELSE @]]])])
ReaderReads == Whole /\ dmg = <<>> => LET r == Read(MBytes) IN r.ok /\ r.es = Meaning(ss)
Count == Whole /\ dmg = <<>> => Len(Meaning(ss)) = Len(Concat(<<>> \o [i \in 1..Len(ss) |-> <<>> \o [j \in 1..Len(ss[i].txs) |-> 0]]))
Good == ReaderReads /\ Count
Item(o, t) == PrintT("@@IN " \o ToJson([op |-> o, t |-> t]))
\* the same statements in pieces of a few bytes each, as they arrive when a bank spreads them over several replies
InPieces(k) == PrintT("@@IN " \o ToJson([op |-> "mt940", t |-> Bytes, chunk |-> k]))
EmitState == Emit => /\ (Whole /\ dmg = <<>> => Item("mt940", Bytes))
                     /\ (Whole /\ dmg = <<>> /\ ss # <<>> /\ Mode \in {"struct", "rand"} => \A k \in {1, 40, 3 + ((Len(Bytes) + Seed) % 90)} : InPieces(k))
                     /\ (dmg # <<>> => PrintT("@@IN " \o ToJson([op |-> "mt940", t |-> dmg, how |-> how])))
                     /\ (at = "det" /\ Mode \in {"details", "rand"}) => Item("mt86", WDet(D))
=============================================================================
