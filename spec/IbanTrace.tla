----------------------------- MODULE IbanTrace -----------------------------
EXTENDS Iban, FuncTrace

Got(r) == [ok |-> r.ok, val |-> r.val]
Verdict(r) ==
  IF r.panic # "" THEN {"panic: " \o r.panic}
  ELSE
  CASE r.op = "from" ->
         LET p == Parse(r.t) IN
         (IF Got(r) = p THEN {} ELSE IF p.ok /\ r.ok THEN {"parsed to something else"} ELSE IF p.ok THEN {"a valid IBAN is rejected"} ELSE {"an invalid IBAN is accepted"})
         \cup (IF r.valid = p.ok THEN {} ELSE {"IsValid disagrees with the check digits or the syntax"})
         \cup (IF p.ok /\ (r.country # SubSeq(p.val, 1, 2) \/ r.proof # SubSeq(p.val, 3, 4) \/ r.bban # From(p.val, 5)) THEN {"a part of the IBAN reads back wrongly"} ELSE {})
         \cup (IF p.ok /\ r.print # Paper(p.val) THEN {"the paper format is wrong"} ELSE {})
    [] r.op = "new" ->
         LET p == Build(r.c, r.b) IN
         IF Got(r) = p THEN {} ELSE IF p.ok /\ r.ok THEN {"a wrong IBAN is built"} ELSE IF p.ok THEN {"a valid IBAN cannot be built"} ELSE {"an IBAN is built from invalid parts"}
    [] r.op = "german" ->
         LET p == German(r.c, r.b) IN
         (IF Got(r) = p THEN {} ELSE IF p.ok THEN {"the German IBAN is wrong"} ELSE {"a German IBAN is built from invalid parts"})
         \cup (IF p.ok /\ (r.bank # BankOf(p.val) \/ r.acct # AcctOf(p.val)) THEN {"bank or account number reads back wrongly"} ELSE {})
=============================================================================
