----------------------------- MODULE BankCsvTrace -----------------------------
EXTENDS BankCsv, FuncTrace

Chk(ok, why) == IF ok THEN {} ELSE {why}
Sorted(es) == \A i \in 1..(Len(es) - 1) : LET a == es[i][1] b == es[i + 1][1] m == {j \in 1..Len(a) : j > Len(b) \/ (j <= Len(b) /\ a[j] # b[j])}
              IN m = {} \/ LET k == CHOOSE j \in m : \A l \in m : j <= l IN k <= Len(b) /\ a[k] < b[k]
Bag(es) == [e \in {es[i] : i \in 1..Len(es)} |-> Cardinality({i \in 1..Len(es) : es[i] = e})]
Verdict(r) ==
  IF r.panic # "" THEN {"panic: " \o r.panic}
  ELSE LET t == Table(r.text) want == Entries(t.rows, r.fields) IN
    IF ~t.ok THEN Chk(r.err # "", "a malformed directory is imported without an error") \cup Chk(~r.tool \/ r.toolerr # "", "a malformed directory is generated without an error")
    ELSE (IF r.err # "" THEN {"a correct directory is rejected"} ELSE Chk(r.entries = want, "the entries imported are not those of the table"))
         \cup (IF ~r.tool THEN {} ELSE IF r.toolerr # "" THEN {"no directory is generated from a correct table"}
               ELSE Chk(Bag(r.generated) = Bag(want), "the entries of the generated directory are not those of the table") \cup Chk(Sorted(r.generated), "the generated directory is not sorted"))
=============================================================================
