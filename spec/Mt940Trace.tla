----------------------------- MODULE Mt940Trace -----------------------------
(* What the real reader made of a statement, compared with the reference. Reasons begin with the property they belong to. *)
EXTENDS Mt940, FuncTrace

SameDet(e, g) ==
  (IF g.code # e.code THEN {"C22 the transaction code"} ELSE {}) \cup (IF g.text # e.text THEN {"C22 the booking text"} ELSE {})
  \cup (IF g.purpose # JoinBlank(e.purpose) \/ g.purpose2 # JoinBlank(e.purpose2) THEN {"C22 the purpose"} ELSE {})
  \cup (IF g.pbank # e.pbank \/ g.pacct # e.pacct THEN {"C22 the account of the other party"} ELSE {}) \cup (IF g.name \notin e.name THEN {"C22 the name of the other party"} ELSE {})
SameBal(e, g, what) == (IF g.amt # e.amt \/ g.ccy # e.ccy THEN {"C21 the " \o what \o " balance"} ELSE {}) \cup (IF g.date # e.date THEN {"C21 the date of the " \o what \o " balance"} ELSE {})
Entry(e, g) ==
  (IF g.bank # e.bank \/ g.acct # e.acct \/ g.country # 280 THEN {"C20 the account of the statement"} ELSE {})
  \cup (IF g.amt # e.amt THEN {"C21 the amount"} ELSE {}) \cup (IF g.ccy # e.ccy THEN {"C21 the currency"} ELSE {})
  \cup (IF g.val # e.val THEN {"C21 the value date"} ELSE {})
  \cup (IF e.book # {} /\ g.book \notin e.book THEN {"C21 the booking date"} ELSE {})
  \cup (IF e.book = {} /\ g.book # e.val /\ g.book # <<1, 1, 1>> THEN {"C21 a booking date that was not sent"} ELSE {})
  \cup SameBal(e.before, g.before, "opening") \cup SameBal(e.after, g.after, "closing")
Verdict(r) ==
  IF r.panic # "" THEN {"panic: " \o r.panic}
  ELSE
  CASE r.op = "mt940" ->
         LET p == Read(r.t) IN
         \* a text that breaks off within a statement must not pass for a shorter one
         IF ~p.ok THEN (IF "how" \in DOMAIN r /\ r.how = "cut" /\ r.err = "" THEN {"C20 a statement that breaks off is accepted"} ELSE {})
         ELSE IF r.err # "" THEN {"C20 a well formed statement is rejected"}
         ELSE IF Len(r.es) # Len(p.es) THEN {"C20 the number of transactions"}
         ELSE IF \E i \in 1..Len(p.es) : SameDet(p.es[i].det, r.es[i]) # {} /\ (\E j \in 1..Len(p.es) : SameDet(p.es[j].det, r.es[i]) = {}) THEN {"C20 details or order of transactions"}
         ELSE UNION {Entry(p.es[i], r.es[i]) \cup SameDet(p.es[i].det, r.es[i]) : i \in 1..Len(p.es)}
    [] r.op = "mt86" ->
         LET p == RDet(r.t) IN
         IF ~p.ok THEN {}
         ELSE IF r.err # "" THEN {"C22 well formed details are rejected"}
         ELSE SameDet(p.d, r.d) \cup (IF r.d.prima # p.d.prima THEN {"C22 the primanota number"} ELSE {}) \cup (IF r.d.keyadd # p.d.keyadd THEN {"C22 the key addition"} ELSE {})
              \cup (IF r.d.lines # p.d.purpose \/ r.d.lines2 # p.d.purpose2 THEN {"C22 the lines of the purpose"} ELSE {})
=============================================================================
