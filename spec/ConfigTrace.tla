----------------------------- MODULE ConfigTrace -----------------------------
(* The clients made from configurations, and the requests they send, against the reference. *)
EXTENDS Config, FuncTrace

Chk(ok, why) == IF ok THEN {} ELSE {why}
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
Seg(s, r) == All(s.idn, LAMBDA x : x.bank = r.tbank /\ x.user = r.tuser /\ x.country = "280") /\ All(s.sig, LAMBDA x : x.bank = r.tbank /\ x.user = r.tuser) /\ All(s.ench, LAMBDA x : x.bank = r.tbank /\ x.user = r.tuser)
Prod(s, r) == All(s.prep, LAMBDA x : x.prod = r.prod /\ x.prodv = r.prodv)
SentBad(s, o, r) ==
  Chk(s.url = o.url, "a request goes to another URL than the resolved one")
  \cup Chk(s.hver = ToString(o.ver), "a message has another protocol version than the resolved one")
  \cup (IF r.plain THEN Chk(Seg(s, r), "a message carries another bank or user than configured") ELSE {})
  \cup Chk(Prod(s, r), "a message carries another product name or version than configured")
\* the bank and user are compared as text where nothing has to be read specially
Verdict(r) ==
  LET os == Outcomes(r)
      good == {o \in os : o.ok}
  IN IF r.panic # "" THEN {"panic: " \o r.panic}
     ELSE IF r.err # "" THEN Chk(\E o \in os : ~o.ok, "a usable configuration is refused")
     ELSE IF good = {} THEN {"a client is made from a configuration that cannot be resolved"}
     ELSE Chk(r.sends # <<>>, "the client sends nothing")
          \cup (IF \E o \in good : \A i \in 1..Len(r.sends) : SentBad(r.sends[i], o, r) = {} THEN {}
                ELSE LET o == CHOOSE x \in good : TRUE IN UNION {SentBad(r.sends[i], o, r) : i \in 1..Len(r.sends)})
          \cup Chk(r.found = r.bank \/ r.found = "", "looking up a bank finds another one")
==============================================================================
