------------------------------ MODULE HbciMonitor ------------------------------
(***************************************************************************)
(* The properties of the dialog layer, as a pure transition function       *)
(*                                                                         *)
(*        monitor state  x  event  ->  monitor state                       *)
(*                                                                         *)
(* over the observable events of one client:                               *)
(*   call  the user calls a public operation                               *)
(*   send  a message reaches the transport (decoded by an independent      *)
(*         reader of the HBCI syntax)                                      *)
(*   recv  the reply the bank (the environment) gave                       *)
(*   ret   the public operation returns                                    *)
(* Everything a property says about an event is evaluated when the event   *)
(* happens; what does not hold is added to m.bad as <<property, reason>>.  *)
(*                                                                         *)
(* The same functions are used in HbciDialog (the design: every            *)
(* interleaving of client algorithm and adversarial bank) and in           *)
(* DialogTrace (recorded executions of the real code).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
B(ok, p, why) == IF ok THEN {} ELSE {[p |-> p, why |-> why]}

RECURSIVE TrimStr(_)
TrimStr(s) == IF Len(s) > 0 /\ s[Len(s)] = "" THEN TrimStr(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE TrimEls(_)
TrimEls(s) == IF Len(s) > 0 /\ s[Len(s)] = <<>> THEN TrimEls(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* the canonical form of a list of data elements: trailing empty parts carry no meaning
Canon(els) == TrimEls([i \in 1..Len(els) |-> TrimStr(els[i])])

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))

Select(s, S) == LET In(x) == x \in S IN SelectSeq(s, In)

------------------------------------------------------------------------------
(* Operations *)
PagedOps == {"tx", "sepatx", "sepabal"}
VerOps == {"tx", "sepatx", "bal", "sepabal", "status"}
AnonOps == {"commaccess", "anonkom"}
BizOps == VerOps \cup {"acctinfo", "sendkif"} \cup AnonOps
LocalOps == {"setpin", "setsys", "setfn"}

Implemented(op) == CASE op = "bal" -> {5, 6} [] op = "sepabal" -> {7, 8} [] op = "tx" -> {5, 6}
                     [] op = "sepatx" -> {7} [] op = "status" -> {3, 4} [] OTHER -> {}
ParamSeg(op) == CASE op \in {"bal", "sepabal"} -> "HISALS" [] op \in {"tx", "sepatx"} -> "HIKAZS"
                  [] op = "status" -> "HIPROS" [] OTHER -> ""
OrderId(op) == CASE op \in {"bal", "sepabal"} -> "HKSAL" [] op \in {"tx", "sepatx"} -> "HKKAZ"
                 [] op = "status" -> "HKPRO" [] op \in {"acctinfo", "sendkif"} -> "HKKIF"
                 [] op \in AnonOps -> "HKKOM" [] OTHER -> ""
\* highest version announced and implemented, 0 if there is none
Best(op, segs) ==
  LET V == {segs[i].ver : i \in {j \in 1..Len(segs) : segs[j].id = ParamSeg(op)}} \cap Implemented(op)
  IN IF V = {} THEN 0 ELSE MaxOf(V)

\* country codes have three digits
Ctry(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
NatAcct(a) == <<a.id, a.sub, Ctry(a.country), a.bank>>
IntAcct(a) == <<a.iban, a.bic, a.id, a.sub, Ctry(a.country), a.bank>>
JN(b) == IF b THEN "J" ELSE "N"
Num(n) == IF n = 0 THEN "0" ELSE ToString(n)

\* what the data elements of an order have to be, given what the caller asked for
\* (a set: a zero maximum may be sent as 0 or left out)
OrderEls(op, ver, a, cont, days) ==
  LET acct == IF ver >= 7 THEN IntAcct(a.acct) ELSE NatAcct(a.acct)
      from == IF a.from = "" THEN days[1] ELSE a.from
      to == IF a.to = "" THEN days[2] ELSE a.to
      mx == IF a.max = 0 THEN {<<"">>, <<"0">>} ELSE {<<ToString(a.max)>>}
      C(els) == Canon(els)
  IN CASE op \in {"bal", "sepabal"} -> {C(<<acct, <<JN(a.all)>>, <<"">>, <<cont>>>>)}
       [] op \in {"tx", "sepatx"} -> {C(<<acct, <<JN(a.all)>>, <<from>>, <<to>>, <<"">>, <<cont>>>>)}
       [] op = "status" -> {C(<<<<a.from>>, <<a.to>>, x, <<cont>>>>) : x \in mx}
       [] op \in {"acctinfo", "sendkif"} -> {C(<<acct, <<JN(a.all)>>, <<"">>, <<"">>>>)}
       [] op \in AnonOps -> {C(<<<<Ctry(a.acct.country), a.acct.bank>>, <<Ctry(a.acct.country), a.acct.id>>, x, <<cont>>>>) : x \in mx}
       [] OTHER -> {}

------------------------------------------------------------------------------
(* Replies *)
\* entries that stand for a statement nobody can read: without an account, a closing balance, a date, an amount; garbage; ...
Unreadable == {"!acct", "!close", "!date", "!amount", "!garbage", "!detail", "!rest"}
Usable(r) == r.k = "ok"
HasErr(r) == \E i \in 1..Len(r.acks) : r.acks[i].code >= 9000
\* parameters of the first acknowledgement with this code: <<>> or << <<p1, ...>> >>
AckParams(r, code) ==
  LET I == {i \in 1..Len(r.acks) : r.acks[i].code = code}
  IN IF I = {} THEN <<>> ELSE <<r.acks[CHOOSE i \in I : \A j \in I : i <= j].params>>
SegsOf(r) == r.bpd[1].segs
             \o (IF Len(r.bpd[1].pins) > 0 THEN <<[id |-> "HIPINS", ver |-> 1]>> ELSE <<>>)
             \o (IF Len(r.tans) > 0 THEN <<[id |-> "HITANS", ver |-> 6]>> ELSE <<>>)
\* the bank announces functions and offers procedures
Announces(r) == AckParams(r, 3920) # <<>> /\ Len(r.tans) > 0
CommonFns(r) == Range(AckParams(r, 3920)[1]) \cap Range(r.tans)

PLimit(l) == [i \in 1..Len(l) |-> [kind |-> l[i].kind, amt |-> l[i].amt, cur |-> l[i].cur, days |-> l[i].days]]
PAcct(a) == [id |-> a.id, sub |-> a.sub, country |-> a.country, bank |-> a.bank, user |-> a.user, cur |-> a.cur, n1 |-> a.n1,
             n2 |-> a.n2, prod |-> a.prod, limit |-> PLimit(a.limit),
             txs |-> [i \in 1..Len(a.txs) |-> [id |-> a.txs[i].id, sigs |-> a.txs[i].sigs, limit |-> PLimit(a.txs[i].limit)]]]
PAccts(as) == [i \in 1..Len(as) |-> PAcct(as[i])]
AcctTexts(a) == <<a.id, a.sub, a.bank, a.user, a.n1, a.n2, a.prod>>

\* zero has no sign
Unsigned0(a) == IF a.val = "0" THEN [a EXCEPT !.cd = "C"] ELSE a
PBal(b, sepa) ==
  [iban |-> IF sepa THEN b.iban ELSE "", bic |-> IF sepa THEN b.bic ELSE "", acct |-> b.acct, sub |-> b.sub, country |-> b.country,
   bank |-> b.bank, prod |-> b.prod, cur |-> b.cur, booked |-> Unsigned0(b.booked), earmark |-> [i \in 1..Len(b.earmark) |-> Unsigned0(b.earmark[i])], credit |-> b.credit, avail |-> b.avail,
   used |-> b.used, bdate |-> b.bdate,
   btime |-> IF b.bdate = <<>> THEN <<>> ELSE IF b.btime = <<>> THEN <<"000000">> ELSE b.btime,
   due |-> b.due, seizable |-> b.seizable]
\* the recorded result, brought into the same shape (it has no segment version)
RBal(b) ==
  [iban |-> b.iban, bic |-> b.bic, acct |-> b.acct, sub |-> b.sub, country |-> b.country,
   bank |-> b.bank, prod |-> b.prod, cur |-> b.cur, booked |-> b.booked, earmark |-> b.earmark, credit |-> b.credit, avail |-> b.avail,
   used |-> b.used, bdate |-> b.bdate, btime |-> b.btime, due |-> b.due, seizable |-> b.seizable]
RBals(bs) == [i \in 1..Len(bs) |-> RBal(bs[i])]

\* what an acknowledgement says it is
Kind(code) == IF code >= 9000 THEN "error" ELSE IF code \in 3000..3999 THEN "warning" ELSE IF code \in 1..999 THEN "success" ELSE ""
PStat(s) == [code |-> s.code, kind |-> Kind(s.code), text |-> s.text, params |-> s.params, ref |-> s.ref, seg |-> IF s.seg = <<>> THEN 0 ELSE s.seg[1],
             dlg |-> s.dlg, num |-> IF s.dlg = "" THEN 0 ELSE s.num, at |-> s.date \o s.time]
RStat(s) == [code |-> s.code, kind |-> s.kind, text |-> s.text, params |-> s.params, ref |-> s.ref, seg |-> s.seg, dlg |-> s.dlg, num |-> s.num, at |-> s.at]

PAckSeq(r, num) ==
  LET Lvl(l) == LET In(a) == a.lvl = l IN SelectSeq(r.acks, In)
      P(a) == [lvl |-> a.lvl, code |-> a.code, kind |-> Kind(a.code), text |-> a.text, params |-> a.params, ref |-> a.ref,
               seg |-> IF a.lvl = "seg" THEN a.seg ELSE 0, dlg |-> r.dlg, num |-> num]
      \* segment acknowledgements of one segment travel together
      all == Lvl("msg") \o Lvl("seg")
  IN [i \in 1..Len(all) |-> P(all[i])]
RAck(a) == [lvl |-> a.lvl, code |-> a.code, kind |-> a.kind, text |-> a.text, params |-> a.params, ref |-> a.ref, seg |-> a.seg, dlg |-> a.dlg, num |-> a.num]

------------------------------------------------------------------------------
(* Monitor state *)
MInit(cfg) ==
  [cfg |-> cfg, bad |-> {}, stop |-> FALSE,
   \* what is not known any more after a damaged reply; damaged: there was one before the current call
   wild |-> {}, damaged |-> FALSE,
   \* what the bank told us
   sys |-> {"0"}, sysOld |-> {"0"}, bpdv |-> 0, updv |-> 0, user |-> cfg.user, segs |-> <<>>, segs0 |-> <<>>, pins |-> <<>>,
   bank |-> <<>>, upd |-> <<>>, accts |-> <<>>, fns |-> {"999"},
   \* the current dialog
   ph |-> "idle", kind |-> "", dlg |-> "0", num |-> 0, syncOK |-> FALSE,
   \* the current call
   op |-> "", args |-> <<>>, days |-> <<>>, fault |-> FALSE, causes |-> {}, opt |-> {}, errs |-> <<>>, errKinds |-> <<>>,
   nsync |-> 0, ninit |-> 0, nbiz |-> 0, cont |-> "", more |-> FALSE, pages |-> <<>>, bals |-> <<>>, stats |-> <<>>, acks |-> <<>>]

Add(m, bads) == [m EXCEPT !.bad = @ \cup bads]

OnCall(m, e) ==
  LET n == [m EXCEPT !.ph = "idle", !.op = e.op, !.args = <<e.args>>, !.days = e.days, !.fault = FALSE, !.causes = {}, !.opt = {},
                     !.errs = <<>>, !.errKinds = <<>>, !.nsync = 0, !.damaged = @ \/ "raw" \in m.opt, !.ninit = 0, !.nbiz = 0, !.cont = e.args.cont, !.more = FALSE, !.pages = <<>>,
                     !.bals = <<>>, !.stats = <<>>, !.acks = <<>>, !.segs0 = m.segs]
  IN CASE e.op = "setsys" -> [n EXCEPT !.sys = {e.args.sysid}, !.sysOld = {e.args.sysid}, !.wild = @ \ {"sys"}]
       [] e.op = "setfn" -> [n EXCEPT !.fns = {e.args.fn}, !.wild = @ \ {"fn"}]
       [] OTHER -> n

------------------------------------------------------------------------------
(* send *)
Personal(e) == e.enc
OpeningKinds == {"sync", "init", "anoninit"}
KnownKinds == OpeningKinds \cup {"biz", "end", "anonbiz", "anonend"}

Framing(m, e) ==
  LET v3 == m.cfg.ver >= 300
      n == Len(e.ids)
      inc == [i \in 1..n |-> i + 1]
  IN B(e.size = e.actual, "C14", "message size in the header differs from the bytes transmitted")
     \cup B(e.hver = ToString(m.cfg.ver), "C14", "HBCI version in the header")
     \cup B(e.hlen = 4 /\ e.refs = 0, "C14", "header or segment references")
     \cup B(e.oids[1] = "HNHBK" /\ e.oids[Len(e.oids)] = "HNHBS" /\ e.overs[1] = "HNHBK:3" /\ e.overs[Len(e.overs)] = "HNHBS:1",
            "C14", "message header or trailer segment")
     \cup B(n >= 1 /\ e.pos = inc, "C14", "segment positions")
     \cup (IF e.enc
           THEN B(e.oids = <<"HNHBK", "HNVSK", "HNVSD", "HNHBS">> /\ e.opos = <<1, 998, 999, n + 2>>, "C14", "envelope segments")
                \cup B(e.overs[2] = (IF v3 THEN "HNVSK:3" ELSE "HNVSK:2") /\ e.overs[3] = "HNVSD:1", "C14", "envelope versions")
                \cup B(e.signed /\ Len(e.sigend) = 1 /\ e.ids[1] = "HNSHK" /\ e.ids[n] = "HNSHA", "C14", "signature segments")
                \cup (IF e.signed /\ Len(e.sigend) = 1
                      THEN B(e.vers[1] = (IF v3 THEN "HNSHK:4" ELSE "HNSHK:3") /\ e.vers[n] = (IF v3 THEN "HNSHA:2" ELSE "HNSHA:1"), "C14", "signature versions")
                           \cup B(e.sig[1].ctrl = e.sigend[1].ctrl /\ e.sig[1].ctrl # "", "C14", "signature control reference")
                      ELSE {})
           ELSE B(e.opos = [i \in 1..(n + 2) |-> i] /\ e.oids = <<"HNHBK">> \o e.ids \o <<"HNHBS">>, "C14", "segments of an anonymous message"))

\* the text fields every message repeats
Texts(m, e) ==
  LET c == m.cfg
      same(x, y) == B(x = y, "C15", "text differs from what the caller supplied") \cup B(x = y, "C26", "message not from the configured client")
      idn == IF e.idn # <<>> THEN same(e.idn[1].bank, c.bank) \cup same(e.idn[1].country, "280") \cup B(e.idn[1].n = 4, "C15", "identification fields shifted") ELSE {}
      prep == IF e.prep # <<>> THEN same(e.prep[1].prod, c.prod) \cup same(e.prep[1].prodv, c.prodv) \cup B(e.prep[1].n = 5, "C15", "processing preparation fields shifted") ELSE {}
      sig == IF e.sig # <<>> THEN same(e.sig[1].bank, c.bank) \cup same(e.sig[1].user, c.user) \cup same(e.sig[1].country, "280") ELSE {}
      enc == IF e.ench # <<>> THEN same(e.ench[1].bank, c.bank) \cup same(e.ench[1].user, c.user) \cup same(e.ench[1].country, "280") ELSE {}
  IN idn \cup prep \cup sig \cup enc
     \cup B(e.url = c.url, "C26", "request sent to another URL")
     \cup B(e.hver = ToString(c.ver), "C26", "protocol version differs from the configured one")

Security(m, e) ==
  IF ~e.enc
  THEN B(e.pins = 0, "C08", "PIN in an unencrypted message")
       \cup B(m.op \in AnonOps, "C14", "unencrypted message in a personal dialog")
       \cup B(~e.signed, "C09", "anonymous message is signed")
  ELSE B(e.pins = 1 /\ e.pinok, "C08", "PIN not exactly once, in the signature trailer")
       \cup B(e.pinok, "C15", "PIN differs from what the caller supplied")
       \cup B(m.op \notin AnonOps, "C09", "personal message in an anonymous dialog")
       \cup (IF e.sig = <<>> \/ e.ench = <<>> THEN {[p |-> "C14", why |-> "signature or encryption header missing"]}
             ELSE LET s == e.sig[1] h == e.ench[1] IN
               B(s.sysid = h.sysid, "C03", "system IDs of signature and encryption header differ")
               \cup B("fn" \in m.wild \/ (s.fn \in m.fns), "C07", "security function is not the negotiated one")
               \cup B(m.cfg.ver < 300 \/ (s.prof = h.prof /\ s.profv = h.profv), "C07", "security profiles differ")
               \cup B(m.cfg.ver < 300 \/ "fn" \in m.wild \/ s.profv = (IF s.fn = "999" THEN "1" ELSE "2"), "C07", "profile version does not fit the function"))

\* all places of a message that carry the client system ID
SysIds(e) == {e.sig[i].sysid : i \in 1..Len(e.sig)} \cup {e.ench[i].sysid : i \in 1..Len(e.ench)} \cup {e.idn[i].sysid : i \in 1..Len(e.idn)}

Versions(m, e) == B(("bpd" \in m.wild \/ e.prep[1].bpdv = Num(m.bpdv)) /\ ("upd" \in m.wild \/ e.prep[1].updv = Num(m.updv)), "C05", "parameter versions quoted are not the latest received")

OpeningSend(m, e) ==
  B(e.dlg = "0", "C01", "opening message does not carry dialog ID 0")
  \cup B(e.num = "1", "C01", "opening message is not number 1")
  \cup B(m.ph # "open", "C02", "a dialog was left open")
  \cup B(~m.fault, "C12", "another dialog is opened after a failed exchange")
  \cup B(Len(e.idn) = 1 /\ Len(e.prep) = 1, "C14", "opening message lacks identification or preparation")
  \cup (IF Len(e.idn) # 1 \/ Len(e.prep) # 1 THEN {} ELSE
        CASE e.kind = "sync" ->
               B(SysIds(e) = {"0"}, "C03", "synchronisation does not use system ID 0 throughout")
               \cup B(e.prep[1].bpdv = "0" /\ e.prep[1].updv = "0", "C05", "synchronisation quotes parameter versions")
               \cup B(e.idn[1].user = m.user \/ "upd" \in m.wild, "C05", "customer ID is not the user ID in force")
               \cup B(e.sync = <<"0">>, "C03", "synchronisation mode")
               \cup B(m.nsync = 0, "C12", "synchronisation repeated")
               \cup B(e.idn[1].status = "1", "C03", "system ID status")
          [] e.kind = "init" ->
               B("sys" \in m.wild \/ SysIds(e) \subseteq (m.sys \ {"0"}), "C03", "dialog opened without the system ID the bank issued")
               \cup B(Cardinality(SysIds(e)) = 1, "C03", "system IDs of a message differ")
               \cup Versions(m, e)
               \cup B(e.idn[1].user = m.user \/ "upd" \in m.wild, "C05", "customer ID is not the user ID in force")
               \cup B(e.idn[1].status = "1", "C03", "system ID status")
               \cup B(m.ninit = 0 \/ m.more, "C12", "dialog opened again without need")
          [] OTHER ->
               B(e.idn[1].user = "9999999999" /\ e.idn[1].sysid = "0" /\ e.idn[1].status = "0", "C09", "anonymous identification")
               \cup Versions(m, e)
               \cup B(m.ninit = 0 \/ m.more, "C12", "dialog opened again without need")
               \cup B(m.nsync = 0, "C09", "synchronisation before an anonymous dialog"))

LaterSend(m, e) ==
  B(m.ph = "open", "C02", "message outside an open dialog")
  \cup (IF m.ph # "open" THEN {} ELSE
     B(e.dlg = m.dlg, "C01", "dialog ID is not the one the bank assigned")
     \cup B(e.num = ToString(m.num + 1), "C01", "message number does not follow the previous one")
     \cup (IF ~e.enc THEN {} ELSE
           B("sys" \in m.wild \/ SysIds(e) \subseteq (IF m.kind = "sync" /\ ~m.syncOK THEN m.sys \cup {"0"} ELSE m.sys),
             "C03", "message does not carry the system ID in force"))
     \cup B(e.enc = (m.kind # "anoninit"), "C09", "message protection differs from the dialog's"))

BizSend(m, e) ==
  LET a == m.args[1] IN
  B(m.ph = "open", "C12", "business order outside an open dialog")
  \cup B(~m.fault, "C12", "business order after a failed exchange")
  \cup B(m.op \in BizOps /\ Len(e.biz) = 1, "C30", "not exactly one business order")
  \cup B(m.nbiz = 0 \/ m.more, "C12", "business order repeated")
  \cup B(m.nbiz = 0 \/ m.more, "C10", "page requested again")
  \cup B(e.endd = <<>> /\ e.idn = <<>>, "C30", "unexpected segments in a business message")
  \cup (IF m.op \notin BizOps \/ Len(e.biz) # 1 THEN {} ELSE
     LET o == e.biz[1]
         allowed == IF m.op \in VerOps THEN {Best(m.op, m.segs0), Best(m.op, m.segs)} \ {0}
                    ELSE IF m.op \in AnonOps THEN {3} ELSE {1}
         want == OrderEls(m.op, o.ver, a, m.cont, m.days)
     IN B(o.id = OrderId(m.op), "C30", "wrong kind of order")
        \cup B("bpd" \in m.wild \/ (o.ver \in allowed), "C11", "order is not sent in the highest common version")
        \cup B(o.id # OrderId(m.op) \/ o.els \in want, "C30", "order differs from what the caller asked for")
        \cup B(o.id # OrderId(m.op) \/ o.els \in want, "C15", "order fields differ from what the caller supplied")
        \cup B(o.id # OrderId(m.op) \/ m.op \notin PagedOps \/ o.els \in want, "C10", "page request does not repeat the order with the reference received"))

EndSend(m, e) ==
  B(e.endd = <<m.dlg>>, "C01", "dialog end names another dialog")
  \cup B(e.biz = <<>>, "C02", "dialog end with business segments")

OnSend(m, e) ==
  IF e.parse # "" \/ e.kind \notin KnownKinds
  THEN [Add(m, {[p |-> x, why |-> "transmitted message is malformed"] : x \in {"C14", "C15"}}) EXCEPT !.stop = "raw" \notin m.opt]
  ELSE
  LET common == Framing(m, e) \cup Texts(m, e) \cup Security(m, e)
                \cup B(~e.overlap, "C12", "two exchanges at the same time")
                \cup B(~e.late, "C12", "exchange after the call returned")
                \cup B(e.tnum = e.num, "C01", "trailer number differs from header number")
                \cup B(m.op \notin LocalOps, "C12", "exchange without need")
      spec == CASE e.kind \in OpeningKinds -> OpeningSend(m, e)
                [] e.kind \in {"biz", "anonbiz"} -> LaterSend(m, e) \cup BizSend(m, e)
                [] OTHER -> LaterSend(m, e) \cup EndSend(m, e)
      n == Add(m, common \cup spec)
      fns == IF e.sig # <<>> /\ e.sig[1].fn \in m.fns THEN {e.sig[1].fn} ELSE m.fns
  IN CASE e.kind = "sync" -> [n EXCEPT !.ph = "opening", !.kind = "sync", !.num = 1, !.nsync = @ + 1, !.fns = fns, !.syncOK = FALSE]
       [] e.kind \in {"init", "anoninit"} ->
            [n EXCEPT !.ph = "opening", !.kind = e.kind, !.num = 1, !.ninit = @ + 1, !.fns = fns,
                      !.sys = IF e.kind = "init" /\ SysIds(e) \cap m.sys # {} THEN SysIds(e) \cap m.sys ELSE @]
       [] e.kind \in {"biz", "anonbiz"} -> [n EXCEPT !.num = @ + 1, !.nbiz = @ + 1, !.more = FALSE, !.fns = fns]
       [] OTHER -> [n EXCEPT !.num = @ + 1, !.ph = "ending", !.fns = fns]

------------------------------------------------------------------------------
(* recv *)
Params(m, r) ==
  LET b == IF r.bpd = <<>> THEN m
           ELSE [m EXCEPT !.wild = @ \ {"bpd"}, !.bpdv = r.bpd[1].ver, !.segs = SegsOf(r), !.pins = r.bpd[1].pins, !.bank = r.bpd]
      u == IF r.upd = <<>> THEN b ELSE [b EXCEPT !.wild = @ \ {"upd"}, !.updv = r.upd[1].ver, !.user = r.upd[1].user, !.upd = r.upd]
  IN IF r.accts = <<>> THEN u ELSE [u EXCEPT !.wild = @ \ {"accts"}, !.accts = PAccts(r.accts)]

\* after a damaged reply nothing is known about what the client made of it
Wild(m) == [m EXCEPT !.wild = {"bpd", "upd", "accts", "fn", "sys"}, !.causes = {}, !.opt = @ \cup {"raw"}]

OpenRecv(m, e) ==
  LET r == e.r IN
  IF r.k = "raw" THEN Wild(m)
  ELSE IF ~Usable(r) THEN [m EXCEPT !.ph = "failed", !.fault = TRUE, !.causes = @ \cup {"fault"}]
  ELSE IF HasErr(r) THEN [m EXCEPT !.ph = "rejected", !.causes = @ \cup {"err"}, !.errs = Append(@, e.n)]
  ELSE LET p == [Params(m, r) EXCEPT !.ph = "open", !.dlg = r.dlg, !.segs0 = IF m.kind = "sync" THEN Params(m, r).segs ELSE m.segs]
           neg == m.kind # "anoninit" /\ Announces(r) /\ CommonFns(r) = {}
           f == IF m.kind # "anoninit" /\ Announces(r) /\ ~neg THEN [p EXCEPT !.fns = CommonFns(r), !.wild = @ \ {"fn"}] ELSE p
           g == IF neg THEN [f EXCEPT !.causes = @ \cup {"neg"}] ELSE f
       IN IF m.kind # "sync" THEN g
          ELSE IF r.sysid = <<>> THEN [g EXCEPT !.causes = @ \cup {"nosysid"}]
          ELSE IF neg THEN g
          ELSE [g EXCEPT !.wild = @ \ {"sys"}, !.sysOld = m.sys, !.sys = {r.sysid[1]}, !.syncOK = TRUE]

BizRecv(m, e) ==
  LET r == e.r IN
  IF r.k = "raw" THEN Wild(m)
  ELSE IF ~Usable(r) THEN [m EXCEPT !.fault = TRUE, !.causes = @ \cup {"fault"}]
  ELSE IF HasErr(r) THEN [m EXCEPT !.causes = @ \cup {"err"}, !.errs = Append(@, e.n)]
  ELSE LET c == AckParams(r, 3040)
           bad == m.op \in {"tx", "sepatx"} /\ \E i \in 1..Len(r.tx) : Range(r.tx[i].ids) \cap Unreadable # {}
           d == [m EXCEPT !.causes = IF bad THEN @ \cup {"unreadable"} ELSE @,
                          !.pages = Append(@, FlatSeq([i \in 1..Len(r.tx) |-> r.tx[i].ids])),
                          !.bals = Append(@, [i \in 1..Len(r.bals) |-> PBal(r.bals[i], m.op = "sepabal")]),
                          !.stats = @ \o [i \in 1..Len(r.stats) |-> PStat(r.stats[i])],
                          !.acks = PAckSeq(r, m.num),
                          !.opt = @ \cup (IF (m.op \in {"bal", "sepabal"} /\ r.bals = <<>>) \/ (m.op = "acctinfo" /\ r.kif = <<>>) THEN {"nodata"} ELSE {})]
       IN IF c = <<>> \/ m.op \notin PagedOps THEN d
          ELSE IF c[1] = <<>> THEN [d EXCEPT !.opt = @ \cup {"badcont"}]
          ELSE [d EXCEPT !.more = TRUE, !.cont = c[1][1]]

EndRecv(m, e) ==
  IF e.r.k = "raw" THEN Wild(m) ELSE
  LET failed == ~Usable(e.r) \/ HasErr(e.r) IN
  [m EXCEPT !.ph = "closed",
            !.opt = IF failed /\ m.kind = "sync" THEN @ \cup {"syncend"} ELSE @,
            !.sys = IF failed /\ m.kind = "sync" /\ m.syncOK THEN m.sys \cup m.sysOld ELSE @]

OnRecv(m, e) ==
  CASE e.kind \in OpeningKinds -> OpenRecv(m, e)
    [] e.kind \in {"biz", "anonbiz"} -> BizRecv(m, e)
    [] OTHER -> EndRecv(m, e)

------------------------------------------------------------------------------
(* ret *)
NoVersion(m) == m.op \in VerOps /\ ("bpd" \in m.wild \/ Best(m.op, m.segs) = 0 \/ Best(m.op, m.segs0) = 0) /\ (m.nbiz = 0 \/ m.more)

\* pages of uniquely identified entries: everything once, each page in order
PagesOK(res, pages) ==
  LET all == FlatSeq(pages) IN
  /\ Len(res) = Len(all)
  /\ Range(res) = Range(all)
  /\ \A i \in 1..Len(pages) : Select(res, Range(pages[i])) = pages[i]

Result(m, e) ==
  LET r == e.res IN
  CASE m.op = "accounts" ->
         LET got == PAccts(r.accts) IN
         B("accts" \in m.wild \/ (got = m.accts), "C06", "account list differs from the bank's latest")
         \cup B("accts" \in m.wild \/ (Len(got) # Len(m.accts) \/ \A i \in 1..Len(got) : AcctTexts(got[i]) = AcctTexts(m.accts[i])), "C16", "account texts differ from the bank's")
    [] m.op \in {"tx", "sepatx"} ->
         B(~m.more, "C10", "pages left unfetched")
         \cup B(PagesOK(r.tx, m.pages), "C10", "transactions of the pages are not all returned once, in order")
    [] m.op = "sepabal" ->
         B(~m.more, "C10", "pages left unfetched")
         \cup B(PagesOK(RBals(r.bals), m.bals), "C10", "balances of the pages are not all returned once, in order")
         \cup B(Len(m.bals) # 1 \/ RBals(r.bals) = m.bals[1], "C23", "balances differ from what the bank sent")
    [] m.op = "bal" -> B(RBals(r.bals) = FlatSeq(m.bals), "C23", "balances differ from what the bank sent")
    [] m.op = "status" -> B([i \in 1..Len(r.stats) |-> RStat(r.stats[i])] = m.stats, "C24", "status entries differ from what the bank sent")
    [] m.op = "sync" -> B("sys" \in m.wild \/ (r.sysid \in m.sys), "C03", "returned system ID is not the one issued")
    [] m.op \in {"sendkif", "anonkom"} -> B([i \in 1..Len(r.acks) |-> RAck(r.acks[i])] = m.acks, "C16", "acknowledgements differ from what the bank sent")
    [] OTHER -> {}

Snapshot(m, s) ==
  B(("bpd" \in m.wild \/ s.bpdv = m.bpdv) /\ ("upd" \in m.wild \/ s.updv = m.updv), "C05", "reported parameter versions are not the latest received")
  \cup B("sys" \in m.wild \/ (s.sysid \in m.sys), "C03", "reported system ID is not the one in force")
  \cup B("bpd" \in m.wild \/ (Len(s.segs) = Len(m.segs) /\ Range(s.segs) = Range(m.segs)), "C29", "supported orders differ from those announced")
  \cup B("bpd" \in m.wild \/ (Len(s.pins) = Len(m.pins) /\ Range(s.pins) = Range(m.pins)), "C29", "TAN requirements differ from those announced")
  \cup B("accts" \in m.wild \/ (PAccts(s.accts) = m.accts), "C06", "account list differs from the bank's latest")
  \cup (IF m.bank = <<>> \/ "bpd" \in m.wild THEN {} ELSE
        LET b == m.bank[1] IN
        B(s.bank.ver = b.ver /\ s.bank.bank = b.bank /\ s.bank.country = b.country /\ s.bank.maxtx = b.maxtx /\ s.bank.maxsize = b.maxsize
          /\ (b.sv < 3 \/ (s.bank.mint = b.mint /\ s.bank.maxt = b.maxt)), "C29", "bank parameters differ from those announced")
        \cup B(s.bank.name = b.name, "C29", "bank name differs from the one announced")
        \cup B(s.bank.name = b.name, "C16", "bank name differs from what the bank sent"))
  \cup (IF m.upd = <<>> \/ "upd" \in m.wild THEN {} ELSE
        LET u == m.upd[1] IN
        B(s.upd.ver = u.ver /\ s.upd.user = u.user /\ s.upd.usage = u.usage, "C05", "user parameters differ from those received")
        \cup B(s.upd.user = u.user /\ (u.sv < 3 \/ (s.upd.name = u.name /\ s.upd.ext = u.ext)), "C16", "user parameter texts differ from what the bank sent"))

OnRet(m, e) ==
  LET nov == NoVersion(m)
      excuse == m.causes # {} \/ m.opt # {} \/ nov
      must == m.causes
      bads ==
        B(e.panic = "" /\ ~e.timeout, "C18", "the call panics or hangs")
        \cup B(e.leak = <<>>, "C08", "PIN in error, result, log or output")
        \cup B(m.ph # "open", "C02", "dialog not ended before the call returns")
        \cup (IF "kept" \in DOMAIN e THEN {[p |-> x, why |-> "a result handed out earlier has changed"] : x \in Range(e.kept)} ELSE {})
        \cup (IF e.panic # "" \/ e.timeout THEN {} ELSE
              (IF e.ok
               THEN B("err" \notin must, "C04", "call succeeds although the bank reported an error")
                    \cup B("fault" \notin must, "C12", "call succeeds although an exchange failed")
                    \cup B("neg" \notin must, "C07", "call succeeds without a common security function")
                    \cup B("unreadable" \notin must, "C10", "call succeeds although a statement could not be read")
                    \cup B("nosysid" \notin must, "C03", "call succeeds although the bank issued no system ID")
                    \cup B(~nov \/ m.op \notin VerOps \/ must # {}, "C11", "call succeeds without a common version")
                    \cup B(m.op \notin BizOps \/ m.nbiz > 0, "C12", "call succeeds without delivering its order")
                    \cup (IF must = {} /\ "rows" \notin DOMAIN e THEN Result(m, e) ELSE {})
               ELSE B(m.op \in LocalOps \/ excuse, "C04", "call fails although the bank reported no error")
                    \cup B(e.res.none, "C04", "failed call returns a result")
                    \cup B(e.res.none \/ m.op \notin PagedOps, "C10", "failed call returns a partial result")
                    \cup B(m.op = "accounts" \/ m.errs = <<>> \/ "fault" \in must \/ m.errs[1] \in Range(e.errhas),
                           "C04", "the error does not name the bank's error codes and texts"))
              \cup (IF e.snap # <<>> /\ "raw" \notin m.opt THEN Snapshot(m, e.snap[1]) ELSE {}))
  IN [Add(m, bads) EXCEPT !.ph = "idle", !.fault = FALSE, !.stop = m.stop \/ e.panic # "" \/ e.timeout]

Step0(m, e) ==
       CASE e.ev = "call" -> OnCall(m, e)
         [] e.ev = "send" -> OnSend(m, e)
         [] e.ev = "recv" -> OnRecv(m, e)
         [] e.ev = "ret" -> OnRet(m, e)
         [] e.ev = "setup" -> Add(m, {[p |-> "C26", why |-> "a valid configuration is rejected"]})

\* During a call that met a damaged reply only containment counts; in the calls after it everything does,
\* and whatever is wrong then shows that the damaged reply confused the client.
Step(m, e) ==
  IF m.stop THEN m
  ELSE LET n == Step0(m, e)
           new == n.bad \ m.bad
           keep == IF "raw" \in n.opt THEN {b \in new : b.p \in {"C18", "C08"}}
                   ELSE IF n.damaged THEN new \cup {[p |-> "C18", why |-> "after a damaged reply: " \o b.why] : b \in new}
                   ELSE new
       IN [n EXCEPT !.bad = m.bad \cup keep]

================================================================================
