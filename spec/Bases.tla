---------------------------------- MODULE Bases ----------------------------------
(***************************************************************************)
(* Rich and correct conversations, one for every operation, that serve as  *)
(* the starting point of systematic variations: Damage (C18), Unknown      *)
(* (C19).                                                                  *)
(***************************************************************************)
EXTENDS BankMenu

CONSTANT Small \* fewer base conversations and values

Acc(id) == [id |-> id, sub |-> "", country |-> 280, bank |-> "10000000", iban |-> "DE02100000000012345678", bic |-> "GENODEF1X"]
A0 == [acct |-> Acc("12345678"), all |-> FALSE, from |-> "", to |-> "", tz |-> 0, max |-> 0, cont |-> "", pin |-> "", sysid |-> "", fn |-> ""]
AS == [A0 EXCEPT !.from = "20150101", !.to = "20160301"]
Base(name, api, ver, op, sync, init, biz, end) ==
  [name |-> name, api |-> api, ver |-> ver, op |-> op, args |-> IF op = "status" THEN AS ELSE A0,
   bank |-> [sync |-> sync, init |-> init, biz |-> biz, end |-> end]]

\* rich and correct conversations
Big == [A(<<OkAck, Info, WarnS, Fns(<<"901", "902">>)>>) EXCEPT !.sysid = <<"SYSB">>, !.bpd = <<BPDC>>, !.upd = <<UPDB>>, !.accts = <<Acct2, Acct1, Acct3>>, !.tans = <<"902", "903">>,
          !.ann = <<[subj |-> "Hinweis", body |-> "Text"]>>,
          !.unk = <<"HISHV:20:3:4+J+RDH:1:2:3+DDV:2", "HIKPV:21:1:4+0+1", "HIKOM:22:4:4+280:10000000+1+3:https?://bank.example/fints+2:bank.example::MIM:1", "HITANS:23:4:4+1+1+1+J:N:0:0:942:2:MTAN2:mobileTAN::mobile TAN:6:1:SMS:3:1:J:1:0:N:0:2:N:J:00:1:1">>]
BigU == [UPDB EXCEPT !.sv = 4]
S0 == A(<<OkAck>>)
Sys == [A(<<OkAck>>) EXCEPT !.sysid = <<"SYSA">>, !.bpd = <<BPDC>>]
Upd == [A(<<OkAck, WarnS, Fns(<<"901", "902">>)>>) EXCEPT !.bpd = <<BPDB>>, !.upd = <<UPDC>>, !.accts = <<Acct1, Acct2>>, !.tans = <<"901">>]
TxPage == [A(<<OkAck, Cont("seg", "ref1")>>) EXCEPT !.tx = <<[sv |-> 7, ids |-> <<"301", "302">>], [sv |-> 5, ids |-> <<>>]>>]
TxLast == [A(<<OkAck>>) EXCEPT !.tx = <<[sv |-> 6, ids |-> <<"401">>]>>]
TanResp == [A(<<OkAck>>) EXCEPT !.unk = <<"HITAN:5:6:4+4++noref+nochallenge", "HIKIF:6:4:3+x+y">>, !.kif = <<"I">>]
MBal(sv) == [A(<<OkAck, WarnS>>) EXCEPT !.bals = <<[Bal(sv, "2221") EXCEPT !.seizable = IF sv = 8 THEN <<[cd |-> "C", val |-> "1139.99", cur |-> "EUR"]>> ELSE <<>>], BalMin(sv, "3")>>]
MStat(sv) == [A(<<OkAck>>) EXCEPT !.stats = <<Stat(sv, <<4>>, 10, "Text eins"), Stat(sv, <<>>, 9050, "zwei")>>]
\* every other segment the library knows, with everything a bank can say in it
Known == [A(<<OkAck>>) EXCEPT !.sysid = <<"SYSK">>, !.bpd = <<BPDC>>,
            !.unk = <<"HNSHK:20:4+PIN:1+999+4444+1+1+2:@3@abc:0+1+1:20150101:101010+1:999:1:@3@abc+6:10:16+280:1:bank:S:0:0+1:@3@abc",
                      "HNSHK:21:3+999+4445+1+1+2::0+1+1:20150101:101010+1:999:1+6:10:16+280:1:bank:S:0:0+3:@4@a'+:",
                      "HNVSK:22:3+PIN:1+998+1+2:@3@abc:0+1:20150101:101010+2:2:13:@8@abcdefgh:5:1:@2@ab+280:1:bank:V:0:0+0+1:@3@abc",
                      "HNVSK:23:2+998+1+1::0+1:20150101:101010+2:2:13:@8@abcdefgh:5:1:@2@ab+280:1:bank:V:0:0+0+2:@3@abc",
                      "HIKOM:24:3:4+280:10000000+1+3:https?://bank.example/fints+2:bank.example::MIM:1",
                      "HIKIF:25:1:3+123::280:10000000+1+N1+N2+Giro+EUR+20150101+1,5+2,+3,25+1000,:EUR+124::280:10000000+1+2+Text+1:a?:b+2:c",
                      "HITAN:26:6:4+4+@20@01234567890123456789+ref1+Bitte TAN+@4@hhd1+20150101:101010+Handy", "HIKPV:27:1:4+0+1+2", "HISHV:28:2:4+J+RDH:1:2:3+DDV:2",
                      "HNSHA:29:1+4445+@3@abc+12345:1", "HNSHA:30:2+4444+@3@abc+12345:1">>]
Errs == A(<<ErrM, ErrS2>>)

V(s) == IF Small THEN {300} ELSE s
Bases ==
  {Base("accounts", "client", v, "accounts", <<Big>>, <<Upd>>, <<>>, <<>>) : v \in V({300, 220})}
  \cup {Base("known", "dialog", 300, "sync", <<Known>>, <<>>, <<>>, <<S0>>)}
  \cup {Base("dsync", "dialog", v, "sync", <<Big>>, <<>>, <<>>, <<S0>>) : v \in V({220})}
  \cup {Base("daccounts", "dialog", 300, "accounts", <<Sys>>, <<[Upd EXCEPT !.upd = <<BigU>>, !.accts = <<[Acct2 EXCEPT !.sv = 5]>>]>>, <<>>, <<S0>>)}
  \cup {Base("sepatx", "client", v, "sepatx", <<Sys>>, <<S0>>, <<TxPage, TxLast>>, <<S0>>) : v \in V({300})}
  \cup {Base("sepabal8", "client", v, "sepabal", <<Sys>>, <<>>, <<MBal(8)>>, <<>>) : v \in V({300, 220})}
  \cup {Base("sepabal7", "client", 300, "sepabal", <<[Sys EXCEPT !.bpd[1].segs = <<SV("HISALS", 7)>>]>>, <<>>, <<MBal(7)>>, <<>>)}
  \cup {Base("bal6", "client", 300, "bal", <<Sys>>, <<>>, <<MBal(6)>>, <<>>), Base("bal5", "client", 220, "bal", <<[Sys EXCEPT !.bpd[1].segs = <<SV("HISALS", 5)>>]>>, <<>>, <<MBal(5)>>, <<>>)}
  \cup {Base("status4", "client", 300, "status", <<Sys>>, <<>>, <<MStat(4)>>, <<>>), Base("status3", "client", 220, "status", <<[Sys EXCEPT !.bpd[1].segs = <<SV("HIPROS", 3)>>]>>, <<>>, <<MStat(3)>>, <<>>)}
  \cup {Base("acctinfo", "client", 300, "acctinfo", <<Sys>>, <<>>, <<TanResp>>, <<>>)}
  \cup {Base("sendkif", "dialog", 300, "sendkif", <<Sys>>, <<Upd>>, <<TanResp>>, <<S0>>)}
  \cup {Base("commaccess", "client", 300, "commaccess", <<>>, <<[S0 EXCEPT !.bpd = <<BPDB>>]>>, <<[S0 EXCEPT !.unk = <<"HIKOM:5:3:3+280:10000000+1+3:https?://bank.example/fints+2:bank.example::MIM:1">>]>>, <<S0>>)}
  \cup {Base("anonkom", "dialog", 220, "anonkom", <<>>, <<[S0 EXCEPT !.bpd = <<BPDA>>]>>, <<S0>>, <<S0>>)}
  \cup {Base("tx", "client", 220, "tx", <<Sys>>, <<>>, <<TxPage, Errs>>, <<>>)}
  \cup {Base("errsync", "client", 300, "accounts", <<[Errs EXCEPT !.plain = TRUE]>>, <<>>, <<>>, <<>>), Base("errbiz", "client", 300, "acctinfo", <<Sys>>, <<S0>>, <<Errs>>, <<S0>>)}

\* the exchange hit: queue and index of a scripted reply
Exchanges(base) == UNION {{[q |-> q, i |-> i] : i \in 1..Len(base.bank[q])} : q \in {"sync", "init", "biz", "end"}}
================================================================================
