-------------------------------- MODULE BankMenu --------------------------------
(***************************************************************************)
(* What the adversarial bank may answer: named reply descriptors used by   *)
(* the exhaustive exploration, and random compositions of the same         *)
(* ingredients used by simulation.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

R0 == [k |-> "ok", dlg |-> "", acks |-> <<>>, bpd |-> <<>>, upd |-> <<>>, accts |-> <<>>, sysid |-> <<>>, tans |-> <<>>, ann |-> <<>>,
       tx |-> <<>>, bals |-> <<>>, stats |-> <<>>, kif |-> <<>>, unk |-> <<>>, ins |-> <<>>, perm |-> 0, plain |-> FALSE, raw |-> "", dmg |-> <<>>]

Ack(lvl, code, text) == [lvl |-> lvl, code |-> code, text |-> text, params |-> <<>>, ref |-> "", seg |-> IF lvl = "seg" THEN 3 ELSE 0]
AckP(lvl, code, text, ps) == [Ack(lvl, code, text) EXCEPT !.params = ps]
AckR(lvl, code, text, ref, seg) == [Ack(lvl, code, text) EXCEPT !.ref = ref, !.seg = seg]
OkAck == Ack("msg", 10, "Nachricht entgegengenommen.")
Warn == Ack("msg", 3060, "Bitte beachten Sie die enthaltenen Warnungen/Hinweise.")
WarnS == AckR("seg", 3076, "Keine starke Authentifizierung erforderlich.", "1,2", 4)
Info == Ack("msg", 100, "Dialog beendet: Gr\"u+ss:e 'hier'? @3@")
ErrM == Ack("msg", 9050, "Die Nachricht enth" \o "ält Fehler.")
ErrS == AckR("seg", 9210, "Auftrag abgelehnt: 'Konto?' + @Limit", "2,1", 3)
ErrS2 == AckR("seg", 9931, "PIN falsch, Zugang gesperrt.", "", 4)
Err9000 == Ack("msg", 9000, "Grenzfall")
Warn8999 == Ack("seg", 3999, "Hoechste Warnung")
Fns(ps) == AckP("seg", 3920, "Zugelassene Zwei-Schritt-Verfahren", ps)
FnsM(ps) == [Fns(ps) EXCEPT !.lvl = "msg", !.seg = 0]
Cont(lvl, ref) == AckP(lvl, 3040, "Es liegen weitere Informationen vor", <<ref>>)

SV(id, v) == [id |-> id, ver |-> v]
BPDA == [ver |-> 3, sv |-> 3, bank |-> "10000000", country |-> 280, name |-> "Testbank", maxtx |-> 3, maxsize |-> 0, mint |-> 1, maxt |-> 300,
         segs |-> <<SV("HISALS", 5), SV("HISALS", 7), SV("HIKAZS", 5), SV("HIKAZS", 6), SV("HIKAZS", 7), SV("HIPROS", 3), SV("HISPAS", 1)>>,
         pins |-> <<[id |-> "HKSAL", tan |-> FALSE], [id |-> "HKUEB", tan |-> TRUE]>>]
BPDB == [ver |-> 8, sv |-> 2, bank |-> "10000000", country |-> 280, name |-> "Bank + S" \o "öhne: ?'x@", maxtx |-> 1, maxsize |-> 900, mint |-> 0, maxt |-> 0,
         segs |-> <<SV("HISALS", 8), SV("HISALS", 6), SV("HIKAZS", 5), SV("HIPROS", 4)>>,
         pins |-> <<[id |-> "HKKAZ", tan |-> TRUE], [id |-> "HKSAL", tan |-> TRUE], [id |-> "HKCCS", tan |-> TRUE]>>]
\* everything announced only in versions the client does not implement, or under similar names
BPDN == [BPDA EXCEPT !.ver = 9, !.name = "Nichts", !.segs = <<SV("HISALS", 4), SV("HISALS", 9), SV("HIKAZS", 4), SV("HIKAZS", 8), SV("HIPROS", 2), SV("HICCSS", 1)>>, !.pins = <<>>]
BPDC == [BPDA EXCEPT !.ver = 12, !.sv = 3, !.name = "Alle", !.segs = <<SV("HIKAZS", 7), SV("HIKAZS", 9), SV("HIKAZS", 6), SV("HISALS", 8), SV("HISALS", 11), SV("HIPROS", 4), SV("HIPROS", 5), SV("HISALS", 7), SV("HIPROS", 3), SV("HISALS", 6), SV("HISALS", 5)>>,
         !.pins = <<[id |-> "HKSAL", tan |-> FALSE]>>]

UPDA == [ver |-> 4, sv |-> 2, user |-> "kunde1", usage |-> 0, name |-> "", ext |-> ""]
UPDB == [ver |-> 7, sv |-> 3, user |-> "k+2:'?@" \o "ä", usage |-> 1, name |-> "M" \o "üller + Söhne", ext |-> "a:b"]
UPDC == [ver |-> 2, sv |-> 4, user |-> "kunde3", usage |-> 0, name |-> "Kurz", ext |-> ""]

Tx(id, n, lim) == [id |-> id, sigs |-> n, limit |-> lim]
Lim(kind, amt, days) == [kind |-> kind, amt |-> amt, cur |-> "EUR", days |-> days]
Acct1 == [sv |-> 4, id |-> "12345678", sub |-> "", country |-> 280, bank |-> "10000000", user |-> "kunde1", cur |-> "EUR", n1 |-> "Muster", n2 |-> "Max",
          prod |-> "Giro", limit |-> <<>>, txs |-> <<Tx("HKSAL", 1, <<>>), Tx("HKKAZ", 1, <<>>)>>]
Acct2 == [sv |-> 6, id |-> "0012", sub |-> "EUR", country |-> 280, bank |-> "10000000", user |-> "k+2", cur |-> "EUR", n1 |-> "M" \o "ü+:'?@", n2 |-> "",
          prod |-> "", limit |-> <<Lim("E", "1000.5", 0)>>, txs |-> <<Tx("HKUEB", 2, <<>>)>>]
Acct3 == [sv |-> 5, id |-> "777", sub |-> "7", country |-> 280, bank |-> "20000000", user |-> "x", cur |-> "USD", n1 |-> "N1", n2 |-> "N2",
          prod |-> "P?", limit |-> <<Lim("Z", "20", 7)>>, txs |-> <<>>]
\* limits of zero: nothing may be spent, which is not the same as no limit
Acct0 == [Acct2 EXCEPT !.id = "0013", !.limit = <<Lim("E", "0", 0)>>, !.txs = <<Tx("HKUEB", 1, <<Lim("E", "0", 0)>>), Tx("HKDAE", 3, <<Lim("T", "999999999.99", 0)>>)>>]

Bal(sv, id) == [sv |-> sv, iban |-> IF sv >= 7 THEN "DE02100000000000" \o id ELSE "", bic |-> IF sv >= 7 THEN "GENODEF1X" ELSE "", acct |-> id, sub |-> "S1", country |-> 280,
           bank |-> "10000000", prod |-> "Sichteinlagen + mehr", cur |-> "EUR",
           booked |-> [cd |-> "C", val |-> "1000.15", cur |-> "EUR", date |-> "20150812", time |-> <<"101112">>],
           earmark |-> <<[cd |-> "D", val |-> "20.5", cur |-> "EUR", date |-> "20150813", time |-> <<>>]>>,
           credit |-> <<[cd |-> "C", val |-> "500", cur |-> "EUR"]>>, avail |-> <<[cd |-> "C", val |-> "1499.85", cur |-> "EUR"]>>,
           used |-> <<[cd |-> "C", val |-> "3", cur |-> "EUR"]>>, bdate |-> <<"20150811">>, btime |-> <<"231501">>, due |-> <<"20151231">>,
           seizable |-> <<>>]
BalMin(sv, id) == [Bal(sv, id) EXCEPT !.booked = [cd |-> "D", val |-> "1.25", cur |-> "EUR", date |-> "20160229", time |-> <<>>], !.earmark = <<>>, !.credit = <<>>,
           !.avail = <<>>, !.used = <<>>, !.bdate = <<>>, !.btime = <<>>, !.due = <<>>, !.prod = "Konto"]

Stat(sv, seg, code, text) == [sv |-> sv, dlg |-> "alt+dialog", num |-> 3, seg |-> seg, date |-> "20150102", time |-> "030405", code |-> code, ref |-> "1,2", text |-> text, params |-> <<"p1", "p+2">>]

------------------------------------------------------------------------------
A(acks) == [R0 EXCEPT !.acks = acks]
Faults == {"neterr", "timeout", "reset", "eof", "cuttmo", "http", "garbage", "empty", "trunc", "cut", "badb64", "nohead"}
FaultReplies == {[name |-> "F" \o k, r |-> [A(<<OkAck>>) EXCEPT !.k = k]] : k \in Faults}
N(name, r) == [name |-> name, r |-> r]

SyncMenu == {
  N("Smin", [A(<<OkAck>>) EXCEPT !.sysid = <<"SYSA">>]),
  N("Sfull", [A(<<OkAck, Info, WarnS, Fns(<<"901", "902">>)>>) EXCEPT !.sysid = <<"SYSB">>, !.bpd = <<BPDA>>, !.upd = <<UPDA>>, !.accts = <<Acct1>>, !.tans = <<"902", "903">>]),
  N("SbpdB", [A(<<Warn, OkAck>>) EXCEPT !.sysid = <<"S+C:'?">>, !.bpd = <<BPDB>>, !.upd = <<UPDB>>, !.accts = <<Acct2, Acct1>>]),
  N("Stans", [A(<<OkAck>>) EXCEPT !.sysid = <<"SYSD">>, !.bpd = <<BPDC>>, !.tans = <<"992", "910">>]),
  N("Snosys", A(<<OkAck>>)),
  N("Sneg", [A(<<OkAck, Fns(<<"901">>)>>) EXCEPT !.sysid = <<"SYSE">>, !.tans = <<"902">>]),
  N("Serr", A(<<ErrM, ErrS2>>)),
  N("SerrS", [A(<<OkAck, ErrS>>) EXCEPT !.sysid = <<"SYSF">>]),
  N("SerrP", [A(<<Err9000>>) EXCEPT !.plain = TRUE]) }

InitMenu == {
  N("Imin", A(<<OkAck>>)),
  N("IfnsM", [A(<<FnsM(<<"904", "902">>), OkAck>>) EXCEPT !.tans = <<"902", "905">>]),
  N("Ifull", [A(<<OkAck, WarnS>>) EXCEPT !.bpd = <<BPDB>>, !.upd = <<UPDB>>, !.accts = <<Acct2>>, !.ann = <<[subj |-> "Hinweis", body |-> "Wartung + mehr: 'heute'"]>>]),
  N("IbpdA", [A(<<Warn>>) EXCEPT !.bpd = <<BPDA>>]),
  N("IbpdN", [A(<<OkAck>>) EXCEPT !.bpd = <<BPDN>>]),
  N("Iupd", [A(<<OkAck>>) EXCEPT !.upd = <<UPDC>>]),
  N("Iaccts", [A(<<OkAck, Warn8999>>) EXCEPT !.accts = <<Acct1, Acct3, Acct2, Acct0>>, !.upd = <<UPDA>>]),
  N("Ifns", [A(<<OkAck, Fns(<<"999", "903", "902">>)>>) EXCEPT !.tans = <<"903">>]),
  N("Ifns2", [A(<<OkAck, Fns(<<"910", "902">>)>>) EXCEPT !.tans = <<"902", "910", "911">>, !.dlg = "D+1:'?@"]),
  N("Ineg", [A(<<OkAck, Fns(<<"999">>)>>) EXCEPT !.tans = <<"905">>]),
  N("Ierr", A(<<ErrM>>)),
  N("IerrS", A(<<Warn, ErrS, WarnS, ErrS2>>)),
  N("IerrP", [A(<<ErrM, ErrS2>>) EXCEPT !.plain = TRUE]) }

AnonMenu == {
  N("Amin", A(<<OkAck>>)),
  N("Abpd", [A(<<OkAck, Warn>>) EXCEPT !.bpd = <<BPDA>>]),
  N("AbpdB", [A(<<OkAck>>) EXCEPT !.bpd = <<BPDB>>, !.dlg = "A+1", !.ann = <<[subj |-> "x", body |-> "y"]>>]),
  N("Aerr", A(<<ErrM>>)),
  N("AerrS", A(<<OkAck, ErrS>>)) }

BizMenu(op) ==
  {N("Berr", A(<<ErrM>>)), N("BerrS", A(<<OkAck, Warn, ErrS, ErrS2>>)), N("BerrP", [A(<<Err9000>>) EXCEPT !.plain = TRUE]), N("Bnone", A(<<OkAck, Ack("seg", 3010, "Keine Umsatzdaten vorhanden")>>))} \cup
  CASE op \in {"tx", "sepatx"} -> {
         N("T1", [A(<<OkAck>>) EXCEPT !.tx = <<[sv |-> 6, ids |-> <<"101", "102">>]>>]),
         N("T2", [A(<<OkAck, WarnS>>) EXCEPT !.tx = <<[sv |-> 7, ids |-> <<"201">>], [sv |-> 5, ids |-> <<"202", "203">>]>>]),
         N("T3c", [A(<<OkAck, Cont("seg", "ref+1:'?")>>) EXCEPT !.tx = <<[sv |-> 6, ids |-> <<"301", "302">>]>>]),
         N("T4c", [A(<<Cont("msg", "R2"), OkAck>>) EXCEPT !.tx = <<[sv |-> 5, ids |-> <<"401">>]>>]),
         \* the same reference once more: a bank may keep it for the whole query
         N("T6c", [A(<<OkAck, Cont("seg", "ref+1:'?")>>) EXCEPT !.tx = <<[sv |-> 6, ids |-> <<"601", "602">>]>>]),
         N("T7", [A(<<OkAck>>) EXCEPT !.tx = <<[sv |-> 6, ids |-> <<"701", "!acct">>]>>]),
         N("T8c", [A(<<OkAck, Cont("seg", "R8")>>) EXCEPT !.tx = <<[sv |-> 6, ids |-> <<"!rest", "801">>]>>]),
         N("T5c", A(<<OkAck, Cont("seg", "leer@3@x")>>)),
         N("Tec", [A(<<Cont("seg", "R9"), ErrS>>) EXCEPT !.tx = <<[sv |-> 6, ids |-> <<"901">>]>>]) }
    [] op = "sepabal" -> {
         N("L1", [A(<<OkAck>>) EXCEPT !.bals = <<Bal(7, "1111"), BalMin(7, "1112")>>]),
         N("L2", [A(<<OkAck>>) EXCEPT !.bals = <<[Bal(8, "2221") EXCEPT !.seizable = <<[cd |-> "C", val |-> "1139.99", cur |-> "EUR"]>>]>>]),
         N("L3c", [A(<<Warn, Cont("seg", "S+1?:'")>>) EXCEPT !.bals = <<Bal(7, "3331")>>]),
         N("L5c", [A(<<OkAck, Cont("seg", "S+1?:'")>>) EXCEPT !.bals = <<Bal(7, "5551")>>]),
         N("L4c", [A(<<OkAck, Cont("msg", "S2")>>) EXCEPT !.bals = <<BalMin(8, "4441"), Bal(8, "4442")>>]) }
    [] op = "bal" -> {
         N("K1", [A(<<OkAck>>) EXCEPT !.bals = <<Bal(5, "1111"), BalMin(5, "1112")>>]),
         N("K2", [A(<<OkAck, Warn>>) EXCEPT !.bals = <<BalMin(6, "2221")>>]) }
    [] op = "status" -> {
         N("P1", [A(<<OkAck>>) EXCEPT !.stats = <<Stat(3, <<4>>, 10, "Text eins"), Stat(3, <<>>, 9050, "Fehler: 'zwei' + ?")>>]),
         N("P3", [A(<<OkAck>>) EXCEPT !.stats = <<Stat(3, <<4>>, 20, "zweimal"), Stat(3, <<4>>, 20, "zweimal")>>]),
         N("P2", [A(<<OkAck, Warn>>) EXCEPT !.stats = <<[Stat(4, <<2>>, 3010, "Dr" \o "ü") EXCEPT !.params = <<>>, !.date = "20161231", !.time = "235959"]>>]) }
    [] op \in {"acctinfo", "sendkif"} -> {
         N("Q1", [A(<<OkAck, AckR("seg", 3076, "Hinweis + '?:", "3,1", 4), AckP("seg", 20, "Auftrag ausgef" \o "ührt", <<"a", "b+c">>)>>) EXCEPT !.kif = <<"Info">>]),
         N("Q2", [A(<<Warn, Info, AckP("msg", 20, "x", <<"" \o "é:1", "2">>)>>) EXCEPT !.kif = <<"I+1">>]) }
    [] OTHER -> {N("C1", A(<<OkAck>>)), N("C2", A(<<OkAck, Warn, WarnS>>))}

EndMenu == { N("Eok", A(<<Info>>)), N("Eerr", A(<<ErrM>>)), N("EerrS", A(<<OkAck, ErrS>>)), N("Fneterr", [A(<<OkAck>>) EXCEPT !.k = "neterr"]),
             N("Ftimeout", [A(<<OkAck>>) EXCEPT !.k = "timeout"]), N("Fgarbage", [A(<<OkAck>>) EXCEPT !.k = "garbage"]) }

Menu(kind, op) == CASE kind = "sync" -> SyncMenu \cup FaultReplies
                    [] kind = "init" -> InitMenu \cup FaultReplies
                    [] kind = "anoninit" -> AnonMenu \cup FaultReplies
                    [] kind \in {"biz", "anonbiz"} -> BizMenu(op) \cup FaultReplies
                    [] OTHER -> EndMenu

------------------------------------------------------------------------------
(* random compositions, for simulation. z is any state-dependent value: an operator     *)
(* without it would be a constant, evaluated only once. TLCEval: draw only once.          *)
One(S) == RandomElement(S)
Chance(n) == RandomElement(1..n) = 1
TextPool == {"ok", "Auftrag entgegengenommen.", "", "a+b", "x:y", "it's", "what?", "??", "?+", "'", "@5@abc", "gr" \o "ün", "Zeile" \o " 2", "+", ":", "ende?'", "a?+b", "  ", "0", " vorn", "hinten ", "Ã¤", "Â§ 7"}
(* words of reserved and other characters of the repertoire, in any order *)
Frag == {"+", ":", "'", "?", "@", "a", "Z9", "ä", "ß", "@3@", "?+", "&", "-", ",", "ÿ", "0", "x y", "É", " ", "Ã¤"}
\* texts that look like decimal numbers with superfluous leading zeros are a known finding of C17
Clean(t) == IF t \in {"00,", "000,", "00,0"} THEN "0" ELSE t
RWord(z) == LET n == One(1..4) w == TLCEval([i \in 1..n |-> One(Frag)]) IN
            Clean(CASE n = 1 -> w[1] [] n = 2 -> w[1] \o w[2] [] n = 3 -> w[1] \o w[2] \o w[3] [] OTHER -> w[1] \o w[2] \o w[3] \o w[4])
RText(z) == IF Chance(2) THEN RWord(z) ELSE One(TextPool)
RWarn(z) == AckP(One({"msg", "seg"}), One({20, 100, 1040, 3000, 3060, 3076, 3999, 2999}), RText(z), One({<<>>, <<"p">>, <<RText(z), "q">>}))
RErr(z) == AckP(One({"msg", "seg"}), One({9000, 9010, 9210, 9800, 9942, 9999}), RWord(z), One({<<>>, <<RText(z)>>}))
\* HIRMG comes first on the wire and the acknowledgements of one segment travel together
SortAcks(s) == LET M(a) == a.lvl = "msg" S(a) == a.lvl = "seg" IN SelectSeq(s, M) \o SelectSeq(s, S)
RAcks(z) == LET n == One(0..3) IN TLCEval(<<OkAck>> \o [i \in 1..n |-> RWarn(z)])
RSegs(z) == LET pool == {"HISALS", "HIKAZS", "HIPROS", "HIKIFS", "HICCSS", "HISALX"}
             n == One(0..8)
             s == TLCEval([i \in 1..n |-> SV(One(pool), One(1..12))])
         IN s
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE LET t == Dedup(Tail(s)) IN IF \E i \in 1..Len(t) : t[i] = Head(s) THEN t ELSE <<Head(s)>> \o t
RUpd(z) == IF Chance(2) THEN <<>> ELSE <<[One({UPDA, UPDB, UPDC}) EXCEPT !.ver = One({0, 1, 3, 99})]>>
RAcct(z) == LET a == One({Acct1, Acct2, Acct3, Acct0}) IN
         [a EXCEPT !.sv = One(4..6), !.n1 = RWord(z), !.n2 = RText(z), !.prod = RText(z), !.id = One({"1", "0001", "99887766", "a+b"}), !.user = One({"u1", "u+2", "u?", "Ã¼1"}),
                   !.limit = One({<<>>, <<Lim("E", "5", 0)>>, <<Lim("Z", "12.34", 30)>>, <<Lim("T", "0.01", 0)>>, <<Lim("E", "0", 0)>>, <<Lim("Z", "0", 365)>>, <<Lim("M", "123456789.01", 0)>>}),
                   !.txs = One({<<>>, <<Tx("HKSAL", 1, <<>>)>>, <<Tx("HKLAS", 1, <<Lim("E", "0", 0)>>)>>,  <<Tx("HKUEB", 2, <<Lim("E", "99.5", 0)>>), Tx("HKDAE", 1, <<Lim("Z", "7", 3)>>), Tx("HKKAZ", 0, <<>>)>>})]
RAccts(z) == IF Chance(3) THEN <<>> ELSE LET n == One(1..3) IN TLCEval([i \in 1..n |-> RAcct(z)])
FnPool == {"900", "901", "902", "910", "942", "990", "997"}
RFns(z) == One(SUBSET FnPool \ {{}})
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == One(S) IN <<x>> \o SeqOf(S \ {x})
\* mostly every order is possible in some version: a client that knows of none would not ask any more
RichSegs(z) == SeqOf(TLCEval({SV("HISALS", One({5, 6})), SV("HISALS", One({7, 8})), SV("HIKAZS", One({5, 6})), SV("HIKAZS", 7), SV("HIPROS", One({3, 4}))} \cup LET s == RSegs(z) IN {s[i] : i \in 1..Len(s)}))
RBpd(z) == LET x == One(1..24) b == One({BPDA, BPDB, BPDC}) IN
           CASE x <= 8 -> <<>>
             [] x <= 11 -> <<b>>
             [] x = 12 -> <<BPDN>>
             [] x = 13 -> <<[b EXCEPT !.segs = Dedup(TLCEval(RSegs(z))), !.ver = One({1, 5, 77}), !.name = RWord(z)]>>
             [] OTHER -> <<[b EXCEPT !.segs = RichSegs(z), !.ver = One({1, 5, 77, 999}), !.name = RWord(z)]>>
RUnk(z) == IF Chance(3) THEN <<"HIXYZ:9:1+x+y:z+@4@a'b+">> ELSE <<>>
ROpen(z, kind) ==
  LET base == [A(RAcks(z)) EXCEPT !.bpd = RBpd(z), !.upd = IF kind = "anoninit" THEN <<>> ELSE RUpd(z), !.accts = IF kind = "anoninit" THEN <<>> ELSE RAccts(z),
                               !.unk = RUnk(z), !.perm = One({0, 0, 1, 2, 3}), !.dlg = IF Chance(3) THEN One({"0012", "00", "D-1/x", " D ", "+1", "@2@", "d1", "Ä:1", "12345678901234567890"}) ELSE "", !.ann = IF Chance(4) THEN <<[subj |-> RText(z), body |-> RText(z)]>> ELSE <<>>]
      f == IF kind = "anoninit" \/ Chance(2) THEN base
           ELSE LET common == One(FnPool) IN
                [base EXCEPT !.acks = @ \o <<IF Chance(3) THEN FnsM(SeqOf(RFns(z) \cup {common})) ELSE Fns(SeqOf(RFns(z) \cup {common}))>>, !.tans = SeqOf(RFns(z) \cup {common})]
  IN IF kind = "sync" THEN [f EXCEPT !.sysid = <<One({"S1", "S2", "SYS+3", "x?:'y", "00"})>>] ELSE f
(* most answers are short, some have very many pages *)
More(n) == IF n < 4 THEN One(1..5) <= 3 ELSE n < 45 /\ ~Chance(32)
RBiz(z, op, n) ==
  LET ids(b) == LET k == One(0..3) IN TLCEval([i \in 1..k |-> ToString(1000 * n + 100 * b + i)]) \o (IF k > 0 /\ Chance(4) THEN <<ToString(1000 * n + 100 * b + k)>> ELSE <<>>)
                \o (IF Chance(24) /\ op \in {"tx", "sepatx"} THEN <<One({"!acct", "!close", "!date", "!amount", "!garbage", "!detail", "!rest"})>> ELSE <<>>)
      \* now and then the reference just quoted, again
      cont == IF op \in {"tx", "sepatx", "sepabal"} /\ More(n) THEN <<Cont(One({"msg", "seg"}), IF z[1].cont # "" /\ Chance(3) THEN z[1].cont ELSE One({"R" \o ToString(n), "r+" \o ToString(n), "?:'@", "4711", " r" \o ToString(n), "R" \o ToString(n) \o "  ", "0" \o ToString(n), "Ä" \o ToString(n), RWord(z)}))>> ELSE <<>>
      a == A(RAcks(z) \o cont)
      val(y) == One({"0", "0", "0.01", "1", "0.5", "10", "99.9", "100", "123456.78", "1000000000", "7.07"})
      amt(x) == IF x = <<>> \/ Chance(3) THEN <<>> ELSE <<[x[1] EXCEPT !.val = val(x), !.cur = One({"EUR", "EUR", "USD"})]>>
      day(x) == One({"20150811", "20160229", "20201231", "20210101", "19991231", "20380119"})
      clock(x) == One({<<>>, <<"000000">>, <<"000001">>, <<"235959">>, <<"120000">>, <<"090807">>})
      bal(sv, i) == LET b == IF Chance(4) THEN BalMin(sv, ToString(1000 * n + i)) ELSE Bal(sv, ToString(1000 * n + i)) IN
                    [b EXCEPT !.booked = [cd |-> One({"C", "D"}), val |-> val(b), cur |-> One({"EUR", "CHF"}), date |-> day(b), time |-> clock(b)], !.prod = RWord(z), !.sub = One({"", "EUR", "s+"}),
                              !.earmark = IF @ = <<>> \/ Chance(3) THEN <<>> ELSE <<[cd |-> One({"C", "D"}), val |-> val(b), cur |-> "EUR", date |-> day(b), time |-> clock(b)]>>,
                              !.credit = amt(@), !.avail = amt(@), !.used = amt(@), !.bdate = IF @ = <<>> \/ Chance(4) THEN <<>> ELSE <<day(b)>>, !.btime = IF @ = <<>> THEN <<>> ELSE clock(b),
                              !.due = IF @ = <<>> \/ Chance(3) THEN <<>> ELSE <<day(b)>>,
                              !.seizable = IF sv < 8 \/ Chance(2) THEN <<>> ELSE <<[cd |-> "C", val |-> val(b), cur |-> "EUR"]>>]
      r == CASE op \in {"tx", "sepatx"} -> [a EXCEPT !.tx = LET k == One(0..2) IN TLCEval([b \in 1..k |-> [sv |-> One(5..7), ids |-> ids(b)]])]
             [] op = "bal" -> [a EXCEPT !.bals = LET k == One(1..3) IN TLCEval([i \in 1..k |-> bal(One({5, 6}), i)])]
             [] op = "sepabal" -> [a EXCEPT !.bals = LET k == One(1..3) IN TLCEval([i \in 1..k |-> bal(One({7, 8}), i)])]
             [] op = "status" -> [a EXCEPT !.stats = LET k == One(0..3) IN TLCEval([i \in 1..k |-> [Stat(One({3, 4}), One({<<>>, <<3>>}), One({10, 3010, 9050}), RText(z)) EXCEPT !.params = One({<<>>, <<RText(z), "z">>}), !.time = One({"000000", "235959", "120000"})]])]
             [] op \in {"acctinfo", "sendkif"} -> [a EXCEPT !.kif = <<RText(z)>>]
             [] OTHER -> a
      \* two entries may well say the same
      twice(s) == IF s # <<>> /\ Chance(4) THEN Append(s, s[Len(s)]) ELSE s
  IN [r EXCEPT !.stats = twice(@), !.bals = twice(@), !.unk = RUnk(z), !.perm = One({0, 0, 1, 2})]
RErrReply(z) == [A(SortAcks(<<RErr(z)>> \o (IF Chance(2) THEN <<RWarn(z), RErr(z)>> ELSE <<>>))) EXCEPT !.plain = Chance(3)]
RFault(z) == [A(<<OkAck>>) EXCEPT !.k = One(Faults)]
RReply(z, kind, op, n) ==
  \* a long answer is not to be cut short by a fault too soon
  LET x == IF n > 4 THEN One(1..500) ELSE One(1..26) IN
  IF x = 1 THEN RErrReply(z)
  ELSE IF x = 2 THEN RFault(z)
  ELSE IF x = 3 THEN One(Menu(kind, op)).r
  ELSE CASE kind = "init" /\ n > 4 /\ ~Chance(20) -> [A(<<OkAck>>) EXCEPT !.unk = RUnk(z)]
         [] kind \in {"sync", "init", "anoninit"} -> [ROpen(z, kind) EXCEPT !.acks = SortAcks(@)]
         [] kind \in {"biz", "anonbiz"} -> LET r == RBiz(z, op, n) IN [r EXCEPT !.acks = SortAcks(@)]
         [] OTHER -> A(<<Info>>)
================================================================================
