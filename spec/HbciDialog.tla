------------------------------- MODULE HbciDialog -------------------------------
(***************************************************************************)
(* The design: the dialog layer of one client (client operations, PIN/TAN  *)
(* dialog, synchronisation, security function negotiation, paging) against *)
(* a bank that may answer anything in BankMenu at every exchange, or       *)
(* nothing usable at all. One action per exchange, as in the code          *)
(* (dialog.request); the client's own state is cl, its control state cs.   *)
(*                                                                         *)
(* m is the property monitor, fed with the very events the code is         *)
(* recorded with; Good is the conjunction of all dialog properties.        *)
(* h is the history of the environment's choices: a scenario that is       *)
(* replayed against the real code.                                         *)
(*                                                                         *)
(* Mut plants a defect into the design; it is used to show that the        *)
(* monitor notices.                                                        *)
(***************************************************************************)
EXTENDS HbciMonitor, BankMenu, Json, IOUtils

CONSTANTS Api,      \* "client" | "dialog"
          Ver,      \* 220 | 300
          Ops,      \* operations the user may call
          MaxCalls,
          Rand,     \* TRUE: random compositions (simulation), FALSE: the named menu
          Emit,     \* print scenarios
          Mut

VARIABLES cl, cs, m, h
vars == <<cl, cs, m, h>>

FixedCfg == [api |-> Api, ver |-> Ver, bank |-> "10000000", user |-> IF Ver = 300 THEN "benutzer1" ELSE "b+2:'?", pin |-> IF Ver = 300 THEN "geheimPIN7" ELSE "Pi+n:'?@9",
        prod |-> IF Ver = 300 THEN "PRODUKT" ELSE "P+R?", prodv |-> "1.0", url |-> "https://bank.example/fints", debug |-> FALSE]

\* random configurations: any text as user, product and PIN (the PIN keeps a mark by which it is recognised wherever it appears)
Long(z) == IF Chance(4) THEN "0123456789-abcdefghijklmnopqrstuvwxyz-ABCDEFGHIJ" ELSE ""
RCfg(z) == [FixedCfg EXCEPT !.bank = One({"10000000", "37040044"}), !.user = RWord(z), !.pin = "pX7" \o RWord(z) \o Long(z), !.prod = RWord(z), !.prodv = RWord(z)]
Cfg == m.cfg

AcctArgs == {[id |-> "12345678", sub |-> "", country |-> 280, bank |-> "10000000", iban |-> "DE02100000000012345678", bic |-> "GENODEF1X"],
             [id |-> "00+1?", sub |-> "E:UR'", country |-> 280, bank |-> "20000000", iban |-> "DE89370400440532013000", bic |-> "COBADEFFXXX"]}
A0 == [acct |-> [id |-> "", sub |-> "", country |-> 0, bank |-> "", iban |-> "", bic |-> ""], all |-> FALSE, from |-> "", to |-> "", tz |-> 0, max |-> 0,
       cont |-> "", pin |-> "", sysid |-> "", fn |-> ""]
ArgsFull(op) ==
  CASE op \in {"tx", "sepatx"} -> {[A0 EXCEPT !.acct = a, !.all = b, !.from = f, !.to = t, !.tz = z, !.cont = c] :
                                    a \in AcctArgs, b \in BOOLEAN, f \in {"", "20150101", "20160229"}, t \in {"", "20160301", "20151231"}, z \in {0, 13, -11}, c \in {"", "start+1:'?"}}
    [] op = "sepabal" -> {[A0 EXCEPT !.acct = a, !.all = b, !.cont = c] : a \in AcctArgs, b \in BOOLEAN, c \in {"", "s?+1"}}
    [] op \in {"bal", "acctinfo", "sendkif"} -> {[A0 EXCEPT !.acct = a, !.all = b] : a \in AcctArgs, b \in BOOLEAN}
    [] op = "status" -> {[A0 EXCEPT !.from = f, !.to = t, !.tz = z, !.max = x, !.cont = c] :
                          f \in {"20150101", "20160229"}, t \in {"20160301", "20151231"}, z \in {0, 13, -11}, x \in {0, 5, 9999}, c \in {"", "c'+?"}}
    [] op \in {"commaccess", "anonkom"} -> {[A0 EXCEPT !.acct = a, !.max = x, !.cont = c] :
                          a \in {[A0.acct EXCEPT !.id = "20000000", !.bank = "10000000", !.country = 280], [A0.acct EXCEPT !.id = "2+0", !.bank = "1:0", !.country = 280]},
                          x \in {0, 9}, c \in (IF op = "anonkom" THEN {"", "k+1"} ELSE {""})}
    [] op = "setpin" -> {[A0 EXCEPT !.pin = p] : p \in {"neuePIN55", "a?b+C:8'", "lange PIN, die von einer App aus Wortlisten gebildet wird 12"}}
    [] op = "setsys" -> {[A0 EXCEPT !.sysid = s] : s \in {"MANUELL", "m+1:'"}}
    [] op = "setfn" -> {[A0 EXCEPT !.fn = f] : f \in {"999", "942", "997"}}
    [] OTHER -> {A0}
\* in exhaustive exploration a few representative arguments suffice: the design does not branch on them
RAcctArg(z, a) == IF Chance(2) \/ a.id = "" THEN a ELSE [a EXCEPT !.id = RWord(z), !.sub = One({"", RWord(z)}), !.bank = One({@, "10020030"})]
RArgs(z, op) == LET a == RandomElement(ArgsFull(op)) IN
  [a EXCEPT !.acct = RAcctArg(z, @), !.cont = IF @ # "" /\ Chance(2) THEN RWord(z) ELSE @, !.pin = IF @ # "" /\ Chance(2) THEN "qY8" \o RWord(z) \o Long(z) ELSE @,
            !.sysid = IF @ # "" /\ Chance(2) THEN "S" \o RWord(z) ELSE @]
\* (the condition makes TLC evaluate this in every state, not once for all)
ArgsOf(op) == IF Rand THEN (IF cs.calls < 0 THEN {} ELSE {TLCEval(RArgs(<<cs, h>>, op))})
              ELSE CASE op \in {"tx", "sepatx", "sepabal"} -> {CHOOSE x \in ArgsFull(op) : x.cont # "" /\ x.from = (IF op = "sepabal" THEN "" ELSE "20150101"), CHOOSE x \in ArgsFull(op) : x.cont = "" /\ x.all}
                     [] op \in {"setpin", "setsys", "setfn"} -> ArgsFull(op)
                     [] OTHER -> {CHOOSE x \in ArgsFull(op) : TRUE}

------------------------------------------------------------------------------
ClInit(c) == [sys |-> "0", sigsys |-> "0", encsys |-> "0", bpdv |-> 0, updv |-> 0, user |-> c.user, fn |-> "999", segs |-> <<>>, pins |-> <<>>, bank |-> <<>>, upd |-> <<>>, accts |-> <<>>, pin |-> c.pin]
CsInit == [pc |-> "idle", op |-> "", args |-> <<>>, dlg |-> "0", num |-> 0, nd |-> 0, n |-> 0, err |-> FALSE, errn |-> 0, cont |-> "", ver |-> 0, got |-> <<>>, calls |-> 0, used |-> {}, tx |-> <<>>, bals |-> <<>>,
           stats |-> <<>>, acks |-> <<>>, after |-> "", nbiz |-> 0, curd |-> ""]

Init == \E c \in IF Rand THEN {FixedCfg} \cup {RCfg(<<i>>) : i \in 1..50} ELSE {FixedCfg} : cl = ClInit(c) /\ cs = CsInit /\ m = MInit(c) /\ h = <<>>

\* --- messages ---------------------------------------------------------------
Mutated(x) == Mut = x
Msg(kind, dlg, num, order, els) ==
  LET anon == kind \in {"anoninit", "anonbiz", "anonend"}
      base == CASE kind \in {"init", "anoninit"} -> <<"HKIDN", "HKVVB">> [] kind = "sync" -> <<"HKIDN", "HKVVB", "HKTAN", "HKSYN">>
                [] kind \in {"end", "anonend"} -> <<"HKEND">> [] OTHER -> <<order.id>>
      ids == IF anon THEN base ELSE <<"HNSHK">> \o base \o <<"HNSHA">>
      n == Len(ids)
      sys == IF kind = "sync" THEN "0" ELSE cl.sys
      sigsys == IF kind = "sync" /\ ~Mutated("sync_sig_old_sysid") THEN "0" ELSE cl.sigsys
      encsys == IF kind = "sync" THEN "0" ELSE cl.encsys
      v3 == Ver = 300
      profv == IF cl.fn = "999" THEN "1" ELSE IF Mutated("profile_version_one") THEN "1" ELSE "2"
  IN [ev |-> "send", kind |-> kind, parse |-> "", url |-> Cfg.url, overlap |-> FALSE, late |-> FALSE, size |-> "1", actual |-> "1", hver |-> ToString(Ver), dlg |-> dlg,
      num |-> ToString(num), numi |-> num, tnum |-> ToString(num), enc |-> ~anon, signed |-> ~anon, hlen |-> 4, refs |-> 0, ids |-> ids,
      vers |-> [i \in 1..n |-> CASE ids[i] = "HNSHK" -> (IF v3 THEN "HNSHK:4" ELSE "HNSHK:3") [] ids[i] = "HNSHA" -> (IF v3 THEN "HNSHA:2" ELSE "HNSHA:1") [] OTHER -> ids[i]],
      pos |-> [i \in 1..n |-> i + 1],
      oids |-> IF anon THEN <<"HNHBK">> \o ids \o <<"HNHBS">> ELSE <<"HNHBK", "HNVSK", "HNVSD", "HNHBS">>,
      opos |-> IF anon THEN [i \in 1..(n + 2) |-> i] ELSE <<1, 998, 999, n + 2>>,
      overs |-> IF anon THEN <<"HNHBK:3">> \o ids \o <<"HNHBS:1">> ELSE <<"HNHBK:3", IF v3 THEN "HNVSK:3" ELSE "HNVSK:2", "HNVSD:1", "HNHBS:1">>,
      idn |-> CASE kind \in {"sync", "init"} -> <<[country |-> "280", bank |-> Cfg.bank, user |-> IF Mutated("customer_id_configured") THEN Cfg.user ELSE cl.user, sysid |-> sys, status |-> "1", n |-> 4]>>
                [] kind = "anoninit" -> <<[country |-> "280", bank |-> Cfg.bank, user |-> "9999999999", sysid |-> IF Mutated("anon_sysid") THEN cl.sys ELSE "0", status |-> "0", n |-> 4]>>
                [] OTHER -> <<>>,
      prep |-> CASE kind \in {"init", "anoninit"} -> <<[bpdv |-> Num(cl.bpdv), updv |-> Num(cl.updv), lang |-> "1", prod |-> Cfg.prod, prodv |-> Cfg.prodv, n |-> 5]>>
                 [] kind = "sync" -> <<[bpdv |-> IF Mutated("sync_quotes_bpd") THEN Num(cl.bpdv) ELSE "0", updv |-> "0", lang |-> "1", prod |-> Cfg.prod, prodv |-> Cfg.prodv, n |-> 5]>>
                 [] OTHER -> <<>>,
      sig |-> IF anon THEN <<>> ELSE <<[ver |-> 4, prof |-> "PIN", profv |-> profv, fn |-> cl.fn, ctrl |-> "c", sysid |-> sigsys, bank |-> Cfg.bank, country |-> "280", user |-> Cfg.user, keytype |-> "S", range |-> "1", role |-> "1"]>>,
      ench |-> IF anon THEN <<>> ELSE <<[ver |-> 3, prof |-> "PIN", profv |-> profv, fn |-> "998", sysid |-> encsys, cid |-> "", bank |-> Cfg.bank, country |-> "280", user |-> Cfg.user, keytype |-> "V"]>>,
      sigend |-> IF anon THEN <<>> ELSE <<[ver |-> 2, ctrl |-> "c", sig |-> "", n |-> 3]>>,
      sync |-> IF kind = "sync" THEN <<"0">> ELSE <<>>,
      endd |-> IF kind \in {"end", "anonend"} THEN <<dlg>> ELSE <<>>,
      tan |-> <<>>, biz |-> IF kind \in {"biz", "anonbiz"} THEN <<[id |-> order.id, ver |-> order.ver, els |-> els]>> ELSE <<>>,
      pins |-> IF anon THEN 0 ELSE 1, pinok |-> ~anon]

Replies(kind) == IF Rand THEN {[name |-> "", r |-> TLCEval(RReply(<<cs, h>>, kind, cs.op, cs.nbiz + 1))]}
                 ELSE {x \in Menu(kind, cs.op) : ~(x.name \in cs.used)}

\* resolved as the bank does: it assigns a new dialog ID to an opening, and keeps it afterwards
Resolve(kind, r, nd) == IF r.dlg # "" THEN r ELSE [r EXCEPT !.dlg = IF kind \in OpeningKinds THEN "DLG" \o ToString(nd) ELSE cs.curd]

Queue(kind) == CASE kind = "sync" -> "sync" [] kind \in {"init", "anoninit"} -> "init" [] kind \in {"biz", "anonbiz"} -> "biz" [] OTHER -> "end"
Entry(x) == IF Rand THEN x.r ELSE x.name
Push(kind, x) == LET c == h[Len(h)] IN [h EXCEPT ![Len(h)] = [c EXCEPT !.bank[Queue(kind)] = Append(@, Entry(x))]]

\* run one exchange: f(cl, cs, reply) gives the client's reaction
Feed(e, kind, x) ==
  LET nd == IF kind \in OpeningKinds THEN cs.nd + 1 ELSE cs.nd
      r == Resolve(kind, x.r, nd)
  IN Step(Step(m, e), [ev |-> "recv", kind |-> kind, r |-> r, n |-> cs.n + 1])
Scenario(hh) == IF Emit /\ ~Rand THEN PrintT("@@SC " \o ToJson([cfg |-> Cfg, calls |-> hh])) ELSE TRUE

\* --- the client --------------------------------------------------------------
Anon(op) == op \in AnonOps
Fail(c, n) == [c EXCEPT !.err = TRUE, !.errn = IF c.err THEN @ ELSE n]

\* where a call goes once the synchronisation it needs is done
Enter(c, s) ==
  IF s.op \in LocalOps \/ s.err THEN [s EXCEPT !.pc = "ret"]
  ELSE IF Anon(s.op) THEN [s EXCEPT !.pc = "open", !.after = "anoninit"]
  ELSE IF s.op = "sync" THEN [s EXCEPT !.pc = IF s.got = <<>> THEN "sync" ELSE "ret"]
  ELSE IF s.got = <<>> /\ (c.sys = "0" \/ (Api = "client" /\ c.bpdv = 0)) THEN [s EXCEPT !.pc = "sync"]
  ELSE IF s.op \in VerOps /\ Best(s.op, c.segs) = 0 /\ ~Mutated("no_version_check") THEN [Fail(s, 0) EXCEPT !.pc = "ret"]
  ELSE [s EXCEPT !.pc = "open", !.after = "init",
                 !.ver = IF s.op \in VerOps THEN (IF Mutated("lowest_version") /\ Best(s.op, c.segs) > 0
                              THEN CHOOSE v \in {c.segs[i].ver : i \in {j \in 1..Len(c.segs) : c.segs[j].id = ParamSeg(s.op)}} \cap Implemented(s.op) : TRUE
                              ELSE Best(s.op, c.segs)) ELSE IF s.op \in AnonOps THEN 3 ELSE 1]

Call(op, args) ==
  /\ cs.pc = "idle" /\ cs.calls < MaxCalls
  /\ LET c == CASE op = "setpin" -> IF Mutated("setpin_resets_fn") THEN [cl EXCEPT !.pin = args.pin, !.fn = "999"] ELSE IF Mutated("setpin_resets_sys") THEN [cl EXCEPT !.pin = args.pin, !.sigsys = "0"] ELSE [cl EXCEPT !.pin = args.pin]
                [] op = "setsys" -> [cl EXCEPT !.sys = args.sysid, !.sigsys = args.sysid, !.encsys = args.sysid]
                [] op = "setfn" -> [cl EXCEPT !.fn = args.fn]
                [] OTHER -> cl
         s == [CsInit EXCEPT !.op = op, !.args = <<args>>, !.cont = args.cont, !.nd = cs.nd, !.calls = cs.calls + 1, !.dlg = cs.dlg, !.num = cs.num, !.curd = cs.curd]
     IN /\ cl' = c
        /\ cs' = Enter(c, s)
        /\ m' = Step(m, [ev |-> "call", op |-> op, args |-> args, days |-> <<"20260101", "20260201">>])
        /\ h' = Append(h, [op |-> op, args |-> args, bank |-> [sync |-> <<>>, init |-> <<>>, biz |-> <<>>, end |-> <<>>]])

ApplyParams(c, r, kind) ==
  LET b == IF r.bpd = <<>> THEN c
           ELSE [c EXCEPT !.bpdv = r.bpd[1].ver, !.segs = IF Mutated("segs_merged") THEN @ \o SegsOf(r) ELSE SegsOf(r), !.pins = r.bpd[1].pins, !.bank = r.bpd]
      u == IF r.upd = <<>> THEN b ELSE [b EXCEPT !.updv = IF Mutated("updv_not_updated") THEN @ ELSE r.upd[1].ver, !.user = r.upd[1].user, !.upd = r.upd]
  IN IF r.accts = <<>> THEN u ELSE [u EXCEPT !.accts = IF Mutated("accounts_appended") THEN @ \o PAccts(r.accts) ELSE PAccts(r.accts)]

Negotiate(c, r, kind) == IF kind # "anoninit" /\ Announces(r) /\ CommonFns(r) # {} THEN [c EXCEPT !.fn = CHOOSE f \in CommonFns(r) : TRUE]
                         ELSE IF Announces(r) /\ Mutated("first_function") THEN [c EXCEPT !.fn = AckParams(r, 3920)[1][1]] ELSE c
Neg(r, kind) == kind # "anoninit" /\ Announces(r) /\ CommonFns(r) = {}

Opening(kind) ==
  /\ (IF kind = "sync" THEN cs.pc = "sync" ELSE cs.pc = "open" /\ cs.after = kind)
  /\ \E x \in Replies(kind) :
       LET e == Msg(kind, IF Mutated("stale_dialog_id") /\ kind = "sync" THEN cs.dlg ELSE "0", IF Mutated("stale_number") /\ kind = "sync" THEN cs.num + 1 ELSE 1, <<>>, <<>>)
           nd == cs.nd + 1
           r == Resolve(kind, x.r, nd)
           s == [cs EXCEPT !.n = @ + 1, !.nd = nd, !.num = IF Mutated("stale_number") /\ kind = "sync" THEN @ + 1 ELSE 1, !.dlg = r.dlg, !.curd = IF Usable(r) THEN r.dlg ELSE @, !.got = IF kind = "sync" THEN <<1>> ELSE @]
           back == IF kind = "sync" THEN "endsync" ELSE IF kind = "anoninit" THEN "anonend" ELSE "end"
       IN /\ m' = Feed(e, kind, x)
          /\ h' = Push(kind, x)
          /\ IF ~Usable(r)
             THEN IF Mutated("retry_opening") /\ cs.n < 1 THEN cl' = cl /\ cs' = [cs EXCEPT !.n = @ + 1, !.nd = nd]
                  ELSE cl' = cl /\ cs' = [Fail(s, s.n) EXCEPT !.pc = IF Mutated("end_after_fault") THEN back ELSE "ret"]
             ELSE IF HasErr(r) /\ ~(Mutated("segment_errors_ignored") /\ \A i \in 1..Len(r.acks) : r.acks[i].code >= 9000 => r.acks[i].lvl = "seg")
             THEN cl' = cl /\ cs' = [Fail(s, s.n) EXCEPT !.pc = "ret"]
             ELSE IF kind = "sync"
             THEN IF Neg(r, kind) \/ r.sysid = <<>>
                  THEN /\ cl' = (IF r.sysid # <<>> THEN cl ELSE ApplyParams(Negotiate(cl, r, kind), r, kind))
                       /\ cs' = [Fail(s, s.n) EXCEPT !.pc = IF Mutated("no_end_after_bad_sync") THEN "ret" ELSE "endsync"]
                  ELSE LET c == [ApplyParams(Negotiate(cl, r, kind), r, kind) EXCEPT !.sys = r.sysid[1], !.sigsys = r.sysid[1], !.encsys = IF Mutated("enc_sysid_stale") THEN @ ELSE r.sysid[1]]
                       IN cl' = c /\ cs' = [s EXCEPT !.pc = "endsync"]
             ELSE LET c == Negotiate(ApplyParams(cl, r, kind), r, kind)
                  IN /\ cl' = c
                     /\ cs' = (IF Neg(r, kind) /\ ~Mutated("first_function") THEN [Fail(s, s.n) EXCEPT !.pc = IF Mutated("no_end_after_neg") THEN "ret" ELSE back]
                               ELSE [s EXCEPT !.pc = IF cs.op \in BizOps THEN "biz" ELSE back])
          /\ Scenario(h')

Order == [id |-> OrderId(cs.op), ver |-> IF cs.op \in AnonOps THEN 3 ELSE cs.ver]
Els == LET d == <<"20260101", "20260201">>
           a == IF Mutated("order_all_flag") THEN [cs.args[1] EXCEPT !.all = FALSE] ELSE cs.args[1]
       IN CHOOSE x \in OrderEls(cs.op, Order.ver, a, IF Mutated("cont_not_quoted") /\ cs.nbiz > 0 THEN cs.args[1].cont ELSE cs.cont, d) : TRUE

Biz ==
  /\ cs.pc = "biz"
  /\ LET kind == IF Anon(cs.op) THEN "anonbiz" ELSE "biz"
         back == IF Anon(cs.op) THEN "anonend" ELSE "end" IN
     \E x \in Replies(kind) :
       LET num == IF Mutated("number_gap") THEN cs.num + 2 ELSE cs.num + 1
           e == Msg(kind, cs.dlg, num, Order, Els)
           r == Resolve(kind, x.r, cs.nd)
           s == [cs EXCEPT !.n = @ + 1, !.num = num, !.nbiz = @ + 1, !.used = @ \cup (IF Usable(r) THEN {x.name} ELSE {}), !.cont = ""]
           c == AckParams(r, 3040)
           d == [s EXCEPT !.tx = @ \o FlatSeq([i \in 1..Len(r.tx) |-> r.tx[i].ids]),
                          !.bals = @ \o [i \in 1..Len(r.bals) |-> PBal(r.bals[i], cs.op = "sepabal")],
                          !.stats = @ \o [i \in 1..Len(r.stats) |-> PStat(r.stats[i])],
                          !.acks = PAckSeq(r, num),
                          !.cont = IF c # <<>> /\ c[1] # <<>> /\ cs.op \in PagedOps /\ ~Mutated("paging_ignored") THEN c[1][1] ELSE ""]
       IN /\ m' = Feed(e, kind, x)
          /\ h' = Push(kind, x)
          /\ cl' = cl
          /\ cs' = IF ~Usable(r) THEN (IF Mutated("retry_biz") /\ cs.nbiz = 0 THEN s ELSE [Fail(s, s.n) EXCEPT !.pc = back])
                   ELSE IF HasErr(r) /\ ~Mutated("biz_errors_ignored") THEN [Fail(s, s.n) EXCEPT !.pc = IF Mutated("no_end_after_biz_error") THEN "ret" ELSE back]
                   ELSE IF (cs.op \in {"bal", "sepabal"} /\ r.bals = <<>>) \/ (cs.op = "acctinfo" /\ r.kif = <<>>) THEN [Fail(d, s.n) EXCEPT !.pc = back]
                   ELSE [d EXCEPT !.pc = back]
          /\ Scenario(h')

End ==
  /\ cs.pc \in {"end", "anonend", "endsync"}
  /\ LET kind == IF cs.pc = "anonend" THEN "anonend" ELSE "end" IN
     \E x \in Replies(kind) :
       LET e == Msg(kind, cs.dlg, cs.num + 1, <<>>, <<>>)
           s == [cs EXCEPT !.n = @ + 1, !.num = @ + 1]
           failed == ~Usable(x.r) \/ HasErr(x.r)
           \* a failing end of a synchronisation fails the call; otherwise it does not matter
           t == IF cs.pc = "endsync" THEN (IF failed THEN Fail(s, 0) ELSE s) ELSE s
       IN /\ m' = Feed(e, kind, x)
          /\ h' = Push(kind, x)
          /\ cl' = cl
          /\ cs' = IF cs.pc = "endsync" THEN Enter(cl, t)
                   ELSE IF Mutated("end_twice") /\ cs.after # "x" THEN [t EXCEPT !.after = "x"]
                   ELSE IF Mutated("end_failure_fails") /\ failed THEN [Fail(t, 0) EXCEPT !.pc = "ret"]
                   ELSE IF ~t.err /\ t.cont # "" THEN Enter(cl, t) ELSE [t EXCEPT !.pc = "ret"]
          /\ Scenario(h')

Res(none) ==
  [accts |-> IF cs.op = "accounts" THEN cl.accts ELSE <<>>, tx |-> cs.tx, bals |-> cs.bals, stats |-> cs.stats, sysid |-> cl.sys, acks |-> cs.acks, none |-> none]
Snap == [bpdv |-> cl.bpdv, updv |-> cl.updv, sysid |-> cl.sys, segs |-> cl.segs, pins |-> cl.pins,
         bank |-> IF cl.bank = <<>> THEN BPDA ELSE cl.bank[1],
         upd |-> IF cl.upd = <<>> THEN UPDA ELSE cl.upd[1],
         accts |-> cl.accts]
\* a statement that cannot be read fails the query
Lost == ~cs.err /\ ~Mutated("statement_errors_ignored") /\ Range(cs.tx) \cap Unreadable # {}
Ret ==
  /\ cs.pc = "ret"
  /\ m' = Step(m, [ev |-> "ret", op |-> cs.op, ok |-> ~cs.err /\ ~Lost, err |-> "", panic |-> "", where |-> "", timeout |-> FALSE,
                   res |-> Res((cs.err \/ Lost) /\ ~Mutated("partial_result")), snap |-> IF Api = "dialog" THEN <<Snap>> ELSE <<>>, leak |-> <<>>,
                   errhas |-> IF cs.errn > 0 /\ ~Mutated("error_text_lost") THEN <<cs.errn>> ELSE <<>>])
  /\ cs' = [cs EXCEPT !.pc = "idle"]
  /\ UNCHANGED <<cl, h>>
  /\ (IF Rand /\ Emit /\ cs.calls = MaxCalls THEN PrintT("@@SC " \o ToJson([cfg |-> Cfg, calls |-> h])) ELSE TRUE)

DoCall == \E op \in Ops : \E a \in ArgsOf(op) : Call(op, a)
Next == DoCall \/ Opening("sync") \/ Opening("init") \/ Opening("anoninit") \/ Biz \/ End \/ Ret
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* scenarios of a simulation are printed as a whole
View == <<cl, cs, m>>
\* scenario generation: one scenario for every transition between these abstract states
EmitView == <<cl.sys = "0", cl.bpdv, cl.updv, cl.fn, Len(cl.accts), cs.pc, cs.op, cs.err, cs.cont, IF cs.nbiz > 2 THEN 2 ELSE cs.nbiz, cs.calls, cs.got, cs.after, h = <<>>>>
Good == m.bad = {}
\* every call returns (checked in a small configuration without the view)
Returns == (cs.pc # "idle") ~> (cs.pc = "idle")
================================================================================
