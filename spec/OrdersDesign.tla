---------------------------- MODULE OrdersDesign ----------------------------
(* What a bank announces (which segments in which versions, in which order) and what the user then asks for, several times in a row. *)
EXTENDS Orders, Json

CONSTANTS Mode, Emit, Mut, MaxSeg, MaxAsk

VARIABLES segs, asks, stage
vars == <<segs, asks, stage>>
Ids == {"HISALS", "HIKAZS", "HIPROS"}
Vers == {1, 2, 3, 4, 5, 6, 7, 8, 9, 12}
OpSeq == <<"tx", "sepatx", "bal", "sepabal", "status">>
Words == {"", "x", "a+b:c'd?e@3@f", "gr" \o "üß", "0,1", "A?+", "@12@", "12345678901234567890123456789012345", " a ", "-"}
Acct(t, u, sub, c) == [id |-> t, sub |-> sub, country |-> c, bank |-> u, iban |-> "DE02100100100006820101", bic |-> "PBNKDEFF"]
Args0 == [acct |-> Acct("123456", "10010010", "", 280), all |-> FALSE, from |-> "20231230", to |-> "20240229", tz |-> 0, max |-> 0, cont |-> "", pin |-> "p", sysid |-> "s", fn |-> "f"]
Dates == {"20231230", "20240229", "20240301", "19991231", "20000101", "20991231", "20240630", "20241027"}
\* one unusual argument
Changed(a) == {[a EXCEPT !.acct = Acct(t, "10010010", "", 280)] : t \in Words \ {""}} \cup {[a EXCEPT !.acct = Acct("1", u, "", 280)] : u \in Words \ {""}}
        \cup {[a EXCEPT !.acct = Acct("1", "2", s, c)] : s \in Words, c \in {280, 4, 40, 978}} \cup {[a EXCEPT !.acct.iban = t] : t \in Words} \cup {[a EXCEPT !.acct.bic = t] : t \in Words}
        \cup {[a EXCEPT !.all = TRUE]} \cup {[a EXCEPT !.from = d] : d \in Dates} \cup {[a EXCEPT !.to = d] : d \in Dates} \cup {[a EXCEPT !.tz = z] : z \in {-11, -1, 1, 12}}
        \cup {[a EXCEPT !.max = n] : n \in {0, 1, 2, 10, 99, 9999}} \cup {[a EXCEPT !.cont = t] : t \in Words} \cup {[a EXCEPT !.pin = t] : t \in Words} \cup {[a EXCEPT !.sysid = t] : t \in Words} \cup {[a EXCEPT !.fn = t] : t \in Words}
NoDates(a) == {[a EXCEPT !.from = ""], [a EXCEPT !.to = ""], [a EXCEPT !.from = "", !.to = ""]}
Ask(op, a, pos) == [op |-> op, args |-> a, pos |-> pos]
SV(id, v) == [id |-> id, ver |-> v]
Sorted(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F[T \ {m}] IN F[S]
Back(s) == <<>> \o [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Turn(s) == IF Len(s) < 2 THEN s ELSE SubSeq(s, Len(s) \div 2 + 1, Len(s)) \o SubSeq(s, 1, Len(s) \div 2)
Announce(vs, junk) == LET One(id) == <<>> \o [i \in 1..Len(vs) |-> SV(id, vs[i])]
                      IN IF junk THEN <<SV("HISALX", 7), SV("HISAL", 8)>> \o One("HIKAZS") \o <<SV("HIKAZ", 7), SV("hikazs", 7)>> \o One("HISALS") \o <<SV("HIPRO", 4)>> \o One("HIPROS") \o <<SV("HIPROSS", 4)>>
                         ELSE One("HISALS") \o One("HIKAZS") \o One("HIPROS")
All5(a) == <<>> \o [i \in 1..5 |-> Ask(OpSeq[i], a, i + 1)]
Pick(S) == RandomElement(IF Len(asks) < 0 THEN {} ELSE S)   \* depends on the state, or TLC would draw only once
Init == CASE Mode = "versions" -> \E S \in SUBSET Vers, w \in 1..3, junk \in {FALSE, TRUE} :
               /\ Cardinality(S) <= MaxSeg \/ S = Vers
               /\ segs = Announce(IF w = 1 THEN Sorted(S) ELSE IF w = 2 THEN Back(Sorted(S)) ELSE Turn(Sorted(S)), junk)
               /\ asks = All5(Args0) /\ stage = "done"
          [] Mode = "args" -> \E op \in Range(OpSeq) \cup SegKinds, a \in {Args0} \cup Changed(Args0) \cup NoDates(Args0), v \in {1, 2}, pos \in {1, 3, 999} :
               /\ pos = 3 \/ a = Args0
               /\ op = "status" => (a.from # "" /\ a.to # "")
               /\ op \in SegKinds => a.tz = 0 /\ v = 1
               /\ op \in {"vvb2", "vvb3"} => a.fn # "" /\ a.pin # ""   \* the product has a name of its own then
               /\ segs = IF op \in SegKinds THEN <<>> ELSE <<SV(ParamSeg(op), IF v = 1 THEN MaxOf(Implemented(op)) ELSE CHOOSE x \in Implemented(op) : \A y \in Implemented(op) : x <= y)>>
               /\ asks = <<Ask(op, a, pos)>> /\ stage = "done"
          [] OTHER -> segs = <<>> /\ asks = <<>> /\ stage = "announce"
RandDate(z) == TLCEval(ToString(Pick({199, 200, 201, 202, 204, 209})) \o ToString(Pick(0..9)) \o Pick({"0101", "0228", "0301", "0331", "0715", "1027", "1130", "1231"}))
RandArgs(z) == TLCEval([acct |-> [id |-> Pick(Words \ {""}), sub |-> Pick(Words), country |-> Pick({280, 4, 40, 978}), bank |-> Pick(Words \ {""}), iban |-> Pick(Words), bic |-> Pick(Words)],
                        all |-> Pick({TRUE, FALSE}), from |-> RandDate(z), to |-> RandDate(z), tz |-> Pick(-11..12), max |-> Pick(0..9999), cont |-> Pick(Words), pin |-> Pick(Words \ {""}), sysid |-> Pick(Words), fn |-> Pick(Words \ {""})])
AddSeg == /\ stage = "announce" /\ Len(segs) < MaxSeg
          /\ \E x \in {SV(Pick(Ids \cup {"HISALX", "HIKIFS"}), Pick(Vers))} : segs' = Append(segs, x)
          /\ stage' = Pick({"announce", "announce", "announce", "ask"}) /\ UNCHANGED asks
AddAsk == /\ stage = "ask" \/ (stage = "announce" /\ Len(segs) = MaxSeg)
          /\ \E op \in {Pick(Range(OpSeq) \cup {"tx", "sepatx", "bal", "sepabal", "status"} \cup SegKinds)}, a \in {RandArgs(Len(asks))}, pos \in {Pick({1, 2, 3, 12, 999})} :
               asks' = Append(asks, Ask(op, [a EXCEPT !.tz = IF op \in SegKinds THEN (@ + 11) ELSE @], pos))
          /\ stage' = IF Len(asks') = MaxAsk THEN "done" ELSE "ask"
          /\ UNCHANGED segs
Next == Mode = "rand" /\ (AddSeg \/ AddAsk)
Spec == Init /\ [][Next]_vars

Chosen(op) == IF Mut = "announced" THEN LET V == {s.ver : s \in {t \in Range(segs) : t.id = ParamSeg(op)}} IN IF V = {} THEN 0 ELSE IF MaxOf(V) \in Implemented(op) THEN MaxOf(V) ELSE 0
              ELSE IF Mut = "first" THEN LET I == {i \in 1..Len(segs) : segs[i].id = ParamSeg(op) /\ segs[i].ver \in Implemented(op)} IN IF I = {} THEN 0 ELSE segs[CHOOSE i \in I : \A j \in I : i <= j].ver
              ELSE Best(op, segs)
\* a version is used exactly if it is announced and implemented, and no higher one is
Good == \A op \in VerOps : LET c == Chosen(op) U == {v \in Implemented(op) : \E s \in Range(segs) : s.id = ParamSeg(op) /\ s.ver = v}
                           IN IF U = {} THEN c = 0 ELSE c \in U /\ \A v \in U : v <= c
EmitState == IF Emit /\ stage = "done" THEN PrintT("@@IN " \o ToJson([op |-> "orders", segs |-> segs, asks |-> asks])) ELSE TRUE
=============================================================================
