----------------------------- MODULE ValuesDesign -----------------------------
(***************************************************************************)
(* Values are composed field by field, then written, then perhaps altered: *)
(* a field written differently, missing or impossible. At most Dev fields  *)
(* differ from the usual (Rand: any). Every value and every text is a test.*)
(***************************************************************************)
EXTENDS Values, FiniteSets, FiniteSetsExt, Json

CONSTANTS Dev, ListDev, AltDev, Rand, Emit, Mut, Seed

VARIABLES kind, args, dev, phase, raw
vars == <<kind, args, dev, phase, raw>>

\* the first one is the usual one
Texts == <<Codes("Ab1"), Codes("+"), Codes("a:b"), Codes("?"), Codes("??'"), Codes("@"), Codes("@1@x"), Codes("'x"), Codes("0"), Codes("12,5"), <<196, 246, 223>>, <<64, 255>>,
           Codes("?+?:?'?@"), Codes(" "), Codes("a b"), <<13, 10>>, <<160>>, <<63, 63, 63>>>>
Nums == <<Codes("1"), Codes("0"), Codes("9"), Codes("10"), Codes("999"), Codes("300"), Codes("12345678"), Codes("2147483648"), Codes("999999999999")>>
Vals == <<Codes("1,"), Codes("0,"), Codes("0,01"), Codes("0,1"), Codes("12,5"), Codes("4,35"), Codes("100,"), Codes("10,01"), Codes("0,07"), Codes("1234567,89"), Codes("999999999999,99"), Codes("123456789012345,"),
          Codes("1000000,"), Codes("0,29"), Codes("1,005"), Codes("0,00001")>>
Vocab(t) ==
  CASE t = "text" -> Texts
    [] t = "any" -> <<Texts[1], None>> \o Tail(Texts)
    [] t \in {"num"} -> Nums
    [] t = "lang" -> <<Codes("1"), Codes("2"), Codes("3")>>
    [] t = "dig1" -> <<Codes("1"), Codes("0"), Codes("9")>>
    [] t = "dig3" -> <<Codes("280"), Codes("0"), Codes("4"), Codes("49"), Codes("999")>>
    [] t = "dig4" -> <<Codes("20"), Codes("0"), Codes("9"), Codes("100"), Codes("3920"), Codes("9999")>>
    [] t = "dig6" -> <<Codes("1"), Codes("0"), Codes("12345"), Codes("999999")>>
    [] t = "val" -> Vals
    [] t = "bool" -> <<<<74>>, <<78>>>>
    [] t = "date" -> <<Codes("20240102"), Codes("20000229"), Codes("19991231"), Codes("20241231"), Codes("19700101"), Codes("00010102"), Codes("99991231"), Codes("19000301")>>
    [] t = "time" -> <<Codes("120000"), Codes("000000"), Codes("235959"), Codes("000001"), Codes("010203")>>
    [] t = "bin" -> <<<<1, 2>>, None, Codes("'+:?@"), Codes("@2@"), <<0, 255, 10>>, Codes("0123456789")>>
    [] t = "obin" -> <<None, <<1, 2>>, Codes("'+:?@"), Codes("@2@")>>
    [] t = "sign" -> <<<<67>>, <<68>>>>
    [] t = "party" -> <<Codes("MS"), Codes("MR")>>
    [] t = "when" -> <<Codes("STS"), Codes("CRT")>>
    [] t = "empty" -> <<None>>
\* other ways to write a field, some of them impossible
Alts(t) ==
  CASE t \in {"num", "lang"} -> {Codes("007"), Codes("000000000000000000000012"), Codes("4294967297"), Codes("x"), Codes("1x"), None, Codes("1,5"), Codes("99999999999999999999"), Codes("-")}
    [] t \in {"dig1", "dig3", "dig4", "dig6"} -> {Codes("4"), Codes("0004"), Codes("2a0"), None}
    [] t = "val" -> {Codes("1,50"), Codes("12,00"), Codes("100"), Codes("0,0"), Codes("1.5"), Codes("x"), None, Codes(","), Codes("1,2,3"), Codes("-1,")}
    [] t = "bool" -> {Codes("j"), Codes("n"), Codes("1"), Codes("JN"), Codes("0"), None}
    [] t = "date" -> {Codes("20230229"), Codes("19000229"), Codes("20231301"), Codes("20230001"), Codes("20230100"), Codes("20230431"), Codes("2023010"), Codes("202301011"), Codes("x0230101"), None, Codes("00000000")}
    [] t = "time" -> {Codes("240000"), Codes("126000"), Codes("120060"), Codes("12000"), Codes("1200000"), Codes("x20000"), None}
    [] t \in {"bin", "obin"} -> {Codes("@3@abc"), Codes("@3@ab"), Codes("@1@abc"), Codes("abc"), None, Codes("@@"), Codes("@-1@a"), Codes("@02@ab")}
    [] t = "sign" -> {Codes("X"), None}
    [] t \in {"party", "when"} -> {Codes("3"), None}
    [] OTHER -> {None, Codes("?"), Codes("a?b"), Codes("?+"), Codes("@1@x"), Codes("x@1"), Codes("00,"), <<0>>}

Init == /\ kind \in DOMAIN Kinds /\ args = <<>> /\ dev = 0 /\ phase = "args" /\ raw = <<>>
T == FieldOf(kind, Len(args) + 1).t
\* random characters; the state makes TLC draw anew
Rnd(n) == TLCEval(RandomElement(0..(n + 0 * Len(args))))
RWord == TLCEval([i \in 1..(Rnd(11) + 1) |-> IF Rnd(2) = 0 THEN RandomElement({43, 58, 39, 63, 64, 44, 10 + 0 * i}) ELSE IF Rnd(2) = 0 THEN RandomElement(160..(255 + 0 * i)) ELSE RandomElement(32..(126 + 0 * i))])
RDec == LET a == Rnd(99999) b == Rnd(99) IN Dec(a) \o <<44>> \o DropTrailing(DecW(b, 2), 48)
Random(t) == CASE t \in {"text", "any"} -> IF Rnd(3) = 0 THEN RandomElement(ToSet(Vocab(t)) \cup {Rep(97, Len(args) + 1)}) ELSE <<>> \o RWord
               [] t = "num" -> Dec(1 + Rnd(999999)) \o (IF Rnd(2) = 0 THEN DecW(Rnd(99999999), 8) ELSE <<>>)
               [] t = "dig3" -> Dec(Rnd(999))
               [] t = "dig4" -> Dec(Rnd(9999))
               [] t = "val" -> RDec
               [] t = "date" -> Dec(1900 + Rnd(199)) \o DecW(1 + Rnd(11), 2) \o DecW(1 + Rnd(27), 2)
               [] t = "time" -> DecW(Rnd(23), 2) \o DecW(Rnd(59), 2) \o DecW(Rnd(59), 2)
               [] t \in {"bin", "obin"} -> <<>> \o TLCEval([i \in 1..Rnd(20) |-> RandomElement(0..(255 + 0 * i))])
               [] OTHER -> LET V == Vocab(t) IN V[1 + Rnd(Len(V) - 1)]
Fill ==
  /\ phase = "args" /\ Len(args) < (IF Kinds[kind].rep = <<>> THEN Len(Kinds[kind].head) ELSE Longest(kind))
  /\ UNCHANGED <<kind, phase, raw>>
  /\ IF Rand THEN args' = Append(args, Random(T)) /\ dev' = 0
     ELSE LET V == Vocab(T) IN \E i \in 1..Len(V) : (i = 1 \/ dev < (IF Kinds[kind].rep = <<>> THEN Dev ELSE ListDev)) /\ dev' = (IF i = 1 THEN dev ELSE dev + 1) /\ args' = Append(args, V[i])
\* the bank of an international account is there or the last fields are empty; a signature without its second part
Proper == /\ ~(kind = "ack" /\ Len(args) > 3 /\ args[3] = None)
          /\ \A i \in 1..Len(args) : ~BadFloat(WriteField(FieldOf(kind, i).t, args[i]))
          /\ (kind = "params" => \E i \in 1..Len(args) : args[i] # None)
MWrite(k, a) == LET f == [i \in 1..Len(a) |-> IF Mut = "escape" /\ FieldOf(k, i).t = "any" THEN a[i] ELSE IF Mut = "pad" /\ IsDig(FieldOf(k, i).t) THEN a[i] ELSE WriteField(FieldOf(k, i).t, a[i])]
                IN IF Mut = "" THEN Write(k, a) ELSE Join(IF Mut = "trimall" THEN SelectSeq(f, LAMBDA x : x # None) ELSE Trim(f), COLON)
Finish == /\ phase = "args" /\ Complete(kind, Len(args)) /\ Proper
          /\ phase' = "value" /\ raw' = <<>> \o [i \in 1..Len(args) |-> WriteField(FieldOf(kind, i).t, args[i])]
          /\ UNCHANGED <<kind, args, dev>>
\* texts other than the canonical one
Alter ==
  /\ phase = "value" /\ dev <= (IF Kinds[kind].rep = <<>> THEN AltDev ELSE 0)
  /\ phase' = "text" /\ UNCHANGED <<kind, args, dev>>
  /\ \/ \E i \in 1..Len(raw) : \E x \in Alts(FieldOf(kind, i).t) : raw' = [raw EXCEPT ![i] = x]
     \/ \E n \in 0..(Len(raw) - 1) : raw' = SubSeq(raw, 1, n)
     \/ raw' = Append(raw, None)
     \/ raw' = Append(raw, <<49>>)
Again == phase = "text" /\ Rand /\ Len(raw) > 0 /\ Rnd(3) = 0 /\ UNCHANGED <<kind, args, dev, phase>>
         /\ \E i \in 1..(IF Len(raw) < Len(args) THEN Len(raw) ELSE Len(args)) : \E x \in Alts(FieldOf(kind, i).t) : raw' = [raw EXCEPT ![i] = x]
Next == Fill \/ Finish \/ Alter \/ Again
Spec == Init /\ [][Next]_vars

\* the properties of the format
Text == Join(raw, COLON)
Round == phase = "value" => ReadKind(kind, MWrite(kind, args)) = Ok(Norm(kind, args))
Kept == phase = "value" => ReadKind(kind, Text) = Ok(Norm(kind, args))
OneElement == phase = "value" => LET p == Parse(MWrite(kind, args)) IN WellFormed(p) /\ Len(p.segs) = 1 /\ Len(p.segs[1].els) = 1
Good == Round /\ Kept /\ OneElement
\* too short texts are not sent on to the library with the reference undecided: that they must not crash is also a test
EmitState == IF ~Emit THEN TRUE
             ELSE CASE phase = "value" -> PrintT("@@IN " \o ToJson([op |-> "value", kind |-> kind, args |-> args]))
                    [] phase = "text" -> PrintT("@@IN " \o ToJson([op |-> "read", kind |-> kind, text |-> Text]))
                    [] OTHER -> TRUE
=============================================================================
