----------------------------- MODULE IbanDesign -----------------------------
(* Texts an IBAN parser meets: valid IBANs and what becomes of them by typing errors. The behaviours are
   start -> build (a valid IBAN) -> up to MaxErr errors; every text seen is a test input. *)
EXTENDS Iban, Json, Integers

CONSTANTS MaxErr, Full, Emit, Mut, Seed

VARIABLES st, src, text, errs, how
vars == <<st, src, text, errs, how>>

Alpha == IF Full THEN {48, 49, 53, 57, 65, 66, 68, 69, 75, 90, 97, 122, 32, 43, 45, 46, 58, 47, 64, 91, 96, 123, 95, 0, 9, 10, 13, 11, 12, 133, 160, 194, 196, 239, 255}
         ELSE {48, 50, 57, 65, 69, 90, 98, 32, 9, 10, 160, 43, 45, 58, 64, 91, 196}

Bases == {[c |-> Codes("DE"), b |-> Codes("370400440532013000")], [c |-> Codes("DE"), b |-> Codes("100500000000000001")],
          [c |-> Codes("GB"), b |-> Codes("CITI18500811417983")], [c |-> Codes("NO"), b |-> Codes("39916835985")],
          [c |-> Codes("MT"), b |-> Codes("VALL22013000000040013752732")], [c |-> Codes("LC"), b |-> Codes("HEMM000100010012001200023015")],
          [c |-> Codes("ZZ"), b |-> Codes("B1A2")], [c |-> Codes("VA"), b |-> Codes("001123000012345678Z9")]}

(* a pseudo random account number for every country *)
Filler(k, n) == <<>> \o [i \in 1..n |-> LET v == (k * 31 + i * i * 7 + i * (k + (Seed % 1000)) + (Seed % 89)) % 97 IN IF v < 30 THEN 65 + (v % 26) ELSE 48 + (v % 10)]

Init == st = "start" /\ src = [c |-> <<>>, b |-> <<>>] /\ text = <<>> /\ errs = 0 /\ how = "none"

PickBase == /\ st = "start"
            /\ \E x \in Bases : /\ src' = x
                                /\ text' = Build(x.c, x.b).val
            /\ st' = "valid" /\ how' = "base" /\ UNCHANGED errs

PickCountry == /\ st = "start"
               /\ \E cc \in Countries, d \in -1..1, k \in IF Full THEN 1..6 ELSE 1..1 :
                    LET n == LengthOf[cc] - 4 + d bban == Filler(k + cc[1] + 3 * cc[2] + n, n) IN
                    /\ src' = [c |-> cc, b |-> bban]
                    /\ text' = cc \o CheckDigits(cc, bban) \o bban
                    /\ how' = IF d = 0 THEN "country" ELSE "length"
               /\ st' = (IF how' = "country" THEN "valid" ELSE "bad") /\ UNCHANGED errs

Short == /\ st = "start"
         /\ \E q \in {<<>>, Codes("D"), Codes("DE"), Codes("DE0"), Codes("DE02"), Codes("DE1"), Codes("DEXX"), Codes("    "), Codes("D E 0 2"), Codes("DE021"),
                      Codes("1234"), Codes("ZZ98"), Codes("ZZ620"), Codes("ZZ00A"), Codes("12500105170648489890"), Codes("ZZ") \o Rep(48, 32), Codes("ZZ") \o Rep(48, 40)} : text' = q
         /\ st' = "bad" /\ how' = "short" /\ UNCHANGED <<src, errs>>

(* German account data, right and wrong *)
Banks == {Codes("10000000"), Codes("37040044"), Codes("00000001"), Codes("3704004"), Codes("370400440"), <<>>, Codes("3704 044"), Codes("3704004A"), Codes("-3704004"), Codes("+1000000")}
Accts == {Codes("1"), Codes("0"), Codes("12"), Codes("+12"), Codes("-532013000"), Codes("532013000"), Codes("9999999999"), Codes("0000000007"), Codes("100"), <<>>,
          Codes("12345678901"), Codes("53201300A"), Codes("5320 13000"), Codes("12.5"), Codes("00000000001")}
         \cup {SubSeq(Codes("9081726354"), 1, n) : n \in 1..10} \cup {DecW((((Seed % 10000) * 7919) % 1000003) + n * 37, n) : n \in 6..10}
PickGerman == /\ st = "start"
              /\ \E x \in Banks, y \in Accts : src' = [c |-> x, b |-> y] /\ text' = German(x, y).val
              /\ st' = "german" /\ how' = "german" /\ UNCHANGED errs

Set(q, i, c) == [q EXCEPT ![i] = c]
Swap(q, i) == [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]
Ins(q, i, c) == SubSeq(q, 1, i) \o <<c>> \o From(q, i + 1)
Del(q, i) == SubSeq(q, 1, i - 1) \o From(q, i + 1)
SameKind(a, b) == (IsDigit(a) /\ IsDigit(b)) \/ (IsUpper(a) /\ IsUpper(b))

(* errors of one character; from the second on only a few, the product is too big *)
CanErr == st \in {"valid", "bad"} /\ how \notin {"country", "length", "short"} /\ errs < MaxErr
Some(i) == errs = 0 \/ i % 5 = errs

Subst == CanErr /\ \E i \in 1..Len(text), c \in Alpha :
           /\ Some(i) /\ c # text[i] /\ text' = Set(text, i, c)
           /\ how' = IF SameKind(c, text[i]) THEN "subst" ELSE "other"
           /\ st' = "bad" /\ errs' = errs + 1 /\ UNCHANGED src
Transpose == CanErr /\ \E i \in 1..(Len(text) - 1) :
           /\ Some(i) /\ text[i] # text[i + 1] /\ text' = Swap(text, i)
           /\ how' = IF SameKind(text[i], text[i + 1]) THEN "transpose" ELSE "other"
           /\ st' = "bad" /\ errs' = errs + 1 /\ UNCHANGED src
Insert == CanErr /\ \E i \in 0..Len(text), c \in {48, 65, 32, 45, 9, 10, 13, 0, 160} :
           /\ Some(i) /\ text' = Ins(text, i, c)
           /\ how' = IF c = 32 THEN "blank" ELSE "other"
           /\ st' = (IF c = 32 THEN st ELSE "bad") /\ errs' = errs + 1 /\ UNCHANGED src
Delete == CanErr /\ \E i \in 1..Len(text) : Some(i) /\ text' = Del(text, i) /\ how' = "other" /\ st' = "bad" /\ errs' = errs + 1 /\ UNCHANGED src
Case == CanErr /\ \E q \in {Lower(text), Paper(text)} : text' = q /\ how' = "blank" /\ st' = st /\ errs' = errs + 1 /\ UNCHANGED src
Check99 == CanErr /\ errs = 0 /\ \E d \in 0..99 :
             /\ text' = [text EXCEPT ![3] = 48 + d \div 10, ![4] = 48 + (d % 10)] /\ text' # text
             /\ how' = "digits" /\ st' = "bad" /\ errs' = errs + 1 /\ UNCHANGED src

Next == PickBase \/ PickGerman \/ PickCountry \/ Short \/ Subst \/ Transpose \/ Insert \/ Delete \/ Case \/ Check99
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
P(s) == IF Mut = "nomod" /\ Len(s) > 20 THEN Ok(s) ELSE IF Mut = "mod96" THEN (IF Num(SubSeq(s, 3, 4)) % 96 = 0 THEN Ok(s) ELSE Parse(s)) ELSE Parse(s)

BuiltIsValid == st = "valid" => P(text) = Ok(Upper(Without(text, 32))) /\ Build(src.c, src.b).val = P(text).val
ErrorsAreDetected == errs = 1 /\ how \in {"subst", "transpose", "digits"} => ~P(text).ok
WrongLength == how = "length" => ~P(text).ok
PaperReads == st = "valid" => P(Paper(Upper(Without(text, 32)))) = P(text)
(* whatever is accepted is what building from its own parts gives *)
AcceptedIsCanonical == LET p == P(text) IN p.ok => Build(SubSeq(p.val, 1, 2), From(p.val, 5)) = p
GermanReads == st = "german" /\ text # <<>> => /\ Len(text) = 22 /\ P(text) = Ok(text)
                                               /\ BankOf(text) = src.c /\ AcctOf(text) = DropLeading(src.b, 48)
Item(o, t, c, bb) == PrintT("@@IN " \o ToJson([op |-> o, t |-> t, c |-> c, b |-> bb]))
EmitState == Emit => IF st = "german" THEN Item("german", <<>>, src.c, src.b)
                     ELSE /\ Item("from", text, <<>>, <<>>)
                          /\ Len(text) >= 4 => Item("new", <<>>, SubSeq(text, 1, 2), From(text, 5))
Good == BuiltIsValid /\ ErrorsAreDetected /\ WrongLength /\ PaperReads /\ AcceptedIsCanonical /\ GermanReads
=============================================================================
