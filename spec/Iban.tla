-------------------------------- MODULE Iban --------------------------------
(* IBANs: ISO 13616 syntax, ISO 7064 mod 97-10 check digits. Reference semantics. *)
EXTENDS Chars, FiniteSets

(* registered lengths, four characters per country *)
Registry ==
  "AL28AD24AZ28BH22BE16BA20BR29VG24BG22CR22DK18DE22DO28SV28EE20FO18FI18FR27GE22GI23GR27GL18" \o
  "GB22GT28IQ23IE22IS26IL23IT27JO30KZ20QA29XK20HR21KW30LV21LB28LI21LT20LU20MT31MR27MU30MK19" \o
  "MD24MC27ME22NL18NO15AT20PK24PS29PL28PT25RO24LC32SM27ST25SA24SE24CH21RS22SC31SK24SI19ES24" \o
  "TL23TR26CZ24TN24UA29HU28AE23BY28CY28"
(* no recursive operators here: TLC evaluates the tables once only without them *)
Starts == {4 * k - 3 : k \in 1..(Len(Registry) \div 4)}
Countries == {Codes(SubSeq(Registry, i, i + 1)) : i \in Starts}
LengthOf == [cc \in Countries |->
               LET k == CHOOSE j \in Starts : Codes(SubSeq(Registry, j, j + 1)) = cc
                   d == Codes(SubSeq(Registry, k + 2, k + 3))
               IN (d[1] - 48) * 10 + d[2] - 48]
MaxLength == 34

(* remainder of the number the characters stand for: digits count as themselves, letters as 10..35 *)
RECURSIVE Mod97(_, _)
Mod97(q, r) ==
  IF q = <<>> THEN r
  ELSE LET c == Head(q) IN
       Mod97(Tail(q), IF IsDigit(c) THEN (r * 10 + c - 48) % 97 ELSE (r * 100 + c - 55) % 97)

Fail == [ok |-> FALSE, val |-> <<>>]
Ok(v) == [ok |-> TRUE, val |-> v]

CheckDigits(cc, bban) == DecW(98 - Mod97(bban \o cc \o <<48, 48>>, 0), 2)

LengthFits(cc, n) == IF cc \in DOMAIN LengthOf THEN n = LengthOf[cc] ELSE n <= MaxLength /\ n > 4

(* build an IBAN of a country and a basic bank account number *)
Build(c, b) ==
  LET cc == Upper(c) bban == Upper(b) IN
  IF Len(cc) = 2 /\ AllOf(c, IsLetter) /\ AllOf(b, IsAlnum) /\ LengthFits(cc, Len(b) + 4)
  THEN Ok(cc \o CheckDigits(cc, bban) \o bban) ELSE Fail

(* parse an IBAN; blanks and the case of letters do not matter *)
Parse(s) ==
  LET q == Upper(Without(s, 32)) IN
  IF Len(q) >= 5 /\ AllOf(q, IsAlnum) /\ IsLetter(q[1]) /\ IsLetter(q[2]) /\ IsDigit(q[3]) /\ IsDigit(q[4])
     /\ LengthFits(SubSeq(q, 1, 2), Len(q)) /\ Mod97(From(q, 5) \o SubSeq(q, 1, 4), 0) = 1 /\ Num(SubSeq(q, 3, 4)) \in 2..98
  THEN Ok(q) ELSE Fail

German(bank, acct) ==
  IF Len(bank) = 8 /\ AllOf(bank, IsDigit) /\ Len(acct) \in 1..10 /\ AllOf(acct, IsDigit)
  THEN Build(Codes("DE"), bank \o Rep(48, 10 - Len(acct)) \o acct) ELSE Fail

(* paper format: groups of four *)
RECURSIVE Paper(_)
Paper(q) == IF Len(q) <= 4 THEN q ELSE SubSeq(q, 1, 4) \o <<32>> \o Paper(From(q, 5))

(* what a German IBAN says about its account *)
BankOf(v) == SubSeq(v, 5, 12)
AcctOf(v) == DropLeading(From(v, 13), 48)
=============================================================================
