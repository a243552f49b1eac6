-------------------------------- MODULE Values --------------------------------
(* Data elements and groups as values: what each kind consists of, how it is written, and an independent reader.
   A value is a sequence of fields, each of them a sequence of codes: numbers in decimal, amounts with a decimal comma,
   dates as eight and times as six digits, truth as J or N, text and binary data as they are. *)
EXTENDS Wire, Integers, FiniteSets

None == <<>>
F(t) == [t |-> t, opt |-> FALSE]
O(t) == [t |-> t, opt |-> TRUE]
K(fs) == [head |-> fs, rep |-> <<>>, min |-> 0, max |-> 0]
L(fs, r, lo, hi) == [head |-> fs, rep |-> r, min |-> lo, max |-> hi]
(* "text" must not be empty, "opt" may; "fix1"... are what the kind prescribes *)
Kinds == [
  number |-> K(<<F("num")>>), digit1 |-> K(<<F("dig1")>>), digit3 |-> K(<<F("dig3")>>), digit6 |-> K(<<F("dig6")>>), float |-> K(<<F("val")>>), value |-> K(<<F("val")>>),
  boolean |-> K(<<F("bool")>>), date |-> K(<<F("date")>>), time |-> K(<<F("time")>>), country |-> K(<<F("dig3")>>),
  code |-> K(<<F("text")>>), currency |-> K(<<F("text")>>), ident |-> K(<<F("text")>>), alnum |-> K(<<F("text")>>), freetext |-> K(<<F("text")>>), binary |-> K(<<F("bin")>>),
  amount |-> K(<<F("val"), F("text")>>), bank |-> K(<<F("dig3"), F("text")>>),
  account |-> K(<<F("text"), F("any"), F("dig3"), F("text")>>),
  intaccount |-> K(<<O("any"), O("any"), O("any"), O("any"), O("dig3"), O("text")>>),
  balance |-> K(<<F("sign"), F("val"), F("text"), F("date")>>), balancet |-> K(<<F("sign"), F("val"), F("text"), F("date"), F("time")>>),
  limit |-> K(<<O("any"), O("val"), O("text"), O("num")>>),
  job |-> K(<<F("text"), F("num")>>), joblimit |-> K(<<F("text"), F("num"), F("text"), O("val"), O("text"), O("num")>>),
  header |-> K(<<F("text"), F("num"), F("num")>>), refheader |-> K(<<F("text"), F("num"), F("num"), F("num")>>),
  msgref |-> K(<<F("text"), F("num")>>), keyname |-> K(<<F("dig3"), F("text"), F("text"), F("text"), F("num"), F("num")>>),
  cert |-> K(<<F("num"), F("bin")>>), pintan |-> K(<<F("text"), O("any")>>), signature |-> K(<<F("text"), O("any")>>),
  secid |-> K(<<F("party"), F("empty"), F("text")>>), secdate |-> K(<<F("when"), F("date"), F("time")>>),
  encalg |-> K(<<F("text"), F("text"), F("text"), F("bin"), F("text"), F("text"), O("obin")>>), hashalg |-> K(<<F("text"), F("text"), F("text"), O("obin")>>),
  sigalg |-> K(<<F("text"), F("text"), F("text")>>),
  params |-> L(<<>>, <<F("any")>>, 1, 10), ack |-> L(<<F("dig4"), F("any"), F("text")>>, <<O("any")>>, 0, 10),
  access |-> K(<<F("num"), F("text"), O("any"), O("any"), O("num")>>),
  secmethod |-> L(<<F("text")>>, <<F("num")>>, 1, 9), versions |-> L(<<>>, <<F("num")>>, 1, 9), langs |-> L(<<>>, <<F("lang")>>, 1, 9),
  pinjobs |-> L(<<>>, <<F("text"), F("bool")>>, 1, 6)]

(* the i-th field of a kind *)
FieldOf(k, i) == LET s == Kinds[k] IN IF i <= Len(s.head) THEN s.head[i] ELSE s.rep[((i - Len(s.head) - 1) % Len(s.rep)) + 1]
Complete(k, n) == LET s == Kinds[k] IN IF n < Len(s.head) THEN FALSE ELSE IF s.rep = <<>> THEN n = Len(s.head)
                  ELSE ((n - Len(s.head)) % Len(s.rep)) = 0 /\ n - Len(s.head) >= s.min * Len(s.rep)
Longest(k) == LET s == Kinds[k] IN Len(s.head) + s.max * Len(s.rep)

-----------------------------------------------------------------------------
(* canonical forms *)
Canon(q) == LET d == DropLeading(q, 48) IN IF d = <<>> THEN <<48>> ELSE d
Pad(q, w) == IF Len(q) >= w THEN q ELSE Rep(48, w - Len(q)) \o q
Widths == [dig1 |-> 1, dig3 |-> 3, dig4 |-> 4, dig6 |-> 6]
IsDig(t) == t \in DOMAIN Widths
Default(t) == CASE t \in {"num", "lang"} \/ IsDig(t) -> <<48>> [] t = "val" -> <<48, 44>> [] OTHER -> None
Zero(v) == \A i \in 1..Len(v) : v[i] \in {48, 44}
(* a balance of nothing has no sign *)
NormSign(k, a) == IF k \in {"balance", "balancet"} /\ Zero(a[2]) THEN [a EXCEPT ![1] = <<67>>] ELSE a
(* trailing empty fields of a list carry no meaning *)
Lists == {"params", "ack"}
RECURSIVE Shorten(_, _)
Shorten(a, n) == IF Len(a) > n /\ a[Len(a)] = None THEN Shorten(SubSeq(a, 1, Len(a) - 1), n) ELSE a
Norm(k, a) == IF k \in Lists THEN Shorten(a, Len(Kinds[k].head)) ELSE NormSign(k, a)

(* writing *)
WriteField(t, v) == CASE IsDig(t) -> Pad(v, Widths[t])
                      [] t = "bin" -> <<AT>> \o Dec(Len(v)) \o <<AT>> \o v
                      [] t = "obin" -> IF v = None THEN None ELSE <<AT>> \o Dec(Len(v)) \o <<AT>> \o v
                      [] t = "party" -> IF v = Codes("MS") THEN <<49>> ELSE <<50>>
                      [] t = "when" -> IF v = Codes("STS") THEN <<49>> ELSE <<54>>
                      [] OTHER -> Escape(v)
Write(k, a) == Join(Trim([i \in 1..Len(a) |-> WriteField(FieldOf(k, i).t, a[i])]), COLON)

-----------------------------------------------------------------------------
(* reading *)
Digits(q) == q # <<>> /\ \A i \in 1..Len(q) : IsDigit(q[i])
HasLetter(q) == \E i \in 1..Len(q) : IsLetter(q[i])
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Ok(v) == [res |-> "ok", v |-> v]
Err == [res |-> "err", v |-> None]
Open == [res |-> "any", v |-> None]
CalendarDate(q) == LET y == Num(SubSeq(q, 1, 4)) m == Num(SubSeq(q, 5, 6)) d == Num(SubSeq(q, 7, 8))
                   IN IF m \notin 1..12 THEN Err ELSE IF d = 0 \/ d > Days(y, m) THEN Err ELSE IF y = 0 THEN Open ELSE Ok(q)
ClockTime(q) == IF Num(SubSeq(q, 1, 2)) < 24 /\ Num(SubSeq(q, 3, 4)) < 60 /\ Num(SubSeq(q, 5, 6)) < 60 THEN Ok(q) ELSE Err
(* a decimal: digits, a comma, perhaps more digits *)
Decimal(q) ==
  LET c == {i \in 1..Len(q) : q[i] = 44}
  IN IF c = {} /\ Digits(q) THEN Ok(Canon(q) \o <<44>>)
     ELSE IF Cardinality(c) # 1 THEN Open
     ELSE LET k == CHOOSE i \in c : TRUE
              a == SubSeq(q, 1, k - 1) b == From(q, k + 1)
          IN IF Digits(a) /\ (b = <<>> \/ Digits(b)) /\ (Len(a) = 1 \/ a[1] # 48) THEN Ok(a \o <<44>> \o DropTrailing(b, 48)) ELSE Open
ReadField(t, raw) ==
  CASE t \in {"num", "lang"} \/ IsDig(t) -> IF Digits(raw) /\ Len(Canon(raw)) < (IF t = "num" THEN 19 ELSE 10) THEN (IF t = "lang" /\ Canon(raw) \notin {<<49>>, <<50>>, <<51>>} THEN Open ELSE Ok(Canon(raw))) ELSE IF HasLetter(raw) THEN Err ELSE Open
    [] t = "val" -> Decimal(raw)
    [] t = "bool" -> IF raw \in {<<74>>, <<78>>} THEN Ok(raw) ELSE Err
    [] t = "date" -> IF Digits(raw) THEN (IF Len(raw) = 8 THEN CalendarDate(raw) ELSE Err) ELSE IF HasLetter(raw) THEN Err ELSE Open
    [] t = "time" -> IF Digits(raw) THEN (IF Len(raw) = 6 THEN ClockTime(raw) ELSE Err) ELSE IF HasLetter(raw) THEN Err ELSE Open
    [] t \in {"bin", "obin"} -> IF ValueOf(raw).bin THEN Ok(ValueOf(raw).v) ELSE Open
    [] t = "sign" -> IF raw \in {<<67>>, <<68>>} THEN Ok(raw) ELSE Open
    [] t = "party" -> IF raw = <<49>> THEN Ok(Codes("MS")) ELSE IF raw = <<50>> THEN Ok(Codes("MR")) ELSE Open
    [] t = "when" -> IF raw = <<49>> THEN Ok(Codes("STS")) ELSE IF raw = <<54>> THEN Ok(Codes("CRT")) ELSE Open
    [] t = "empty" -> IF raw = None THEN Ok(None) ELSE Open
    [] OTHER -> IF ValueOf(raw).bin THEN Open ELSE Ok(Unescape(raw))
(* a field that is not there, or empty *)
MissingField(f) == IF f.opt THEN Ok(Default(f.t)) ELSE IF f.t \in {"any", "empty"} THEN Ok(None) ELSE Open
Parse(text) == Read(text \o <<QUOTE>>)
ReadKind(k, text) ==
  LET p == Parse(text) IN
  IF ~WellFormed(p) \/ Len(p.segs) # 1 THEN Open ELSE IF Len(p.segs[1].els) # 1 THEN Open ELSE
  LET g == p.segs[1].els[1].gdes
      t == Trim(g)
      s == Kinds[k]
      want == Len(s.head)
      n == IF s.rep = <<>> THEN want ELSE IF Len(t) <= want + s.min * Len(s.rep) THEN want + s.min * Len(s.rep) ELSE Len(t)
      fs == [i \in 1..n |-> IF i > Len(t) THEN MissingField(FieldOf(k, i)) ELSE IF t[i] = None THEN MissingField(FieldOf(k, i)) ELSE ReadField(FieldOf(k, i).t, t[i])]
  IN IF \E i \in 1..Len(g) : BadFloat(g[i]) THEN Open
     ELSE IF \E i \in 1..Len(g) : ~ValueOf(g[i]).bin /\ \E j \in 1..Len(g[i]) : g[i][j] = 0 THEN Open
     \* an empty item of a list
     ELSE IF s.rep # <<>> /\ Len(g) > Len(t) /\ k \notin Lists THEN Open
     ELSE IF Len(g) > (IF s.rep = <<>> THEN want ELSE Longest(k)) THEN Open
     \* a limit of an amount without its currency
     ELSE IF k \in {"limit", "joblimit"} /\ \E i \in 1..(n - 1) : FieldOf(k, i).t = "val" /\ (i > Len(t) \/ t[i] = None) # (i >= Len(t) \/ t[i + 1] = None) THEN Open
     ELSE IF k = "intaccount" /\ Len(t) < 6 /\ Len(t) > 4 THEN Open
     ELSE IF k = "intaccount" /\ Len(t) = 6 /\ t[5] = None THEN Open
     ELSE IF ~Complete(k, n) THEN Err
     ELSE IF \E i \in 1..n : fs[i].res = "any" THEN Open
     ELSE IF \E i \in 1..n : fs[i].res = "err" THEN Err
     ELSE Ok(Norm(k, <<>> \o [i \in 1..n |-> fs[i].v]))
=============================================================================
