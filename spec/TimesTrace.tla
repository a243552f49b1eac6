----------------------------- MODULE TimesTrace -----------------------------
EXTENDS Times, FuncTrace

Chk(ok, why) == IF ok THEN {} ELSE {why}
T(x) == D(x[1], x[2], x[3])
Is(r, x) == r.err = "" /\ T(r.a) = x
Verdict(r) ==
  IF r.panic # "" THEN {"panic: " \o r.panic}
  ELSE IF r.op = "date" THEN
    LET a == T(r.a) b == T(r.b) IN
    Chk(r.json = WriteDate("json", a), "a date is written to JSON differently") \cup Chk(r.text = Iso(a), "a date is written differently") \cup Chk(r.str = Iso(a), "a date is printed differently")
    \cup Chk(<<r.from, r.to>> = WriteQuery(a, b), "a time frame is written to a query differently") \cup Chk(r.frame = WriteFrame(a, b), "a time frame is written to JSON differently")
    \cup Chk(Is(r.rjson, a), "a date read back from JSON is another one") \cup Chk(Is(r.rtext, a), "a date read back from text is another one")
    \cup Chk(r.rquery.err = "" /\ T(r.rquery.a) = a /\ T(r.rquery.b) = b, "a time frame read back from a query is another one")
    \cup Chk(r.rframe.err = "" /\ (IF a = Zero \/ b = Zero THEN T(r.rframe.a) = Zero /\ T(r.rframe.b) = Zero ELSE T(r.rframe.a) = a /\ T(r.rframe.b) = b), "a time frame read back from JSON is another one")
    \cup Chk(r.zero = (a = Zero /\ b = Zero), "an empty time frame is not told from others")
    \cup Chk(T(r.trunc) = a /\ r.clock = 0, "a date keeps a time of day, or loses its day")
  ELSE
    LET x == CASE r.w = "json" -> ReadDate("json", r.text) [] r.w = "text" -> ReadDate("text", r.text) [] r.w = "query" -> ReadQuery(r.text, r.text) [] r.w = "frame" -> ReadFrame(r.text)
    IN IF x.ok THEN Chk(r.res.err = "" /\ T(r.res.a) = x.a /\ (r.w \in {"json", "text"} \/ T(r.res.b) = x.b), "a correct " \o r.w \o " text is read as something else")
       \* what is no date is refused; a JSON time frame may also be taken for none
       ELSE Chk(r.res.err # "" \/ (r.w = "frame" /\ T(r.res.a) = Zero /\ T(r.res.b) = Zero), "a " \o r.w \o " text that is no date is accepted")
=============================================================================
