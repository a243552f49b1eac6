----------------------------- MODULE ValuesTrace -----------------------------
(* What the library wrote and read against the reference. *)
EXTENDS Values, FuncTrace, FiniteSets

Chk(ok, why) == IF ok THEN {} ELSE {why}
ReadBad(kind, text, err, back) ==
  LET x == ReadKind(kind, text) IN
  CASE x.res = "any" -> {}
    [] x.res = "err" -> Chk(err # "", "a text that is no " \o kind \o " is accepted")
    [] x.res = "ok" -> IF err # "" THEN {"a correct " \o kind \o " is rejected"} ELSE Chk(Norm(kind, back) = x.v, "a " \o kind \o " is read as something else")
Verdict(r) ==
  IF r.panic # "" THEN {"panic: " \o r.panic}
  ELSE IF r.op = "read" THEN ReadBad(r.kind, r.text, r.err, r.back)
  ELSE Chk(r.werr = "", "a " \o r.kind \o " cannot be written")
       \cup Chk(r.out = Write(r.kind, NormSign(r.kind, r.args)), "a " \o r.kind \o " is written differently")
       \cup (IF r.err # "" THEN {"a written " \o r.kind \o " cannot be read back"} ELSE Chk(Norm(r.kind, r.back) = Norm(r.kind, r.args), "a " \o r.kind \o " read back is another value"))
=============================================================================
