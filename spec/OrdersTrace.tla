---------------------------- MODULE OrdersTrace ----------------------------
(* The orders the real code wrote, read by an independent reader, against what was announced and asked for. *)
EXTENDS Orders, FuncTrace

Chk(ok, why) == IF ok THEN {} ELSE {why}
Written(o, id, ver, els, at) == Chk(o.err = "", "an order cannot be written") \cup
  (IF o.err # "" THEN {} ELSE Chk(o.n = 1, "not one segment is written") \cup Chk(o.id = id, "another order is written") \cup Chk(o.ver = ver, "an order is written in another version than chosen")
                              \cup Chk(o.pos = at, "a segment does not bear its number") \cup Chk(o.els \in els, "an order does not say what was asked for: " \o id))
One(r, i) ==
  LET a == r.asks[i] o == r.outs[i] IN
  IF a.op \in SegKinds THEN Written(o, SegId(a.op), SegVer(a.op), SegEls(a.op, a.args), a.pos)
  ELSE LET b == Best(a.op, r.segs) IN
       IF b = 0 THEN Chk(o.err # "", "an order is made that the bank does not announce in an implemented version")
       ELSE Chk(o.err = "", "an announced order is refused") \cup
            (IF o.err # "" THEN {} ELSE Chk(o.ver = b, "not the highest version announced and implemented is used")
              \cup Written(o, OrderId(a.op), o.ver, UNION {OrderEls(a.op, o.ver, a.args, a.args.cont, d) : d \in {<<r.d1, r.d2>>, <<r.d3, r.d4>>}}, a.pos))
Verdict(r) == IF r.panic # "" THEN {"panic: " \o r.panic} ELSE UNION {One(r, i) : i \in 1..Len(r.asks)} \cup Chk(r.same, "the caller's list of announced segments is changed")
=============================================================================
