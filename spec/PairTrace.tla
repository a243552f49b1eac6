----------------------------- MODULE PairTrace -----------------------------
(***************************************************************************)
(* Two recorded executions (r.a, r.b) of the same calls must be            *)
(* observationally equal: the same requests, the same results, the same    *)
(* state shown afterwards. Left out is what may differ between any two     *)
(* executions: random references, sizes, dates in the headers, and the     *)
(* texts of errors.                                                        *)
(***************************************************************************)
EXTENDS FuncTrace

Without(x, ks) == [k \in DOMAIN x \ ks |-> x[k]]
Seqd(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
NoCtrl(x) == Without(x, {"ctrl"})
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* the supported orders are a set: their order is the bank's. Those announced by the inserted segments of Unknown do not count.
Strange(x) == x.id \in {"DIPINS", "HIXYZS", "HIBPAS"} \/ (x.id = "HITANS" /\ x.ver # 6) \/ (x.id = "HIPINS" /\ x.ver # 1)
Segs(s) == SelectSeq(s, LAMBDA x : ~Strange(x))
Snap(s) == Without(s, {"segs", "pins"}) @@ [nsegs |-> Len(Segs(s.segs)), segs |-> SetOf(Segs(s.segs)), npins |-> Len(s.pins), pins |-> SetOf(s.pins)]
Obs(e) ==
  CASE e.ev = "call" -> [ev |-> "call", op |-> e.op, args |-> e.args]
    [] e.ev = "send" -> Without(e, {"size", "actual", "sig", "sigend"}) @@ [sig |-> Seqd(e.sig, NoCtrl), sigend |-> Seqd(e.sigend, NoCtrl)]
    [] e.ev = "recv" -> [ev |-> "recv", kind |-> e.kind]
    [] e.ev = "ret" -> [ev |-> "ret", op |-> e.op, ok |-> e.ok, res |-> e.res, panic |-> e.panic, timeout |-> e.timeout, leak |-> e.leak, snap |-> Seqd(e.snap, Snap)]
    [] OTHER -> [ev |-> e.ev]

What(e) == CASE e.ev = "send" -> "requests differ" [] e.ev = "ret" -> "results differ" [] OTHER -> "calls proceed differently"
Days(s) == {s[i].days : i \in {j \in 1..Len(s) : s[j].ev = "call"}}
Min2(a, b) == IF a < b THEN a ELSE b
Equal(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Obs(a[i]) = Obs(b[i])
Verdict(r) ==
  IF Days(r.a) # Days(r.b) \/ Equal(r.a, r.b) THEN {}
  ELSE LET n == Min2(Len(r.a), Len(r.b))
           d == {i \in 1..n : Obs(r.a[i]) # Obs(r.b[i])}
       IN IF d = {} THEN {"one execution goes on where the other stops"}
          ELSE LET i == CHOOSE x \in d : \A y \in d : x <= y IN {What(r.b[i])}
=============================================================================
