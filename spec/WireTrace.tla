----------------------------- MODULE WireTrace -----------------------------
(* What the library makes of bytes, against the reference reader and writer. *)
EXTENDS Wire, FuncTrace

Raws(s) == [i \in 1..Len(s) |-> s[i].raw]
Chk(ok, why) == IF ok THEN {} ELSE {why}
IsOf(id, s) == IdOf(s) = id

SplitBad(r) ==
  LET x == Read(r.msg) IN
  IF ~WellFormed(x) THEN {}  \* not a message
  ELSE IF r.err # "" THEN {"a well-formed message is not split into its segments"}
  ELSE Chk(r.segs = Raws(x.segs), "a message is not partitioned into exactly its segments")
       \cup Chk(r.again = Raws(x.segs), "extracting a second time gives other segments")
       \cup UNION {LET want == SelectSeq(x.segs, LAMBDA s : IsOf(r.ids[i], s)) IN
                   Chk(r.find[i].all = Raws(want), "lookup by identifier does not return exactly the segments with that identifier")
                   \cup Chk(r.find[i].first = (IF want = <<>> THEN <<>> ELSE want[1].raw), "lookup by identifier does not return the first segment with that identifier") : i \in 1..Len(r.ids)}
       \cup (IF r.segs # Raws(x.segs) THEN {} ELSE
             UNION {LET els == x.segs[i].els IN
                    Chk(r.els[i].err = "", "a segment cannot be split into its elements")
                    \cup Chk(r.els[i].err # "" \/ Trim(r.els[i].parts) = Trim(Raws(els)), "a segment is not split into exactly its elements")
                    \cup (IF r.els[i].err # "" \/ Trim(r.els[i].parts) # Trim(Raws(els)) THEN {} ELSE
                          UNION {Chk(r.els[i].groups[j].err = "" /\ Trim(r.els[i].groups[j].parts) = Trim(els[j].gdes), "an element is not split into exactly its group elements")
                                 : j \in 1..Len(r.els[i].groups)})
                    : i \in 1..Len(x.segs)})

TextBad(r) == Chk(r.out = Escape(r.v) /\ r.outtext = Escape(r.v) /\ r.outid = Escape(r.v), "text is not escaped as it should be")
              \cup Chk(r.err = "" /\ r.back = r.v /\ r.backtext = r.v /\ r.backid = r.v, "text read back is not the text written")
BinaryBad(r) == Chk(r.out = WriteGde([bin |-> TRUE, v |-> r.v]), "binary data is not written with its exact length")
                \cup Chk(r.err = "" /\ r.back = r.v, "binary data read back is not the data written")
                \cup Chk(r.errsp = "" /\ r.parts = <<WriteGde([bin |-> TRUE, v |-> r.v]), <<65>>>>, "binary data is not one element")

Verdict(r) == IF r.panic # "" THEN {"panic: " \o r.panic}
              ELSE CASE r.op = "split" -> SplitBad(r) [] r.op = "text" -> TextBad(r) [] r.op = "binary" -> BinaryBad(r)
=============================================================================
