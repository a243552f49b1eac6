----------------------------- MODULE WireDesign -----------------------------
(* Messages grown token by token; every complete one is a test input. Theorems: reading is the inverse of writing. *)
EXTENDS Wire, Json, Integers

CONSTANTS MaxTok, Rand, Emit, Mut, Small, Big

VARIABLES msg, toks, done
vars == <<msg, toks, done>>

Frag == IF Big THEN {<<65>>, <<QUOTE>>, <<1000 + 4093>>, <<1000 + 65536>>} ELSE IF Small THEN {<<65>>, <<48>>, <<PLUS>>, <<QUOTE>>, <<COLON>>, <<ESC>>, <<AT>>, <<13, 10>>, <<228>>}
        ELSE {<<65>>, <<48>>, <<48, 49>>, <<50>>, <<44>>, <<PLUS>>, <<QUOTE>>, <<COLON>>, <<ESC>>, <<AT>>, <<13, 10>>, <<228>>, <<255>>, <<32>>, <<45>>, <<46>>}
Bins == IF Big THEN {<<QUOTE>>, <<1000 + 1000>>, <<AT, 1000 + 9999>>, <<1000 + 32766, PLUS>>, <<QUOTE, 1000 + 70000, QUOTE>>, <<1000 + 100000, COLON>>} ELSE IF Small THEN {<<>>, <<QUOTE>>, <<PLUS, AT, COLON>>, <<0, ESC>>, <<64, 49, 64, 39>>}
        ELSE {<<>>, <<QUOTE>>, <<PLUS, AT, COLON>>, <<0, ESC>>, <<64, 49, 64, 39>>, <<255, 254>>, <<ESC, QUOTE>>, <<13, 10>>, <<49>>, Rep(QUOTE, 11), Rep(65, 100)}
Ids == {Codes("HIRMS"), Codes("HIRM"), Codes("HKA"), Codes("HIRMSX"), Codes("RMS")}
TextG(v) == [bin |-> FALSE, v |-> v]
BinG(v) == [bin |-> TRUE, v |-> v]
Header(n, id) == <<TextG(id), TextG(Dec(n)), TextG(<<51>>)>>

Init == msg = <<<<Header(1, Codes("HIRMS"))>>>> /\ toks = 0 /\ done = FALSE

LastSeg == msg[Len(msg)]
LastEl == LastSeg[Len(LastSeg)]
LastGde == LastEl[Len(LastEl)]
SetGde(g) == [msg EXCEPT ![Len(msg)][Len(LastSeg)][Len(LastEl)] = g]
More == toks < MaxTok /\ ~done
Count == toks' = toks + 1 /\ done' = done

(* the header stays as it is: a new element first *)
Grow(v) == More /\ Len(LastSeg) > 1 /\ ~LastGde.bin /\ (IF LastGde.v = <<>> THEN TRUE ELSE Width(v[1]) = 1 \/ Width(LastGde.v[Len(LastGde.v)]) = 1) /\ msg' = SetGde(TextG(LastGde.v \o v)) /\ Count
Binary(v) == More /\ Len(LastSeg) > 1 /\ ~LastGde.bin /\ LastGde.v = <<>> /\ msg' = SetGde(BinG(v)) /\ Count
NewEl == More /\ msg' = [msg EXCEPT ![Len(msg)] = Append(@, <<TextG(<<>>)>>)] /\ Count
NewGde == More /\ Len(LastSeg) > 1 /\ msg' = [msg EXCEPT ![Len(msg)][Len(LastSeg)] = Append(@, TextG(<<>>))] /\ Count
NewSeg(id) == More /\ msg' = Append(msg, <<Header(Len(msg) + 1, id)>>) /\ Count
(* steps that begin a new part with content at once, to go deeper *)
Full == \/ \E v \in Frag : More /\ toks > 0 /\ msg' = [msg EXCEPT ![Len(msg)] = Append(@, <<TextG(v)>>)] /\ Count
        \/ \E v \in Bins : More /\ toks > 0 /\ msg' = [msg EXCEPT ![Len(msg)] = Append(@, <<BinG(v)>>)] /\ Count
Next == \/ \E v \in Frag : Grow(v)
        \/ \E v \in Bins : Binary(v)
        \/ NewEl \/ NewGde \/ Full
        \/ \E id \in Ids : NewSeg(id)
(* random walks end and print what they have got *)
Stop == Rand /\ toks = MaxTok /\ ~done /\ done' = TRUE /\ UNCHANGED <<msg, toks>>
Spec == Init /\ [][Next \/ Stop]_vars

-----------------------------------------------------------------------------
MEscape(q) == IF Mut = "noat" THEN Concat([i \in 1..Len(q) |-> IF q[i] \in Reserved \ {AT} THEN <<ESC, q[i]>> ELSE <<q[i]>>]) ELSE Escape(q)
MWriteGde(g) == IF g.bin THEN <<AT>> \o Dec(Size(g.v) + (IF Mut = "len" THEN 1 ELSE 0)) \o <<AT>> \o g.v ELSE MEscape(g.v)
MWrite == Concat([i \in 1..Len(msg) |-> Join([j \in 1..Len(msg[i]) |-> Join([k \in 1..Len(msg[i][j]) |-> MWriteGde(msg[i][j][k])], COLON)], PLUS) \o <<QUOTE>>])
Bytes == IF Mut = "" THEN WriteMsg(msg) ELSE MWrite

Same(a, b) == /\ Len(a) = Len(b)
              /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Len(a[i][j]) = Len(b[i][j]) /\ \A k \in 1..Len(a[i][j]) : a[i][j][k] = b[i][j][k]
RoundTrip == LET r == Read(Bytes) IN WellFormed(r) /\ Same(Values(r), msg)
Partition == LET r == Read(Bytes) IN Concat([i \in 1..Len(r.segs) |-> r.segs[i].raw]) = Bytes
Good == (Rand => done) => RoundTrip /\ Partition

HasBadFloat == \E i \in 1..Len(msg) : \E j \in 1..Len(msg[i]) : \E k \in 1..Len(msg[i][j]) : ~msg[i][j][k].bin /\ BadFloat(msg[i][j][k].v)
\* every single byte, alone and next to others, and pairs that look like UTF-8
EveryByte == {<<i>> : i \in 1..255} \cup {<<i, i>> : i \in 1..255} \cup {<<65, i, 66>> : i \in 1..255} \cup {<<a, b>> : a \in {194, 195, 226}, b \in 128..191}
EmitAll == (Emit /\ toks = 0 /\ ~Rand /\ ~Big) =>
  /\ \A v \in EveryByte : PrintT("@@IN " \o ToJson([op |-> "text", v |-> v]))
  /\ PrintT("@@IN " \o ToJson([op |-> "binary", v |-> <<>> \o [i \in 1..256 |-> i - 1]]))
  /\ \A i \in 0..255 : PrintT("@@IN " \o ToJson([op |-> "binary", v |-> <<i>>]))
EmitState == EmitAll /\ (Emit /\ (Rand => done) /\ ~HasBadFloat) =>
  /\ PrintT("@@IN " \o ToJson([op |-> "split", msg |-> WriteMsg(msg), ids |-> SetToSeq(Ids)]))
  /\ (~Big /\ ~LastGde.bin /\ Len(LastSeg) > 1) => PrintT("@@IN " \o ToJson([op |-> "text", v |-> LastGde.v]))
  /\ LastGde.bin => PrintT("@@IN " \o ToJson([op |-> "binary", v |-> LastGde.v]))
=============================================================================
