--------------------------------- MODULE Unknown ---------------------------------
(***************************************************************************)
(* Segments that mean nothing to the client, anywhere in the replies of a  *)
(* correct conversation, and the independent segments in another order.    *)
(* The state is a variation under construction; every complete one is      *)
(* replayed next to the plain conversation, and PairTrace requires the two *)
(* recorded executions to be observationally equal.                        *)
(***************************************************************************)
EXTENDS Bases, Json

CONSTANTS Rand,   \* TRUE: random variations, FALSE: every single insertion within the bounds
          MaxAt,  \* highest position of an inserted segment
          MaxIns  \* insertions into one reply (simulation)

VARIABLES b, x, d
vars == <<b, x, d>>

\* "#" stands for the number of the segment
Strange == {
  "HIXYZ:#:1", "HIXYZ:#:9:3+x+y:z+@4@a'b++c", "HIXYZ:#:999:4+a?+b?'c?:d??e+?@5?@", "HIABC:#:2+@24@'HNHBS:5:1+1'HIRMG:2:2''+1", "HIABC:#:1:4+++:::+", "hirmg:#:2+9999::klein",
  "HIRMG:#:9+9999::Fehler", "HIRMG:#:1+9010::alt", "HIRMS:#:7:3+9050::Fehler", "HIRMS:#:3:4+3920::Verfahren:999:900", "HIBPA:#:99+17+280:1+Falsch+1+1+201+0", "HIBPA:#:1:4+99",
  "DIPINS:#:1:4+1+1+HKSAL:J", "HIXYZS:#:1:4+1+1+0+x:y", "HIBPAS:#:3:4+1", "HITANS:#:4:4+1+1+1+J:N:0:0:942:2:MTAN2:mobileTAN::mobile TAN:6:1:SMS:3:1:J:1:0:N:0:2:N:J:00:1:1",
  "HITANS:#:7:4+1+1+0+J:N:0:901:2:TEC0:HHD", "HIPINS:#:2:4+1+1+0+5:38:6:USERID:CUSTID:HKSAL:J", "HNVSD:#:1+@3@abc", "HKEND:#:1+x", "HIKOM:#:9:4",
  "HIUPA:#:99+fremd+99+1", "HIUPD:#:99+1::280:1+fremd", "HIUPD:#:1:4+1:280:1+fremd++EUR+A+B+C", "HISYN:#:99+FALSCH", "HISYN:#:1:5+FALSCH", "HIKAZ:#:99+@3@abc", "HIKAZ:#:4:3+@14@:20:X\n:61:1501",
  "HISAL:#:99+a:b:c+x", "HISAL:#:4:3+1::280:1+P+EUR+C:1,:EUR:20150101", "HIPRO:#:99+x", "HIPRO:#:2:3+x:1+2+20150101+000000+9999::x", "HIKIF:#:99:3+x", "HIKIM:#:99+a+b",
  "HIISA:#:3:4+PIN:1+280:1:x:S:0:0", "HITAB:#:4:4+0+A:1:::::::::::handy", "HNXYZ:#:1+x", "GIVER:#:1+x", "XX:#:0", "HITAN:#:1:4+4++r", "HISPA:#:1:3+J:DE02:GENO:1::280:1", "HICAZ:#:1:3+x+urn?:iso+@5@<a/>'"}
\* known, well-formed and without meaning for the outcome
Harmless == {"HIKOM:#:4:4+280:10000000+1+3:https?://bank.example/fints+2:bank.example::MIM:1", "HISHV:#:2:4+J+RDH:1:2+DDV:1", "HISHV:#:3:4+N+RDH:1:9+PIN:1:2", "HIKPV:#:1:4+0+1",
  "HITAN:#:6:4+4++noref+nochallenge", "HIKIM:#:2+Werbung+Kaufen Sie??",
  "HIKOM:#:3:4+280:10000000+1+3:https?://bank.example/fints+2:bank.example::MIM:1", "HNSHK:#:4+PIN:1+999+4444+1+1+2:@3@abc:0+1+1:20150101:101010+1:999:1:@3@abc+6:10:16+280:1:bank:S:0:0+1:@3@abc",
  "HNSHK:#:3+999+4445+1+1+2::0+1+1:20150101:101010+1:999:1+6:10:16+280:1:bank:S:0:0", "HNSHA:#:1+4445+@3@abc+12345:1", "HNSHA:#:2+4444+@3@abc+12345:1", "HNSHA:#:2+4444+@3@abc",
  "HIKIF:#:1:3+123::280:10000000+1+N1+N2+Giro+EUR+20150101+1,5+2,+3,25+1000,:EUR+124::280:10000000+1+2+Text+1:a?:b+2:c",
  "HITAN:#:6:4+4+@20@01234567890123456789+ref1+Bitte TAN+@4@hhd1+20150101:101010+Handy"}
All == Strange \cup Harmless

Ins(at, text) == [at |-> at, seg |-> text]
SOne(S) == RandomElement(IF Len(d) < 0 THEN {} ELSE S)
RIns(e) == LET n == SOne(0..MaxIns) IN
           [q |-> e.q, i |-> e.i, perm |-> SOne({0, 0, 1, 2, 3, 4, 5}), ins |-> TLCEval([k \in 1..n |-> Ins(10000 + SOne(0..999), SOne(All))])]

Emit(dd) == PrintT("@@SC " \o ToJson([base |-> b[1].name \o ToString(b[1].ver), var |-> dd]))
EmitBase(base) == PrintT("@@BASE " \o ToJson([base |-> base.name \o ToString(base.ver), api |-> base.api, ver |-> base.ver, op |-> base.op, args |-> base.args, bank |-> base.bank]))

Init == b = <<>> /\ x = <<>> /\ d = <<>>
ChooseBase == b = <<>> /\ (IF Rand THEN \E base \in {TLCEval(SOne(Bases))} : b' = <<base>> /\ EmitBase(base)
                           ELSE \E base \in Bases : b' = <<base>> /\ EmitBase(base)) /\ UNCHANGED <<x, d>>
\* simulation: every reply is varied, one after the other; otherwise one reply is chosen
VaryAll == /\ Rand /\ b # <<>> /\ Len(d) < Cardinality(Exchanges(b[1]))
           /\ LET e == CHOOSE y \in Exchanges(b[1]) : \A k \in 1..Len(d) : d[k].q # y.q \/ d[k].i # y.i IN
              \E y \in {TLCEval(RIns(e))} : d' = Append(d, y)
           /\ (IF Len(d') = Cardinality(Exchanges(b[1])) THEN Emit(d') ELSE TRUE)
           /\ UNCHANGED <<b, x>>
VaryOne == /\ ~Rand /\ b # <<>> /\ d = <<>>
           /\ \E e \in Exchanges(b[1]) :
                \/ \E at \in 0..MaxAt : \E t \in All : d' = <<[q |-> e.q, i |-> e.i, perm |-> 0, ins |-> <<Ins(at, t)>>]>>
                \/ \E p \in 1..7 : d' = <<[q |-> e.q, i |-> e.i, perm |-> p, ins |-> <<>>]>>
           /\ Emit(d')
           /\ UNCHANGED <<b, x>>
Next == ChooseBase \/ VaryAll \/ VaryOne
Spec == Init /\ [][Next]_vars
================================================================================
