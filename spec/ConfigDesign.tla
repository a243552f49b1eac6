----------------------------- MODULE ConfigDesign -----------------------------
(***************************************************************************)
(* Creating a client, step by step: look up the bank, settle the URL, then *)
(* the version. Every configuration tried is a test input.                 *)
(***************************************************************************)
EXTENDS Config

CONSTANTS Emit, Mut, Every, Seed \* of the variations, every n-th bank

VARIABLES c, pc, entry, out
vars == <<c, pc, entry, out>>

\* numbers close to a real one
Near(b) == {SubSeq(b, 1, Len(b) - 1), "0" \o b, b \o "0", " " \o b, b \o " ", SubSeq(b, 2, Len(b)), SubSeq(b, 1, 3), b \o "'", "x" \o SubSeq(b, 2, Len(b))}
Strange == {"", "0", "00000000", "99999999", "1", "1001001", "DE", "+:'?@"}
URLs == {"", "https://explicit.example/fints?a=b", "not a url"}
Vers == {0, 220, 300, 201, 210, 301, 400, -1, 999, 3, 30}
Order == [b \in Numbers |-> 0]
Nums == [i \in 1..Cardinality(Numbers) |-> 0]
Pick(b) == (CHOOSE i \in 0..9 : SubSeq(b, Len(b), Len(b)) = ToString(i)) + (7 * (CHOOSE i \in 0..9 : SubSeq(b, 4, 4) = ToString(i))) + (3 * (CHOOSE i \in 0..9 : SubSeq(b, 6, 6) = ToString(i)))
Chosen(b) == (Pick(b) + Seed) % Every = 0
Odd(b) == Cardinality({e : e \in Entries(b)}) > 1 \/ \E e \in Entries(b) : EntryVersion(e) \notin Supported \/ e.url = ""

Cfg(b, u, v) == [bank |-> b, url |-> u, ver |-> v]
Init ==
  /\ \/ \E b \in Numbers : c = Cfg(b, "", 0)
     \/ \E b \in {x \in Numbers : Chosen(x) \/ Odd(x)} : \E u \in {"", "https://explicit.example/fints?a=b"} : \E v \in {0, 220, 300, 210} : c = Cfg(b, u, v)
     \/ \E b \in {x \in Numbers : Chosen(x)} : \E n \in Near(b) : c = Cfg(n, "", 0)
     \/ \E b \in Strange \cup {"10010010", "30020500"} : \E u \in URLs : \E v \in Vers : c = Cfg(b, u, v)
  /\ pc = "lookup" /\ entry = None /\ out = [ok |-> TRUE, url |-> "", ver |-> 0]

Matches(b) == IF Mut = "prefix" /\ b # "" /\ b \notin Numbers /\ \E x \in Numbers : Len(x) >= Len(b) /\ SubSeq(x, 1, Len(b)) = b
              THEN Entries(CHOOSE x \in Numbers : Len(x) >= Len(b) /\ SubSeq(x, 1, Len(b)) = b) ELSE Entries(b)
Lookup == pc = "lookup" /\ pc' = "url" /\ UNCHANGED <<c, out>> /\ entry' \in Matches(c.bank)
Fail == out' = [ok |-> FALSE, url |-> "", ver |-> 0] /\ pc' = "done"
PickURL == /\ pc = "url" /\ UNCHANGED <<c, entry>>
           /\ LET u == IF c.url # "" /\ ~(Mut = "dirwins" /\ entry.url # "") THEN c.url ELSE entry.url
              IN IF u = "" /\ Mut # "nourl" THEN Fail ELSE out' = [out EXCEPT !.url = u] /\ pc' = "ver"
PickVer == /\ pc = "ver" /\ UNCHANGED <<c, entry>>
           /\ LET v == IF c.ver # 0 /\ ~(Mut = "fallback" /\ c.ver \notin Supported) THEN c.ver ELSE EntryVersion(entry)
              IN IF v \notin Supported THEN Fail ELSE out' = [out EXCEPT !.ver = v] /\ pc' = "done"
Next == Lookup \/ PickURL \/ PickVer
Spec == Init /\ [][Next]_vars

Done == pc = "done"
\* the property, said without Resolve
Explicit == Done /\ out.ok => (c.url # "" => out.url = c.url) /\ (c.ver # 0 => out.ver = c.ver)
FromDirectory == Done /\ out.ok => (c.url = "" => c.bank \in Numbers /\ \E e \in Entries(c.bank) : e.url = out.url) /\ (c.ver = 0 => c.bank \in Numbers /\ \E e \in Entries(c.bank) : EntryVersion(e) = out.ver)
Usable == Done /\ out.ok => out.url # "" /\ out.ver \in Supported
Whenever == Done /\ c.url # "" /\ c.ver \in Supported => out.ok
Same == Done => IF out.ok THEN out \in Outcomes(c) ELSE \E o \in Outcomes(c) : ~o.ok
Good == Explicit /\ FromDirectory /\ Usable /\ Whenever /\ Same
EmitState == (Emit /\ Done) => PrintT("@@IN " \o ToJson([op |-> "config", bank |-> c.bank, url |-> c.url, ver |-> c.ver]))
===============================================================================
