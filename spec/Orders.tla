------------------------------- MODULE Orders -------------------------------
(* The orders the library can write: which version of an order is chosen among the announced ones, and what a written order has to say.
   Orders of a builder are described by the operation (HbciMonitor: Best, OrderEls); the other segments a client can put into a message by their kind. *)
EXTENDS HbciMonitor

SegKinds == {"kif1", "kif2", "kif3", "kif4", "kif5", "kif6", "tan4v1", "tan4v6", "tan2", "idn", "vvb2", "vvb3", "syn2", "syn3", "end", "kom"}
SegId(k) == CASE k \in {"kif1", "kif2", "kif3", "kif4", "kif5", "kif6"} -> "HKKIF" [] k \in {"tan4v1", "tan4v6", "tan2"} -> "HKTAN" [] k = "idn" -> "HKIDN"
              [] k \in {"vvb2", "vvb3"} -> "HKVVB" [] k \in {"syn2", "syn3"} -> "HKSYN" [] k = "end" -> "HKEND" [] OTHER -> "HKKOM"
SegVer(k) == CASE k \in {"kif1", "tan4v1", "tan2", "end"} -> 1 [] k \in {"kif2", "idn", "vvb2", "syn2"} -> 2 [] k \in {"kif3", "vvb3", "syn3", "kom"} -> 3
               [] k = "kif4" -> 4 [] k = "kif5" -> 5 [] OTHER -> 6
(* a: acct, all, cont, max as for orders; sysid, fn (a text), from, to (numbers) *)
SegEls(k, a) ==
  CASE k \in {"kif1", "kif2"} -> {Canon(<<NatAcct(a.acct), <<JN(a.all)>>, <<"">>, <<a.cont>>>>)}
    [] k \in {"kif3", "kif4", "kif5", "kif6"} -> {Canon(<<IntAcct(a.acct), <<JN(a.all)>>, <<"">>, <<a.cont>>>>)}
    [] k = "tan4v1" -> {<<<<"4">>>>}
    [] k = "tan4v6" -> {Canon(<<<<"4">>, <<a.fn>>>>)}
    [] k = "tan2" -> {Canon(<<<<"2">>, <<"">>, <<a.cont>>, <<"">>, <<JN(a.all)>>>>)}
    [] k = "idn" -> {Canon(<<<<Ctry(a.acct.country), a.acct.bank>>, <<a.pin>>, <<a.sysid>>, <<IF a.all THEN "1" ELSE "0">>>>)}
    [] k \in {"vvb2", "vvb3"} -> {Canon(<<<<ToString(a.max)>>, <<ToString(a.tz)>>, <<"1">>, <<a.fn>>, <<a.pin>>>>)}
    [] k \in {"syn2", "syn3"} -> {<<<<ToString(a.max % 3)>>>>}
    [] k = "end" -> {Canon(<<<<a.sysid>>>>)}
    [] OTHER -> {Canon(<<<<Ctry(a.acct.country), a.acct.bank>>, <<Ctry(a.acct.country), a.acct.id>>, x, <<a.cont>>>>) : x \in IF a.max = 0 THEN {<<"">>, <<"0">>} ELSE {<<ToString(a.max)>>}}
=============================================================================
